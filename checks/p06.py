"""Which points of a simulated history the fitter uses."""

import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import gen, sims
from pbt.core import Sub, close, require
from pbt.lazy import Lazy

top = Lazy("diffmah")
fh = Lazy("diffmah.fitting_helpers.diffmah_fitter_helpers")
dk = Lazy("diffmah.diffmah_kernels")

RULE = (
    "A case is a 30-point simulated history (growth, plateaus, dips, empty early snapshots) with "
    "generated cuts on mass, mass range and time, some of them equal to a snapshot's time. "
    "Others have from 1 to 200 points. Non-trivial: the cuts remove some but not all points, or leave too few to fit."
)


def strat(sim=None):
    return st.fixed_dictionaries(dict(
        sim=sims.history() if sim is None else sim,
        lgm_min=st.one_of(st.none(), gen.uniform(8.0, 13.0), gen.uniform(-2.5, 0.3)),
        dlogm_cut=st.one_of(st.just(2.5), gen.uniform(0.3, 4.0)),
        t_fit_min=st.one_of(st.just(1.0), gen.uniform(0.1, 12.0)),
        at_snapshot=st.one_of(st.none(), st.integers(0, sims.NT - 1)),
        tpeak_fixed=st.one_of(st.none(), gen.uniform(2.0, 18.0)),
        force=st.booleans()))


def setup(case):
    t, mah = sims.build(case["sim"])
    kw = dict(dlogm_cut=case["dlogm_cut"], t_fit_min=case["t_fit_min"])
    if case["at_snapshot"] is not None:
        kw["t_fit_min"] = float(t[case["at_snapshot"] % t.size])
    lm = case["lgm_min"]
    if lm is not None:
        # small values are taken relative to the final mass
        kw["lgm_min"] = lm if lm > 5 else float(np.log10(mah[-1]) + lm)
    if case["tpeak_fixed"] is not None:
        kw["tpeak_fixed"] = case["tpeak_fixed"]
    return t, mah, kw


def check(case, rec):
    t, mah, kw = setup(case)
    lgm_min = kw.get("lgm_min", -np.inf)
    msk, target, amb = sims.select(t, mah, lgm_min, kw["dlogm_cut"], kw["t_fit_min"])
    if amb:
        rec.label("skipped: a point sits on a cut")
        return
    n_growing = int((target < target[-1]).sum()) if target.size else 0
    skip = n_growing < 3
    rec.nontrivial((0 < msk.sum() < msk.size) or skip)
    rec.label("too few points", skip)
    rec.label("mass cut removes points", np.isfinite(lgm_min) and (mah < 10.0**lgm_min).any())
    rec.label("t_fit_min equals a snapshot", case["at_snapshot"] is not None)
    rec.label("ends in a plateau", t.size > 1 and mah[-1] == mah[-2])
    rec.count(msk.size)
    t_in, mah_in = t.copy(), mah.copy()
    u0, data, got_skip = fh.get_loss_data(t_in, mah_in, **kw)
    require(np.array_equal(t_in, t) and np.array_equal(mah_in, mah), "inputs were modified")
    require(bool(got_skip) == skip, "decision to skip the fit is wrong",
            n_growing=n_growing, skip=bool(got_skip))
    require(np.asarray(data.t_target).shape == (int(msk.sum()),),
            "wrong number of points enter the fit", got=np.asarray(data.t_target).size,
            want=int(msk.sum()))
    close(data.t_target, t[msk], "times entering the fit are wrong", rtol=1e-6)
    close(data.log_mah_target, target, "masses entering the fit are wrong", atol=2e-6)
    require((np.diff(np.asarray(data.log_mah_target)) >= 0).all(), "target history decreases")
    if not skip:
        close(data.logt0, np.log10(t[-1]), "z=0 age is not the last snapshot", atol=1e-6)
        want_tp = kw.get("tpeak_fixed", float(sims.t_peak(t, np.where(
            mah <= 10.0**lgm_min, 10.0**lgm_min, mah) if np.isfinite(lgm_min) else mah)))
        u = dk.DiffmahUParams(*[float(x) for x in u0], float(data.u_t_peak))
        p0 = dk.get_bounded_mah_params(u)
        close(p0.t_peak, want_tp, "t_peak used in the fit is wrong", atol=2e-3)
        if mah[-1] > 10.0**lgm_min:
            close(p0.logm0, np.log10(mah[-1]), "initial guess does not start at the final mass",
                  atol=2e-3)
    if skip or case["force"]:
        res = top.diffmah_fitter(t_in, mah_in, force_skip_fit=case["force"], **kw)
        require(bool(res.skip_fit), "fit was not skipped")
        require(not bool(res.fit_terminates) and int(res.code_used) == -1,
                "skipped fit is reported as run", code=int(res.code_used))
        close(np.array([float(x) for x in res.p_best]), np.full(5, -99.0),
              "skipped fit does not return the no-fit values")
        require(res.p_best._fields == tuple(gen.PNAMES), "wrong parameter names")
        close(res.loss_best, -99.0, "skipped fit does not return the no-fit loss")
        close(res.loss_data.log_mah_target, target, "skipped fit lost its target", atol=2e-6)
        require(np.array_equal(t_in, t) and np.array_equal(mah_in, mah), "inputs were modified")


def strat_input():
    return st.fixed_dictionaries(dict(
        sim=sims.history(zeros=False), logshift=gen.uniform(-14.0, 0.0),
        extra=st.integers(1, 5)))


def check_input(case, rec):
    """Suspicious inputs are reported: mismatched shapes raise, log masses warn."""
    t, mah = sims.build(case["sim"])
    try:
        top.diffmah_fitter(t[: -case["extra"]], mah, force_skip_fit=True)
    except (AssertionError, ValueError):
        pass
    else:
        require(False, "mismatched shapes are accepted")
    m = mah * 10.0 ** case["logshift"]
    for x, should in ((m, m.max() < 1e4), (np.log10(mah), True)):
        if abs(np.log10(x.max()) - 4) < 1e-6:
            continue
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            top.diffmah_fitter(t, x, force_skip_fit=True)
        hit = any("small" in str(i.message) for i in w)
        require(hit == should, "warning about suspiciously small masses is wrong",
                max_mass=float(x.max()), warned=hit)
    rec.nontrivial(m.max() < 1e4)
    rec.label("masses below 1e4", m.max() < 1e4)


def strat_lengths():
    return strat(sims.any_length([1, 2, 3, 4, 5, 6, 8, 12, 60, 128, 200]))


SUBS = [
    Sub("selection", strat, check, quick=3000, thorough=60000, shards=2),
    Sub("lengths", strat_lengths, check, quick=800, thorough=20000),
    Sub("bad_input", strat_input, check_input, quick=300, thorough=3000),
]
