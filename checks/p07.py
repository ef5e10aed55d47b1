"""A fit reports its own loss, respects the model's limits and never gets worse than its start."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sims
from pbt.core import Sub, all_finite, close, require
from pbt.lazy import Lazy

top = Lazy("diffmah")
fh = Lazy("diffmah.fitting_helpers.diffmah_fitter_helpers")
dk = Lazy("diffmah.diffmah_kernels")

RULE = (
    "A case is a 30-point simulated history (noisy growth, plateaus, dips, empty snapshots) fitted "
    "with generated cuts and optionally a supplied t_peak; others have from 4 to 300 points. Non-trivial: the fit is actually run."
)


def strat(sim=None):
    return st.fixed_dictionaries(dict(
        sim=sims.history() if sim is None else sim,
        lgm_min=st.one_of(st.none(), gen.uniform(8.0, 11.0)),
        dlogm_cut=st.one_of(st.just(2.5), gen.uniform(1.0, 4.0)),
        # few distinct target sizes: every size is compiled once
        n_keep=st.sampled_from([30, 24, 18, 12]),
        tpeak_fixed=st.one_of(st.none(), gen.uniform(2.0, 18.0))))


def check(case, rec):
    t, mah = sims.build(case["sim"])
    kw = dict(dlogm_cut=case["dlogm_cut"], t_fit_min=float(t[max(t.size - case["n_keep"], 0)]) - 1e-9)
    if case["lgm_min"] is not None:
        kw["lgm_min"] = case["lgm_min"]
    if case["tpeak_fixed"] is not None:
        kw["tpeak_fixed"] = case["tpeak_fixed"]
    lgm_min = kw.get("lgm_min", -np.inf)
    msk, target, amb = sims.select(t, mah, lgm_min, kw["dlogm_cut"], kw["t_fit_min"])
    t_in, mah_in = t.copy(), mah.copy()
    res = top.diffmah_fitter(t_in, mah_in, **kw)
    require(np.array_equal(t_in, t) and np.array_equal(mah_in, mah), "inputs were modified")
    if bool(res.skip_fit):
        require(int(res.code_used) == -1, "skipped fit reports an optimizer")
        return
    rec.nontrivial()
    rec.count(len(res.loss_data.t_target))
    code = int(res.code_used)
    require(code in (0, 1), "unknown optimizer code", code=code)
    rec.label("fallback optimizer used", code == 1)
    rec.label("supplied t_peak", case["tpeak_fixed"] is not None)
    require(bool(res.fit_terminates) in (True, False), "no termination flag")
    p = res.p_best
    require(p._fields == tuple(gen.PNAMES), "wrong parameter names", got=p._fields)
    v = np.array([float(x) for x in p])
    all_finite(v, "fitted parameters are not finite")
    all_finite(float(res.loss_best), "loss is not finite")
    require(bool(res.fit_terminates), "a finite fit is reported as not terminated")
    for name, x in zip(gen.PNAMES, v):
        lo, hi = gen.BOUNDS[name]
        eps = 2e-6 * (hi - lo)
        require(lo - eps <= x <= hi + eps, "fitted parameter out of bounds", name=name, value=x)
    require(v[3] <= v[2] + 1e-5, "late index above early index", early=v[2], late=v[3])
    want_tp = kw.get("tpeak_fixed")
    if want_tp is None:
        clipped = np.where(mah <= 10.0**lgm_min, 10.0**lgm_min, mah) if np.isfinite(lgm_min) else mah
        want_tp = float(sims.t_peak(t, clipped))
    close(v[4], want_tp, "fit does not carry the t_peak of the history", atol=2e-3)
    if not amb:
        require(len(res.loss_data.t_target) == msk.sum(), "wrong number of points fitted")
    # the reported loss is the loss of the returned parameters
    t_used = np.asarray(res.loss_data.t_target, dtype="f8")
    y_used = np.asarray(res.loss_data.log_mah_target, dtype="f8")
    lgt0 = np.log10(t[-1])
    loss = sims.model_loss(p, t_used, y_used, lgt0)
    close(np.sqrt(float(res.loss_best)), np.sqrt(loss),
          "reported loss is not the loss of the returned parameters", rtol=2e-3, atol=2e-4)
    # never worse than the initial guess
    u0, data, _ = fh.get_loss_data(t, mah, **kw)
    u = dk.DiffmahUParams(*[float(x) for x in u0], float(data.u_t_peak))
    loss0 = sims.model_loss(dk.get_bounded_mah_params(u), t_used, y_used, lgt0)
    require(np.sqrt(loss) <= np.sqrt(loss0) * (1 + 2e-3) + 2e-4,
            "fit is worse than its initial guess", loss=loss, initial=loss0)
    rec.label("fit improves on the guess tenfold", loss < 0.1 * loss0)
    # Nor is a cheaper fit left on the table: rigid shift of the history
    teff = np.array([float(x) for x in p])
    pred = ref.log_mah({k: teff[i] for i, k in enumerate(gen.PNAMES)}, t_used, lgt0)
    shift = float(np.mean(y_used - pred))
    rec.label("residual offset > 0.01 dex", abs(shift) > 0.01)
    if code == 0 and 0.1 < v[0] < 16.9:
        require(abs(shift) < 0.03, "shifting the whole fitted history would fit better",
                shift=shift)


def strat_lengths():
    return st.fixed_dictionaries(dict(
        sim=sims.any_length([4, 5, 8, 100, 300], zeros=False), lgm_min=st.none(),
        dlogm_cut=st.just(30.0), n_keep=st.just(1000),
        tpeak_fixed=st.one_of(st.none(), gen.uniform(2.0, 18.0))))


SUBS = [
    Sub("fits", strat, check, quick=900, thorough=8000, shards=4, thorough_shards=8),
    Sub("lengths", strat_lengths, check, quick=200, thorough=2000, shards=2),
]
