"""Halo histories follow the published model at every time."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Sub, all_finite, close, require
from pbt.lazy import Lazy, x64

dk = Lazy("diffmah.diffmah_kernels")
top = Lazy("diffmah")

RULE = (
    "A case is 12 halos (all five parameters over their whole documented ranges), 20 times "
    "between 10 Myr and 25 Gyr plus each halo's own t_peak, and a z=0 age of 5-20 Gyr. "
    "Non-trivial: some halo peaks inside the tabulated times, so both the growing and the "
    "frozen branch are compared. A second set of cases has from 1 to 1500 halos and 1 to 513 times."
)

NH, NT = 12, 20


def strat():
    halos = gen.vec(
        gen.halo(logm0=(0.5, 16.9), logtc=(-0.99, 0.99), early=(0.12, 9.9),
                 late=(0.11, 4.9), t_peak=(0.06, 19.9)), NH)
    return st.fixed_dictionaries(
        dict(halos=halos, t=gen.times(NT, 0.01, 25.0), t0=gen.uniform(5.0, 20.0),
             shift=gen.uniform(-3.0, 3.0), invert=st.sampled_from([False, False, True])))


def params(halos):
    return top.DiffmahParams(*[ref.column(halos, k) for k in gen.PNAMES])


def tol():
    # float32: the error of index*(logt-logt0) and of the sum
    return dict(rtol=1e-11, atol=1e-11) if x64() else dict(rtol=4e-6, atol=6e-5)


def check_model(case, rec):
    t0 = case["t0"]
    lgt0 = np.log10(t0)
    halos = [gen.inverted(h) if case["invert"] and i % 2 else h for i, h in enumerate(case["halos"])]
    tarr = np.array(case["t"])
    p = params(halos)
    want = ref.log_mah(ref.stack(halos), tarr[None, :], lgt0)
    tp = ref.column(halos, "t_peak")
    inside = (tp > tarr[1]) & (tp < tarr[-2])
    rec.nontrivial(inside.any())
    rec.label("halos peaking inside the table", n=int(inside.sum()))
    rec.count(want.size)
    # float32 rounding of t or t_peak may flip the branch: the two agree there
    got = np.asarray(top.mah_halopop(p, tarr, lgt0)[1])
    require(got.shape == (NH, NT), "population history has the wrong shape", shape=got.shape)
    close(got, want, "population history differs from the model", **tol())
    i = case_index(case)
    one = np.asarray(top.mah_singlehalo(top.DiffmahParams(*[x[i] for x in p]), tarr, lgt0)[1])
    close(one, want[i], "single-halo history differs from the model", **tol())
    # at a time per halo
    tobs = tarr[np.arange(NH) % NT]
    at = np.asarray(top.logmh_at_t_obs(p, tobs, lgt0))
    close(at, want[np.arange(NH), np.arange(NH) % NT],
          "mass at a single time differs from the model", **tol())
    # exactly at t_peak and long after it
    at = np.asarray(top.logmh_at_t_obs(p, tp, lgt0))
    close(at, ref.log_mah_free(*[ref.column(halos, k) for k in gen.PNAMES[:4]], tp, lgt0),
          "mass at t_peak differs from the model", **tol())
    close(np.asarray(top.logmh_at_t_obs(p, 2 * tp + 1, lgt0)), at,
          "mass is not frozen after t_peak", **tol())


def case_index(case):
    return int(case["t0"] * 1e3) % NH


def check_invariants(case, rec):
    t0 = case["t0"]
    lgt0 = np.log10(t0)
    halos = case["halos"]
    p = params(halos)
    tarr = np.array(case["t"])
    tarr = np.sort(np.append(tarr, t0))
    tarr = tarr[tarr <= t0 * (1 + 1e-9)]
    # keep one compiled shape: pad in front by repeating early times
    pad = NT + 1 - tarr.size
    tarr = np.concatenate([tarr[0] * np.linspace(0.5, 0.9, pad) if pad else [], tarr])
    tol_ = tol()
    lg = np.asarray(top.mah_halopop(p, tarr, lgt0)[1])
    all_finite(lg, "history is not finite")
    tp = ref.column(halos, "t_peak")
    rec.nontrivial(((tp > t0) & True).any() and (tp < t0).any())
    rec.label("halos still growing at z=0", n=int((tp > t0).sum()))
    rec.count(lg.size)
    # monotone up to z=0
    d = np.diff(lg, axis=1)
    require((d >= -tol_["atol"] - tol_["rtol"] * np.abs(lg[:, 1:])).all(),
            "halo mass decreases with time", worst=d.min())
    # anchored at z=0, when the halo is still growing
    grow = tp > t0 * (1 + 1e-6)
    at0 = np.asarray(top.logmh_at_t_obs(p, np.full(NH, t0), lgt0))
    close(at0[grow], ref.column(halos, "logm0")[grow],
          "history does not pass through logm0 at z=0", **tol_)
    # frozen: same value at every time after t_peak
    late = tarr[None, :] > tp[:, None] * (1 + 1e-6)
    for i in range(NH):
        if late[i].sum() > 1:
            v = lg[i][late[i]]
            close(v, np.full_like(v, v[-1]), "mass changes after t_peak", **tol_)
    # changing the normalization moves the whole history rigidly
    q = p._replace(logm0=p.logm0 + case["shift"])
    lg2 = np.asarray(top.mah_halopop(q, tarr, lgt0)[1])
    close(lg2, lg + case["shift"], "history does not scale with logm0",
          rtol=tol_["rtol"], atol=2 * tol_["atol"])


def strat_sizes():
    return st.fixed_dictionaries(dict(
        size=gen.size(), t0=gen.uniform(5.0, 20.0), t=gen.times(6, 0.01, 25.0),
        halos=gen.vec(gen.halo(logm0=(0.5, 16.9), logtc=(-0.99, 0.99), early=(0.12, 9.9),
                               late=(0.11, 4.9), t_peak=(0.06, 19.9)), 6)))


def check_sizes(case, rec):
    """Any number of halos and times, from a single one of each."""
    nh, nt = gen.SIZES[case["size"]]
    rec.label(f"{nh} halos at {nt} times")
    halos = gen.stretch(case["halos"], nh)
    tarr = np.array(gen.stretch_times(case["t"], nt))
    lgt0 = np.log10(case["t0"])
    p = params(halos)
    want = ref.log_mah(ref.stack(halos), tarr[None, :], lgt0)
    tp = ref.column(halos, "t_peak")
    rec.nontrivial((tp[:, None] > tarr).any() and (tp[:, None] < tarr).any())
    rec.count(want.size)
    got = np.asarray(top.mah_halopop(p, tarr, lgt0)[1])
    require(got.shape == (nh, nt), "population history has the wrong shape", shape=got.shape)
    close(got, want, "population history differs from the model", **tol())
    i = case_index(case) % nh
    one = np.asarray(top.mah_singlehalo(top.DiffmahParams(*[x[i] for x in p]), tarr, lgt0)[1])
    require(one.shape == (nt,), "single-halo history has the wrong shape", shape=one.shape)
    close(one, want[i], "single-halo history differs from the model", **tol())
    j = np.arange(nh) % nt
    at = np.asarray(top.logmh_at_t_obs(p, tarr[j], lgt0))
    require(at.shape == (nh,), "masses at single times have the wrong shape", shape=at.shape)
    close(at, want[np.arange(nh), j], "mass at a single time differs from the model", **tol())
    if nh == 1:  # arrays with one halo against many times
        at = np.asarray(top.logmh_at_t_obs(top.DiffmahParams(*[x[0] for x in p]), tarr, lgt0))
        close(at, want[0], "masses of one halo at many times differ from the model", **tol())


SUBS = [
    Sub("model_x64", strat, check_model, quick=1000, thorough=20000, x64=True),
    Sub("model_f32", strat, check_model, quick=800, thorough=8000),
    Sub("invariants", strat, check_invariants, quick=800, thorough=8000),
    Sub("invariants_x64", strat, check_invariants, quick=600, thorough=8000, x64=True),
    Sub("sizes_x64", strat_sizes, check_sizes, quick=180, thorough=4000, x64=True,
        cover=gen.cover_sizes()),
    Sub("sizes_f32", strat_sizes, check_sizes, quick=180, thorough=4000, cover=gen.cover_sizes()),
]
