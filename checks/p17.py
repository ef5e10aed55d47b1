"""Every generated halo is one coherent draw of the early or the late type."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, popref, pops, ref
from pbt.core import Sub, close, require
from pbt.lazy import Lazy, x64
from pbt.ref import PNAMES

RULE = (
    "A case is a complete set of model parameters, 24 halos (1 to 300 in some cases) with their own masses and observation times, "
    "a random key, a z=0 age and a time table, for centrals or satellites. In part of the cases the scatter is "
    "next to zero, so that each halo must sit on the mean relation of its own type. "
    "Non-trivial: both types occur in the population."
)
ASSUMPTIONS = ["the mean relations are the float64 reference of pbt/popref.py"]

N, NT = 24, 15
put = Lazy("diffmah.diffmahpop_kernels.param_utils")


SIZES = [(1, 1), (2, 40), (300, 5)]


def strat(sat, sizes=((N, NT),)):
    return lambda: st.fixed_dictionaries(dict(
        params=pops.params_case(), key=gen.seed(), seed=gen.seed(), t0=gen.uniform(12.5, 14.5),
        sat=st.just(sat) if sat is not None else st.booleans(),
        size=st.sampled_from(list(sizes))))


def setup(case):
    p = pops.make_params(case["params"])
    rng = np.random.default_rng(case["seed"])
    N = case["size"][0]
    lgm = rng.uniform(10.5, 15.5, N)
    t_obs = rng.uniform(1.0, case["t0"], N)
    return p, rng, lgm, t_obs, np.log10(case["t0"]), pops.key(case["key"])


def tol():
    """(log mass, relative rate) comparison of histories"""
    return (1e-9, 1e-7) if x64() else (6e-5, 2e-3)


def same_history(q, dmhdt, log_mah, tarr, lgt0, what):
    h = {k: v.reshape(-1, 1) for k, v in popref.as_dict(q).items()}
    t = tarr.reshape(1, -1)
    am, rr = tol()
    close(log_mah, ref.log_mah(h, t, lgt0), f"{what}: mass history is not that of the halo",
          atol=am)
    # next to t_peak the two sides differ by rounding of the time
    near = np.abs(t - h["t_peak"]) < 1e-5 * t
    want = ref.dmhdt(h, t, lgt0)
    got = np.where(near, want, np.asarray(dmhdt, "f8"))
    close(got, want, f"{what}: accretion history is not that of the halo", rtol=rr,
          atol=1e-30)


def of_type(q, kind, p, lgm, t_obs, sat, what):
    """With the scatter next to zero each halo sits on the mean relation of its own type."""
    pm = popref.pmap(p)
    d = popref.as_dict(q)
    mean = popref.to_u(popref.mean_params(pm, kind, sat, lgm, t_obs, d["t_peak"]))
    # 7 sigma of the scatter, pushed through the (linearized) bounding transform, plus
    # rounding of the single-precision transform of the largest unbounded values
    got = popref.from_u(mean)
    rounding = 1e-9 if x64() else 1e-5
    for i, k in enumerate(PNAMES[:4]):
        up, dn = mean.copy(), mean.copy()
        for j in range(4):
            if j == i or (k == "early_index" and j == 3):
                up[..., j] += 0.12
                dn[..., j] -= 0.12
        a, b = popref.from_u(up)[k], popref.from_u(dn)[k]
        scale = np.abs(a - b) + rounding * (17 if k == "logm0" else 10)
        require((np.abs(d[k] - got[k]) <= scale).all(),
                f"{what}: halo is not on the mean relation of its type", name=k,
                got=d[k], want=got[k])


def check_params(case, rec):
    p, rng, lgm, t_obs, lgt0, key = setup(case)
    sat, N = case["sat"], case["size"][0]
    tp = rng.uniform(0.2, 1.0, N) * t_obs
    if not sat and rng.integers(2):
        # a central may peak after the time it is observed at
        tp = np.where(rng.random(N) < 0.5, tp, rng.uniform(t_obs, case["t0"]))
    tiny = case["params"]["scatter"] == "tiny"
    for supplied in (None, tp):
        what = ("satellites" if sat else "centrals") + ("" if supplied is None else "/t_peak given")
        h = pops.params_pop(sat)(p, lgm, t_obs, key, lgt0, supplied)
        early = np.asarray(h.mc_early).astype(bool)
        rec.count(N)
        rec.nontrivial((early.any() and not early.all()) or N == 1)
        for k in PNAMES:
            a, b, c = [np.asarray(getattr(q, k)) for q in
                       (h.mah_params, h.mah_params_early, h.mah_params_late)]
            require(np.array_equal(a, np.where(early, b, c)),
                    f"{what}: halo mixes the two types", name=k)
        a, b = np.asarray(h.mah_params_early.t_peak), np.asarray(h.mah_params_late.t_peak)
        close(a, b, f"{what}: the two types of one halo have different t_peak", rtol=1e-6)
        if supplied is not None:
            close(a, tp, f"{what}: t_peak is not the one given", rtol=1e-9 if x64() else 1e-4)
        if tiny:
            rec.label("next to no scatter")
            of_type(h.mah_params_early, "early", p, lgm, t_obs, sat, what + "/early")
            of_type(h.mah_params_late, "late", p, lgm, t_obs, sat, what + "/late")
    sel = put.mc_select_diffmah_params(h.mah_params_early, h.mah_params_late, h.mc_early)
    for k in PNAMES:
        require(np.array_equal(getattr(sel, k), getattr(h.mah_params, k)),
                "selection by type differs from the population", name=k)


def check_history(case, rec):
    p, rng, lgm, t_obs, lgt0, key = setup(case)
    sat = case["sat"]
    N, NT = case["size"]
    # tables that stop before, at or after z=0, in any order
    tarr = np.geomspace(0.3, case["t0"] * rng.choice([1.0, rng.uniform(0.1, 1.3)]), NT)
    if rng.integers(3) == 0:
        tarr = rng.permutation(tarr)
    what = "satellites" if sat else "centrals"
    h = pops.history_pop(sat)(p, tarr, lgm, t_obs, key, lgt0)
    same_history(h.mah_params, h.dmhdt, h.log_mah, tarr, lgt0, what)
    r = pops.sample(sat)(p, tarr, lgm[0], t_obs[0], key, lgt0, n_mc=N)
    same_history(r[0], r[1], r[2], tarr, lgt0, what + "/sample of early type")
    same_history(r[3], r[4], r[5], tarr, lgt0, what + "/sample of late type")
    close(r[0].t_peak, r[3].t_peak, "the two types of one halo have different t_peak", rtol=1e-6)
    rec.count(3 * N)
    if case["params"]["scatter"] == "tiny":
        rec.label("next to no scatter")
        one = np.ones(N)
        of_type(r[0], "early", p, lgm[0] * one, t_obs[0] * one, sat, what + "/sample early")
        of_type(r[3], "late", p, lgm[0] * one, t_obs[0] * one, sat, what + "/sample late")
        # each halo of the mixed population is on one of the two relations
        pm = popref.pmap(p)
        d = popref.as_dict(h.mah_params)
        u = popref.to_u({k: d[k] for k in PNAMES})
        dist = []
        for kind in ("early", "late"):
            mean = popref.to_u(popref.mean_params(pm, kind, sat, lgm, t_obs, d["t_peak"]))
            dist.append(np.abs(u - mean)[:, :3].max(axis=1))
        best = np.minimum(*dist)
        lim = 0.2 if x64() else 0.2 + 1e-2
        require((best < lim).all(), f"{what}: halo is neither early nor late type",
                worst=best.max())
        kinds = np.argmin(dist, axis=0)
        rec.nontrivial(kinds.min() < kinds.max())
    else:
        e = np.asarray(r[6])
        rec.nontrivial(((e > 0.1) & (e < 0.9)).all())


SUBS = []
for _sat, _n in ((False, "centrals"), (True, "satellites")):
    SUBS += [
        Sub(_n + "_params", strat(_sat), check_params, quick=250, thorough=8000),
        Sub(_n + "_params_x64", strat(_sat), check_params, quick=250, thorough=8000, x64=True),
        Sub(_n + "_histories", strat(_sat), check_history, quick=200, thorough=6000),
        Sub(_n + "_histories_x64", strat(_sat), check_history, quick=200, thorough=6000, x64=True),
    ]
SUBS += [
    Sub(_n, strat(None, SIZES), _f, quick=60, thorough=2000, x64=True,
        cover=[{"size": list(s), "sat": t} for s in SIZES for t in (False, True)])
    for _n, _f in (("sizes_params", check_params), ("sizes_histories", check_history))
]
