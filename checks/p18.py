"""Random draws are reproducible, halo-wise and mutually independent."""

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from pbt import gen, popmodel, popref, pops
from pbt.core import Sub, require
from pbt.lazy import Lazy

RULE = (
    "A case is a complete set of model parameters, a halo mass and observation time shared by 3000 halos, "
    "two random keys, one generator for centrals or satellites. The standardized scatter of both types, t_peak and the type "
    "are recovered from the generated halos; every pair must be uncorrelated (|rank correlation| below 6.5 standard "
    "errors), no draw may repeat (the stand-alone generators of t_peak likewise), and draws from different keys must be uncorrelated. Non-trivial: every case."
)
ASSUMPTIONS = ["a correct generator exceeds 6.5 standard errors with probability below 1e-10 per pair"]

N = 3000
LIMIT = 6.5 / np.sqrt(N)
GRID = [(11.3, 3.0), (12.0, 13.5), (12.7, 7.0), (13.6, 10.0), (14.5, 13.5), (11.8, 1.5)]


def strat(sat):
    return lambda: st.fixed_dictionaries(dict(
        params=st.fixed_dictionaries(dict(
            seed=gen.seed(), spread=st.sampled_from([0.0, 0.5, 1.0]), edge=st.just(0.0),
            scatter=st.just("moderate"))),
        key=gen.seed(), key2=gen.seed(), where=st.integers(0, len(GRID) - 1), sat=st.just(sat),
        supplied=st.booleans()))


def residuals(q, kind, p, lgm, t_obs, sat):
    """standardized scatter of the four parameters"""
    pm = popref.pmap(p)
    d = popref.as_dict(q)
    mean = popref.to_u(popref.mean_params(pm, kind, sat, lgm, t_obs, d["t_peak"]))
    u = popref.to_u(d)
    L = np.linalg.cholesky(popref.cov(pm, np.ravel(lgm)[0]))
    return np.linalg.solve(L, (u - mean).T)


def ranks(x):
    r = stats.rankdata(x)
    s = r.std()
    return (r - r.mean()) / s if s > 0 else np.zeros_like(r)


def uncorrelated(series, what):
    names = list(series)
    R = np.array([ranks(series[n]) for n in names])
    C = R @ R.T / R.shape[1]
    lim = 6.5 / np.sqrt(R.shape[1])
    for i in range(len(names)):
        for j in range(i):
            require(abs(C[i, j]) < lim, f"{what}: draws are correlated",
                    pair=f"{names[j]} / {names[i]}", r=float(C[i, j]), limit=lim)
    # neighbours and trends along the population
    idx = ranks(np.arange(R.shape[1]))
    for i, n in enumerate(names):
        require(abs(np.mean(R[i, 1:] * R[i, :-1])) < lim,
                f"{what}: neighbouring halos are correlated", name=n)
        require(abs(np.mean(R[i] * idx)) < lim, f"{what}: draws drift along the population",
                name=n)
    return R


def distinct(x, what, name):
    require(np.unique(x).size == x.size, f"{what}: halos share a draw", name=name,
            distinct=int(np.unique(x).size))


def population(p, lgm, t_obs, key, tp, sat, what):
    one = np.ones(N)
    h = pops.params_pop(sat)(p, lgm * one, t_obs * one, pops.key(key), pops.LGT0, tp)
    s = dict(type=np.asarray(h.mc_early, "f8"), t_peak=np.asarray(h.mah_params.t_peak))
    for kind in ("early", "late"):
        z = residuals(getattr(h, "mah_params_" + kind), kind, p, lgm * one, t_obs * one, sat)
        for k, x in zip(popref.FOUR, z):
            s[f"{kind}-type {k}"] = x
    return h, s


def check(case, rec):
    p = pops.make_params(case["params"])
    lgm, t_obs = GRID[case["where"]]
    sat = case["sat"]
    what = "satellites" if sat else "centrals"
    rec.nontrivial()
    tp = None
    if case["supplied"]:
        tp = np.random.default_rng(case["key"]).uniform(0.3, 1.0, N) * t_obs
        what += "/t_peak given"
    h, s = population(p, lgm, t_obs, case["key"], tp, sat, what)
    rec.count(N)
    R = uncorrelated(s, what)
    for n in s:
        if n == "t_peak":
            x = s[n][(s[n] < 0.999 * s[n].max()) & (s[n] > 1.001 * s[n].min())]
            distinct(x, what, n)
        elif n != "type":
            distinct(s[n], what, n)
    # another key: nothing in common, also not shifted by a few halos
    other = case["key2"] if case["key2"] != case["key"] else case["key"] + 1
    h2, s2 = population(p, lgm, t_obs, other, tp, sat, what)
    for n, r in zip(s, R):
        if n == "t_peak" and tp is not None:
            continue
        r2 = ranks(s2[n])
        for shift in (0, 1, -1):
            require(abs(np.mean(r * np.roll(r2, shift))) < LIMIT,
                    f"{what}: two keys give related draws", name=n)
        if n not in ("type", "t_peak"):
            require(not np.intersect1d(s[n], s2[n]).size, f"{what}: two keys share draws", name=n)
    # the same key again, after other calls
    h3, s3 = population(p, lgm, t_obs, case["key"], tp, sat, what)
    for a, b in zip(h.mah_params, h3.mah_params):
        require(np.array_equal(a, b), f"{what}: same key gives another population")
    require(np.array_equal(h.mc_early, h3.mc_early), f"{what}: same key gives other types")


NH = 2000


def strat_history(sat):
    return lambda: st.fixed_dictionaries(dict(
        params=st.fixed_dictionaries(dict(
            seed=gen.seed(), spread=st.sampled_from([0.0, 0.5, 1.0]), edge=st.just(0.0),
            scatter=st.just("tiny"))),
        key=gen.seed(), where=st.integers(0, len(GRID) - 1), sat=st.just(sat)))


def check_history(case, rec):
    """the generators of histories: type recovered from the mean relation a halo sits on"""
    p = pops.make_params(case["params"])
    lgm, t_obs = GRID[case["where"]]
    sat = case["sat"]
    what = ("satellites" if sat else "centrals") + "/histories"
    one = np.ones(NH)
    tarr = np.linspace(1.0, 13.8, 4)
    h = pops.history_pop(sat)(p, tarr, lgm * one, t_obs * one, pops.key(case["key"]), pops.LGT0)
    again = pops.history_pop(sat)(p, tarr, lgm * one, t_obs * one, pops.key(case["key"]),
                                  pops.LGT0)
    require(np.array_equal(h.log_mah, again.log_mah), f"{what}: same key gives another population")
    rec.count(NH)
    z = {k: residuals(h.mah_params, k, p, lgm * one, t_obs * one, sat)
         for k in ("early", "late")}
    size = {k: np.abs(z[k]).max(axis=0) for k in z}
    is_early = size["early"] < size["late"]
    t_peak = np.asarray(h.mah_params.t_peak)
    if np.minimum(size["early"], size["late"]).max() > 8 or \
            np.maximum(size["early"], size["late"]).min() < 12:
        rec.label("types overlap")  # cannot tell the types apart here
        return
    rec.nontrivial()
    uncorrelated(dict(type=is_early, t_peak=t_peak), what)
    for kind, m in (("early", is_early), ("late", ~is_early)):
        if m.sum() < 300:
            continue
        s = {k: x[m] for k, x in zip(popref.FOUR, z[kind])}
        s["t_peak"] = t_peak[m]
        uncorrelated(s, f"{what}/{kind}")
        for k in popref.FOUR:
            distinct(s[k], what, k)
            require(abs(s[k].mean()) < 6.5 / np.sqrt(m.sum()) + 1e-3,
                    f"{what}: scatter depends on the type that is selected", name=k,
                    mean=s[k].mean())
    r = pops.sample(sat)(p, tarr, lgm, t_obs, pops.key(case["key"]), pops.LGT0, n_mc=NH)
    s = dict(t_peak=np.asarray(r[0].t_peak))
    for kind, q in (("early", r[0]), ("late", r[3])):
        for k, x in zip(popref.FOUR, residuals(q, kind, p, lgm * one, t_obs * one, sat)):
            s[f"{kind}-type {k}"] = x
            distinct(x, what + "/sample", k)
    uncorrelated(s, what + "/sample")


flex = Lazy("diffmah.diffmahpop_kernels.t_peak_kernels.tp_pdf_cens_flex")
old = Lazy("diffmah.diffmahpop_kernels.t_peak_kernels.tp_pdf_cens")
satp = Lazy("diffmah.diffmahpop_kernels.t_peak_kernels.tp_pdf_sats")
tpk = Lazy("diffmah.diffmahpop_kernels.t_peak_kernels.utp_pdf_kernels")
PATHS = dict(flex="t_peak_kernels.tp_pdf_cens_flex", old="t_peak_kernels.tp_pdf_cens",
             sat="t_peak_kernels.tp_pdf_sats")


WHICH = ["flex", "old", "sat", "kern"]


def strat_tpeak():
    return st.fixed_dictionaries(dict(
        which=st.sampled_from(WHICH), seed=gen.seed(), key=gen.seed(),
        key2=gen.seed(), where=st.integers(0, len(GRID) - 1), n=st.sampled_from([N, N - 1])))


def check_tpeak(case, rec):
    """the generators of t_peak on their own, halos that differ in nothing but the draw"""
    rng = np.random.default_rng(case["seed"])
    lgm, t_obs = GRID[case["where"]]
    which, n = case["which"], case["n"]
    one = np.ones(n)
    t0 = 13.8
    if which == "kern":
        q = tpk.UTP_Params(rng.uniform(0.2, 0.9) * one, rng.uniform(0.05, 0.8) * one)

        def draw(key):
            return tpk.mc_tp_pdf_satpop(pops.key(key), q)
    else:
        c = popmodel.component(PATHS[which])
        p = c.P(**popmodel.random_values({k: c.bound(k) for k in c.P._fields}, rng, edge=0.0))

        def draw(key):
            if which == "flex":
                return flex.mc_t_peak_cenpop(p, lgm * one, t_obs * one, pops.key(key), t0)
            if which == "sat":
                return satp.mc_tpeak_sats(p, pops.key(key), lgm * one, t_obs * one)
            return old.mc_tpeak_cens(p, pops.key(key), lgm * one, t_obs * one, t0)

    x = np.asarray(draw(case["key"]), "f8")
    rec.label(which)
    rec.count(n)
    require(x.shape == (n,), "wrong number of halos")
    inside = (x < x.max()) & (x > x.min())  # more than one halo may sit at an end of the range
    rec.nontrivial(inside.sum() > n // 2)
    distinct(x[inside], "t_peak of " + which, "t_peak")
    R = uncorrelated(dict(t_peak=x), "t_peak of " + which)
    other = case["key2"] if case["key2"] != case["key"] else case["key"] + 1
    y = np.asarray(draw(other), "f8")
    for shift in (0, 1, -1):
        require(abs(np.mean(R[0] * np.roll(ranks(y), shift))) < 6.5 / np.sqrt(n),
                f"t_peak of {which}: two keys give related draws")
    require(np.array_equal(draw(case["key"]), x), f"t_peak of {which}: same key, other draws")


SUBS = [Sub("t_peak", strat_tpeak, check_tpeak, quick=80, thorough=4000, x64=True,
            cover=[{"which": w} for w in WHICH])]
for _sat, _n in ((False, "centrals"), (True, "satellites")):
    SUBS += [
        Sub(_n, strat(_sat), check, quick=60, thorough=2400, shards=2, x64=True),
        Sub(_n + "_histories", strat_history(_sat), check_history, quick=60, thorough=2400,
            shards=2, x64=True),
    ]
