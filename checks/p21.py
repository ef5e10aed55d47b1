"""t_peak draws follow the t_peak distribution of the model."""

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from pbt import gen, popmodel, popref, pops
from pbt.core import Sub, all_finite, close, require
from pbt.lazy import Lazy, x64

RULE = (
    "A case is a set of parameters of a t_peak model (centrals, older central model, satellites) or the complete "
    "population model, 12000 halos with individual masses and times, a key and a z=0 age. The probability integral transform of the draws "
    "by the float64 reference must be uniform (Kolmogorov-Smirnov distance with false-alarm probability 1e-10, share below "
    "nine quantiles from 1% to 99% within 6.5 standard errors, both plus the interpolation error of the tables), the share of halos at the ends of the range binomial. Densities and distribution functions are compared with scipy "
    "on grids including the ends. Non-trivial: every case."
)
ASSUMPTIONS = ["a correct generator exceeds the Kolmogorov-Smirnov limit with probability below 1e-10"]

N = 12000
flex = Lazy("diffmah.diffmahpop_kernels.t_peak_kernels.tp_pdf_cens_flex")
old = Lazy("diffmah.diffmahpop_kernels.t_peak_kernels.tp_pdf_cens")
sat = Lazy("diffmah.diffmahpop_kernels.t_peak_kernels.tp_pdf_sats")
tpk = Lazy("diffmah.diffmahpop_kernels.t_peak_kernels.utp_pdf_kernels")

QUANTILES = (0.01, 0.03, 0.1, 0.25, 0.5, 0.75, 0.9, 0.97, 0.99)


def uniform(v, what, extra):
    """Kolmogorov-Smirnov distance of v from a uniform distribution on [0, 1]"""
    n = v.size
    if n < 50:
        return
    d = stats.kstest(v, "uniform").statistic
    lim = np.sqrt(np.log(2e10) / (2 * n)) + extra
    require(d < lim, f"{what}: draws do not follow the distribution", distance=float(d),
            limit=float(lim), mean=float(v.mean()))
    for q in QUANTILES:  # the tails carry little weight in the distance
        hit = float((v < q).sum())
        lim = 6.5 * np.sqrt(n * q * (1 - q) + 1) + extra * n
        require(abs(hit - n * q) < lim, f"{what}: wrong share of draws in the tail",
                quantile=q, got=hit / n)


def binomial(hit, prob, what):
    z = (hit.sum() - prob.sum()) / np.sqrt((prob * (1 - prob)).sum() + 1)
    require(abs(z) < 6.5, f"{what}: wrong share of halos", got=hit.mean(), want=prob.mean())


def halos(case, t0):
    rng = np.random.default_rng(case["seed"])
    if case["same"]:
        return np.full(N, rng.uniform(10, 16)), np.full(N, rng.uniform(0.5, t0))
    return rng.uniform(10, 16, N), rng.uniform(0.5, t0, N)


def check_cens(utp, pm, lgm, t_obs, what):
    """fraction that peaks later than z=0 is assigned t_peak at z=0"""
    top = utp > 1 - 2e-6
    lo = utp < 0.05 * (1 + 1e-5)
    require((utp <= 1 + 1e-5).all() and (utp >= 0.05 * (1 - 1e-5)).all(),
            f"{what}: t_peak outside its range")
    f1 = popref.cen_frac_peaked(pm, 1.0, lgm, t_obs)
    f0 = popref.cen_frac_peaked(pm, 0.05, lgm, t_obs)
    binomial(top, 1 - f1, what + "/not peaked by z=0")
    binomial(lo, f0, what + "/earliest")
    body = ~top & ~lo
    v = (popref.cen_frac_peaked(pm, utp, lgm, t_obs) - f0) / (f1 - f0)
    uniform(np.clip(v[body], 0, 1), what, 1e-3)


def check_trunc(utp, loc, scale, what):
    require((utp <= 1 + 1e-6).all() and (utp >= 0.1 - 1e-6).all(),
            f"{what}: t_peak outside its range")
    uniform(popref.truncnorm(loc, scale).cdf(utp), what, 3e-3)


def strat_full():
    return st.fixed_dictionaries(dict(
        params=pops.params_case(), key=gen.seed(), seed=gen.seed(), t0=gen.uniform(12.5, 15.0),
        same=st.booleans(), sat=st.booleans(), history=st.booleans()))


def check_full(case, rec):
    """t_peak of the complete populations"""
    p = pops.make_params(case["params"])
    pm = popref.pmap(p)
    t0, is_sat = case["t0"], case["sat"]
    lgm, t_obs = halos(case, t0)
    key, lgt0 = pops.key(case["key"]), np.log10(t0)
    if case["history"]:
        h = pops.history_pop(is_sat)(p, np.array([1.0, 5.0, t0]), lgm, t_obs, key, lgt0)
    else:
        h = pops.params_pop(is_sat)(p, lgm, t_obs, key, lgt0)
    t_peak = np.asarray(h.mah_params.t_peak, "f8")
    rec.nontrivial()
    rec.count(N)
    # t_peak went through the unbounded form once; round the ends of the range accordingly
    if is_sat:
        loc, scale = popref.sat_loc_scale(pm, lgm, t_obs)
        utp = np.clip(t_peak / t_obs, 0.1, 1.0) if not x64() else t_peak / t_obs
        require(np.abs(utp - t_peak / t_obs).max() < 1e-4 * (1 + 10 / t_obs.min()),
                "satellites: t_peak outside its range")
        check_trunc(utp, loc, scale, "satellites")
    else:
        utp = t_peak / t0
        if not x64():
            utp = np.where(np.abs(utp - 1) < 1e-5, 1.0, np.where(
                np.abs(utp - 0.05) < 1e-5, 0.05, utp))
        check_cens(utp, pm, lgm, t_obs, "centrals")


WHICH = ["flex", "old", "sat", "kern"]


def strat_part():
    return st.fixed_dictionaries(dict(
        which=st.sampled_from(WHICH), seed=gen.seed(), key=gen.seed(),
        edge=st.sampled_from([0.0, 0.5]), same=st.booleans(), t0=gen.uniform(12.5, 15.0),
        default=st.booleans()))


PATHS = dict(flex="t_peak_kernels.tp_pdf_cens_flex", old="t_peak_kernels.tp_pdf_cens",
             sat="t_peak_kernels.tp_pdf_sats")


def old_scale(pm, lgm, t_obs, t0):
    s = popref.sigmoid(lgm, 12.5, 2.0, pm["tpck_scale_mh_lo"], pm["tpck_scale_mh_hi"])
    return s + popref.sigmoid(t_obs, t0 / 2, 1.0, pm["tpck_scale_boost_early"], 0.0)


def check_part(case, rec):
    rng = np.random.default_rng(case["seed"] + 5)
    which, key, t0 = case["which"], pops.key(case["key"]), case["t0"]
    rec.label(which)
    rec.nontrivial()
    rec.count(N)
    lgm, t_obs = halos(case, t0)
    if which == "kern":
        loc = rng.uniform(0.11, 0.99, N)
        scale = np.exp(rng.uniform(np.log(0.02), 0.0, N))
        if case["same"]:
            loc, scale = np.full(N, loc[0]), np.full(N, scale[0])
        utp = tpk.mc_tp_pdf_satpop(key, tpk.UTP_Params(loc, scale))
        check_trunc(np.asarray(utp, "f8"), loc, scale, "truncated normal")
        return
    c = popmodel.component(PATHS[which])
    v = popmodel.random_values({n: c.bound(n) for n in c.P._fields}, rng, edge=case["edge"])
    if case["default"]:
        v = {n: float(x) for n, x in c.default._asdict().items()}
    p = c.P(**v)
    pm = popref.pmap(p)
    if which == "flex":
        t = np.asarray(flex.mc_t_peak_cenpop(p, lgm, t_obs, key, t0), "f8")
        require(t.shape == (N,), "wrong number of halos")
        utp = t / t0
        utp = np.where(np.abs(utp - 1) < 1e-6, 1.0, utp)
        check_cens(utp, pm, lgm, t_obs, "centrals")
    elif which == "sat":
        t = np.asarray(sat.mc_tpeak_sats(p, key, lgm, t_obs), "f8")
        loc, scale = popref.sat_loc_scale(pm, lgm, t_obs)
        check_trunc(t / t_obs, loc, scale, "satellites")
    else:
        t = np.asarray(old.mc_tpeak_cens(p, key, lgm, t_obs, t0), "f8")
        check_trunc(t / t0, 0.95, old_scale(pm, lgm, t_obs, t0), "centrals (older model)")


def strat_grid():
    return st.fixed_dictionaries(dict(seed=gen.seed(), t0=gen.uniform(12.5, 15.0),
                                      edge=st.sampled_from([0.0, 0.5])))


NG = 60


def check_grid(case, rec):
    """distribution functions and densities against scipy"""
    rng = np.random.default_rng(case["seed"])
    rec.nontrivial()
    rec.count(3 * NG)
    t0 = case["t0"]
    rt, at = (1e-6, 1e-9) if x64() else (2e-3, 3e-5)
    loc, scale = rng.uniform(0.11, 0.99), float(np.exp(rng.uniform(np.log(0.03), 0)))
    x = np.linspace(0.1, 1.0, NG)
    x = np.sort(np.concatenate([x, rng.uniform(0.1, 1, NG - 20), loc + scale * np.linspace(-1, 1, 20)]))
    x = np.clip(x, 0.1, 1.0)
    d = popref.truncnorm(loc, scale)
    prm = tpk.UTP_Params(loc, scale)
    cdf = np.asarray(tpk._tp_cdf_kern(x, prm), "f8")
    pdf = np.asarray(tpk._tp_pdf_kern(x, prm), "f8")
    close(cdf, d.cdf(x), "distribution function", atol=3 * at + (0 if x64() else 3e-5))
    inner = (x > 0.1002) & (x < 0.9998)  # at the very ends the density may be taken from either side
    close(pdf[inner], d.pdf(x)[inner], "density", rtol=rt * 2, atol=at * d.pdf(loc))
    require(np.diff(cdf).min() > -(1e-12 if x64() else 2e-6), "distribution is not monotone")
    require((pdf >= 0).all(), "density is negative")
    close([cdf[0], cdf[-1]], [0, 1], "distribution does not run from 0 to 1", atol=1e-5)
    close(np.asarray(tpk._tp_pdf_kern(np.array([0.0, 0.05, 1.05, 2.0]), prm)), np.zeros(4),
          "density outside the range", atol=0)
    # the older model of the centrals
    c = popmodel.component(PATHS["old"])
    v = popmodel.random_values({n: c.bound(n) for n in c.P._fields}, rng, edge=case["edge"])
    p = c.P(**v)
    lgm, t_obs = rng.uniform(10, 16), rng.uniform(0.5, t0)
    s = float(old_scale(popref.pmap(p), lgm, t_obs, t0))
    d = popref.truncnorm(0.95, s)
    t = x * t0
    cdf = np.asarray(old._t_peak_cen_cdf_singlehalo_kern(p, lgm, t_obs, t, t0), "f8")
    pdf = np.asarray(old._t_peak_cen_pdf_singlehalo_kern(p, lgm, t_obs, t, t0), "f8")
    close(cdf, d.cdf(x), "distribution function of the centrals", atol=3 * at + 3e-5)
    close(pdf[inner], d.pdf(x)[inner] / t0, "density of the centrals", rtol=rt * 2,
          atol=at * d.pdf(0.95))
    close(cdf[-1], 1.0, "distribution of the centrals does not reach unity", atol=1e-5)
    # the model of the centrals in use
    c = popmodel.component(PATHS["flex"])
    v = popmodel.random_values({n: c.bound(n) for n in c.P._fields}, rng, edge=case["edge"])
    p = c.P(**v)
    g = np.linspace(0, 1.2, NG)
    f = np.asarray(flex._frac_peaked_vs_lgm(p, g, lgm, t_obs), "f8")
    close(f, popref.cen_frac_peaked(popref.pmap(p), g, lgm, t_obs), "fraction peaked",
          atol=1e-9 if x64() else 3e-6)
    require((np.diff(f) > 0).all() and f.min() >= 0 and f.max() <= 1,
            "fraction peaked is not a distribution function")


SUBS = [
    Sub("populations", strat_full, check_full, quick=80, thorough=4000, shards=2),
    Sub("populations_x64", strat_full, check_full, quick=80, thorough=4000, x64=True, shards=2),
    Sub("draws", strat_part, check_part, quick=200, thorough=8000, shards=2,
        cover=[{"which": w} for w in WHICH]),
    Sub("draws_x64", strat_part, check_part, quick=120, thorough=4000, x64=True,
        cover=[{"which": w} for w in WHICH]),
    Sub("functions", strat_grid, check_grid, quick=150, thorough=8000),
    Sub("functions_x64", strat_grid, check_grid, quick=150, thorough=8000, x64=True),
]
