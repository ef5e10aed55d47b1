"""The early-type fraction of a population is the predicted one."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, popref, pops
from pbt.core import Sub, close, require
from pbt.lazy import Lazy, x64

RULE = (
    "A case is a complete set of model parameters, halos in two bins of mass and time (plus a continuous range), "
    "a random key, centrals or satellites. The reported weight is compared with the float64 reference; the number of "
    "early-type halos with its binomial expectation (6.5 standard errors); averages of the selected population with "
    "the weighted average of both types. Non-trivial: predicted fractions differ between the bins."
)
ASSUMPTIONS = ["a correct generator exceeds 6.5 standard errors with probability below 1e-10 per comparison"]

N = 3000
fec = Lazy("diffmah.diffmahpop_kernels.frac_early_cens")


def strat(sat):
    return lambda: st.fixed_dictionaries(dict(
        params=pops.params_case(), key=gen.seed(), sat=st.just(sat), seed=gen.seed(),
        supplied=st.booleans(),
        m=st.tuples(gen.uniform(10.5, 12.5), gen.uniform(12.5, 15.5)),
        t=st.tuples(gen.uniform(1.0, 7.0), gen.uniform(7.0, 13.8))))


def halos(case):
    rng = np.random.default_rng(case["seed"])
    k = N // 3
    # two bins in either order of mass and time, and a continuum
    a, b = case["m"]
    c, d = case["t"] if case["seed"] % 2 else case["t"][::-1]
    lgm = np.concatenate([np.full(k, a), np.full(k, b), rng.uniform(10.5, 15.5, N - 2 * k)])
    t = np.concatenate([np.full(k, c), np.full(k, d), rng.uniform(1, 13.8, N - 2 * k)])
    return lgm, t, [slice(0, k), slice(k, 2 * k), slice(2 * k, N), slice(0, N)]


def zscore(sel, w, x_e, x_l):
    """selected minus expected sum of x, in standard errors, given both values per halo"""
    d = x_e - x_l
    got = np.sum(np.where(sel, x_e, x_l) - (w * x_e + (1 - w) * x_l))
    var = np.sum(w * (1 - w) * d**2)
    return got / np.sqrt(var) if var > 0 else 0.0


def check(case, rec):
    p = pops.make_params(case["params"])
    pm = popref.pmap(p)
    lgm, t, bins = halos(case)
    sat = case["sat"]
    what = "satellites" if sat else "centrals"
    want = popref.frac_early(pm, lgm, t)
    tp = None
    if case["supplied"]:
        tp = np.random.default_rng(case["seed"] + 1).uniform(0.15, 1.0, N) * (t if sat else 13.8)
        what += "/t_peak given"
    h = pops.params_pop(sat)(p, lgm, t, pops.key(case["key"]), pops.LGT0, tp)
    f = np.asarray(h.frac_early_cens, "f8")
    tol = 1e-9 if x64() else 1e-5
    close(f, want, f"{what}: reported weight is not the predicted early fraction", atol=tol)
    close(fec._frac_early_cens_kern(p, lgm, t), want, "early fraction kernel", atol=tol)
    e = np.asarray(h.mc_early).astype(bool)
    rec.count(N)
    rec.nontrivial(abs(want[0] - want[N // 2]) > 0.01)
    for b in bins:
        w = want[b]
        z = (e[b].sum() - w.sum()) / np.sqrt((w * (1 - w)).sum())
        require(abs(z) < 6.5, f"{what}: early-type halos do not occur with their predicted "
                "fraction", got=e[b].mean(), want=w.mean(), z=float(z))
        for q in ("logm0", "logtc", "early_index", "late_index"):
            x_e = np.asarray(getattr(h.mah_params_early, q), "f8")[b]
            x_l = np.asarray(getattr(h.mah_params_late, q), "f8")[b]
            z = zscore(e[b], w, x_e, x_l)
            require(abs(z) < 6.5, f"{what}: selected and weighted populations differ", name=q,
                    z=float(z))


NH = 3000


def strat_history(sat):
    return lambda: st.fixed_dictionaries(dict(
        params=pops.params_case(), key=gen.seed(), key2=gen.seed(), sat=st.just(sat),
        m=gen.uniform(10.5, 15.5), t=gen.uniform(1.5, 13.8)))


def check_history(case, rec):
    """mixture of histories against the weighted sample of both types, same mass and time"""
    p = pops.make_params(case["params"])
    sat = case["sat"]
    what = ("satellites" if sat else "centrals") + "/histories"
    lgm, t = case["m"], case["t"]
    one = np.ones(NH)
    tarr = np.geomspace(0.5, 13.8, 6)
    h = pops.history_pop(sat)(p, tarr, lgm * one, t * one, pops.key(case["key"]), pops.LGT0)
    r = pops.sample(sat)(p, tarr, lgm, t, pops.key(case["key2"] + 1), pops.LGT0, n_mc=NH)
    w = np.asarray(r[6], "f8")
    close(w, popref.frac_early(popref.pmap(p), lgm, t) * one,
          f"{what}: weight of the sample is not the predicted early fraction",
          atol=1e-9 if x64() else 1e-5)
    rec.count(NH)
    w = w.reshape(-1, 1)
    # a low threshold-count is as good a statistic as any moment, and has no heavy tail
    sel, e, la = [np.asarray(x, "f8") for x in (h.log_mah, r[2], r[5])]
    rec.nontrivial(abs(e.mean() - la.mean()) > 0.05)
    mix = np.concatenate([e, la])
    for q in (0.2, 0.5, 0.8):
        cut = np.quantile(mix, q, axis=0)
        a = (sel > cut).astype(float)
        b = w * (e > cut) + (1 - w) * (la > cut)
        se = np.sqrt(a.var(axis=0) / NH + b.var(axis=0) / NH) + 1.0 / NH
        z = (a.mean(axis=0) - b.mean(axis=0)) / se
        require((np.abs(z) < 6.5).all(),
                f"{what}: selected and weighted populations differ", z=z, quantile=q)


SUBS = []
for _sat, _n in ((False, "centrals"), (True, "satellites")):
    SUBS += [
        Sub(_n, strat(_sat), check, quick=160, thorough=6000),
        Sub(_n + "_x64", strat(_sat), check, quick=100, thorough=4000, x64=True),
        Sub(_n + "_histories", strat_history(_sat), check_history, quick=120, thorough=4000),
    ]
