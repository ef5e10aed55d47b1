"""Averages of a population are the weighted moments of the generated sample."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, pops
from pbt.core import Sub, all_finite, close, require
from pbt.lazy import x64

RULE = (
    "A case is a complete set of model parameters, a halo mass, observation time, random key, z=0 age and time table, "
    "for centrals or satellites. The reported mean and standard deviation are compared with float64 "
    "moments of the sample generated with the same arguments (all halos of both types weighted by the early fraction), and "
    "with those of an independent selected population (6.5 standard errors). Non-trivial: both types carry weight "
    "and differ in mean by more than 0.01 dex somewhere."
)
ASSUMPTIONS = ["a correct average exceeds 6.5 standard errors with probability below 1e-10 per comparison"]

NT, NH = 12, 3000


def strat(sat, nts=(NT,)):
    return lambda: st.fixed_dictionaries(dict(
        nt=st.sampled_from(list(nts)),
        params=pops.params_case(), key=gen.seed(), key2=gen.seed(), sat=st.just(sat) if sat is not None else st.booleans(),
        m=gen.uniform(10.5, 15.5), t=gen.uniform(1.0, 13.8), t0=gen.uniform(12.8, 14.5),
        lin=st.booleans(), tmin=gen.uniform(0.2, 3.0),
        tmax=st.one_of(st.just(1.0), gen.uniform(0.3, 1.2))))


def check(case, rec):
    p = pops.make_params(case["params"])
    sat = case["sat"]
    what = "satellites" if sat else "centrals"
    t0, NT = case["t0"], case["nt"]
    t_end = t0 * case["tmax"]
    tarr = (np.linspace if case["lin"] else np.geomspace)(case["tmin"], t_end, NT)
    args = (p, tarr, case["m"], min(case["t"], t0), pops.key(case["key"]), np.log10(t0))
    mean, std, frac = pops.moments(sat)(*args)
    r = pops.sample(sat)(*args)
    e, la, w = [np.asarray(x, "f8") for x in (r[2], r[5], r[6])]
    n = e.shape[0]
    rec.count(NT)
    W = np.concatenate([w, 1 - w]).reshape(-1, 1) / n
    X = np.concatenate([e, la])
    mu = (W * X).sum(axis=0)
    sd = np.sqrt((W * (X - mu) ** 2).sum(axis=0))
    rec.nontrivial(0.05 < w.mean() < 0.95 and np.abs(e.mean(axis=0) - la.mean(axis=0)).max() > 0.01)
    all_finite(std, "standard deviation is not finite")
    close(mean, mu, f"{what}: mean is not the weighted mean of the sample",
          atol=1e-9 if x64() else 1e-4)
    close(std, sd, f"{what}: scatter is not the weighted standard deviation of the sample",
          rtol=1e-7 if x64() else 2e-3, atol=1e-7 if x64() else 2e-4)
    f = np.asarray(frac, "f8")
    require(f.shape == (NT,) and (f >= 0).all() and (f <= 1).all(),
            f"{what}: fraction of peaked halos outside [0,1]")
    # the same population, drawn independently and selected by type
    one = np.ones(NH)
    h = pops.history_pop(sat)(p, tarr, case["m"] * one, args[3] * one,
                              pops.key(case["key2"] + 17), args[5])
    x = np.asarray(h.log_mah, "f8")
    # standard error of the weighted mean: halos carry one early and one late value
    y = w.reshape(-1, 1) * e + (1 - w.reshape(-1, 1)) * la
    se = np.sqrt(y.var(axis=0, ddof=1) / n + x.var(axis=0) / NH)
    # rare extreme halos make the variance estimate of 200 draws unreliable: allow for
    # the largest deviation in either sample
    big = np.maximum(np.abs(y - mu).max(axis=0), np.abs(x - x.mean(axis=0)).max(axis=0))
    lim = 6.5 * se + 12 * big / n + 1e-4
    require((np.abs(x.mean(axis=0) - mu) < lim).all(),
            f"{what}: average differs from that of an independent population",
            got=mu, want=x.mean(axis=0), limit=lim)


SUBS = []
for _sat, _n in ((False, "centrals"), (True, "satellites")):
    SUBS += [
        Sub(_n, strat(_sat), check, quick=200, thorough=8000, shards=2),
        Sub(_n + "_x64", strat(_sat), check, quick=160, thorough=6000, x64=True, shards=2),
    ]
NTS = (1, 2, 77)
SUBS.append(Sub("tables", strat(None, NTS), check, quick=48, thorough=2000, x64=True, shards=2,
                cover=[{"nt": n, "sat": s} for n in NTS for s in (False, True)]))
