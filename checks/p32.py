"""Fits of model ingredients report their own loss and never end worse than their start."""

import numpy as np
from hypothesis import strategies as st

from checks import p23
from pbt import gen, popmodel, popref
from pbt.core import Sub, all_finite, close, require

RULE = (
    "A case is an ingredient (logm0 coefficients of either type for centrals and satellites, t_peak distribution of either form), target values "
    "from random parameters inside the bounds with residuals of chosen size, one to three target sets and a starting point. The "
    "loss of the returned parameters is recomputed in float64. Non-trivial: the fit improves on its start tenfold."
)
ASSUMPTIONS = []

FITS = ([f"c{i}/{k}/{s}" for i in (0, 1) for k in ("early", "late") for s in ("cens", "sats")]
        + ["utp", "tp_cens"])


def strat(kinds):
    return lambda: st.fixed_dictionaries(dict(
        kind=st.sampled_from(kinds), seed=gen.seed(), size=st.sampled_from([0.0, 0.02, 0.2]),
        near=st.sampled_from([0.02, 0.2, 1.0]), sets=st.sampled_from([1, 3]),
        start=st.sampled_from(["default", "random", "near"])))


def check_global(case, rec):
    which, kind, s = case["kind"].split("/")
    sat = s == "sats"
    rng = np.random.default_rng(case["seed"])
    path = ("bimod_logm0_sats." if sat else "bimod_logm0_kernels.") + f"logm0_{which}_{kind}"
    c, p = p23.component_params(path, rng, 0.0)
    pm = popref.pmap(p)
    ref = getattr(popref, which)
    data = []
    for i in range(case["sets"]):
        t_obs = float(rng.uniform(2, 14))
        t_peak = np.sort(rng.uniform(0.5, t_obs, 10))
        y = ref(pm, kind, sat, t_obs, t_peak) + case["size"] * rng.normal(size=10)
        data.append((t_obs, t_peak, y))
    data = tuple(data)

    def loss(q):
        q = popref.pmap(c.P(*[float(v) for v in q]))
        return sum(np.mean((ref(q, kind, sat, t, tp) - y) ** 2) for t, tp, y in data)

    fit = getattr(c.mod, f"fit_global_{which}_model")
    kw = {}
    p0 = c.default
    if case["start"] != "default":
        w = np.array([c.bound(n)[1] - c.bound(n)[0] for n in c.P._fields])
        if case["start"] == "near":
            x = np.array([float(v) for v in p]) + 0.01 * case["near"] * w * rng.normal(size=len(w))
        else:
            x = np.array([rng.uniform(*c.bound(n)) for n in c.P._fields])
        p0 = c.P(*[float(v) for v in x])
        kw = dict(p_init=p0)
    finish(case, rec, fit(data, **kw), loss, loss(p0), len(p), 3e-5)


def finish(case, rec, res, loss, loss0, n, atol):
    require(len(res) == 4, "four results expected")
    p, best, terminates, code = res
    what = case["kind"]
    v = np.array([float(x) for x in p])
    require(v.shape == (n,), f"{what}: wrong number of parameters")
    all_finite(v, f"{what}: fitted parameters are not finite")
    code = int(code)
    require(code in (0, 1), f"{what}: unknown optimizer", code=code)
    rec.label("fallback", code == 1)
    rec.count()
    best = float(best)
    require(np.isfinite(best) and best >= 0, f"{what}: loss is not finite")
    got = loss(v if not hasattr(p, "_fields") else p)
    rec.nontrivial(got < 0.1 * loss0)
    rec.label("improved tenfold", got < 0.1 * loss0)
    close(np.sqrt(best), np.sqrt(got), f"{what}: reported loss is not that of the parameters",
          rtol=3e-3, atol=atol)
    require(np.sqrt(got) <= np.sqrt(loss0) * (1 + 3e-3) + atol,
            f"{what}: fit is worse than its start", start=loss0, fit=got)
    require(bool(terminates), f"{what}: a finite fit is reported as failed")
    return got


def check_tpeak(case, rec):
    rng = np.random.default_rng(case["seed"])
    tpk = popmodel.component("t_peak_kernels.utp_pdf_kernels")
    c, p = p23.component_params("t_peak_kernels.utp_pdf_kernels", rng, 0.0)
    x = np.linspace(0.12, 0.99, 25)
    y = popref.truncnorm(float(p.utp_loc), float(p.utp_scale)).pdf(x)
    top = np.abs(y).max()
    y = y + case["size"] * top * rng.normal(size=x.size)

    def loss_of(f):
        def loss(q):
            d = popref.truncnorm(float(q[0]), float(q[1])).pdf(x)
            return np.mean((f * (d - y)) ** 2)

        return loss

    if case["kind"] == "utp":
        res = c.mod.t_peak_fitter(x, y)
        loss = loss_of(1.0)
        loss0 = loss([float(v) for v in c.default])
    else:
        t0 = float(rng.uniform(8, 14))
        m = popmodel.component("t_peak_kernels.tp_pdf_cens").mod
        kw = {}
        u0 = c.default_u
        if case["start"] != "default":
            q = c.P(**popmodel.random_values({n: c.bound(n) for n in c.P._fields}, rng))
            u0 = c.to_u(q)
            kw["u_p_init"] = u0
        res = m.t_peak_cens_fitter(x * t0, y / t0, t0, **kw)
        loss = loss_of(1 / t0)
        loss0 = loss([float(v) for v in c.to_p(u0)])
        top = top / t0
    for n, v in zip(c.P._fields, res[0]):
        lo, hi = c.bound(n)
        e = 1e-5 * (hi - lo)
        require(lo - e <= float(v) <= hi + e, f"{case['kind']}: parameter out of bounds", name=n)
    finish(case, rec, res, loss, loss0, 2, 1e-4 * top)


SUBS = [
    Sub("logm0", strat(FITS[:8]), check_global, quick=320, thorough=6000, shards=4,
        cover=[{"kind": k} for k in FITS[:8]]),
    Sub("t_peak", strat(FITS[8:]), check_tpeak, quick=240, thorough=5000, shards=4,
        cover=[{"kind": k} for k in FITS[8:]]),
]
