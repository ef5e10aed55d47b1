"""Gradients of the population losses are finite and correct."""

import numpy as np
from hypothesis import strategies as st

from checks import p23
from pbt import gen, popmodel, popref, pops
from pbt.core import Sub, require
from pbt.lazy import x64

RULE = (
    "A case is a set of model parameters, (mass, time) bins, targets off the model's averages, a random key and "
    "directions in parameter space (all parameters, one ingredient, one parameter). The gradient is compared with central differences of the loss at two "
    "step sizes in float64; a direction whose two differences disagree (a kink of a clip) is counted and skipped. Every entry must be finite, in both float "
    "widths. Non-trivial: at least one direction compared has a slope above the rounding error of the differences."
)
ASSUMPTIONS = ["a slope is compared only where two central differences agree to 1%"]


def strat(**kw):
    return lambda: st.fixed_dictionaries(dict(
        params=pops.params_case(), key=gen.seed(), dseed=gen.seed(), t0=gen.uniform(13.0, 14.2),
        bins=st.fixed_dictionaries(dict(n=st.just(2), seed=gen.seed(),
                                        size=st.sampled_from([0.03, 0.3]),
                                        only=st.sampled_from(["all", "mean", "std"]))),
        **{k: st.just(v) for k, v in kw.items()}))


def directions(names, seed, widths):
    """(label, direction) pairs: everything, one ingredient, single parameters"""
    rng = np.random.default_rng(seed)
    d = rng.normal(size=len(names)) * widths
    out = [("all", d)]
    part = popmodel.component(popmodel.PARTS[rng.integers(len(popmodel.PARTS))])
    mask = np.array([n in part.P._fields for n in names])
    if mask.any():
        out.append(("ingredient", d * mask))
    for i in rng.choice(len(names), min(4, len(names)), replace=False):
        e = np.zeros(len(names))
        e[i] = widths[i]
        out.append((names[i], e))
    return out


def compare(fun, p, grads, dirs, h, rec, what):
    """fun: parameters -> loss"""
    T = type(p)
    x = np.array([float(v) for v in p])
    g = np.array([np.asarray(v, "f8") for v in grads])
    require(g.shape == x.shape, f"{what}: shape of the gradient", got=str(g.shape))
    bad = [n for n, v in zip(T._fields, g) if not np.isfinite(v)]
    require(not bad, f"{what}: gradient is not finite", names=bad)
    if not x64():
        return

    def f(y):
        return float(fun(T(*[float(v) for v in y])))

    f0 = abs(f(x))
    for label, d in dirs:
        s = float(g @ d)
        fd = [(f(x + k * d) - f(x - k * d)) / (2 * k) for k in (h, h / 3)]
        noise = 3e-12 * (f0 + 1e-6) / h
        rec.count()
        if abs(fd[0] - fd[1]) > 0.01 * abs(fd[1]) + noise:
            rec.label("kink")
            continue
        rec.label("compared")
        rec.nontrivial(abs(fd[1]) > 100 * noise)
        scale = float(np.abs(g * d).max())
        require(abs(s - fd[1]) <= 0.02 * abs(fd[1]) + 1e-4 * scale + 10 * noise,
                f"{what}: gradient is not the slope of the loss", along=label, gradient=s,
                slope=fd[1])


def problem(case, sat, p):
    """loss data of the bins"""
    lgt0 = np.log10(case["t0"])
    tarr, lgm, t_obs, dm, ds, frac = p23.make_bins(case["bins"], case["t0"])
    key = pops.key(case["key"])
    mean, std = p23.predictions(p, sat, tarr, lgm, t_obs, key, lgt0)
    return tarr, lgm, t_obs, key, lgt0, mean + dm, std + ds, frac


def u_widths(names):
    return np.full(len(names), 2.0)


def p_widths(names):
    b = popmodel.full_bounds()
    return np.array([b[n][1] - b[n][0] for n in names])


def check(case, rec):
    sat = case["sat"]
    what = "satellites" if sat else "centrals"
    p = pops.make_params(case["params"])
    fh = pops.fithelp(sat)
    data = problem(case, sat, p)
    names = type(p)._fields
    if sat:
        loss, g = fh.loss_and_grads_mah_moments_multibin(p, *data)
        compare(lambda q: fh.loss_mah_moments_multibin(q, *data), p, g,
                directions(names, case["dseed"], p_widths(names)), 1e-6, rec, what)
    else:
        u = p23.unbounded(p)
        u = type(u)(*[float(v) for v in u])
        loss, g = fh.loss_and_grads_mah_moments_multibin(u, data)
        compare(lambda q: fh.loss_mah_moments_multibin_u_params(q, data), u, g,
                directions(names, case["dseed"], u_widths(names)), 1e-5, rec, what)


def check_joint(case, rec):
    from jax import random

    p = pops.make_params(case["params"])
    key = pops.key(case["key"])
    lgt0 = np.log10(case["t0"])
    c = problem(case, False, p)
    s = problem(dict(case, bins=dict(case["bins"], seed=case["bins"]["seed"] + 1)), True, p)
    data = (*c[:3], *s[:3], key, lgt0, *c[5:], *s[5:])
    fh = pops.both_fh
    names = type(p)._fields
    if case["u"]:
        if case["sub"]:
            parts = [popmodel.PARTS[i] for i in (7, 5, 3, 1)]
            names = [n for q in parts for n in popmodel.component(q).P._fields]
        uf = p23.unbounded(p)
        un = ["u_" + n for n in names]
        T = p23._type("UVaried", un) if case["sub"] else type(uf)
        u = T(*[float(getattr(uf, n)) for n in un])
        loss, g = fh.loss_and_grads_mah_moments_multibin_censat_u_params(u, data)
        require(type(g)._fields == T._fields, "fields of the gradient differ")
        compare(lambda q: fh.loss_mah_moments_multibin_censat_u_params(q, data), u, g,
                directions(list(names), case["dseed"], u_widths(names)), 1e-5, rec,
                "centrals and satellites, unbounded")
    else:
        loss, g = fh.loss_and_grads_mah_moments_multibin_censat(p, *data)
        compare(lambda q: fh.loss_mah_moments_multibin_censat(q, *data), p, g,
                directions(names, case["dseed"], p_widths(names)), 1e-6, rec,
                "centrals and satellites")


# ---------------------------------------------------------------- ingredients


def strat_parts():
    return st.fixed_dictionaries(dict(
        kind=st.sampled_from(p23.KINDS), seed=gen.seed(), dseed=gen.seed(), n=st.just(9),
        size=st.sampled_from([0.01, 0.3]), edge=st.sampled_from([0.0, 0.3])))


def check_parts(case, rec):
    kind = case["kind"].split("/")
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    rec.label(case["kind"])
    res = case["size"] * rng.normal(0, 1, n)
    lgm, t_obs = rng.uniform(10, 16, n), rng.uniform(1, 14, n)
    t_peak = rng.uniform(0.5, 14, n)
    widths, h = None, 1e-6
    if kind[0] in ("c0", "c1"):
        sat = kind[2] == "sats"
        path = ("bimod_logm0_sats." if sat else "bimod_logm0_kernels.") + f"logm0_{kind[0]}_{kind[1]}"
        c, p = p23.component_params(path, rng, case["edge"])
        pm = popref.pmap(p)
        data = tuple((float(t), t_peak, getattr(popref, kind[0])(pm, kind[1], sat, t, t_peak) + res)
                     for t in t_obs[:2])
        g = c.mod.global_loss_and_grads_kern

        def f(q, d):
            return c.mod.global_loss_kern(q, d)
    elif kind[0] in ("early_index", "logtc"):
        path = p23.EI[kind[1]] if kind[0] == "early_index" else "logtc_" + kind[1]
        c, p = p23.component_params(path, rng, case["edge"])
        y = getattr(popref, kind[0])(popref.pmap(p), kind[1], lgm, t_obs, t_peak)
        data, g = (lgm, t_obs, t_peak, y + res), c.mod.loss_and_grads_kern
        p, widths, h = c.to_u(p), 2.0, 1e-5

        def f(q, d):
            return g(q, d)[0]
    elif kind[0] in ("utp", "tp_cens"):
        c, p = p23.component_params("t_peak_kernels.utp_pdf_kernels", rng, case["edge"])
        x = rng.uniform(0.12, 0.99, n)
        y = popref.truncnorm(float(p.utp_loc), float(p.utp_scale)).pdf(x)
        y = y + res * np.abs(y).max()
        if kind[0] == "utp":
            data, g = (x, y), c.mod.loss_and_grads_kern
        else:
            m = popmodel.component("t_peak_kernels.tp_pdf_cens").mod
            data, g = (x * 10.0, y / 10.0, 10.0), m.loss_and_grads_kern
        p, widths, h = c.to_u(p), 2.0, 1e-5

        def f(q, d):
            return g(q, d)[0]
    else:
        c, p = p23.component_params("t_peak_kernels.tp_pdf_cens_flex", rng, case["edge"])
        x = rng.uniform(0.05, 1.0, (2, n))
        y = popref.cen_frac_peaked(popref.pmap(p), x, lgm[:2].reshape(-1, 1),
                                   t_obs[:2].reshape(-1, 1))
        data = (x, y + res, lgm[:2], t_obs[:2])
        if kind[0] == "flex_single":
            T = p23._type("X0", ["x0"])
            p, data = T(float(rng.uniform(0.3, 1.5))), (x[0], y[0] + res)
            widths = 1.0
            g0 = c.mod.loss_and_grad

            def g(q, d):
                v, k = g0(tuple(q), d)
                return v, T(*k)

            def f(q, d):
                return g(q, d)[0]
        else:
            g = c.mod.loss_and_grad_multimass
            f = c.mod.loss_multimass
    names = [n for n in type(p)._fields]
    w = np.array([c.bound(n)[1] - c.bound(n)[0] for n in names]) if widths is None \
        else np.full(len(names), widths)
    p = type(p)(*[float(v) for v in p])
    grads = g(p, data)[1]
    compare(lambda q: f(q, data), p, grads, directions(names, case["dseed"], w), h, rec,
            case["kind"])


SUBS = [
    Sub("centrals", strat(sat=False), check, quick=60, thorough=4000, x64=True),
    Sub("satellites", strat(sat=True), check, quick=60, thorough=4000, x64=True),
    Sub("joint", strat(u=False, sub=False), check_joint, quick=30, thorough=2000, x64=True),
    Sub("joint_unbounded", strat(u=True, sub=False), check_joint, quick=30, thorough=2000,
        x64=True),
    Sub("joint_subset", strat(u=True, sub=True), check_joint, quick=30, thorough=2000, x64=True),
    Sub("centrals_f32", strat(sat=False), check, quick=60, thorough=4000),
    Sub("satellites_f32", strat(sat=True), check, quick=60, thorough=4000),
    Sub("ingredients", strat_parts, check_parts, quick=400, thorough=15000, x64=True, shards=2,
        cover=[{"kind": k} for k in p23.KINDS]),
]
