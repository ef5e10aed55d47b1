"""Losses that calibrate the population model are the stated residuals."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, popmodel, popref, pops
from pbt.core import Sub, all_finite, close, require
from pbt.lazy import Lazy, x64

RULE = (
    "A case is a set of model parameters, several (mass, time) bins, a random key and targets made by adding chosen offsets "
    "to the model's own averages of each bin. The loss (and the loss returned with the gradient, from bounded, unbounded and partial parameters, "
    "for centrals, satellites and both) is compared with the mean square of the offsets; the losses of the "
    "ingredients are compared with residuals against a float64 reference. Non-trivial: offsets differ between bins and between mean and scatter."
)
ASSUMPTIONS = ["bins draw from jax.random.split(key, nbins); centrals and satellites from the two halves of the key"]

params_mod = Lazy("diffmah.diffmahpop_kernels.bimod_censat_params")
NT = 6


def bins_case(nmax=3):
    return st.fixed_dictionaries(dict(
        n=st.sampled_from([nmax, nmax, 1]), seed=gen.seed(),
        size=st.sampled_from([0.0, 0.03, 0.3, 2.0]),
        only=st.sampled_from(["all", "all", "mean", "std", "onebin"])))


def strat(sat):
    return lambda: st.fixed_dictionaries(dict(
        params=pops.params_case(), key=gen.seed(), sat=st.just(sat), bins=bins_case(),
        t0=gen.uniform(13.0, 14.2), vary=st.sampled_from(["all", "subset", "subset"])))


SHAPES = [(1, 1), (7, 3), (2, 40)]


def strat_shapes():
    return st.fixed_dictionaries(dict(
        params=pops.params_case(), key=gen.seed(), sat=st.booleans(), shape=gen.size(SHAPES),
        bins=bins_case(), t0=gen.uniform(13.0, 14.2)))


def check_shapes(case, rec):
    """any number of bins and times"""
    n, nt = SHAPES[case["shape"]]
    rec.label(f"{n} bins of {nt} times")
    check(dict(case, bins=dict(case["bins"], n=n, nt=nt)), rec)
    rec.nontrivial(case["bins"]["size"] > 0)


def make_bins(b, t0):
    rng = np.random.default_rng(b["seed"])
    n, NT = b["n"], b.get("nt", 6)
    lgm, t_obs = rng.uniform(11, 15.3, n), rng.uniform(2.0, t0, n)
    tarr = np.array([np.linspace(rng.uniform(0.3, 1.0), t, NT) for t in t_obs])
    dm = rng.normal(0, 1, (n, NT)) * b["size"] * rng.uniform(0.3, 2, (n, 1))
    ds = rng.normal(0, 1, (n, NT)) * b["size"] * rng.uniform(0.3, 2, (n, 1))
    if b["only"] == "mean":
        ds = 0 * ds
    elif b["only"] == "std":
        dm = 0 * dm
    elif b["only"] == "onebin":
        keep = (np.arange(n) == rng.integers(n)).reshape(-1, 1)
        dm, ds = dm * keep, ds * keep
    return tarr, lgm, t_obs, dm, ds, rng.uniform(0, 1, (n, NT))


def predictions(p, sat, tarr, lgm, t_obs, key, lgt0):
    from jax import random

    keys = random.split(key, len(lgm))
    out = [pops.moments(sat)(p, tarr[i], lgm[i], t_obs[i], keys[i], lgt0)[:2]
           for i in range(len(lgm))]
    return (np.array([np.asarray(o[0], "f8") for o in out]),
            np.array([np.asarray(o[1], "f8") for o in out]))


def want_loss(dm, ds):
    return float(np.mean(np.mean(dm**2, axis=1) + np.mean(ds**2, axis=1)))


def same(loss, want, what):
    loss = float(loss)
    require(np.isfinite(loss) and loss >= 0, f"{what}: loss is not finite and non-negative",
            loss=loss)
    at, rt = (1e-9, 1e-8) if x64() else (1e-4, 2e-3)
    close(np.sqrt(loss), np.sqrt(want), f"{what}: loss is not the mean squared residual",
          atol=at, rtol=rt)


_types = {}


def _type(name, fields):
    """one class per set of fields, so that the compiled losses are used again"""
    from collections import namedtuple

    key = (name, tuple(fields))
    if key not in _types:
        _types[key] = namedtuple(name, fields)
    return _types[key]


def full_params(case):
    """complete parameters, and the part of them that is varied"""
    p = pops.make_params(case["params"])
    if case["vary"] == "all":
        return p, p
    # only some ingredients vary, in any order; the others keep their defaults
    d = popmodel.full().DEFAULT_DIFFMAHPOP_PARAMS
    parts = [popmodel.PARTS[i] for i in (7, 5, 3, 1)]
    names = [n for c in parts for n in popmodel.component(c).P._fields]
    sub = _type("Varied", names)(*[getattr(p, n) for n in names])
    return d._replace(**sub._asdict()), sub


def unbounded(p):
    u = popmodel.full().get_diffmahpop_u_params_from_params(p)
    return u


def check(case, rec):
    sat, t0 = case["sat"], case["t0"]
    what = "satellites" if sat else "centrals"
    lgt0 = np.log10(t0)
    p = pops.make_params(case["params"])
    fh = pops.fithelp(sat)
    tarr, lgm, t_obs, dm, ds, frac = make_bins(case["bins"], t0)
    key = pops.key(case["key"])
    mean, std = predictions(p, sat, tarr, lgm, t_obs, key, lgt0)
    all_finite(mean, f"{what}: averages are not finite")
    data = (tarr, lgm, t_obs, key, lgt0, mean + dm, std + ds, frac)
    want = want_loss(dm, ds)
    rec.count(2 * dm.size)
    rec.nontrivial(case["bins"]["size"] > 0 and len(lgm) > 1)
    loss = fh.loss_mah_moments_multibin(p, *data)
    same(loss, want, what)
    # the fraction of peaked halos carries no weight; order of the bins of a table of times
    perm = np.random.default_rng(case["key"]).permutation(tarr.shape[1])
    same(fh.loss_mah_moments_multibin(p, tarr[:, perm], *data[1:5], *[x[:, perm] for x in
                                                                      data[5:]]),
         want, what + ", times reordered")
    if not sat:
        up = unbounded(p)
        # unbounded parameters represent the same model up to rounding of the transform
        q = popmodel.full().get_diffmahpop_params_from_u_params(up)
        mean, std = predictions(q, sat, tarr, lgm, t_obs, key, lgt0)
        data = data[:5] + (mean + dm, std + ds, frac)
        same(fh.loss_mah_moments_multibin_u_params(up, data), want, what + ", unbounded")


def check_grad_value(case, rec):
    """the loss reported with the gradient is the loss"""
    sat, t0 = case["sat"], case["t0"]
    what = "satellites" if sat else "centrals"
    lgt0 = np.log10(t0)
    p = pops.make_params(case["params"])
    fh = pops.fithelp(sat)
    tarr, lgm, t_obs, dm, ds, frac = make_bins(dict(case["bins"], n=2), t0)
    key = pops.key(case["key"])
    if sat:
        q, arg = p, p
    else:
        arg = unbounded(p)
        q = popmodel.full().get_diffmahpop_params_from_u_params(arg)
    mean, std = predictions(q, sat, tarr, lgm, t_obs, key, lgt0)
    data = (tarr, lgm, t_obs, key, lgt0, mean + dm, std + ds, frac)
    rec.nontrivial(case["bins"]["size"] > 0)
    if sat:
        loss, grads = fh.loss_and_grads_mah_moments_multibin(arg, *data)
    else:
        loss, grads = fh.loss_and_grads_mah_moments_multibin(arg, data)
    same(loss, want_loss(dm, ds), what + ", returned with the gradient")
    require(type(grads)._fields == type(arg)._fields, f"{what}: fields of the gradient differ")


def strat_joint():
    return st.fixed_dictionaries(dict(
        params=pops.params_case(), key=gen.seed(), cens=bins_case(2), sats=bins_case(2),
        t0=gen.uniform(13.0, 14.2),
        vary=st.sampled_from(["all", "subset", "subset"]), grad=st.booleans()))


def check_joint(case, rec):
    from jax import random

    full, varied = full_params(case)
    t0 = case["t0"]
    lgt0 = np.log10(t0)
    key = pops.key(case["key"])
    kc, ks = random.split(key, 2)
    # few combinations of shapes, to limit compilation
    nc = 1 if case["vary"] == "all" else 2
    bc = make_bins(dict(case["cens"], n=nc), t0)
    bs = make_bins(dict(case["sats"], n=3 - nc), t0)
    fh = pops.both_fh

    def data(q):
        mc = predictions(q, False, *bc[:3], kc, lgt0)
        ms = predictions(q, True, *bs[:3], ks, lgt0)
        return (*bc[:3], *bs[:3], key, lgt0, mc[0] + bc[3], mc[1] + bc[4], bc[5],
                ms[0] + bs[3], ms[1] + bs[4], bs[5])

    want = want_loss(*bc[3:5]) + want_loss(*bs[3:5])
    rec.count(2 * (bc[3].size + bs[3].size))
    rec.nontrivial(case["cens"]["size"] > 0 and case["sats"]["size"] > 0)
    rec.label("parameters:" + case["vary"])
    zero = data(full)
    same(fh.loss_mah_moments_multibin_censat(varied, *zero), want, "centrals and satellites")
    # only one of the two populations misses its targets
    for i, b in ((8, bc), (11, bs)):
        z = list(zero)
        z[i] = zero[i] - b[3]
        z[i + 1] = zero[i + 1] - b[4]
        other = bs if b is bc else bc
        same(fh.loss_mah_moments_multibin_censat(varied, *z), want_loss(*other[3:5]),
             "one of centrals and satellites")
    pm = popmodel.full()
    uf = unbounded(full)
    if case["vary"] == "subset":
        un = ["u_" + n for n in type(varied)._fields]
        u_varied = _type("UVaried", un)(*[getattr(uf, n) for n in un])
        uf = pm.DEFAULT_DIFFMAHPOP_U_PARAMS._replace(**u_varied._asdict())
    else:
        u_varied = uf
    d = data(pm.get_diffmahpop_params_from_u_params(uf))
    same(fh.loss_mah_moments_multibin_censat_u_params(u_varied, d), want,
         "centrals and satellites, unbounded")
    if case["grad"] and case["vary"] == "all":
        loss, grads = fh.loss_and_grads_mah_moments_multibin_censat_u_params(u_varied, d)
        same(loss, want, "centrals and satellites, returned with the gradient")
        require(type(grads)._fields == type(u_varied)._fields, "fields of the gradient differ")
        loss, grads = fh.loss_and_grads_mah_moments_multibin_censat(varied, *zero)
        same(loss, want, "centrals and satellites, bounded, returned with the gradient")
        require(type(grads)._fields == type(varied)._fields, "fields of the gradient differ")


# ---------------------------------------------------------------- ingredients

KINDS = ([f"c{i}/{k}/{s}" for i in (0, 1) for k in ("early", "late") for s in ("cens", "sats")]
         + [f"early_index/{k}" for k in ("early", "late", "pop")]
         + ["logtc/early", "logtc/late", "utp", "tp_cens", "flex", "flex_single"])
EI = dict(early="early_index_alpha", late="early_index_beta", pop="early_index_pop")


def strat_parts():
    return st.fixed_dictionaries(dict(
        kind=st.sampled_from(KINDS), seed=gen.seed(), n=st.just(9), sets=st.sampled_from([1, 3]),
        size=st.sampled_from([0.0, 0.01, 0.3]), edge=st.sampled_from([0.0, 0.3])))


def component_params(path, rng, edge):
    c = popmodel.component(path)
    return c, c.P(**popmodel.random_values({n: c.bound(n) for n in c.P._fields}, rng, edge=edge))


def check_parts(case, rec):
    kind = case["kind"].split("/")
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    tol = dict(atol=1e-8, rtol=1e-6)
    rec.label(case["kind"])
    rec.nontrivial(case["size"] > 0)
    rec.count(n)
    res = case["size"] * rng.normal(0, 1, n)

    def equal(loss, want, what="loss"):
        loss = float(loss)
        require(np.isfinite(loss) and loss >= 0, f"{case['kind']}: {what} is not finite and >= 0")
        close(np.sqrt(loss), np.sqrt(want), f"{case['kind']}: {what} is not the residual", **tol)

    if kind[0] in ("c0", "c1"):
        sat = kind[2] == "sats"
        path = ("bimod_logm0_sats." if sat else "bimod_logm0_kernels.") + f"logm0_{kind[0]}_{kind[1]}"
        c, p = component_params(path, rng, case["edge"])
        pm = popref.pmap(p)
        data, want = [], 0.0
        for i in range(case["sets"]):
            t_obs = float(rng.uniform(1, 14))
            t_peak = rng.uniform(0.5, t_obs, n)
            r = res * rng.uniform(0.5, 2)
            y = getattr(popref, kind[0])(pm, kind[1], sat, t_obs, t_peak)
            data.append((t_obs, t_peak, y + r))
            want += np.mean(r**2)
        data = tuple(data)
        equal(c.mod.global_loss_kern(p, data), want)
        equal(c.mod.global_loss_and_grads_kern(p, data)[0], want, "loss with gradient")
        return
    if kind[0] in ("early_index", "logtc"):
        path = EI[kind[1]] if kind[0] == "early_index" else "logtc_" + kind[1]
        c, p = component_params(path, rng, case["edge"])
        u = c.to_u(p)
        pm = popref.pmap(c.to_p(u))
        lgm, t_obs, t_peak = rng.uniform(10, 16, n), rng.uniform(1, 14, n), rng.uniform(0.5, 14, n)
        y = getattr(popref, kind[0])(pm, kind[1], lgm, t_obs, t_peak)
        equal(c.mod.loss_and_grads_kern(u, (lgm, t_obs, t_peak, y + res))[0], np.mean(res**2))
        return
    if kind[0] in ("utp", "tp_cens"):
        c = popmodel.component("t_peak_kernels.utp_pdf_kernels")
        c, p = component_params("t_peak_kernels.utp_pdf_kernels", rng, case["edge"])
        u = c.to_u(p)
        q = c.to_p(u)
        x = rng.uniform(0.12, 0.99, n)
        y = popref.truncnorm(float(q.utp_loc), float(q.utp_scale)).pdf(x)
        res = res * np.abs(y).max()
        tol["atol"] = 1e-6 * np.abs(y).max()
        if kind[0] == "utp":
            equal(c.mod.loss_and_grads_kern(u, (x, y + res))[0], np.mean(res**2))
        else:
            t0 = float(rng.uniform(5, 14))
            m = popmodel.component("t_peak_kernels.tp_pdf_cens").mod
            equal(m.loss_and_grads_kern(u, (x * t0, y / t0 + res, t0))[0], np.mean(res**2))
        return
    c, p = component_params("t_peak_kernels.tp_pdf_cens_flex", rng, case["edge"])
    if kind[0] == "flex_single":
        x0 = float(rng.uniform(0.3, 1.5))
        x = rng.uniform(0.05, 1.0, n)
        y = 1 / (1 + np.exp(-5.0 * (x - x0)))
        equal(c.mod.loss_and_grad((x0,), (x, y + res))[0], np.mean(res**2))
        return
    pm = popref.pmap(p)
    nm = case["sets"]
    lgm, t_obs = rng.uniform(10.5, 15.5, nm), rng.uniform(2, 14, nm)
    x = rng.uniform(0.05, 1.0, (nm, n))
    r = case["size"] * rng.normal(0, 1, (nm, n)) * rng.uniform(0.1, 3, (nm, 1))
    y = popref.cen_frac_peaked(pm, x, lgm.reshape(-1, 1), t_obs.reshape(-1, 1))
    want = np.mean(np.abs(r))
    equal(c.mod.loss_multimass(p, (x, y + r, lgm, t_obs)), want)
    equal(c.mod.loss_and_grad_multimass(p, (x, y + r, lgm, t_obs))[0], want, "loss with gradient")


SUBS = [
    Sub("centrals", strat(False), check, quick=100, thorough=3000),
    Sub("satellites", strat(True), check, quick=100, thorough=3000),
    Sub("centrals_x64", strat(False), check, quick=100, thorough=3000, x64=True),
    Sub("satellites_x64", strat(True), check, quick=100, thorough=3000, x64=True),
    Sub("gradient_centrals", strat(False), check_grad_value, quick=40, thorough=2000, x64=True),
    Sub("gradient_satellites", strat(True), check_grad_value, quick=40, thorough=2000, x64=True),
    Sub("joint", strat_joint, check_joint, quick=64, thorough=2500, shards=2, x64=True),
    Sub("ingredients", strat_parts, check_parts, quick=400, thorough=15000, x64=True, shards=2,
        cover=[{"kind": k} for k in KINDS]),
    Sub("shapes", strat_shapes, check_shapes, quick=60, thorough=1500, x64=True, shards=2,
        cover=[{"shape": i, "sat": s} for i in range(len(SHAPES)) for s in (False, True)]),
]
