"""Gradients of halo histories are correct and finite."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Sub, all_finite, close
from pbt.lazy import Lazy, x64

top = Lazy("diffmah")
dk = Lazy("diffmah.diffmah_kernels")

RULE = (
    "A case is 8 halos, 10 times and a z=0 age; the oracle is the complex-step derivative of an "
    "independent float64 model. Non-trivial: times on both sides of some halo's t_peak."
)
NH, NT = 8, 10
H = 1e-30
_CACHE = {}


def strat():
    h = gen.halo(logm0=(9.0, 16.0), logtc=(-0.9, 0.9), early=(0.2, 9.5), late=(0.12, 4.5),
                 t_peak=(0.4, 19.0))
    return st.fixed_dictionaries(
        dict(halos=gen.vec(h, NH), t=gen.times(NT, 0.1, 15.0), t0=gen.uniform(6.0, 18.0)))


def funcs():
    if not _CACHE:
        import jax
        from jax import numpy as jnp

        def lg_one(p, t, lgt0):
            return top.mah_singlehalo(p, jnp.atleast_1d(t), lgt0)[1][0]

        def rate_one(p, t, lgt0):
            return top.mah_singlehalo(p, jnp.atleast_1d(t), lgt0)[0][0] * 1e9

        def at_one(p, t, lgt0):
            return top.logmh_at_t_obs(p, t, lgt0)

        def lg_u(u, t, lgt0):
            return top.logmh_at_t_obs(dk.get_bounded_mah_params(u), t, lgt0)

        def both(f):
            g = jax.grad(f, argnums=(0, 1))
            g = jax.vmap(jax.vmap(g, in_axes=(None, 0, None)), in_axes=(0, None, None))
            return jax.jit(g)

        def pop(p, t, lgt0):
            return jax.jacfwd(lambda q: top.mah_halopop(q, t, lgt0)[1].sum(axis=0))(p)

        _CACHE.update(lg=both(lg_one), rate=both(rate_one), at=both(at_one), lg_u=both(lg_u),
                      pop=jax.jit(pop))
    return _CACHE


def step(fun, p, t, name):
    q = {k: v.astype("c16") for k, v in p.items()}
    tt = np.broadcast_to(t, (NH, NT)).astype("c16")
    if name == "t":
        tt = tt + 1j * H
    else:
        q[name] = q[name] + 1j * H
    return np.imag(fun(q, tt)) / H


def check(case, rec):
    lgt0 = np.log10(case["t0"])
    halos = case["halos"]
    t = np.array(case["t"])
    P = ref.stack(halos)
    p = top.DiffmahParams(*[ref.column(halos, k) for k in gen.PNAMES])
    tp = P["t_peak"]
    ok = np.abs(t[None, :] - tp) > 1e-4 * tp  # one-sided derivatives at t_peak itself
    rec.nontrivial((t < tp).any() and (t > tp).any())
    rec.label("points before t_peak", n=int((t < tp).sum()))
    rec.label("points after t_peak", n=int((t > tp).sum()))
    rec.count(ok.sum() * 18)
    rtol = 1e-8 if x64() else 2e-4
    f = funcs()

    def lg(q, tt):
        return ref.log_mah(q, tt, lgt0)

    def rate(q, tt):
        return ref.dmhdt(q, tt, lgt0) * 1e9

    g_lg, g_at = f["lg"](p, t, lgt0), f["at"](p, t, lgt0)
    total = {}
    for i, k in enumerate(gen.PNAMES):
        want = step(lg, P, t, k)
        total[k] = np.where(ok, want, 0)
        for g, what in ((g_lg, "history"), (g_at, "mass at a time")):
            got = np.asarray(g[0][i])
            all_finite(got, f"gradient of the {what} w.r.t. {k} is not finite")
            close(np.where(ok, got, 0), np.where(ok, want, 0),
                  f"gradient of the {what} w.r.t. {k} is wrong", rtol=rtol, atol=10 * rtol)
    want = step(lg, P, t, "t")
    for g, what in ((g_lg, "history"), (g_at, "mass at a time")):
        got = np.asarray(g[1])
        close(np.where(ok, got, 0), np.where(ok, want, 0),
              f"gradient of the {what} w.r.t. time is wrong", rtol=rtol, atol=10 * rtol)
    # rates: relative to the mass scale, since they span many decades
    g_r = f["rate"](p, t, lgt0)
    scale = 10 ** np.real(lg(P, t[None, :])) / t
    scale = np.where(scale > 1e-20, scale, np.inf)
    for i, k in enumerate(gen.PNAMES):
        want = step(rate, P, t, k) / scale
        got = np.asarray(g_r[0][i], dtype="f8") / scale
        all_finite(got, f"gradient of the rate w.r.t. {k} is not finite")
        close(np.where(ok, got, 0), np.where(ok, want, 0),
              f"gradient of the accretion rate w.r.t. {k} is wrong",
              rtol=10 * rtol, atol=30 * rtol)
    # through the population function
    if ok.all():
        g_p = f["pop"](p, t, lgt0)
        for i, k in enumerate(gen.PNAMES):
            close(np.asarray(g_p[i]).T, total[k],
                  f"gradient of the population history w.r.t. {k} is wrong",
                  rtol=rtol, atol=10 * rtol)


def check_u(case, rec):
    """Chain rule through the unbounded parameters."""
    lgt0 = np.log10(case["t0"])
    halos = case["halos"]
    t = np.array(case["t"])
    P = ref.stack(halos)
    p = top.DiffmahParams(*[ref.column(halos, k) for k in gen.PNAMES])
    u = dk.get_unbounded_mah_params(p)
    g = funcs()["lg_u"](u, t, lgt0)
    ok = np.abs(t[None, :] - P["t_peak"]) > 1e-3 * P["t_peak"]
    rec.nontrivial((t < P["t_peak"]).any() and (t > P["t_peak"]).any())
    d = {k: step(lambda q, tt: ref.log_mah(q, tt, lgt0), P, t, k) for k in gen.PNAMES}

    def slope(k, lo, hi):
        x = P[k]
        return 0.1 * (x - lo) * (hi - x) / (hi - lo)

    B = gen.BOUNDS
    want = {k: d[k] * slope(k, *B[k]) for k in ("logm0", "logtc", "t_peak")}
    e, la = P["early_index"], P["late_index"]
    hi = B["early_index"][1]
    want["early_index"] = d["early_index"] * 0.1 * (e - la) * (hi - e) / (hi - la)
    dlate = slope("late_index", *B["late_index"])
    want["late_index"] = dlate * (d["late_index"] + d["early_index"] * (hi - e) / (hi - la))
    rec.count(NH * NT * 5)
    tol = dict(rtol=1e-7, atol=1e-7) if x64() else dict(rtol=3e-3, atol=3e-3)
    for i, k in enumerate(gen.PNAMES):
        got = np.asarray(g[0][i])
        all_finite(got, f"gradient w.r.t. u_{k} is not finite")
        close(np.where(ok, got, 0), np.where(ok, want[k], 0),
              f"gradient of the history w.r.t. u_{k} is wrong", **tol)


SUBS = [
    Sub("grads_x64", strat, check, quick=450, thorough=5000, x64=True),
    Sub("grads_f32", strat, check, quick=450, thorough=5000),
    Sub("ugrads_x64", strat, check_u, quick=450, thorough=3000, x64=True),
    Sub("ugrads_f32", strat, check_u, quick=300, thorough=3000),
]
