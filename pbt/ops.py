"""Calls of the library, one per public task, described by a name, a seed and an array type.

``call(name, seed, kind)`` -> (answer as a list of arrays, arguments, copy of the arguments)
"""

import copy
import io
import os
import tempfile

import numpy as np

from . import gen, popmodel, pops
from .lazy import Lazy

top = Lazy("diffmah")
dk = Lazy("diffmah.diffmah_kernels")
fh = Lazy("diffmah.fitting_helpers.diffmah_fitter_helpers")
fu = Lazy("diffmah.fitting_helpers.fit_utils")
bw = Lazy("diffmah.fitting_helpers.bfgs_wrapper")
mm = Lazy("diffmah.fitting_helpers.measure_mahs")
io_utils = Lazy("diffmah.data_loaders.io_utils")
utils = Lazy("diffmah.utils")
full = Lazy("diffmah.diffmahpop_kernels.bimod_censat_params")
tng = Lazy("diffmah.data_loaders.load_tng_mahs")
pub = Lazy("diffmah.data_loaders.load_diffmah_pub_data")
gal = Lazy("diffmah.data_loaders.load_galacticus_eps_mahs")
targets = Lazy("diffmah.diffmahpop_kernels.load_diffmahpop_fitdata")
flex = Lazy("diffmah.diffmahpop_kernels.t_peak_kernels.tp_pdf_cens_flex")
old = Lazy("diffmah.diffmahpop_kernels.t_peak_kernels.tp_pdf_cens")
satp = Lazy("diffmah.diffmahpop_kernels.t_peak_kernels.tp_pdf_sats")

KINDS = ["f8", "f4", "jax"]


def flat(x):
    """answer -> list of float arrays"""
    if x is None:
        return [np.zeros(0)]
    if isinstance(x, (bool, int, float, np.generic)):
        return [np.asarray(x, "f8")]
    if isinstance(x, str):
        return [np.frombuffer(x.encode(), "u1").astype("f8")]
    if isinstance(x, dict):
        return [a for k in sorted(x) for a in flat(x[k])]
    if isinstance(x, (tuple, list)):
        return [a for v in x for a in flat(v)]
    return [np.asarray(x, "f8")]


def _params(rng):
    late = rng.uniform(0.12, 3.0)
    return dk.DEFAULT_MAH_PARAMS._replace(
        logm0=float(rng.uniform(10, 15.5)), logtc=float(rng.uniform(-0.6, 0.9)),
        early_index=float(rng.uniform(late, 8.0)), late_index=float(late),
        t_peak=float(rng.uniform(3, 14)))


def _arr(x, kind):
    if kind == "jax":
        from jax import numpy as jnp

        return jnp.asarray(x)
    return np.asarray(x, kind)


def _single(rng, kind):
    p = _params(rng)
    return top.mah_singlehalo, (p, _arr(np.sort(rng.uniform(0.3, 13.5, 7)), kind), np.log10(13.8))


def _halopop(rng, kind):
    ps = [_params(rng) for _ in range(4)]
    p = dk.DEFAULT_MAH_PARAMS._make([_arr([float(q[i]) for q in ps], kind) for i in range(5)])
    return top.mah_halopop, (p, _arr(np.sort(rng.uniform(0.3, 13.5, 7)), kind), np.log10(13.8))


def _at_tobs(rng, kind):
    ps = [_params(rng) for _ in range(4)]
    p = dk.DEFAULT_MAH_PARAMS._make([_arr([float(q[i]) for q in ps], kind) for i in range(5)])
    return top.logmh_at_t_obs, (p, _arr(rng.uniform(0.3, 13.5, 4), kind), np.log10(13.8))


def _transform(rng, kind):
    def f(p):
        u = dk.get_unbounded_mah_params(p)
        return u, dk.get_bounded_mah_params(u)

    return f, (_params(rng),)


def _sim(rng, kind, n=20):
    t = np.linspace(0.5, 13.8, n)
    steps = rng.uniform(0, 0.2, n) * (rng.random(n) < 0.7)
    lg = rng.uniform(11, 14.5) - steps[::-1].cumsum()[::-1] + steps[-1]
    lg[rng.integers(1, n - 1)] -= 0.1
    return _arr(t, "f8"), _arr(10**lg, "f8")


def _fit(rng, kind):
    t, mah = _sim(rng, kind)

    def f(t, mah):
        r = top.diffmah_fitter(t, mah, lgm_min=8.0, dlogm_cut=5.0, t_fit_min=0.1)
        return r.p_best, r.loss_best, r.fit_terminates, r.code_used, r.skip_fit

    return f, (t, mah)


def _fit_skip(rng, kind):
    t, mah = _sim(rng, kind)

    def f(t, mah):
        r = top.diffmah_fitter(t, mah, lgm_min=20.0)
        return fh.get_outline(r, halo_id=7)

    return f, (t, mah)


def _loss(rng, kind):
    t, mah = _sim(rng, kind)

    def f(t, mah):
        u, data, skip = fh.get_loss_data(t, mah, lgm_min=8.0, dlogm_cut=5.0, t_fit_min=0.1)
        return u, fh.log_mah_loss_uparams(u, data), skip

    return f, (t, mah)


def _adam(rng, kind):
    from jax import jit, numpy as jnp, value_and_grad

    a = rng.normal(size=3)

    def loss(p, d):
        return jnp.sum((jnp.array(p) - d) ** 2)

    g = _CACHE.setdefault("adam", jit(value_and_grad(loss)))

    def f(p, d):
        r = fu.jax_adam_wrapper(g, p, d, 60, n_warmup=1, step_size=0.02)
        return r[0], r[1], r[-1]

    return f, (_arr(rng.normal(size=3), "jax" if kind == "jax" else "f4"),
               _arr(a, "jax" if kind == "jax" else "f4"))


def _bfgs(rng, kind):
    from collections import namedtuple

    from jax import jit, numpy as jnp, value_and_grad

    T = _CACHE.setdefault("T", namedtuple("T", "a b c"))

    def loss(p, d):
        p = T(*p)  # the optimizers pass an array
        return (p.a - d[0]) ** 2 + (p.b - d[1]) ** 2 + 0.1 * (p.c - d[2]) ** 2

    g = _CACHE.setdefault("bfgs", jit(value_and_grad(loss)))

    def f(p, d):
        return bw.bfgs_adam_fallback(g, p, d)

    return f, (T(*[float(x) for x in rng.normal(size=3)]),
               _arr(rng.normal(size=3), "jax" if kind == "jax" else "f4"))


_CACHE = {}
NH = 6


def _popargs(rng, kind):
    p = pops.make_params(dict(seed=int(rng.integers(1000)), spread=0.5, edge=0.0,
                              scatter="moderate"))
    return (p, _arr(rng.uniform(11, 15, NH), kind), _arr(rng.uniform(3, 13, NH), kind),
            pops.key(int(rng.integers(1 << 20))), pops.LGT0)


def _mcpars(sat):
    def op(rng, kind):
        return pops.params_pop(sat), _popargs(rng, kind)

    return op


def _mcpars_tpeak(sat):
    def op(rng, kind):
        a = _popargs(rng, kind)
        return pops.params_pop(sat), (*a, _arr(rng.uniform(1, 10, NH), kind))

    return op


def _mcpop(sat):
    def op(rng, kind):
        p, m, t, k, lgt0 = _popargs(rng, kind)
        return pops.history_pop(sat), (p, _arr(np.linspace(0.5, 13.8, 5), kind), m, t, k, lgt0)

    return op


def _moments(sat):
    def op(rng, kind):
        p, m, t, k, lgt0 = _popargs(rng, kind)
        return pops.moments(sat), (p, _arr(np.linspace(0.5, 13.8, 5), kind), float(m[0]),
                                   float(t[0]), k, lgt0)

    return op


def _popu(rng, kind):
    def f(p):
        u = full.get_diffmahpop_u_params_from_params(p)
        return u, full.get_diffmahpop_params_from_u_params(u), full.get_component_model_params(p)

    return f, (pops.make_params(dict(seed=int(rng.integers(1000)), spread=1.0, edge=0.0,
                                     scatter="any")),)


def _ingredient(rng, kind):
    path = popmodel.PARTS[rng.integers(len(popmodel.PARTS))]
    c = popmodel.component(path)
    p = c.P(**popmodel.random_values({n: c.bound(n) for n in c.P._fields}, rng))

    def f(p):
        u = c.to_u(p)
        return u, c.to_p(u)

    return f, (p,)


def _measure(rng, kind):
    k = "f8" if kind == "jax" else kind
    lgt = np.linspace(-0.3, 1.14, 12)
    lgm = 12 + np.cumsum(rng.uniform(0.01, 0.3, (9, 12)), axis=1)
    mah = _arr(10**lgm, k)
    rate = _arr(10 ** (lgm - 9.5) * rng.uniform(0.5, 2, (9, 12)), k)
    return mm.measure_target_data, (mah, rate, lgt, lgt[2:-2] + 0.01, 12.5)


def _clean(rng, kind):
    k = "f8" if kind == "jax" else kind
    lgm = 12 + np.cumsum(rng.uniform(0.01, 0.3, (40, 6)), axis=1)
    return mm.get_clean_sample_mask, (_arr(lgm, k), 12.5, 1)


def _trim(rng, kind):
    return utils.trimmed_mean_and_variance, (_arr(rng.normal(size=20), kind), 0.13)


def _dt(rng, kind):
    k = "f8" if kind == "jax" else kind
    return utils.get_dt_array, (_arr(np.sort(rng.uniform(0, 14, 9)), k),)


def _arrays(rng, kind):
    k = "f8" if kind == "jax" else kind
    return utils.get_1d_arrays, (float(rng.normal()), _arr(rng.normal(size=4), k), 3)


def _hdf5(rng, kind):
    import h5py

    data = {f"x{i}": rng.normal(size=(7, 2)) for i in range(3)}

    def f(data):
        with tempfile.TemporaryDirectory() as d:
            fn = os.path.join(d, "f.h5")
            with h5py.File(fn, "w") as h:
                for k, v in data.items():
                    h[k] = v
            return io_utils.load_flat_hdf5(fn, istart=2, iend=6, keys=["x0", "x2"])

    return f, (data,)


def _hdf5_group(rng, kind):
    """columns asked for by name, inside a group or not"""
    import h5py

    data = {f"x{i}": rng.normal(size=7) for i in range(4)}
    keys = ["x3", "x0"]
    group = "g" if rng.random() < 0.7 else None

    def f(data, keys):
        with tempfile.TemporaryDirectory() as d:
            fn = os.path.join(d, "f.h5")
            with h5py.File(fn, "w") as h:
                for k, v in data.items():
                    h[f"{group}/{k}" if group else k] = v
            out = io_utils.load_flat_hdf5(fn, keys=keys, dataset=group)
            return list(out), out

    return f, (data, keys)


def _catalog(rng, kind):
    """catalog loaders on files, and the files afterwards"""
    k = "f4" if kind == "f4" else "f8"
    lg = 12 + np.cumsum(rng.normal(0.1, 0.2, (5, 8)), axis=1)
    t = np.sort(rng.uniform(0.3, 13.8, 8))

    def f(lg, t):
        with tempfile.TemporaryDirectory() as d:
            h = np.zeros(5, dtype=[("mpeak", k), ("mpeakh", k, (8,))])
            h["mpeakh"], h["mpeak"] = lg, lg.max(axis=1)
            fn = os.path.join(d, "tng_diffmah.npy")
            np.save(fn, h)
            np.save(os.path.join(d, "tng_cosmic_time.npy"), t)
            before = open(fn, "rb").read()
            out = tng.load_tng_data(data_drn=d), pub.load_tng_data(data_drn=d)
            assert open(fn, "rb").read() == before, "catalog file was changed"
            return out

    return f, (lg, t)


def _galacticus(rng, kind):
    import h5py

    mah = [np.sort(10 ** rng.uniform(9, 14, 6)) for _ in range(5)]
    times = [np.sort(rng.uniform(0.5, 13.8, 6)) for _ in range(5)]

    def f(mah, times):
        with tempfile.TemporaryDirectory() as d:
            fn = os.path.join(d, "g.hdf5")
            with h5py.File(fn, "w") as h:
                g = h.create_group("Outputs/Output1/nodeData")
                for name, x in (("haloAccretionHistoryMass", mah),
                                ("haloAccretionHistoryTime", times)):
                    ds = g.create_dataset(name, (5,), dtype=h5py.vlen_dtype(np.float64))
                    for i in range(5):
                        ds[i] = x[i]
                g["nodeIsIsolated"] = np.arange(5) % 2
                g["basicTimeLastIsolated"] = np.linspace(1, 13, 5)
            out = gal.extract_galacticus_mah_tables(fn, istart=1, iend=4)
            return [list(x) if getattr(x, "dtype", None) == object else x for x in out]

    return f, (mah, times)


def _rescale(rng, kind):
    k = "f8" if kind == "jax" else kind
    return targets.rescale_target_log_mahs, (
        _arr(12 + np.cumsum(rng.uniform(0, 0.3, (4, 6)), axis=1), k), _arr(rng.uniform(11, 15, 4), k))


def _correlation(rng, kind):
    a = rng.normal(size=(4, 6))
    c = a @ a.T
    sd = np.sqrt(np.diag(c))

    def f(r, s, c):
        return utils.covariance_from_correlation(r, s), utils.correlation_from_covariance(c)

    return f, (_arr(c / np.outer(sd, sd), kind), _arr(sd, kind), _arr(c, kind))


def _cholesky(rng, kind):
    return utils.get_cholesky_from_params, (_arr(rng.normal(size=6), "jax" if kind == "jax" else "f4"),)


def _tpeaks(rng, kind):
    """stand-alone generators of t_peak"""
    m, t = _arr(rng.uniform(11, 15, NH), kind), _arr(rng.uniform(3, 13, NH), kind)
    key = pops.key(int(rng.integers(1 << 20)))
    pf = _values("t_peak_kernels.tp_pdf_cens_flex", rng)
    ps = _values("t_peak_kernels.tp_pdf_sats", rng)
    po = _values("t_peak_kernels.tp_pdf_cens", rng)

    def f(pf, ps, po, m, t, key):
        return (flex.mc_t_peak_cenpop(pf, m, t, key, 13.8), satp.mc_tpeak_sats(ps, key, m, t),
                old.mc_tpeak_cens(po, key, m, t, 13.8))

    return f, (pf, ps, po, m, t, key)


def _values(path, rng):
    c = popmodel.component(path)
    return c.P(**popmodel.random_values({n: c.bound(n) for n in c.P._fields}, rng))


def _poploss(sat):
    def op(rng, kind):
        p, m, t, k, lgt0 = _popargs(rng, kind)
        tarr = np.array([np.linspace(0.8, 9.0, 5), np.linspace(0.6, 12.0, 5)])
        tab = [_arr(x, kind) for x in (tarr, rng.uniform(12, 14, 2), tarr[:, -1])]
        want = [_arr(rng.uniform(lo, hi, (2, 5)), kind) for lo, hi in ((11, 13), (0.2, 1), (0, 1))]
        return pops.fithelp(sat).loss_mah_moments_multibin, (p, *tab, k, lgt0, *want)

    return op


def _named(rng, kind):
    p = _params(rng)

    def f(p):
        with tempfile.TemporaryDirectory() as d:
            fn = os.path.join(d, "f.h5")
            io_utils.write_namedtuple_to_hdf5(p, fn)
            q = io_utils.load_namedtuple_from_hdf5(fn)
            return {k: getattr(q, k) for k in q._fields}

    return f, (p,)


def _collate(rng, kind):
    import h5py

    ps = [_params(rng) for _ in range(3)]

    def f(ps):
        with tempfile.TemporaryDirectory() as d:
            fn = os.path.join(d, "f.h5")
            rows = np.array([[str(7 * i)] + [f"{float(v):.5e}" for v in p] + ["1e-3", "20", "0"]
                             for i, p in enumerate(ps)])
            fh.write_collated_data(fn, rows)
            with h5py.File(fn, "r") as h:
                return {k: h[k][...] for k in h}

    return f, (ps,)


OPS = dict(
    single=_single, halopop=_halopop, at_tobs=_at_tobs, transform=_transform, fit=_fit,
    fit_skip=_fit_skip, loss=_loss, adam=_adam, bfgs=_bfgs, cen_params=_mcpars(False),
    sat_params=_mcpars(True), cen_params_tp=_mcpars_tpeak(False),
    sat_params_tp=_mcpars_tpeak(True), cenpop=_mcpop(False), satpop=_mcpop(True),
    cen_moments=_moments(False), sat_moments=_moments(True), pop_u=_popu,
    ingredient=_ingredient, measure=_measure, clean=_clean, trim=_trim, dt=_dt, arrays=_arrays,
    hdf5_group=_hdf5_group, catalog=_catalog, galacticus=_galacticus, rescale=_rescale,
    correlation=_correlation, cholesky=_cholesky, t_peaks=_tpeaks, cen_loss=_poploss(False),
    sat_loss=_poploss(True), hdf5=_hdf5, named=_named, collate=_collate,
)


def snapshot(x):
    """deep copy of arguments, arrays as numpy"""
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return (type(x).__name__, [snapshot(v) for v in x])
    if isinstance(x, (tuple, list)):
        return [snapshot(v) for v in x]
    if hasattr(x, "dtype"):
        return np.array(x)
    return copy.copy(x)


def equal(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(map(equal, a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape \
            and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    return type(a) is type(b) and (a == b or a is b or a != a)


def _leaf(x, how):
    """a float array or number changed in one respect, alike in all others"""
    if isinstance(x, float):
        return x * 1.001 if how != "middle" else x
    if not hasattr(x, "dtype") or np.dtype(x.dtype).kind not in "fu" or not x.ndim:
        return x
    a = np.array(x)
    n = a.shape[0]
    if a.dtype.kind == "u":  # a key
        if how == "last":
            a[-1] += 1
    elif how == "middle":
        if n > 2:
            a[1:-1] += (0.3 * (a[2:] - a[1:-1])).astype(a.dtype)
    elif how == "first":
        a[0] -= 0.2 * np.abs(a[1] - a[0] if n > 1 else a[0])
    elif how == "last":
        a[-1] += 0.2 * np.abs(a[-1] - a[-2] if n > 1 else a[-1])
    elif how == "swap" and n > 3:
        a[[1, 2]] = a[[2, 1]]
    if isinstance(x, np.ndarray):
        return a
    from jax import numpy as jnp

    return jnp.asarray(a)


def vary(x, how):
    if isinstance(x, dict):
        return {k: vary(v, how) for k, v in x.items()}
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return x._make([vary(v, how) for v in x])
    if isinstance(x, (tuple, list)):
        return type(x)(vary(v, how) for v in x)
    return _leaf(x, how)


VARIANTS = ["middle", "first", "last", "swap", "one", "other"]


def call(name, seed, kind, variant=None):
    rng = np.random.default_rng([seed, 17])
    f, args = OPS[name](rng, kind)
    if variant == "one":  # only the first argument differs
        args = (vary(args[0], "last"), *args[1:])
    elif variant == "other":  # only the first argument is the same
        args = (args[0], *[vary(a, "last") for a in args[1:]])
    elif variant is not None:
        args = vary(args, variant)
    before = snapshot(args)
    out = flat(f(*args))
    return out, equal(snapshot(args), before)


def module_state():
    """the constants and defaults of every module of the package"""
    import sys

    state = {}
    for mn, m in sorted(sys.modules.items()):
        if m is None or not (mn == "diffmah" or mn.startswith("diffmah.")):
            continue
        for k, v in vars(m).items():
            if k.upper() == k and not k.startswith("__") \
                    and isinstance(v, (dict, tuple, list, float, int, str, np.ndarray)):
                state[mn + "." + k] = snapshot(v)
    return state


def main():
    """one call in a fresh process: name seed kind -> npz on stdout"""
    import sys

    res, _ = call(sys.argv[1], int(sys.argv[2]), sys.argv[3])
    buf = io.BytesIO()
    np.savez(buf, **{f"a{i:05d}": a for i, a in enumerate(res)})
    sys.stdout.buffer.write(b"\nANSWER" + buf.getvalue())
