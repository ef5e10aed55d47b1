"""Numerical helper functions satisfy their mathematical definitions."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, all_finite, close, require
from pbt.lazy import Lazy, x64

RULE = (
    "Sigmoids: 24 abscissae (ordinary, far in the tails up to 1e30, equal to the midpoint), midpoints, widths of either sign and limits in either order, compared with a float64 "
    "reference, with the inverse and under reflection. Arrays: scalars, lists, numpy scalars and arrays of any numeric type mixed in any order. Time spacing: irregular and regular tables. Matrices: "
    "dimension 1-8. Non-trivial: curved sigmoid within the sample, mixed scalars and arrays, irregular tables, dimension above 2."
)
ASSUMPTIONS = ["the last cell of a time table is as wide on its right as half the cell before it"]

u = Lazy("diffmah.utils")
N = 24


def eps():
    return 2.3e-16 if x64() else 1.2e-7


def fl(x):
    """the value that the code sees"""
    return np.asarray(x, "f8" if x64() else "f4").astype("f8")


def strat_sig():
    return st.fixed_dictionaries(dict(
        seed=gen.seed(), lgk=gen.uniform(-2, 1.5), negk=st.booleans(),
        far=st.sampled_from([0, 0, 3, 30]), flip=st.booleans(),
        x0=gen.uniform(-20, 20), scale=gen.uniform(-2, 3), off=gen.uniform(-5, 5),
        arrays=st.booleans()))


def sig_args(case):
    rng = np.random.default_rng(case["seed"])
    k = fl(10 ** case["lgk"] * (-1 if case["negk"] else 1))
    x0 = fl(case["x0"])
    x = x0 + rng.uniform(-6, 6, N) / abs(k)
    x[0] = x0
    if case["far"]:
        x[1:6] = rng.choice([-1, 1], 5) * 10.0 ** (case["far"] * rng.uniform(0.3, 1, 5))
    lo = fl(case["off"] * 10 ** case["scale"])
    hi = fl(lo + 10 ** case["scale"] * rng.uniform(0.1, 3))
    if case["flip"]:
        lo, hi = hi, lo
    return fl(np.sort(x)), x0, k, lo, hi


def expit(z):
    e = np.exp(-np.abs(z))
    return np.where(z >= 0, 1 / (1 + e), e / (1 + e))


def check_sig(case, rec):
    x, x0, k, lo, hi = sig_args(case)
    rec.count(N)
    rec.nontrivial()
    z = k * (x - x0)
    want = lo + (hi - lo) * expit(z)
    mag = max(abs(lo), abs(hi))
    # rounding of x-x0 is amplified by the slope
    at = 8 * eps() * (mag + abs(hi - lo) * np.abs(k) * (np.abs(x) + abs(x0)) / (1 + z**2))
    f32 = [np.float64(v) if x64() else np.float32(v) for v in (x0, k, lo, hi)]
    y = u._sigmoid(x.astype("f8" if x64() else "f4"), *f32)
    y = np.asarray(y, "f8")
    all_finite(y, "sigmoid is not finite")
    close(y, want, "sigmoid", atol=at)
    a, b = min(lo, hi), max(lo, hi)
    slack = 4 * eps() * mag
    require((y >= a - slack).all() and (y <= b + slack).all(), "sigmoid is outside its limits")
    d = np.diff(y) * np.sign(k) * np.sign(hi - lo)
    require((d >= -slack).all(), "sigmoid is not monotone")
    if case["arrays"]:  # every argument may be an array
        full = [np.full(N, v) for v in f32]
        close(u._sigmoid(x.astype(y.dtype if x64() else "f4"), *full), y,
              "sigmoid of arrays of parameters differs", atol=slack)
        for i in (0, 5, N - 1):
            close(u._sigmoid(float(x[i]), *[float(v) for v in f32]), y[i],
                  "sigmoid of scalars differs", atol=slack)
    # reflections
    close(u._sigmoid(x, x0, -k, hi, lo), y, "sigmoid is not invariant to exchanging its limits",
          atol=slack + at)
    close(u._sigmoid(x, x0, -k, lo, hi), lo + hi - y, "sigmoid is not symmetric about its midpoint",
          atol=2 * slack + at)
    # inverse, where the curve is resolved
    s = expit(z)
    m = (np.minimum(s, 1 - s) * abs(hi - lo) > 200 * eps() * mag) & (np.abs(z) < 12)
    if m.any():
        back = np.asarray(u._inverse_sigmoid(y[m].astype("f8" if x64() else "f4"), *f32), "f8")
        err = 20 * eps() * (mag / abs(hi - lo) / (s * (1 - s))[m] / abs(k) + np.abs(x[m]) + abs(x0)
                            + 12 / abs(k))
        close(back, x[m], "inverse sigmoid does not invert", atol=err)
        direct = x0 + np.log((y[m] - lo) / (hi - y[m])) / k
        close(back, direct, "inverse sigmoid", atol=err)
        rec.count(int(m.sum()))


def check_slope(case, rec):
    x, x0, k, lo, hi = sig_args(dict(case, far=0))
    rng = np.random.default_rng(case["seed"] + 1)
    xtp, ytp = fl(rng.uniform(-20, 20)), fl(rng.normal() * 10 ** case["scale"])
    y = np.asarray(u._sig_slope(x, xtp, ytp, x0, k, lo, hi), "f8")
    z = k * (x - x0)
    slope = lo + (hi - lo) * expit(z)
    mag = max(abs(lo), abs(hi))
    at = 10 * eps() * ((mag + abs(hi - lo) * abs(k) * (np.abs(x) + abs(x0)) / (1 + z**2))
                       * (np.abs(x - xtp) + abs(xtp) * 1.0 + 1) + abs(ytp))
    rec.count(N)
    rec.nontrivial()
    close(y, ytp + slope * (x - xtp), "line of varying slope", atol=at)
    close(u._sig_slope(float(xtp), float(xtp), float(ytp), float(x0), float(k), float(lo),
                       float(hi)), ytp, "line does not pass through its pivot",
          atol=2 * eps() * abs(ytp))


# ---------------------------------------------------------------- arrays

DTYPES = ["f8", "f4", "i8", "i4", "u1"]


def strat_arrays():
    arg = st.fixed_dictionaries(dict(
        form=st.sampled_from(["float", "int", "npscalar", "list1", "array1", "array", "array",
                              "list", "array0"]),
        dtype=st.sampled_from(DTYPES), seed=gen.seed()))
    return st.fixed_dictionaries(dict(
        n=st.sampled_from([1, 2, 5, 7]), args=st.lists(arg, min_size=1, max_size=5),
        jax=st.booleans(), bad=st.booleans()))


def make_arg(a, n):
    rng = np.random.default_rng(a["seed"])
    big = rng.random() < 0.5

    def draw(size):
        if a["dtype"][0] == "f":
            return (rng.normal(size=size) * 10 ** rng.uniform(-3, 8)).astype(a["dtype"])
        hi = {"i8": 2**52, "i4": 2**30, "u1": 250}[a["dtype"]] if big else 100
        return rng.integers(0, hi, size).astype(a["dtype"])

    f = a["form"]
    if f == "float":
        return float(rng.normal() * 1e5)
    if f == "int":
        return int(rng.integers(-1000, 1000))
    if f == "npscalar":
        return draw(1)[0]
    if f == "array0":
        return np.array(draw(1)[0])
    if f == "list1":
        return draw(1).tolist()
    if f == "array1":
        return draw(1)
    if f == "list":
        return draw(n).tolist()
    return draw(n)


def check_arrays(case, rec):
    import copy

    args = [make_arg(a, case["n"]) for a in case["args"]]
    sizes = [np.size(a) for a in args]
    npts = max(sizes)
    rec.nontrivial(len(set(sizes)) > 1)
    rec.count(len(args))
    jx = case["jax"]
    if jx:  # what jax can hold
        args = [np.asarray(a) if isinstance(a, list) else a for a in args]  # lists are not accepted
        args = [a if np.all(np.abs(np.asarray(a, "f8")) < 2**30) else 7 for a in args]
        sizes = [np.size(a) for a in args]
        npts = max(sizes)
    before = copy.deepcopy(args)
    if case["bad"] and npts > 1:
        try:
            u.get_1d_arrays(*args, np.zeros(npts + 1), jax_arrays=jx)
        except AssertionError:
            pass
        else:
            require(False, "arrays of different lengths are accepted")
    out = u.get_1d_arrays(*args, jax_arrays=jx)
    require(len(out) == len(args), "wrong number of arrays")
    for a, o in zip(args, out):
        require(hasattr(o, "shape") and o.shape == (npts,), "wrong shape", got=str(np.shape(o)))
        require(isinstance(o, np.ndarray) != jx, "wrong kind of array", got=type(o).__name__)
        want = np.broadcast_to(np.asarray(a).reshape(-1), (npts,))
        if jx:
            close(o, want, "value changed", rtol=eps())
        else:
            require(np.array_equal(o, want), "value changed", got=o, want=want)
            if np.asarray(a).dtype.kind == "f":
                require(o.dtype == np.asarray(a).dtype, "type of the values changed")
    for a, b in zip(args, before):
        require(np.array_equal(a, b) and type(a) is type(b), "argument modified")
    if not jx:
        for o in out:  # the result is a copy
            o += 1
        for a, b in zip(args, before):
            require(np.array_equal(a, b), "result shares memory with the argument")


# ---------------------------------------------------------------- time spacing


def strat_dt():
    return st.fixed_dictionaries(dict(
        n=st.integers(2, 40), seed=gen.seed(), kind=st.sampled_from(["uniform", "irregular", "log"]),
        t0=gen.uniform(-5, 5), off=gen.uniform(0, 100), ints=st.booleans()))


def check_dt(case, rec):
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    if case["kind"] == "uniform":
        t = case["t0"] + np.arange(n) * rng.uniform(0.01, 3)
    elif case["kind"] == "log":
        t = np.geomspace(0.1, 14, n)
    else:
        t = case["t0"] + np.cumsum(10 ** rng.uniform(-2, 1, n))
    if case["ints"]:
        t = np.unique(np.round(10 * t).astype(int))
        n = t.size
        if n < 2:
            return
    t1 = t.copy()
    dt = np.asarray(u.get_dt_array(t), "f8")
    require(np.array_equal(t, t1), "times modified")
    require(dt.shape == (n,), "wrong shape")
    rec.count(n)
    rec.nontrivial(case["kind"] != "uniform")
    require((dt > 0).all(), "spacing is not positive")
    g = np.diff(t.astype("f8"))
    at = 1e-12 * np.abs(t).max()
    close(dt[1:-1], 0.5 * (g[1:] + g[:-1]), "spacing between midpoints", atol=at)
    close(dt[0], g[0], "first spacing", atol=at)
    close(dt[-1], 0.5 * g[-1] + 0.5 * dt[-2], "last spacing", atol=at)
    if case["kind"] == "uniform" and not case["ints"]:
        close(dt, np.full(n, g.mean()), "spacing of a regular table is not constant", atol=at)
    close(u.get_dt_array(t * 2), 2 * dt, "spacing does not scale", atol=2 * at)


# ---------------------------------------------------------------- matrices


def strat_mat():
    return st.fixed_dictionaries(dict(
        n=st.integers(1, 8), seed=gen.seed(), zeros=st.booleans(), lgs=gen.uniform(0, 3),
        unit=gen.uniform(-8, 5)))


def check_mat(case, rec):
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    m = n * (n + 1) // 2
    rec.nontrivial(n > 2)
    rec.count(3 * n * n)
    par = fl(rng.normal(size=m) * 10 ** rng.uniform(-2, 2, m))
    L = np.asarray(u.get_cholesky_from_params(np.asarray(par, "f8" if x64() else "f4")), "f8")
    want = np.zeros((n, n))
    want[np.diag_indices(n)] = par[:n]
    want[np.tril_indices(n, -1)] = par[n:]
    require(np.array_equal(L, want), "matrix does not hold its parameters in order", got=L, want=want)
    # correlation and covariance
    A = rng.normal(size=(n, n + 2))
    C = A @ A.T
    if case["zeros"] and n > 2:  # two uncorrelated blocks
        C[:1, 1:] = C[1:, :1] = 0
    sd = np.sqrt(np.diag(C))
    R = C / np.outer(sd, sd)
    np.fill_diagonal(R, 1.0)
    R = fl(R)
    s = fl(10 ** (case["unit"] + rng.uniform(-case["lgs"], case["lgs"], n)))  # in any unit
    cov = np.asarray(u.covariance_from_correlation(R, s), "f8")
    close(cov, R * np.outer(s, s), "covariance of a correlation", rtol=8 * eps())
    close(np.diag(cov), s**2, "variances", rtol=8 * eps())
    back = np.asarray(u.correlation_from_covariance(cov), "f8")
    all_finite(back, "correlation is not finite")
    close(back, R, "correlation of a covariance", atol=12 * eps())
    require((back[R == 0] == 0).all(), "correlation of uncorrelated parameters is not zero")


SUBS = [
    Sub("sigmoid", strat_sig, check_sig, quick=800, thorough=40000),
    Sub("sigmoid_x64", strat_sig, check_sig, quick=800, thorough=40000, x64=True),
    Sub("slope", strat_sig, check_slope, quick=600, thorough=30000),
    Sub("slope_x64", strat_sig, check_slope, quick=600, thorough=30000, x64=True),
    Sub("arrays", strat_arrays, check_arrays, quick=1600, thorough=60000),
    Sub("arrays_x64", strat_arrays, check_arrays, quick=800, thorough=30000, x64=True),
    Sub("spacing", strat_dt, check_dt, quick=1600, thorough=60000),
    Sub("matrices", strat_mat, check_mat, quick=400, thorough=15000),
    Sub("matrices_x64", strat_mat, check_mat, quick=400, thorough=15000, x64=True),
]
