"""Trimmed statistics agree with the definition of trimming."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, close, require
from pbt.lazy import Lazy, x64

RULE = (
    "A case is a sample of 2-200 points (continuous, integers with many ties, constant, two-valued, with outliers up to infinity on either "
    "side, sorted or not, offset and scaled) and a trimming fraction in [0,0.5) for which the number of trimmed points is unambiguous. Oracle: sort, drop "
    "int(n*p) points from each end, mean and unbiased variance in float64 (and scipy.stats.mstats for the mean). Non-trivial: at "
    "least one point is trimmed."
)
ASSUMPTIONS = ["the variance is the unbiased one (n-1)"]

u = Lazy("diffmah.utils")
SIZES = [2, 3, 5, 10, 37, 100, 200]  # few shapes, so that compiled functions are used again


def strat():
    return st.fixed_dictionaries(dict(
        n=st.sampled_from(SIZES), seed=gen.seed(),
        kind=st.sampled_from(["normal", "uniform", "ties", "const", "two", "lognormal"]),
        out=st.sampled_from([0, 0, 1, 3]), lgout=st.one_of(gen.uniform(1, 12), gen.uniform(15, 37), st.just(400.0)), order=st.sampled_from(
            ["random", "random", "up", "down"]),
        off=gen.uniform(-100, 100), scale=gen.uniform(-2, 2),
        p=st.one_of(st.sampled_from([0.0, 0.125, 0.25, 0.375]), gen.uniform(0.0, 0.499)),
        ints=st.booleans()))


def sample(case):
    rng = np.random.default_rng(case["seed"])
    n, k = case["n"], case["kind"]
    x = dict(normal=lambda: rng.normal(size=n), uniform=lambda: rng.random(n),
             ties=lambda: rng.integers(0, 4, n).astype(float), const=lambda: np.ones(n),
             two=lambda: (rng.random(n) < 0.8).astype(float),
             lognormal=lambda: rng.lognormal(0, 1.5, n))[k]()
    x = case["off"] + x * 10 ** case["scale"]
    side = rng.choice([-1, 1])
    for i in rng.choice(n, min(case["out"], n - 1), replace=False):
        x[i] = side * (np.inf if case["lgout"] > 300 else 10 ** case["lgout"] * rng.uniform(1, 2))
    if case["ints"] and k == "ties":
        x = np.round(np.clip(x, -1e6, 1e6)).astype(int)
    if case["order"] != "random":
        x = np.sort(x)[:: 1 if case["order"] == "up" else -1].copy()
    return x if x.dtype.kind == "i" else np.asarray(x, "f8" if x64() else "f4")


def check(case, rec):
    from scipy.stats import mstats

    x = sample(case)
    n, p = x.size, float(case["p"])
    frac = (n * p) % 1.0
    if not (1e-3 < frac < 1 - 1e-3) and p not in (0.0, 0.125, 0.25, 0.375):
        p = p + 2e-3 / n * (1 if frac < 0.5 else 2)
        if p >= 0.5:
            return
    cut = int(n * p)
    kept = np.sort(x.astype("f8"))[cut : n - cut]
    eps = 2.3e-16 if x64() else 1.2e-7
    big = np.abs(kept).max()
    if not big < (1e150 if x64() else 1e15):  # outliers that are not trimmed: the variance overflows
        return
    rec.label("infinite outlier", not np.isfinite(x).all())
    # points that are trimmed contribute exactly nothing
    at = 8 * eps * np.sqrt(n) * big
    rec.nontrivial(cut > 0)
    rec.count(n)
    rec.label("ties", np.unique(x).size < n)
    x1 = x.copy()
    mu = float(u.trimmed_mean(x, p))
    close(mu, kept.mean(), "trimmed mean", atol=at, n=n, p=p)
    ref = float(mstats.trimmed_mean(x.astype("f8"), limits=(p, p)))
    close(mu, ref, "trimmed mean differs from scipy", atol=at, n=n, p=p)
    mu2, var = [float(v) for v in u.trimmed_mean_and_variance(x, p)]
    close(mu2, mu, "the two trimmed means differ", atol=at)
    require(np.array_equal(x, x1), "sample modified")
    if kept.size > 1:
        want = kept.var(ddof=1)
        sd = np.sqrt(want)
        close(var, want, "trimmed variance", n=n, p=p, rtol=30 * eps * np.sqrt(n),
              atol=(4 * at) ** 2 + 8 * at * sd)
        require(var >= 0, "trimmed variance is negative")
    # order, offset and scale of the data
    rng = np.random.default_rng(case["seed"] + 1)
    y = rng.permutation(x)
    a, b = [float(v) for v in u.trimmed_mean_and_variance(y, p)]
    close(a, mu, "trimmed mean depends on the order", atol=2 * at)
    if kept.size > 1:
        close(b, var, "trimmed variance depends on the order", rtol=60 * eps * np.sqrt(n),
              atol=(4 * at) ** 2 + 16 * at * sd)
    close(float(u.trimmed_mean(-x if x.dtype.kind == "i" else -x, p)), -mu,
          "trimmed mean is not odd", atol=2 * at)


SUBS = [
    Sub("trim", strat, check, quick=1400, thorough=50000),
    Sub("trim_x64", strat, check, quick=1400, thorough=50000, x64=True),
]
