"""The scatter of halo parameters has the predicted, valid covariance."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, popmodel, popref, pops
from pbt.core import Sub, all_finite, close, require
from pbt.lazy import Lazy, x64

RULE = (
    "A case is a set of scatter parameters inside their bounds (some at a bound, some correlations exactly zero), halo masses "
    "10^9-10^16.5, and for the generated scatter a complete model with 4000 halos. The covariance is compared with a float64 reference, with its "
    "limits at low and high mass and with the sample covariance of the generated scatter "
    "(6.5 standard errors of every entry). Non-trivial: standard deviations differ between low and high mass."
)
ASSUMPTIONS = ["a correct generator exceeds 6.5 standard errors with probability below 1e-10 per entry"]

ck = Lazy("diffmah.diffmahpop_kernels.covariance_kernels")
COV = "covariance_kernels"


def strat():
    return st.fixed_dictionaries(dict(
        seed=gen.seed(), edge=st.sampled_from([0.0, 0.0, 0.5, 1.0]), nzero=st.integers(0, 6),
        same=st.booleans(), full=st.booleans()))


def check(case, rec):
    rng = np.random.default_rng(case["seed"])
    c = popmodel.component(COV)
    v = popmodel.random_values({n: c.bound(n) for n in c.P._fields}, rng, edge=case["edge"])
    for n in rng.choice(popref.RHO, case["nzero"], replace=False):
        v[str(n)] = 0.0
    for n in popref.FOUR:
        if case["same"]:  # extreme contrast between parameters
            v[f"std_u_{n}_ylo"] = float(np.exp(rng.uniform(np.log(0.011), np.log(99))))
            v[f"std_u_{n}_yhi"] = float(np.exp(rng.uniform(np.log(0.011), np.log(99))))
    p = c.P(**v)
    if case["full"]:  # the covariance is also evaluated on the complete model
        p = popmodel.full().DEFAULT_DIFFMAHPOP_PARAMS._replace(**v)
    pm = popref.pmap(p)
    lgm = np.concatenate([rng.uniform(9, 16.5, 6), [9.0, 16.5]])
    rt = 1e-9 if x64() else 2e-5
    many = np.asarray(ck._get_diffmahpop_cov_vmap(p, lgm), "f8")
    rec.count(len(lgm))
    rec.nontrivial(any(abs(np.log(v[f"std_u_{n}_ylo"] / v[f"std_u_{n}_yhi"])) > 0.1
                       for n in popref.FOUR))
    for i, m in enumerate(lgm):
        C = np.asarray(ck._get_diffmahpop_cov(p, float(m)), "f8")
        require(C.shape == (4, 4), "wrong shape of the covariance")
        all_finite(C, "covariance is not finite")
        want = popref.cov(pm, m)
        s = np.sqrt(np.diag(want))
        # rounding relative to the larger of the two limits
        big = np.array([max(v[f"std_u_{n}_ylo"], v[f"std_u_{n}_yhi"]) for n in popref.FOUR]) / s
        at = rt * (1 + 0.2 * (big[:, None] + big[None, :]))
        close(C / np.outer(s, s), want / np.outer(s, s), "covariance", atol=at)
        close(many[i] / np.outer(s, s), C / np.outer(s, s),
              "covariance of several masses differs", atol=at)
        close(C, C.T, "covariance is not symmetric", rtol=1e-12 if x64() else 2e-6)
        sd = np.sqrt(np.diag(C))
        w = np.linalg.eigvalsh(C / np.outer(sd, sd))
        require(w.min() > 0.02, "covariance is not positive definite", eigenvalues=w)
        require(np.isfinite(np.linalg.cholesky(C)).all(), "covariance has no factor")
        for k, n in enumerate(popref.FOUR):
            lo, hi = sorted([v[f"std_u_{n}_ylo"], v[f"std_u_{n}_yhi"]])
            require(lo * (1 - 1e-5) - 2e-6 * hi <= sd[k] <= hi * (1 + 1e-5),
                    "standard deviation is outside its limits", name=n)
    # far from the transition the limits are reached
    for m, end in ((-50.0, "ylo"), (80.0, "yhi")):
        C = np.asarray(ck._get_diffmahpop_cov(p, m), "f8")
        for k, n in enumerate(popref.FOUR):
            lo, hi = v[f"std_u_{n}_ylo"], v[f"std_u_{n}_yhi"]
            close(np.sqrt(C[k, k]), v[f"std_u_{n}_{end}"], "limit of the standard deviations",
                  rtol=1e-4, atol=2e-6 * max(lo, hi), name=n)


N = 4000


def strat_sample(sat):
    return lambda: st.fixed_dictionaries(dict(
        params=st.fixed_dictionaries(dict(
            seed=gen.seed(), spread=st.sampled_from([0.0, 0.5, 1.0]), edge=st.just(0.0),
            scatter=st.just("moderate"))),
        key=gen.seed(), m=gen.uniform(11.0, 15.0), t=gen.uniform(2.0, 13.8), sat=st.just(sat),
        given=st.booleans()))


def check_sample(case, rec):
    p = pops.make_params(case["params"])
    pm = popref.pmap(p)
    sat = case["sat"]
    lgm, t = np.full(N, case["m"]), np.full(N, case["t"])
    tp = np.full(N, 0.8 * case["t"]) if case["given"] else None
    h = pops.params_pop(sat)(p, lgm, t, pops.key(case["key"]), pops.LGT0, tp)
    want = popref.cov(pm, case["m"])
    s = np.sqrt(np.diag(want))
    rec.count(2 * N)
    rec.nontrivial()
    for kind in ("early", "late"):
        d = popref.as_dict(getattr(h, "mah_params_" + kind))
        mean = popref.to_u(popref.mean_params(pm, kind, sat, lgm, t, d["t_peak"]))
        x = (popref.to_u(d) - mean) / s
        what = ("satellites" if sat else "centrals") + "/" + kind
        z = x.mean(axis=0) * np.sqrt(N)
        require((np.abs(z) < 6.5).all(), f"{what}: scatter is not centred on the mean relation",
                z=z)
        C = x.T @ x / N
        R = want / np.outer(s, s)
        se = np.sqrt((1 + R**2) / N)
        z = (C - R) / se
        require((np.abs(z) < 6.5).all(), f"{what}: scatter does not have the predicted covariance",
                got=C, want=R)
        # gaussian tails
        k = (x**4).mean(axis=0)
        require((np.abs(k - 3) < 6.5 * np.sqrt(96.0 / N) * 2).all(),
                f"{what}: scatter is not gaussian", kurtosis=k)


SUBS = [
    Sub("covariance", strat, check, quick=150, thorough=6000, shards=2),
    Sub("covariance_x64", strat, check, quick=150, thorough=6000, shards=2, x64=True),
    Sub("sample_centrals", strat_sample(False), check_sample, quick=80, thorough=4000, x64=True),
    Sub("sample_satellites", strat_sample(True), check_sample, quick=80, thorough=4000, x64=True),
]
