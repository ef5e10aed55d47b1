"""Targets measured from simulated histories are their moments."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, close, require
from pbt.lazy import Lazy

RULE = (
    "A case is a sample of 3-60 halos on 4-30 snapshots whose masses grow, stall and dip, with rates of "
    "both signs but positive mean, a target mass and target times (at, between and beyond snapshots); for the mask also outliers of chosen size. "
    "Oracle: moments computed halo by halo in float64, and a direct trimmed z-score. Non-trivial: target times between snapshots; a mask that removes some but not all halos."
)
ASSUMPTIONS = ["between snapshots the tabulated moments are interpolated in log time, all but the scatter of log-mass in the log"]

mm = Lazy("diffmah.fitting_helpers.measure_mahs")


def strat():
    return st.fixed_dictionaries(dict(
        nh=st.integers(2, 60), nt=st.integers(4, 30), seed=gen.seed(), logmp=gen.uniform(10.5, 15.5),
        lgm0=gen.uniform(10, 15), spread=st.sampled_from([0.02, 0.3, 1.0]),
        dips=st.sampled_from([0.0, 0.3]), f32=st.booleans(), order=gen.seed()))


def histories(case):
    rng = np.random.default_rng(case["seed"])
    nh, nt = case["nh"], case["nt"]
    lgt = np.sort(np.log10(rng.uniform(0.3, 13.8, nt)))
    lgt += 1e-3 * np.arange(nt)
    grow = np.diff(lgt, prepend=lgt[0] - 0.1) * rng.uniform(0.5, 4, (nh, 1))
    grow *= np.where(rng.random((nh, nt)) < 0.2, 0.0, rng.uniform(0.5, 1.5, (nh, nt)))
    grow = np.where(rng.random((nh, nt)) < case["dips"], -0.2 * grow, grow)
    lgm = np.cumsum(grow, axis=1)
    lgm = lgm - lgm[:, -1:] + case["lgm0"] + rng.normal(0, case["spread"], (nh, 1))
    mah = 10**lgm
    rate = mah / 10**lgt / 1e9 * rng.uniform(0.05, 3, (nh, nt))
    rate = np.where(rng.random((nh, nt)) < case["dips"] * 0.3, -0.05 * rate, rate)
    # the mean rate of every snapshot is positive
    mask = (rate / mah[:, -1:]).mean(axis=0) <= 0
    rate[:, mask] = np.abs(rate[:, mask])
    return lgt, mah, rate, rng


def check(case, rec):
    lgt, mah, rate, rng = histories(case)
    nt = lgt.size
    if case["f32"]:
        mah, rate = mah.astype("f4"), rate.astype("f4")
    m, r = mah.astype("f8"), rate.astype("f8")
    lgmp = case["logmp"]
    inner = lgt[0] + (lgt[-1] - lgt[0]) * rng.random(6)
    tgt = np.concatenate([lgt, inner, [lgt[0] - 0.3, lgt[-1] + 0.1]])
    tgt = rng.permutation(tgt)
    before = [x.copy() for x in (mah, rate, lgt, tgt)]
    out = mm.measure_target_data(mah, rate, lgt, tgt, lgmp)
    for a, b in zip((mah, rate, lgt, tgt), before):
        require(np.array_equal(a, b), "input modified")
    require(len(out) == 5, "five moments expected")
    rec.count(5 * tgt.size)
    rec.nontrivial()
    f = 10**lgmp / m[:, -1:]
    x, y = f * m, f * r
    n = x.shape[0]
    table = [
        x.sum(axis=0) / n,
        np.log10(x).sum(axis=0) / n,
        np.sqrt(((np.log10(x) - np.log10(x).mean(axis=0)) ** 2).sum(axis=0) / n),
        y.sum(axis=0) / n,
        np.sqrt(((y - y.mean(axis=0)) ** 2).sum(axis=0) / n),
    ]
    names = ["mean mass", "mean log-mass", "variance of log-mass", "mean accretion rate",
             "variance of accretion rate"]
    rt = 1e-3 if case["f32"] else 1e-9

    def interp(t, v):
        """piecewise linear, constant beyond the ends, one point at a time"""
        res = []
        for s in t:
            j = int(np.searchsorted(lgt, s))
            if j == 0:
                res.append(v[0])
            elif j == nt:
                res.append(v[-1])
            else:
                w = (s - lgt[j - 1]) / (lgt[j] - lgt[j - 1])
                res.append((1 - w) * v[j - 1] + w * v[j])
        return np.array(res)

    for i, (o, v, name) in enumerate(zip(out, table, names)):
        if i == 2:
            want = interp(tgt, v) ** 2
        else:
            want = 10 ** interp(tgt, np.log10(v))
            if i == 4:
                want = want**2
        # a scatter much below the mean carries its rounding
        at = 0.0
        if i == 2:
            at = 1e-5 if case["f32"] else 1e-13
        if i in (3, 4) and case["f32"]:
            at = 1e-4 * (np.abs(y).max() if i == 3 else (y**2).max())
        close(o, want, name + " of the sample", rtol=rt, atol=at)
        # at the snapshots: the moments themselves
        k = [int(np.flatnonzero(tgt == t)[0]) for t in lgt]
        close(np.asarray(o)[k], v if i not in (2, 4) else v**2, name + " at the snapshots", rtol=rt,
              atol=at)
    # the order of the halos, and the mass and units of each, are irrelevant
    p = np.random.default_rng(case["order"]).permutation(n)
    c = (10 ** rng.uniform(-2, 2, n)).reshape(-1, 1)
    out2 = mm.measure_target_data(c * m[p], c * r[p], lgt, tgt, lgmp)
    for a, b, name, i in zip(out, out2, names, range(5)):
        at = 0.0
        if i == 2:
            at = 1e-5 if case["f32"] else 1e-13
        if i in (3, 4) and case["f32"]:
            at = 1e-4 * (np.abs(y).max() if i == 3 else (y**2).max())
        close(b, a, name + " depends on the order or the normalisation of halos", rtol=rt, atol=at)


def strat_mask():
    return st.fixed_dictionaries(dict(
        nh=st.integers(8, 150), nt=st.integers(3, 12), seed=gen.seed(), logmp=gen.uniform(10.5, 15.5),
        lgm0=gen.uniform(10, 15), nout=st.integers(0, 4), size=gen.uniform(0.5, 8),
        it=st.integers(0, 11), lim=st.sampled_from([None, 0.0, 0.05, 0.2]),
        z=st.sampled_from([None, 1.5, 2.5, 4.0]), order=gen.seed()))


def check_mask(case, rec):
    rng = np.random.default_rng(case["seed"])
    nh, nt = case["nh"], case["nt"]
    it = case["it"] % (nt + 1)  # may leave no time to test
    lgm = case["lgm0"] + np.linspace(-3, 0, nt) + 0.1 * rng.normal(size=(nh, nt)) \
        + rng.normal(0, 0.5, (nh, 1))
    for i in rng.choice(nh, min(case["nout"], nh), replace=False):
        j = rng.integers(nt)  # the outlier shows at one time, possibly one that is not tested
        lgm[i, j] += rng.choice([-1, 1]) * case["size"] * 0.15
    lim = 0.01 if case["lim"] is None else case["lim"]
    z_cut = 3 if case["z"] is None else case["z"]
    kw = {}
    if case["lim"] is not None:
        kw["lim"] = case["lim"]
    if case["z"] is not None:
        kw["z_cut"] = case["z"]
    l1 = lgm.copy()
    mask = mm.get_clean_sample_mask(lgm, case["logmp"], it, **kw)
    require(np.array_equal(lgm, l1), "input modified")
    mask = np.asarray(mask)
    require(mask.shape == (nh,) and mask.dtype == bool, "mask is not one flag per halo")
    s = lgm - lgm[:, -1:]
    want = np.ones(nh, bool)
    sure = np.ones(nh, bool)
    cut = int(nh * lim)
    for j in range(it, nt - 1):
        kept = np.sort(s[:, j])[cut : nh - cut]
        z = np.abs(s[:, j] - kept.mean()) / kept.std()
        want &= z < z_cut
        sure &= np.abs(z - z_cut) > 1e-6
    rec.count(nh)
    rec.nontrivial(0 < want.sum() < nh)
    require(np.array_equal(mask[sure], want[sure]), "mask does not keep exactly the halos that are no outliers",
            got=int(mask.sum()), want=int(want.sum()))
    p = np.random.default_rng(case["order"]).permutation(nh)
    m2 = np.asarray(mm.get_clean_sample_mask(lgm[p], case["logmp"] + 1, it, **kw))
    require(np.array_equal(m2[sure[p]], want[p][sure[p]]), "mask depends on the order of the halos or the target mass")


SUBS = [
    Sub("moments", strat, check, quick=3000, thorough=100000, shards=2),
    Sub("mask", strat_mask, check_mask, quick=3000, thorough=60000, shards=2),
]
