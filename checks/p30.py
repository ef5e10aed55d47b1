"""Population targets are loaded bin by bin from the measured tables."""

import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Sub, close, require
from pbt.lazy import Lazy

RULE = (
    "A case is a directory of generated target tables: 1-12 mass and time bins for centrals and as many others for satellites in any order, "
    "each with its own history of averages, times and a file of 1-40 sampled halos, plus selection limits. Oracle: the generated data. "
    "Non-trivial: the limits keep some but not all bins."
)
ASSUMPTIONS = ["histories of the sampled halos are anchored at 13.79 Gyr"]

lt = Lazy("diffmah.diffmahpop_kernels.load_diffmahpop_fitdata")
T0 = 13.79
NT = 6


def strat():
    return st.fixed_dictionaries(dict(
        seed=gen.seed(), nc=st.integers(1, 12), ns=st.integers(1, 12),
        n_min=st.sampled_from([3, 8]), tc=gen.uniform(0.5, 12), ts=gen.uniform(0.5, 12),
        mc=gen.uniform(11.5, 15.5), ms=gen.uniform(11.5, 15.5), extra=st.booleans(),
        f32=st.booleans()))


def tables(rng, n, n_min, extra, f32):
    lgm = np.round(rng.uniform(11, 15, n), 2)
    if n > 2 and rng.random() < 0.5:
        lgm[: n // 2] = lgm[0]  # several times of one mass
    t = np.round(rng.uniform(1, 13.5, n), 2)
    # every bin has its own file
    pairs, keep = set(), []
    for i in range(n):
        if (lgm[i], t[i]) not in pairs:
            pairs.add((lgm[i], t[i]))
            keep.append(i)
    lgm, t = lgm[keep], t[keep]
    n = lgm.size
    tab = np.array([np.linspace(0.4, x, NT) for x in t])
    d = dict(lgm_obs=lgm, t_obs=t, t_table=tab,
             mean_log_mah=np.sort(rng.uniform(9, 15, (n, NT)), axis=1),
             std_log_mah=rng.uniform(0.1, 1, (n, NT)), frac_peaked=rng.random((n, NT)))
    if extra:
        d["other"] = rng.normal(size=(n, 2))
    samples = []
    for i in range(n):
        k = int(rng.integers(n_min, 40)) if rng.random() < 0.75 else int(rng.integers(1, n_min))
        late = rng.uniform(0.12, 3, k)
        s = np.column_stack([rng.uniform(9, 16, k), rng.uniform(-0.9, 0.9, k),
                             late + rng.uniform(0.1, 5, k), late, rng.uniform(0.5, 14, k)])
        samples.append(s.astype("f4") if f32 else s)
    return d, samples


def write(drn, d, samples, kind):
    import h5py

    with h5py.File(os.path.join(drn, f"mean_var_{kind}.h5"), "w") as h:
        for k, v in d.items():
            h[k] = v
    for m, t, s in zip(d["lgm_obs"], d["t_obs"], samples):
        np.save(os.path.join(drn, f"lgm_{m:.2f}_t_{t:.2f}_mah_params.{kind}.npy"), s)


def check(case, rec):
    rng = np.random.default_rng(case["seed"])
    n_min = case["n_min"]
    sets = {k: tables(rng, n, n_min, case["extra"], case["f32"])
            for k, n in (("cens", case["nc"]), ("sats", case["ns"]))}
    lim = dict(cens=(case["tc"] + 0.003, case["mc"] + 0.003), sats=(case["ts"] + 0.003, case["ms"] + 0.003))
    for k in sets:  # keep clear of the two-decimal values
        lim[k] = tuple(round(x, 2) + 0.003 for x in lim[k])
    with tempfile.TemporaryDirectory() as drn:
        for k, (d, s) in sets.items():
            write(drn, d, s, k)
        files = {f: os.path.getmtime(os.path.join(drn, f)) for f in os.listdir(drn)}
        out = lt.load_diffmahpop_targets(
            drn=drn, t_obs_min_cen=lim["cens"][0], t_obs_min_sat=lim["sats"][0],
            lgm_obs_max_cen=lim["cens"][1], lgm_obs_max_sat=lim["sats"][1], n_sample_min=n_min)
        require(files == {f: os.path.getmtime(os.path.join(drn, f)) for f in os.listdir(drn)},
                "files changed")
    require(len(out) == 2, "tables of centrals and satellites expected")
    for (k, (d, samples)), tab in zip(sets.items(), out):
        n = d["lgm_obs"].size
        size = np.array([len(s) for s in samples])
        keep = np.flatnonzero((d["t_obs"] > lim[k][0]) & (d["lgm_obs"] < lim[k][1])
                              & (size >= n_min))
        rec.count(n)
        rec.nontrivial(0 < keep.size < n)
        require(len(tab) == keep.size, f"{k}: wrong bins", got=len(tab), want=keep.size)
        if not keep.size:
            continue
        for name, v in d.items():
            require(np.array_equal(np.asarray(tab[name]), v[keep]), f"{k}: rows of {name} differ")
        require(np.array_equal(np.asarray(tab["n_samples"]), size[keep]), f"{k}: counts of samples differ",
                got=np.asarray(tab["n_samples"]), want=size[keep])
        m = d["mean_log_mah"][keep]
        lgm = d["lgm_obs"][keep].reshape(-1, 1)
        close(np.asarray(tab["mean_log_mah_rescaled"]), m - m[:, -1:] + lgm,
              f"{k}: averages are not rescaled to the mass of the bin", atol=1e-9)
        cols = [np.asarray(tab[c + "_samples"], "f8") for c in gen.PNAMES]
        lg = np.asarray(tab["log_mah_samples"], "f8")
        lr = np.asarray(tab["log_mah_rescaled_samples"], "f8")
        require(lg.shape == (keep.size, n_min, NT) == lr.shape, f"{k}: shape of the histories")
        for j, i in enumerate(keep):
            rows = [tuple(float(c[j, a]) for c in cols) for a in range(n_min)]
            pool = {tuple(float(x) for x in r) for r in samples[i]}
            require(all(r in pool for r in rows), f"{k}: a sample is no halo of the file of its bin")
            require(len(set(rows)) == n_min, f"{k}: a halo is sampled more than once")
            p = {nm: c[j].reshape(-1, 1) for nm, c in zip(gen.PNAMES, cols)}
            t = d["t_table"][i].reshape(1, -1)
            want = ref.log_mah(p, t, np.log10(T0))
            far = np.abs(t - p["t_peak"]) > 1e-4
            close(np.where(far, lg[j], 0), np.where(far, want, 0), f"{k}: histories of the samples",
                  atol=2e-4, rtol=1e-5)
            close(lr[j], lg[j] - lg[j][:, -1:] + d["lgm_obs"][i],
                  f"{k}: samples are not rescaled to the mass of the bin", atol=1e-4)


def strat_rescale():
    return st.fixed_dictionaries(dict(n=st.integers(1, 9), nt=st.integers(1, 9), seed=gen.seed(),
                                      scalar=st.booleans()))


def check_rescale(case, rec):
    rng = np.random.default_rng(case["seed"])
    x = rng.uniform(8, 15, (case["n"], case["nt"]))
    m = float(rng.uniform(10, 15)) if case["scalar"] else rng.uniform(10, 15, case["n"])
    x0 = x.copy()
    out = np.asarray(lt.rescale_target_log_mahs(x, m))
    require(np.array_equal(x, x0), "input modified")
    rec.nontrivial(case["nt"] > 1)
    rec.count(x.size)
    close(out[:, -1], np.broadcast_to(m, case["n"]), "histories do not end at the mass", atol=1e-12)
    close(np.diff(out, axis=1), np.diff(x, axis=1), "shape of the histories changed", atol=1e-12)


SUBS = [
    Sub("load", strat, check, quick=320, thorough=6000, shards=4),
    Sub("rescale", strat_rescale, check_rescale, quick=600, thorough=20000),
]
