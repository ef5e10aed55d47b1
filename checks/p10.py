"""Fit tables: text lines of the fitting jobs -> collated file -> columns."""

import io
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import gen, sims
from pbt.core import Sub, close, require
from pbt.lazy import Lazy

top = Lazy("diffmah")
fh = Lazy("diffmah.fitting_helpers.diffmah_fitter_helpers")
io_utils = Lazy("diffmah.data_loaders.io_utils")

RULE = (
    "A case is 1-12 fit results (finite parameters of any magnitude, skipped halos, either "
    "optimizer) with or without 64-bit halo ids, split over 1-4 rank files. Non-trivial: the "
    "table mixes fitted and skipped halos, or has a single row, or ids beyond 2^53."
)

PCOLS = ["logm0", "logtc", "early_index", "late_index", "t_peak", "loss"]


def strat():
    val = st.one_of(
        gen.uniform(-20, 20),
        st.tuples(gen.uniform(1.0, 10.0), st.integers(-12, 12), st.sampled_from([-1, 1])).map(
            lambda t: t[2] * t[0] * 10.0 ** t[1]))
    big = st.tuples(gen.uniform(0, 1), st.integers(0, 2**20)).map(
        lambda t: int(t[0] * 2**62) + t[1])
    row = st.fixed_dictionaries(dict(
        vals=gen.vec(val, 6), npts=st.integers(0, 200), code=st.integers(0, 1),
        skip=st.sampled_from([False, False, True]),
        halo_id=st.one_of(st.integers(-5, 10**6), big, st.integers(2**53, 2**63 - 1))))
    return st.fixed_dictionaries(dict(
        rows=st.lists(row, min_size=1, max_size=12), ids=st.booleans(),
        np_ids=st.booleans(), nranks=st.integers(1, 4), mixed=st.booleans()))


def fit_result(row):
    rows = np.asarray(row["vals"])
    n = row["npts"]
    target = np.concatenate([np.linspace(9.0, 11.9, n), [12.0, 12.0]])
    t = np.linspace(1, 13.8, n + 2)
    if row["skip"]:
        p = top.DiffmahParams(*[-99.0] * 5)
        loss, code, skip = -99.0, -1, True
    else:
        p = top.DiffmahParams(*[np.float32(x) for x in rows[:5]])
        loss, code, skip = np.float32(rows[5]), row["code"], False
    data = fh.DiffmahFitLossData(t, target, -99.0, -99.0)
    return fh.DiffmahFitResult(p, loss, skip, not skip, code, data)


def check(case, rec):
    rows = case["rows"]
    for r in rows:
        r["skip"] = r["skip"] and case["mixed"]
    res = [fit_result(r) for r in rows]
    ids = [r["halo_id"] for r in rows]
    rec.count(len(rows))
    skips = [r["skip"] for r in rows]
    rec.label("mixed", any(skips) and not all(skips))
    rec.label("single row", len(rows) == 1)
    rec.label("ids beyond 2**53", case["ids"] and max(ids) > 2**53)
    rec.nontrivial((any(skips) and not all(skips)) or len(rows) == 1
                   or (case["ids"] and max(ids) > 2**53))
    lines = []
    for r, x in zip(ids, res):
        kw = dict(halo_id=np.int64(r) if case["np_ids"] else r) if case["ids"] else {}
        line = fh.get_outline(x, **kw)
        require(line.endswith("\n") and line.count("\n") == 1, "a fit is not one line of text")
        lines.append(line)
    # one file per rank, concatenated in rank order under one header
    parts = np.array_split(np.arange(len(rows)), case["nranks"])
    header = fh.HEADER_HALO_ID if case["ids"] else fh.HEADER
    require(header.endswith("\n") and header.startswith("#"), "header is not a comment line")
    names = header[1:].split()
    for line in lines:
        require(len(line.split()) == len(names), "line of a fit does not match the header",
                got=len(line.split()), want=len(names))
    text = header + "".join("".join(lines[i] for i in part) for part in parts)
    table = np.genfromtxt(io.StringIO(text), dtype="str").reshape((-1, len(names)))
    require(table.shape[0] == len(rows), "table has the wrong number of rows", shape=table.shape)
    want_names = (["halo_id"] if case["ids"] else []) + PCOLS + ["n_points_per_fit", "fit_algo"]
    require(names == want_names, "columns of the table are misnamed", got=names)
    with tempfile.TemporaryDirectory() as drn:
        fn = os.path.join(drn, "fits.h5")
        fh.write_collated_data(fn, table)
        data = io_utils.load_flat_hdf5(fn)
    require(set(data) == set(want_names), "collated file has the wrong columns", got=sorted(data))
    for k in want_names:
        require(data[k].shape == (len(rows),), "column has the wrong length", column=k)
    vals = np.array([[float(v) for v in (*x.p_best, x.loss_best)] for x in res])
    for i, k in enumerate(PCOLS):
        close(data[k], vals[:, i], "column does not hold the fitted values", rtol=5.1e-6, column=k)
    require(np.array_equal(data["n_points_per_fit"], [r["npts"] for r in rows]),
            "number of points is not preserved")
    require(np.array_equal(data["fit_algo"], [int(x.code_used) for x in res]),
            "optimizer code is not preserved")
    require(data["n_points_per_fit"].dtype.kind == "i" and data["fit_algo"].dtype.kind == "i",
            "integer columns are not integers")
    if case["ids"]:
        require(data["halo_id"].dtype == np.int64, "halo ids are not 64-bit integers",
                dtype=str(data["halo_id"].dtype))
        require(data["halo_id"].tolist() == ids, "halo ids are not preserved exactly")
    else:
        for i, line in enumerate(lines):
            d = fh._parse_outline(line)
            require(list(d._fields) == want_names, "parsed line has the wrong fields")
            close(list(d), [*vals[i], rows[i]["npts"], int(res[i].code_used)],
                  "parsed line differs from the fit", rtol=5.1e-6)


# ------------------------------------------------------------------ through the fitter


def strat_fit():
    return st.fixed_dictionaries(dict(
        sims=st.lists(sims.history(), min_size=1, max_size=3),
        ids=st.lists(st.integers(0, 2**62), min_size=3, max_size=3),
        lgm_min=gen.uniform(8.0, 14.0)))


def check_fit(case, rec):
    lines, fits = [], []
    for c, hid in zip(case["sims"], case["ids"]):
        t, mah = sims.build(c)
        r = top.diffmah_fitter(t, mah, lgm_min=case["lgm_min"])
        fits.append((r, t, mah))
        lines.append(fh.get_outline(r, halo_id=hid))
    table = np.genfromtxt(io.StringIO(fh.HEADER_HALO_ID + "".join(lines)), dtype="str")
    with tempfile.TemporaryDirectory() as drn:
        fn = os.path.join(drn, "fits.h5")
        fh.write_collated_data(fn, table.reshape((-1, 9)))
        data = io_utils.load_flat_hdf5(fn)
    rec.count(len(fits))
    for i, (r, t, mah) in enumerate(fits):
        rec.nontrivial(not r.skip_fit)
        require(int(data["halo_id"][i]) == case["ids"][i], "halo id is not preserved")
        for j, k in enumerate(PCOLS[:5]):
            close(data[k][i], float(r.p_best[j]), "table differs from the fit", rtol=5.1e-6, column=k)
        close(data["loss"][i], float(r.loss_best), "table differs from the fit", rtol=5.1e-6)
        require(data["fit_algo"][i] == int(r.code_used), "optimizer code is not preserved")
        target = np.asarray(r.loss_data.log_mah_target)
        n = int((target < target[-1]).sum()) if target.size else 0
        require(data["n_points_per_fit"][i] == n, "number of points is not preserved")
        if r.skip_fit:
            require(data["fit_algo"][i] == -1 and data["logm0"][i] == -99.0
                    and data["loss"][i] == -99.0, "halo without a fit lost its -99 row")


SUBS = [
    Sub("table", strat, check, quick=1000, thorough=20000, shards=2),
    Sub("fitted", strat_fit, check_fit, quick=120, thorough=2000, shards=2),
]
