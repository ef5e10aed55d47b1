"""HDF5 readers and writers."""

import os
import tempfile
from collections import namedtuple

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, require
from pbt.lazy import Lazy

io_utils = Lazy("diffmah.data_loaders.io_utils")
loaders = Lazy("diffmah.data_loaders")

RULE = (
    "A case is an HDF5 file with 1-6 columns of mixed dtype and shape, at the top level or inside a "
    "(nested) group whose name may also occur in column names, read with a generated choice of "
    "columns and row range; or a named parameter set of mixed scalars and arrays. Non-trivial: a "
    "sub-range, a sub-selection or a group is read, or fields are not in alphabetical order."
)

DTYPES = ["f4", "f8", "i4", "i8", "u1", "bool", "u8", "i2"]
_name = st.text("abcdefgh_xyz0123456789", min_size=1, max_size=8)


def strat():
    return st.fixed_dictionaries(dict(
        group=st.one_of(st.none(), _name, st.tuples(_name, _name).map("/".join)),
        names=st.lists(_name, min_size=1, max_size=6, unique=True),
        prefix_group=st.booleans(),
        dtypes=gen.vec(st.sampled_from(DTYPES), 6),
        extra_dim=gen.vec(st.sampled_from([0, 0, 2, 3]), 6),
        nrows=st.integers(1, 20), seed=gen.seed(),
        istart=st.one_of(st.just(0), st.integers(0, 20)),
        iend=st.one_of(st.none(), st.integers(0, 25), st.integers(-5, -1)),
        pick=st.one_of(st.none(), gen.vec(st.booleans(), 6)),
        # columns read by a path below the group, which may repeat the name of the group
        nested=st.one_of(st.none(), st.sampled_from(["sub", "again", "again/sub"])),
        reverse=st.booleans(), other=st.booleans()))


def columns(case):
    rng = np.random.default_rng(case["seed"])
    names = list(case["names"])
    if case["prefix_group"] and case["group"]:
        # a column whose name contains the name of its group
        names[0] = case["group"].split("/")[-1] + names[0]
        names = list(dict.fromkeys(names))
    out = {}
    for n, d, x in zip(names, case["dtypes"], case["extra_dim"]):
        shape = (case["nrows"],) + ((x,) if x else ())
        if d.startswith("f"):
            v = (rng.standard_normal(shape) * 10.0 ** rng.integers(-5, 12)).astype(d)
        elif d == "bool":
            v = rng.random(shape) > 0.5
        else:
            info = np.iinfo(d)
            v = rng.integers(info.min, info.max, size=shape, dtype=d, endpoint=True)
        out[n] = v
    return out


def same(a, b):
    a = np.asarray(a)
    return a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b)


def check(case, rec):
    import h5py

    cols = columns(case)
    g = case["group"]
    if case["pick"] is not None and case["nested"]:
        below = case["nested"].replace("again", "grp" if g is None else g.split("/")[-1])
        cols = {(f"{below}/{k}" if i % 2 else k): v for i, (k, v) in enumerate(cols.items())}
        if below in cols:
            cols["c_" + below] = cols.pop(below)
    with tempfile.TemporaryDirectory() as drn:
        fn = os.path.join(drn, "data.h5")
        with h5py.File(fn, "w") as hdf:
            for k, v in cols.items():
                hdf[k if g is None else f"{g}/{k}"] = v
            if g is not None and case["other"]:
                hdf["zz_other/col"] = np.arange(3)
        keys = None
        if case["pick"] is not None:
            keys = [k for k, b in zip(cols, case["pick"]) if b] or [next(iter(cols))]
            if case["reverse"]:
                keys = keys[::-1]
        kw = {}
        if case["istart"]:
            kw["istart"] = case["istart"]
        if case["iend"] is not None:
            kw["iend"] = case["iend"]
        if keys is not None:
            kw["keys"] = keys
        if g is not None:
            kw["dataset"] = g
        keys_in = list(keys) if keys is not None else None
        data = loaders.load_flat_hdf5(fn, **kw)
        require(keys == keys_in, "list of columns was modified")
        again = io_utils.load_flat_hdf5(fn, **kw)
        size0 = os.path.getsize(fn)
        require(size0 > 0, "file was modified")
    want = list(cols) if keys is None else keys
    rec.count(len(want))
    rec.label("group", g is not None)
    rec.label("row range", bool(kw.get("istart")) or "iend" in kw)
    rec.label("selected columns", keys is not None)
    rec.label("column by path", keys is not None and any("/" in k for k in keys))
    rec.nontrivial(g is not None or "iend" in kw or keys is not None or "istart" in kw)
    require(set(data) == set(want), "wrong columns are returned", got=sorted(data), want=want)
    if keys is not None:
        require(list(data) == keys, "columns are not returned in the requested order",
                got=list(data))
    sl = slice(case["istart"], case["iend"])
    for k in want:
        require(same(data[k], cols[k][sl]), "column read differs from the one stored", column=k,
                got=str(np.asarray(data[k]).dtype) + str(np.asarray(data[k]).shape))
        require(same(again[k], cols[k][sl]), "second read differs", column=k)


# ------------------------------------------------------------------ named parameter sets


def strat_tuple():
    _id = st.text("abcdefgxyz", min_size=1, max_size=4)
    return st.fixed_dictionaries(dict(
        names=st.lists(_id.map(lambda s: "p_" + s).map(lambda s: s[2:] if s[2:] not in KW else s),
                       min_size=1, max_size=10, unique=True),
        kinds=gen.vec(st.sampled_from(["float", "int", "f4", "array", "f4array", "iarray", "bool",
                                       "matrix", "empty"]), 10),
        seed=gen.seed()))


KW = {"as", "if", "is", "in", "or", "del", "def", "for", "try", "and", "not", "fields"}


def check_tuple(case, rec):
    import keyword

    names = [n if not keyword.iskeyword(n) else "p" + n for n in case["names"]]
    names = list(dict.fromkeys(names))
    rng = np.random.default_rng(case["seed"])
    mk = dict(
        float=lambda: float(rng.standard_normal()), int=lambda: int(rng.integers(-10**9, 10**9)),
        f4=lambda: np.float32(rng.standard_normal()), array=lambda: rng.standard_normal(4),
        f4array=lambda: rng.standard_normal(3).astype("f4"),
        iarray=lambda: rng.integers(0, 2**62, 5), bool=lambda: bool(rng.integers(0, 2)),
        matrix=lambda: rng.standard_normal((2, 3)), empty=lambda: np.zeros(0))
    vals = [mk[k]() for k in case["kinds"][: len(names)]]
    P = namedtuple("P", names)
    p = P(*vals)
    with tempfile.TemporaryDirectory() as drn:
        fn = os.path.join(drn, "p.h5")
        io_utils.write_namedtuple_to_hdf5(p, fn)
        q = io_utils.load_namedtuple_from_hdf5(fn)
        # overwriting an existing file leaves nothing behind
        io_utils.write_namedtuple_to_hdf5(P(*vals[::-1]), fn)
        r = io_utils.load_namedtuple_from_hdf5(fn)
        os.remove(fn)
    rec.count(len(names))
    rec.nontrivial(names != sorted(names))
    require(q._fields == tuple(names), "field names or their order changed", got=q._fields,
            want=names)
    for back, orig in ((q, vals), (r, vals[::-1])):
        for n, a, b in zip(names, back, orig):
            require(getattr(back, n) is a, "field order is inconsistent")
            require(same(a, np.asarray(b)), "value changed in the file", field=n)


SUBS = [
    Sub("flat", strat, check, quick=1000, thorough=15000, shards=2),
    Sub("named", strat_tuple, check_tuple, quick=600, thorough=8000),
]
