"""Work is shared over MPI ranks without loss or duplication."""

import numpy as np
from hypothesis import strategies as st

from checks import p12
from pbt import gen, stubs
from pbt.core import Sub, close, require
from pbt.lazy import Lazy

RULE = (
    "A case is an array (1-3 dimensions, any dtype) or a generated HACC catalog shared over 1-9 "
    "simulated ranks (threads meeting in a message-passing stand-in), with any root and axis. "
    "Non-trivial: more than one rank, and the halos do not divide evenly or are fewer than the ranks."
)
ASSUMPTIONS = ["mpi4py is not installed: a stand-in with the lower-case object interface of "
               "mpi4py communicators runs the ranks as threads"]

hacc = Lazy("diffmah.data_loaders.load_hacc_mahs")


def strat():
    return st.fixed_dictionaries(dict(
        size=st.integers(1, 9), shape=st.lists(st.integers(0, 11), min_size=1, max_size=3),
        axis=st.integers(0, 2), root=st.integers(0, 8), seed=gen.seed(),
        dtype=st.sampled_from(["f4", "f8", "i8", "bool"])))


def check(case, rec):
    p12.mods()
    rng = np.random.default_rng(case["seed"])
    shape = tuple(case["shape"])
    arr = rng.integers(0, 2**60, shape)
    arr = arr if case["dtype"] == "i8" else (arr % 1000).astype(case["dtype"])
    axis, size = case["axis"] % len(shape), case["size"]
    root = case["root"] % size
    keep = arr.copy()
    rec.count(size)
    n = shape[axis]
    rec.nontrivial(size > 1 and n % size != 0)
    rec.label("fewer items than ranks", n < size)
    world = stubs.World(size)
    res = world.run(lambda comm: hacc._scatter_nd(
        arr if comm.rank == root else None, axis=axis, comm=comm, root=root))
    require(np.array_equal(arr, keep), "array was modified")
    require(all(r.dtype == arr.dtype for r in res), "dtype changed")
    back = np.concatenate(res, axis=axis)
    require(back.shape == arr.shape and np.array_equal(back, arr),
            "shares of the ranks do not make up the array in order", sizes=[r.shape for r in res])
    lens = [r.shape[axis] for r in res]
    rec.label("shares differ by more than one", max(lens) - min(lens) > 1)
    require(not any(v for k, v in world.mail.items() if k != "stop"), "messages were left unread")


def strat_hacc():
    return st.tuples(p12.strat_hacc(), st.integers(1, 6), st.booleans()).map(
        lambda t: dict(t[0], size=t[1], world=t[2]))


def check_hacc(case, rec):
    mpi = _mpi()
    sim, name, m, z, cosmo, col = p12.hacc_sim(case)
    chunk = case["chunk"] % case["nchunks"]
    kw = dict(mass_colname=col) if case["colname"] else {}
    size = case["size"]
    world = stubs.World(size)

    def rank(comm):
        mpi.local.comm = comm
        return hacc.load_mahs_per_rank("/data/core.hdf5", name, chunk, case["nchunks"],
                                       comm=None if case["world"] else comm, **kw)

    res = world.run(rank)
    rows = np.array_split(np.arange(len(m)), case["nchunks"])[chunk]
    rec.count(size)
    rec.nontrivial(size > 1 and len(rows) % size != 0)
    require(len(stubs.HACC_CALLS) == 1, "catalog was read more than once",
            n=len(stubs.HACC_CALLS))
    want_t = stubs.age_at_z(z, *cosmo)
    for t, mah in res:
        close(t, want_t, "a rank has the wrong times", rtol=1e-6)
        require(mah.ndim == 2 and mah.shape[1] == m.shape[1], "a rank has incomplete histories")
    back = np.concatenate([r[1] for r in res])
    close(back, np.maximum.accumulate(m, axis=1)[rows] / cosmo.h,
          "histories of the ranks do not make up the catalog in order", rtol=1e-6)


def _mpi():
    import sys

    p12.mods()
    hacc.load_mahs  # imported with the stand-in in place
    return sys.modules["mpi4py"].MPI


SUBS = [
    Sub("scatter", strat, check, quick=800, thorough=8000),
    Sub("hacc", strat_hacc, check_hacc, quick=400, thorough=4000),
]
