"""Stand-ins for optional packages that are not installed here.

They carry their own behaviour (a cosmology integrator, a catalog reader that hands out
generated arrays, a recording communicator), so the loaders and scripts can run.
"""

import sys
import types
from collections import namedtuple

import numpy as np

CosmoParams = namedtuple("CosmoParams", ("Om0", "w0", "wa", "h"))
DEFAULT_COSMOLOGY = CosmoParams(0.3075, -1.0, 0.0, 0.6774)


def age_at_z(redshift, Om0, w0, wa, h):
    """Age in Gyr of a flat universe with w = w0 + wa*(1-a), Gauss-Legendre in ln(1+z)."""
    z = np.atleast_1d(np.asarray(redshift, dtype="f8"))
    x, w = np.polynomial.legendre.leggauss(60)
    # a from 0 to a_z: substitution a = a_z * u**2
    a_z = 1.0 / (1.0 + z)
    u = 0.5 * (x + 1.0)
    a = a_z[:, None] * u[None, :] ** 2
    da = a_z[:, None] * 2 * u[None, :] * 0.5 * w[None, :]
    ode = (1 - Om0) * a ** (-3 * (1 + w0 + wa)) * np.exp(-3 * wa * (1 - a))
    hub = np.sqrt(Om0 * a**-3 + ode)
    return (da / (a * hub)).sum(axis=1) * 9.777922216807891 / h


def install_dsps():
    pkg, cosmo, flat = (types.ModuleType(n) for n in (
        "dsps", "dsps.cosmology", "dsps.cosmology.flat_wcdm"))
    flat.CosmoParams, flat.age_at_z = CosmoParams, age_at_z
    cosmo.flat_wcdm, cosmo.DEFAULT_COSMOLOGY = flat, DEFAULT_COSMOLOGY
    flat.DEFAULT_COSMOLOGY = DEFAULT_COSMOLOGY
    pkg.cosmology = cosmo
    pkg.__path__, cosmo.__path__ = [], []
    sys.modules.update({"dsps": pkg, "dsps.cosmology": cosmo, "dsps.cosmology.flat_wcdm": flat})


class HaccSim:
    """A simulation as described by haccytrees"""

    simulations = {}

    def __init__(self, steps, zarr, cosmo):
        self.cosmotools_steps = list(steps)
        self._z = dict(zip(steps, zarr))
        self.cosmo = cosmo

    def step2z(self, steps):
        return np.array([self._z[s] for s in np.asarray(steps)])

    @classmethod
    def parse_config(cls, name):
        return CONFIGS[name]


CONFIGS = {}
HaccCosmo = namedtuple("HaccCosmo", ("Omega_m", "w0", "wa", "h"))
CORES = {}  # filename -> dict of columns
HACC_CALLS = []


def install_haccytrees():
    pkg = types.ModuleType("haccytrees")
    core = types.ModuleType("haccytrees.coretrees")

    def corematrix_reader(filename, calculate_secondary_host_row=False, nchunks=None,
                          chunknum=None, simulation=None, **kw):
        HACC_CALLS.append(dict(filename=filename, nchunks=nchunks, chunknum=chunknum,
                               simulation=simulation))
        cols = CORES[filename]
        n = len(next(iter(cols.values())))
        rows = np.arange(n) if not nchunks else np.array_split(np.arange(n), nchunks)[chunknum]
        return {k: v[rows].copy() for k, v in cols.items()}

    core.corematrix_reader = corematrix_reader
    pkg.Simulation, pkg.coretrees = HaccSim, core
    pkg.__path__ = []
    sys.modules.update({"haccytrees": pkg, "haccytrees.coretrees": core})


UM_CALLS = []
UM_TABLES = {}  # (drn, subvolume) -> structured array


def install_umachine():
    pkg, mod = types.ModuleType("umachine_pyio"), types.ModuleType("umachine_pyio.load_mock")

    def load_mock_from_binaries(subvolumes, root_dirname=None, galprops=None):
        UM_CALLS.append((tuple(subvolumes), root_dirname, tuple(galprops)))
        parts = [UM_TABLES[(root_dirname, int(s))] for s in subvolumes]
        return {k: np.concatenate([p[k] for p in parts]) for k in galprops}

    mod.load_mock_from_binaries = load_mock_from_binaries
    pkg.load_mock = mod
    pkg.__path__ = []
    sys.modules.update({"umachine_pyio": pkg, "umachine_pyio.load_mock": mod})


class World:
    """All ranks of a communicator run as threads that meet in collective calls."""

    def __init__(self, size):
        import threading

        self.size = size
        self.barrier = threading.Barrier(size)
        self.slots = [None] * size
        self.lock = threading.Lock()
        self.cond = threading.Condition()
        self.mail = {}
        self.sends = []

    def comm(self, rank):
        return Comm(self, rank)

    def run(self, fn, timeout=120):
        """Calls fn(comm) on every rank -> list of results; the first exception is raised."""
        import threading

        out, err = [None] * self.size, [None] * self.size

        def work(r):
            try:
                out[r] = fn(self.comm(r))
            except BaseException as e:  # noqa: B902
                err[r] = e
                self.barrier.abort()
                with self.cond:
                    self.mail["stop"] = True
                    self.cond.notify_all()

        th = [threading.Thread(target=work, args=(r,), daemon=True) for r in range(self.size)]
        for t in th:
            t.start()
        for t in th:
            t.join(timeout)
        real = [e for e in err if e is not None and not isinstance(e, threading.BrokenBarrierError)]
        if real:
            raise real[0]
        if any(err):
            raise next(e for e in err if e is not None)
        if any(t.is_alive() for t in th):
            raise TimeoutError("ranks do not finish")
        return out


class Comm:
    def __init__(self, world, rank):
        self.world, self.rank, self.size = world, rank, world.size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def Barrier(self):
        self.world.barrier.wait(60)

    barrier = Barrier

    def _exchange(self, x):
        w = self.world
        w.slots[self.rank] = x
        w.barrier.wait(60)
        res = list(w.slots)
        w.barrier.wait(60)
        return res

    def bcast(self, obj, root=0):
        return self._exchange(obj)[root]

    def allgather(self, obj):
        return self._exchange(obj)

    def gather(self, obj, root=0):
        r = self._exchange(obj)
        return r if self.rank == root else None

    def scatter(self, objs, root=0):
        return self._exchange(objs)[root][self.rank]

    def allreduce(self, obj, op=None):
        vals = self._exchange(obj)
        return op(vals) if op is not None else sum(vals)

    def reduce(self, obj, op=None, root=0):
        r = self.allreduce(obj, op)
        return r if self.rank == root else None

    def send(self, obj, dest, tag=0):
        w = self.world
        with w.cond:
            w.sends.append((self.rank, dest))
            w.mail.setdefault((self.rank, dest, tag), []).append(obj)
            w.cond.notify_all()

    def recv(self, source=0, tag=0, **kw):
        w = self.world
        key = (source, self.rank, tag)
        with w.cond:
            ok = w.cond.wait_for(lambda: w.mail.get(key) or w.mail.get("stop"), timeout=60)
            if not ok or not w.mail.get(key):
                raise TimeoutError(f"rank {self.rank} waits forever for a message")
            return w.mail[key].pop(0)


def install_mpi():
    import threading

    pkg, mpi = types.ModuleType("mpi4py"), types.ModuleType("mpi4py.MPI")
    local = threading.local()

    class Proxy:
        """COMM_WORLD of the calling thread"""

        def __getattr__(self, name):
            return getattr(local.comm, name)

    mpi.COMM_WORLD = Proxy()
    mpi.SUM, mpi.MAX, mpi.MIN = sum, max, min
    mpi.local = local
    pkg.MPI = mpi
    pkg.__path__ = []
    sys.modules.update({"mpi4py": pkg, "mpi4py.MPI": mpi})
    return mpi
