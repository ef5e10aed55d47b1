"""Results depend on the arguments only, and inputs are never modified."""

import io
import os
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from pbt import env, gen, ops
from pbt.core import Sub, require

RULE = (
    "A case is a random sequence of calls of the library (36 operations covering histories, fits, optimizers, populations, averages, "
    "transforms, measurements and files, each with generated arguments as float64, float32 or jax arrays, repeated in random order and next to calls that differ from them in a part of the arguments only). After each call the arguments, the constants and defaults of every "
    "module and numpy's random state must be unchanged, and the answer must be the one given for these arguments before; in the second check "
    "the answer of the last call must be the one given by a fresh process. Non-trivial: some call is repeated after a different one."
)
ASSUMPTIONS = ["answers of one process are equal to rounding (1e-6 relative) of those of another"]

FRESH = "from pbt import env; env.setup(); from pbt import ops; ops.main()"
NAMES = sorted(ops.OPS)
SLOW = {"fit", "bfgs", "adam", "cen_moments", "sat_moments", "cen_loss",
        "sat_loss"}
_memo = {}


def op():
    # a quarter of the calls differ from another one in a part of their arguments only
    return st.tuples(st.sampled_from(NAMES), st.integers(0, 3), st.sampled_from(ops.KINDS),
                     st.one_of(st.none(), st.none(), st.none(), st.sampled_from(ops.VARIANTS)))


def strat():
    # a few calls, played several times in a random order
    return st.lists(op(), min_size=2, max_size=5).flatmap(
        lambda pool: st.fixed_dictionaries(dict(
            pool=st.just(pool),
            order=st.lists(st.integers(0, len(pool) - 1), min_size=3, max_size=9))))


def same(a, b, rtol):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x.shape != y.shape:
            return False
        fin = np.isfinite(x)
        if not np.array_equal(fin, np.isfinite(y)):
            return False
        scale = np.abs(x[fin]).max() if fin.any() else 0.0
        if not np.allclose(x[fin], y[fin], rtol=rtol, atol=1e-7 * scale * (rtol > 0)):
            return False
    return True


def rng_state():
    s = np.random.get_state()
    return s[0], s[1].tobytes(), s[2:]


def play(pool, order, rec):
    from pbt import lazy

    last = None
    for j, i in enumerate(order):
        name, seed, kind, variant = pool[i]
        r0, e0, cwd, x64 = rng_state(), np.geterr(), os.getcwd(), lazy.x64()
        state = ops.module_state()
        out, intact = ops.call(name, seed, kind, variant)
        rec.count()
        rec.label(name)
        require(intact, f"{name}: modifies its arguments")
        after = ops.module_state()
        for k, v in state.items():
            require(k in after and ops.equal(v, after[k]),
                    f"{name}: modifies a module constant", constant=k)
        if rng_state() != r0:  # importing or compiling something for the first time may draw
            r0 = rng_state()
            ops.call(name, seed, kind, variant)
            require(rng_state() == r0, f"{name}: disturbs numpy's random state")
        require(np.geterr() == e0 and os.getcwd() == cwd and lazy.x64() == x64,
                f"{name}: changes global settings")
        key = (name, seed, kind, variant)
        if key in _memo:
            require(same(_memo[key], out, 1e-6),
                    f"{name}: the same call gives different answers", seed=seed, kind=kind)
        else:
            _memo[key] = out
        last = (key, out)
    return last


def check(case, rec):
    pool = [tuple(x) for x in case["pool"]]
    order = case["order"]
    rec.nontrivial(any(order[i] in order[:i] and pool[order[i]] != pool[order[i - 1]]
                       for i in range(1, len(order))))
    play(pool, order, rec)


def strat_fresh():
    return st.fixed_dictionaries(dict(
        before=st.lists(op().filter(lambda o: o[0] not in SLOW), min_size=2, max_size=6),
        # the same operation with other arguments of the same shape and with arguments that are
        # alike in some respect (end points, first element, ...), then the call itself
        name=st.sampled_from(NAMES), seed=st.integers(0, 3), kind=st.sampled_from(ops.KINDS),
        twin=st.integers(0, 3), alike=st.permutations(ops.VARIANTS)))


def check_fresh(case, rec):
    name, seed, kind = case["name"], case["seed"], case["kind"]
    alike = case["alike"][:2] if name in SLOW else case["alike"]
    order = [*(tuple(x) for x in case["before"]), (name, case["twin"], kind, None),
             *((name, seed, kind, v) for v in alike), (name, seed, kind, None)]
    rec.nontrivial()
    _, out = play(order, list(range(len(order))), rec)
    r = subprocess.run([sys.executable, "-c", FRESH, name, str(seed), kind],
                       capture_output=True, cwd=env.VERIF, timeout=300)
    if b"ANSWER" not in r.stdout:
        raise RuntimeError("fresh process failed: " + r.stderr.decode()[-3000:])
    data = np.load(io.BytesIO(r.stdout.split(b"\nANSWER", 1)[1]))
    want = [data[k] for k in sorted(data.files)]
    # a fit follows its optimizer through rounding
    rt = 1e-4 if name in ("fit", "bfgs", "adam") else 1e-6
    require(same(want, out, rt), f"{name}: the answer depends on earlier calls", seed=seed, kind=kind)


SUBS = [
    Sub("sequence", strat, check, quick=360, thorough=8000, shards=4),
    Sub("fresh", strat_fresh, check_fresh, quick=80, thorough=600, shards=8,
        cover=[{"name": n} for n in NAMES]),
]
