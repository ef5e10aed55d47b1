"""Building blocks of a property check.

A property module (checks/pNN.py) defines

    RULE = "how cases are made and what makes one non-trivial"
    SUBS = [Sub(...), ...]

A Sub couples a Hypothesis strategy that generates a *case* (a JSON-able value)
with a check function ``check(case, rec)`` that raises Violation when the
property is broken by the case.  The case is all the check depends on, so the
shrunk case written to the replay file reproduces the failure without
Hypothesis.
"""

import hashlib
import json
import math
import traceback

import numpy as np

from . import env


class Violation(AssertionError):
    """The code under test breaks the property on this case."""


class Recorder:
    """What a run actually exercised."""

    def __init__(self):
        self.evaluations = 0
        self.elements = 0
        self.labels = {}
        self.distinct = set()
        self.nontrivial_distinct = set()
        self.samples = []
        self._this_nontrivial = False

    def start(self, case):
        self._this_nontrivial = False
        self._digest = hashlib.sha1(dumps(case).encode()).hexdigest()[:16]

    def label(self, name, flag=True, n=1):
        if flag:
            self.labels[name] = self.labels.get(name, 0) + int(n)

    def count(self, n=1):
        self.elements += int(n)

    def nontrivial(self, flag=True):
        self._this_nontrivial = self._this_nontrivial or bool(flag)

    def finish(self, case):
        self.evaluations += 1
        self.distinct.add(self._digest)
        if self._this_nontrivial:
            if self._digest not in self.nontrivial_distinct and len(self.samples) < 2:
                self.samples.append(abbreviate(case))
            self.nontrivial_distinct.add(self._digest)


class Sub:
    def __init__(self, name, strategy, check, quick, thorough=None, shards=1,
                 thorough_shards=None, x64=False, shrink_s=45.0, cover=None):
        self.name = name
        self.strategy = strategy  # zero-argument callable returning a strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough or 12 * quick
        self.shards = shards
        self.thorough_shards = thorough_shards or max(4, shards)
        self.x64 = x64
        self.shrink_s = shrink_s
        self.cover = cover  # list of {field: value}, each of which gets its share of the cases


# ---------------------------------------------------------------- JSON helpers


def _default(o):
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, bytes):
        return {"__bytes__": o.hex()}
    raise TypeError(type(o))


def dumps(case):
    return json.dumps(case, default=_default, sort_keys=True)


def normalise(case):
    """The case exactly as it would be read back from a replay file."""
    return json.loads(dumps(case))


def abbreviate(obj, maxlen=6):
    if isinstance(obj, dict):
        return {k: abbreviate(v, maxlen) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        out = [abbreviate(v, maxlen) for v in obj[:maxlen]]
        if len(obj) > maxlen:
            out.append(f"... {len(obj)} items")
        return out
    if isinstance(obj, float):
        return float(f"{obj:.8g}") if math.isfinite(obj) else repr(obj)
    if isinstance(obj, np.generic):
        return obj.item()
    return obj


# ---------------------------------------------------------------- assertions


def require(cond, msg, **info):
    if not bool(cond):
        raise Violation(_fmt(msg, info))


def _fmt(msg, info):
    if not info:
        return msg
    parts = []
    for k, v in info.items():
        s = np.array2string(np.asarray(v), threshold=8, precision=9) \
            if isinstance(v, (np.ndarray, list, tuple)) or hasattr(v, "shape") \
            else repr(v)
        parts.append(f"{k}={s[:400]}")
    return msg + " | " + ", ".join(parts)


def close(actual, desired, msg, rtol=0.0, atol=0.0, **info):
    """|actual - desired| <= atol + rtol*|desired| elementwise, NaN never passes."""
    a = np.asarray(actual, dtype=float)
    d = np.asarray(desired, dtype=float)
    if a.shape != d.shape:
        raise Violation(_fmt(msg + ": shapes differ", dict(
            got=str(a.shape), want=str(d.shape), **info)))
    with np.errstate(invalid="ignore", over="ignore"):
        err = np.abs(a - d)
        ok = err <= np.asarray(atol) + np.asarray(rtol) * np.abs(d)
        ok |= a == d  # equal infinities
    if not np.all(ok):
        i = np.unravel_index(np.argmax(~ok), ok.shape) if ok.shape else ()
        raise Violation(_fmt(msg, dict(
            index=str(tuple(int(x) for x in i)), got=float(a[i]), want=float(d[i]),
            nbad=int((~ok).sum()), **info)))


def all_finite(x, msg, **info):
    a = np.asarray(x, dtype=float)
    if not np.all(np.isfinite(a)):
        i = np.unravel_index(np.argmax(~np.isfinite(a)), a.shape) if a.shape else ()
        raise Violation(_fmt(msg, dict(
            index=str(tuple(int(x) for x in i)), got=float(a[i]),
            nbad=int((~np.isfinite(a)).sum()), **info)))


def raised_by_repo(exc):
    """True if the exception passed through the code under test."""
    root = env.REPO.rstrip("/") + "/"
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for fr in traceback.extract_tb(exc.__traceback__):
            if fr.filename.startswith(root):
                return True
        exc = exc.__cause__ or exc.__context__
    return False


def unusable_output(exc):
    """True if the harness tripped over the shape or content of what the code under test
    produced (a table with a column missing, arrays that do not broadcast, a file that is not
    there), as opposed to not finding a function or calling it wrongly."""
    if isinstance(exc, TypeError):
        return "argument" not in str(exc) and "callable" not in str(exc)
    if isinstance(exc, (ValueError, IndexError, KeyError, ZeroDivisionError)):
        return True
    return isinstance(exc, FileNotFoundError)
