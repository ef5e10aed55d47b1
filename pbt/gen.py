"""Generators shared by the property modules.  Every value is JSON-able."""

from hypothesis import strategies as st

# Hypothesis draws integers from a large range close to zero most of the time; two bytes
# are spread evenly over their range.
_byte = st.integers(0, 255)
_unit = st.tuples(_byte, _byte).map(lambda t: (256 * t[0] + t[1]) / 65535)

# Bounds of the individual-halo parameters, as documented by the model
BOUNDS = dict(
    logm0=(0.0, 17.0),
    logtc=(-1.0, 1.0),
    early_index=(0.1, 10.0),
    late_index=(0.1, 5.0),
    t_peak=(0.05, 20.0),
)
PNAMES = list(BOUNDS)


def uniform(lo, hi):
    """Evenly spread floats in [lo, hi]; shrinks towards lo."""
    return _unit.map(lambda u: lo + (hi - lo) * u)


def inside(lo, hi, frac=1e-3):
    """Strictly inside (lo, hi), with extra weight near either end."""
    pad = frac * (hi - lo)
    body = uniform(lo + pad, hi - pad)
    return st.one_of(body, body, body,
                     uniform(lo + pad, lo + 20 * pad), uniform(hi - 20 * pad, hi - pad))


def vec(elem, n):
    return st.lists(elem, min_size=n, max_size=n)


def seed():
    return st.tuples(_byte, _byte, _byte).map(lambda t: (t[0] * 256 + t[1]) * 256 + t[2])


def halo(logm0=(9.0, 16.0), logtc=(-0.9, 0.9), early=(0.2, 9.0), late=(0.11, 4.5),
         t_peak=(0.3, 19.0), ordered=True):
    """One halo of the individual-halo model with early_index > late_index."""

    def build(t):
        m0, tc, ue, ul, tp = t
        lo_l, hi_l = late
        if ordered:
            e = early[0] + (early[1] - early[0]) * ue
            hi_l = min(hi_l, 0.99 * e)
            lo_l = min(lo_l, hi_l)
        else:
            e = early[0] + (early[1] - early[0]) * ue
        la = lo_l + (hi_l - lo_l) * ul
        return dict(logm0=m0, logtc=tc, early_index=e, late_index=la, t_peak=tp)

    u01 = uniform(0.0, 1.0)
    return st.tuples(uniform(*logm0), uniform(*logtc), u01, u01, uniform(*t_peak)).map(build)


def times(n, lo=0.05, hi=14.0):
    """n distinct increasing times in (lo, hi), roughly log- or linearly spaced."""

    def build(t):
        steps, log = t
        tot = sum(s + 0.02 for s in steps)
        acc, out = 0.0, []
        for s in steps:
            acc += (s + 0.02) / tot
            out.append(lo * (hi / lo) ** acc if log else lo + (hi - lo) * acc)
        return out

    return st.tuples(vec(uniform(0.0, 1.0), n), st.booleans()).map(build)


# (halos, times): single entries, more of one than of the other, powers of two and their neighbours
SIZES = [(1, 1), (1, 2), (2, 1), (5, 3), (16, 129), (33, 64), (257, 7), (1500, 100), (7, 513)]


def size(sizes=SIZES):
    return st.integers(0, len(sizes) - 1)


def cover_sizes(sizes=SIZES, field="size"):
    return [{field: i} for i in range(len(sizes))]


def stretch(halos, n):
    """n halos spread between the given ones -> list; the first ones are the given ones."""
    out = []
    for i in range(n):
        a, b = halos[i % len(halos)], halos[(7 * i + 3) % len(halos)]
        w = 0.0 if i < len(halos) else (0.618033988749895 * i) % 1.0
        out.append({k: (1 - w) * a[k] + w * b[k] for k in a})
    return out


def stretch_times(t, n):
    """n increasing times with the ends and the spacing of the given ones (the last one if n=1)"""
    if n == 1:
        return [t[-1]]
    x = [i * (len(t) - 1) / (n - 1) for i in range(n)]
    return [t[min(int(v), len(t) - 2)] * (1 - (v - min(int(v), len(t) - 2)))
            + t[min(int(v), len(t) - 2) + 1] * (v - min(int(v), len(t) - 2)) for v in x]


def inverted(halo):
    """The two indices exchanged: growth that speeds up with time, which the formula allows"""
    return {**halo, "early_index": halo["late_index"], "late_index": halo["early_index"]}
