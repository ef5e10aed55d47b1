"""Bounded <-> unbounded halo parameters."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Sub, all_finite, close, require
from pbt.lazy import Lazy, x64

top = Lazy("diffmah")
dk = Lazy("diffmah.diffmah_kernels")

RULE = (
    "A case is 16 halos strictly inside the documented bounds (with extra weight next to either "
    "bound) and 16 unbounded vectors in [-500, 500]. Non-trivial: some parameter lies within 2% "
    "of a bound and some unbounded value exceeds 100 in magnitude."
)
N = 16
UNAMES = ["u_" + k for k in gen.PNAMES]


def bounded():
    lo = dict(gen.BOUNDS)

    def build(t):
        m0, tc, tp, fe, fl = t
        # late in its bounds, early between late and its upper bound
        la = lo["late_index"][0] + (lo["late_index"][1] - lo["late_index"][0]) * fl
        e = la + (lo["early_index"][1] - la) * fe
        return dict(logm0=m0, logtc=tc, early_index=e, late_index=la, t_peak=tp)

    return st.tuples(gen.inside(*lo["logm0"]), gen.inside(*lo["logtc"]),
                     gen.inside(*lo["t_peak"]), gen.inside(0.0, 1.0),
                     gen.inside(0.0, 1.0)).map(build)


def strat():
    u = st.one_of(gen.uniform(-60, 60), gen.uniform(-60, 60), gen.uniform(-500, 500))
    return st.fixed_dictionaries(
        dict(p=gen.vec(bounded(), N), u=gen.vec(gen.vec(u, 5), N)))


def check(case, rec):
    B = gen.BOUNDS
    width = np.array([B[k][1] - B[k][0] for k in gen.PNAMES])
    p = top.DiffmahParams(*[ref.column(case["p"], k) for k in gen.PNAMES])
    parr = np.array(p)
    edge = np.array([np.minimum(parr[i] - B[k][0], B[k][1] - parr[i]) / width[i]
                     for i, k in enumerate(gen.PNAMES)])
    rec.nontrivial((edge < 0.02).any() and (np.abs(case["u"]) > 100).any())
    rec.count(N * 10)
    # p -> u -> p
    u = dk.get_unbounded_mah_params(p)
    require(tuple(u._fields) == tuple(UNAMES), "unbounded parameters misnamed", got=u._fields)
    all_finite(np.array(u), "unbounded image of an interior point is not finite")
    back = dk.get_bounded_mah_params(u)
    require(tuple(back._fields) == tuple(gen.PNAMES), "bounded parameters misnamed",
            got=back._fields)
    for i, k in enumerate(gen.PNAMES):
        close(np.asarray(back[i]), parr[i], f"{k} does not survive bounded->unbounded->bounded",
              atol=(1e-10 if x64() else 3e-5) * width[i])
    # the map is the documented one
    mid = lambda k: 0.5 * sum(B[k])  # noqa: E731
    want = {}
    for k in ("logm0", "logtc", "late_index", "t_peak"):
        want[k] = ref.inverse_sigmoid(ref.column(case["p"], k), mid(k), 0.1, *B[k])
    # u -> p stays in bounds, early index never below late index, monotone
    uarr = np.array(case["u"]).T
    b = dk.get_bounded_mah_params(dk.DiffmahUParams(*uarr))
    all_finite(np.array(b), "bounded image of an unbounded point is not finite")
    slack = 1e-12 if x64() else 1e-6
    for k in gen.PNAMES:
        x = np.asarray(getattr(b, k), dtype="f8")
        s = slack * max(abs(B[k][0]), abs(B[k][1]))
        require((x >= B[k][0] - s).all() and (x <= B[k][1] + s).all(),
                f"{k} leaves its bounds", lo=x.min(), hi=x.max())
    require((np.asarray(b.early_index) >= np.asarray(b.late_index) * (1 - slack)).all(),
            "late index exceeds early index",
            worst=(np.asarray(b.late_index) - np.asarray(b.early_index)).max())
    # u -> p -> u where the sigmoid is not saturated
    u2 = dk.get_unbounded_mah_params(b)
    for i, k in enumerate(gen.PNAMES):
        m = mid(k) if k != "early_index" else 0.0
        x = 0.1 * (uarr[i] - m)
        lim = 12.0 if x64() else 4.0
        ok = np.abs(x) < lim
        if k == "early_index":
            ok &= np.abs(0.1 * (uarr[3] - mid("late_index"))) < lim
        tolr = 1e-6 if x64() else 0.05
        close(np.asarray(u2[i])[ok], uarr[i][ok],
              f"u_{k} does not survive unbounded->bounded->unbounded", atol=tolr)
    # one halo at a time gives the same as the array
    j = int(abs(case["u"][0][0]) * 1000) % N
    one = dk.get_bounded_mah_params(dk.DiffmahUParams(*[float(x[j]) for x in uarr]))
    close(np.array([float(x) for x in one]), np.array([np.asarray(x)[j] for x in b]),
          "bounding one halo differs from bounding many", rtol=1e-5 if not x64() else 1e-12,
          atol=1e-5 if not x64() else 1e-12)
    # each unbounded direction moves its own parameter up (late also lifts early)
    for i, k in enumerate(gen.PNAMES):
        up = uarr.copy()
        up[i] = up[i] + 5.0
        b2 = dk.get_bounded_mah_params(dk.DiffmahUParams(*up))
        sat = np.abs(0.1 * uarr[i]) < (15 if x64() else 6)
        if k == "early_index":  # no room to move when late saturates
            pass
        d = np.asarray(getattr(b2, k), dtype="f8") - np.asarray(getattr(b, k), dtype="f8")
        require((d[sat] > 0).all(), f"{k} does not increase with its unbounded value",
                worst=d[sat].min() if sat.any() else 0)
        for kk in gen.PNAMES:
            if kk == k or (k == "late_index" and kk == "early_index"):
                continue
            close(np.asarray(getattr(b2, kk)), np.asarray(getattr(b, kk)),
                  f"{kk} depends on the unbounded value of {k}", rtol=slack * 10, atol=slack * 20)


SUBS = [
    Sub("bijection_x64", strat, check, quick=750, thorough=8000, x64=True),
    Sub("bijection_f32", strat, check, quick=750, thorough=8000),
]
