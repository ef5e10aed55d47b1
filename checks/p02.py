"""Accretion rates are the time derivative of the mass history."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Sub, all_finite, close, require
from pbt.lazy import Lazy, x64

top = Lazy("diffmah")
dk = Lazy("diffmah.diffmah_kernels")

RULE = (
    "A case is 12 halos over the documented parameter ranges (some with an early index below the late one), 20 times up to and beyond z=0 and a z=0 age. "
    "Non-trivial: some tabulated time lies after, and some before, a halo's t_peak. "
    "A second set of cases has from 1 to 1500 halos and 1 to 513 times."
)
NH, NT = 12, 20
NODES, WTS = np.polynomial.legendre.leggauss(24)


def strat():
    halos = gen.vec(
        gen.halo(logm0=(9.0, 16.5), logtc=(-0.99, 0.99), early=(0.12, 9.9),
                 late=(0.11, 4.9), t_peak=(0.3, 19.9)), NH)
    return st.fixed_dictionaries(
        dict(halos=halos, f=st.one_of(gen.times(NT, 0.02, 1.0), gen.times(NT, 0.02, 2.0)), t0=gen.uniform(5.0, 20.0),
             w=gen.uniform(0.05, 0.6), shift=gen.uniform(-2.0, 2.0),
             invert=st.sampled_from([False, False, True])))


def the_halos(case):
    """some with the two indices exchanged, whose mass may decline for a while"""
    return [gen.inverted(h) if case.get("invert") and i % 2 else h
            for i, h in enumerate(case["halos"])]


def params(halos):
    return top.DiffmahParams(*[ref.column(halos, k) for k in gen.PNAMES])


def check_rate(case, rec):
    t0 = case["t0"]
    lgt0 = np.log10(t0)
    halos = the_halos(case)
    tarr = np.array(case["f"]) * t0
    p = params(halos)
    rtol = 1e-9 if x64() else 1.5e-3
    rate, lg = [np.asarray(x) for x in top.mah_halopop(p, tarr, lgt0)]
    tp = ref.column(halos, "t_peak")[:, None]
    tie = np.abs(tarr[None, :] - tp) < 1e-5 * tp  # either convention at t == t_peak
    after = (tarr[None, :] > tp) & ~tie
    before = (tarr[None, :] < tp) & ~tie
    rec.nontrivial(after.any() and before.any())
    rec.label("times after t_peak", n=int(after.sum()))
    rec.label("times before t_peak", n=int(before.sum()))
    rec.count(rate.size)
    require(rate.shape == (NH, NT), "rates have the wrong shape", shape=rate.shape)
    want = ref.dmhdt(ref.stack(halos), tarr[None, :], lgt0)
    # in float32 the mass itself may underflow or lose relative precision
    lgm = ref.log_mah(ref.stack(halos), tarr[None, :], lgt0)
    rising = ref.column(halos, "early_index") >= ref.column(halos, "late_index")
    big = (lgm > -15) & (np.abs(want) > 1e-22)
    # where a declining history turns, the rate is a difference of larger terms
    atol = np.where(rising[:, None], 0.0, 10 * rtol * 10**lgm / tarr / 1e9)
    close(np.where(before & big, rate, 0.0), np.where(before & big, want, 0.0),
          "accretion rate is not the derivative of the mass", rtol=rtol, atol=atol)
    close(rate[after], np.zeros(after.sum()), "halo accretes after t_peak")
    all_finite(rate, "accretion rate is not finite")
    past = rate[rising][:, tarr <= t0]
    require((past >= 0).all(), "accretion rate is negative", worst=past.min() if past.size else 0)
    rec.label("times of declining mass", n=int((want < 0).sum()))
    rec.label("times after z=0", n=int((tarr > t0).sum()))
    i = int(case["t0"] * 1e3) % NH
    one, lg1 = [np.asarray(x) for x in
                top.mah_singlehalo(top.DiffmahParams(*[x[i] for x in p]), tarr, lgt0)]
    ok = before[i] & big[i]
    close(one[ok], want[i][ok], "single-halo rate is not the derivative of its mass",
          rtol=rtol, atol=atol[i][ok])
    close(one[after[i]], np.zeros(after[i].sum()), "single halo accretes after t_peak")
    # the specific rate does not depend on the normalization
    q = p._replace(logm0=p.logm0 + case["shift"])
    r2 = np.asarray(top.mah_halopop(q, tarr, lgt0)[0])
    close((r2 / 10 ** case["shift"])[ok_(before, big)], rate[ok_(before, big)],
          "rate does not scale with logm0", rtol=2 * rtol, atol=2 * atol[ok_(before, big)])


def ok_(a, b):
    return a & b


def check_closure(case, rec):
    """Mass gained over a window equals the integral of the rate over it (x64)."""
    t0 = case["t0"]
    lgt0 = np.log10(t0)
    halos = the_halos(case)
    p = params(halos)
    lo = np.array(case["f"]) * t0 / (1 + case["w"])
    hi = np.array(case["f"]) * t0
    t = (0.5 * (hi + lo)[:, None] + 0.5 * (hi - lo)[:, None] * NODES).ravel()
    tp = ref.column(halos, "t_peak")
    rate = np.asarray(top.mah_halopop(p, t, lgt0)[0]).reshape((NH, NT, NODES.size))
    gain = (rate * WTS).sum(axis=-1) * 0.5 * (hi - lo) * 1e9
    m_lo = 10.0 ** np.asarray(top.mah_halopop(p, lo, lgt0)[1])
    m_hi = 10.0 ** np.asarray(top.mah_halopop(p, hi, lgt0)[1])
    whole = (tp[:, None] >= hi) | (tp[:, None] < lo)  # windows not straddling t_peak
    rec.nontrivial(whole.any() and (tp[:, None] < lo).any())
    rec.label("windows after t_peak", n=int((tp[:, None] < lo).sum()))
    rec.count(int(whole.sum()))
    err = np.abs(gain - (m_hi - m_lo))
    require((err[whole] <= 1e-7 * m_hi[whole]).all(),
            "integral of the accretion rate is not the mass gained",
            worst=(err / m_hi)[whole].max())


def strat_sizes():
    return st.fixed_dictionaries(dict(
        size=gen.size(), t0=gen.uniform(5.0, 20.0), f=gen.times(6, 0.02, 1.6),
        halos=gen.vec(gen.halo(logm0=(9.0, 16.5), logtc=(-0.99, 0.99), early=(0.12, 9.9),
                               late=(0.11, 4.9), t_peak=(0.3, 19.9)), 6)))


def check_sizes(case, rec):
    """Any number of halos and times, from a single one of each."""
    nh, nt = gen.SIZES[case["size"]]
    rec.label(f"{nh} halos at {nt} times")
    halos = gen.stretch(case["halos"], nh)
    t0 = case["t0"]
    tarr = np.array(gen.stretch_times(case["f"], nt)) * t0
    lgt0 = np.log10(t0)
    p = params(halos)
    tp = ref.column(halos, "t_peak")[:, None]
    tie = np.abs(tarr - tp) < 1e-5 * tp
    want = ref.dmhdt(ref.stack(halos), tarr[None, :], lgt0)
    rec.nontrivial((tp > tarr).any() and (tp < tarr).any())
    rec.count(want.size)
    rtol = 1e-9 if x64() else 1.5e-3
    big = (ref.log_mah(ref.stack(halos), tarr[None, :], lgt0) > -15) & (want > 1e-22)
    ok = ~tie & (big | (tarr > tp))
    got = np.asarray(top.mah_halopop(p, tarr, lgt0)[0])
    require(got.shape == (nh, nt), "rates have the wrong shape", shape=got.shape)
    all_finite(got, "accretion rate is not finite")
    close(np.where(ok, got, 0), np.where(ok, want, 0),
          "accretion rate is not the derivative of the mass", rtol=rtol)
    i = int(t0 * 1e3) % nh
    one = np.asarray(top.mah_singlehalo(top.DiffmahParams(*[x[i] for x in p]), tarr, lgt0)[0])
    require(one.shape == (nt,), "single-halo rates have the wrong shape", shape=one.shape)
    close(np.where(ok[i], one, 0), np.where(ok[i], want[i], 0),
          "single-halo rate is not the derivative of its mass", rtol=rtol)


SUBS = [
    Sub("rate_x64", strat, check_rate, quick=800, thorough=20000, x64=True),
    Sub("rate_f32", strat, check_rate, quick=800, thorough=10000),
    Sub("closure_x64", strat, check_closure, quick=600, thorough=10000, x64=True),
    Sub("sizes_x64", strat_sizes, check_sizes, quick=180, thorough=4000, x64=True,
        cover=gen.cover_sizes()),
    Sub("sizes_f32", strat_sizes, check_sizes, quick=180, thorough=4000, cover=gen.cover_sizes()),
]
