"""Single-halo, population and single-time predictions agree halo by halo."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Sub, close, require
from pbt.lazy import Lazy, x64

top = Lazy("diffmah")
dk = Lazy("diffmah.diffmah_kernels")

RULE = (
    "A case is 10 halos, 14 times, a permutation, and one halo to be replaced by another. "
    "Non-trivial: the permutation moves a halo and the replacement differs from the original. "
    "A second set of cases evaluates pieces of populations of 1 to 1024 halos at 1 to 400 times."
)
NH, NT = 10, 14


def strat():
    h = gen.halo(logm0=(8.0, 16.5), t_peak=(0.3, 19.5))
    return st.fixed_dictionaries(
        dict(halos=gen.vec(h, NH), other=h, who=st.integers(0, NH - 1),
             perm=st.permutations(list(range(NH))), t=gen.times(NT, 0.05, 16.0),
             t0=gen.uniform(5.0, 20.0)))


def params(halos):
    return top.DiffmahParams(*[ref.column(halos, k) for k in gen.PNAMES])


def check(case, rec):
    tol = dict(rtol=1e-11, atol=1e-11) if x64() else dict(rtol=2e-6, atol=3e-5)
    rt = dict(rtol=1e-10) if x64() else dict(rtol=3e-4, atol=1e-30)
    lgt0 = np.log10(case["t0"])
    halos, tarr, perm, who = case["halos"], np.array(case["t"]), case["perm"], case["who"]
    p = params(halos)
    rec.nontrivial(perm != sorted(perm) and case["other"] != halos[who])
    rec.count(NH * NT)
    rate, lg = [np.asarray(x) for x in top.mah_halopop(p, tarr, lgt0)]
    for i in range(NH):
        r1, l1 = top.mah_singlehalo(top.DiffmahParams(*[x[i] for x in p]), tarr, lgt0)
        close(l1, lg[i], "single-halo history differs from the population's", **tol)
        close(r1, rate[i], "single-halo rate differs from the population's", **rt)
    for j in (0, NT // 2, NT - 1):
        at = top.logmh_at_t_obs(p, tarr[j], lgt0)
        close(at, lg[:, j], "mass at one common time differs from the history", **tol)
    j = np.arange(NH) % NT
    at = top.logmh_at_t_obs(p, tarr[j], lgt0)
    close(at, lg[np.arange(NH), j], "mass at per-halo times differs from the history", **tol)
    one = top.DiffmahParams(*[float(x[who]) for x in p])
    at = np.asarray(top.logmh_at_t_obs(one, float(tarr[2]), lgt0))
    require(at.shape == (), "one halo at one time is not a scalar", shape=at.shape)
    close(at, lg[who, 2], "scalar mass differs from the history", **tol)
    # order of halos and of times carries no meaning
    q = top.DiffmahParams(*[x[np.array(perm)] for x in p])
    r2, l2 = top.mah_halopop(q, tarr, lgt0)
    close(l2, lg[perm], "permuting halos does not permute histories", **tol)
    close(r2, rate[perm], "permuting halos does not permute rates", **rt)
    r2, l2 = top.mah_halopop(p, tarr[::-1].copy(), lgt0)
    close(l2, lg[:, ::-1], "reversing times does not reverse histories", **tol)
    close(r2, rate[:, ::-1], "reversing times does not reverse rates", **rt)
    # replacing one halo leaves the others alone
    new = list(halos)
    new[who] = case["other"]
    r3, l3 = [np.asarray(x) for x in top.mah_halopop(params(new), tarr, lgt0)]
    keep = np.arange(NH) != who
    close(l3[keep], lg[keep], "a halo's history depends on another halo", **tol)
    close(r3[keep], rate[keep], "a halo's rate depends on another halo", **rt)
    # params held as (float, jnp, 0-d) give the same
    import jax.numpy as jnp

    pj = top.DiffmahParams(*[jnp.asarray(x) for x in p])
    r4, l4 = top.mah_halopop(pj, jnp.asarray(tarr), lgt0)
    close(l4, lg, "array type of the input changes the history", **tol)


def check_uparams(case, rec):
    """The unbounded-parameter entry points predict the same histories."""
    tol = dict(rtol=1e-8, atol=1e-8) if x64() else dict(rtol=1e-4, atol=3e-3)
    rt = dict(rtol=1e-6) if x64() else dict(rtol=3e-2, atol=1e-25)
    lgt0 = np.log10(case["t0"])
    tarr = np.array(case["t"])
    rec.nontrivial(case["other"] != case["halos"][case["who"]])
    for h in case["halos"][:4] + [case["other"]]:
        p = top.DiffmahParams(*[float(h[k]) for k in gen.PNAMES])
        u = dk.get_unbounded_mah_params(p)
        b = dk.get_bounded_mah_params(u)
        rb, lb = top.mah_singlehalo(b, tarr, lgt0)
        lu = dk._log_mah_kern_u_params(u, tarr, lgt0)
        ru = dk._dmhdt_kern_u_params(u, tarr, lgt0)
        r2, l2 = dk._diffmah_kern_u_params(u, tarr, lgt0)
        near = np.abs(tarr - float(b.t_peak)) < 1e-4
        for x in (lu, l2):
            close(x, lb, "history from unbounded parameters differs", **tol)
        for x in (ru, r2):
            close(np.where(near, 0, x), np.where(near, 0, rb),
                  "rate from unbounded parameters differs", **rt)
        rec.count(2 * NT)


PART = [(1, 1), (2, 1), (3, 2), (64, 5), (257, 33), (1024, 3), (6, 400)]


def strat_parts():
    return st.fixed_dictionaries(dict(
        size=gen.size(PART), t0=gen.uniform(5.0, 20.0), t=gen.times(6, 0.05, 16.0),
        halos=gen.vec(gen.halo(logm0=(8.0, 16.5), t_peak=(0.3, 19.5)), 6),
        shuffle=gen.seed()))


def check_parts(case, rec):
    """Halos and times evaluated in any company give the same as evaluated together."""
    tol = dict(rtol=1e-11, atol=1e-11) if x64() else dict(rtol=2e-6, atol=3e-5)
    rt = dict(rtol=1e-10) if x64() else dict(rtol=3e-4, atol=1e-30)
    nh, nt = PART[case["size"]]
    rec.label(f"{nh} halos at {nt} times")
    rec.nontrivial(nh > 1)
    rec.count(nh * nt)
    lgt0 = np.log10(case["t0"])
    tarr = np.array(gen.stretch_times(case["t"], nt))
    p = params(gen.stretch(case["halos"], nh))
    rng = np.random.default_rng(case["shuffle"])
    rate, lg = [np.asarray(x) for x in top.mah_halopop(p, tarr, lgt0)]
    require(lg.shape == rate.shape == (nh, nt), "wrong shape", got=lg.shape)
    # pieces of the population (sizes fixed: each one is compiled)
    who = rng.integers(0, nh, 4)
    when = rng.integers(0, nt, 3)
    q = top.DiffmahParams(*[x[who] for x in p])
    r2, l2 = top.mah_halopop(q, tarr[when], lgt0)
    close(l2, lg[np.ix_(who, when)], "histories depend on what else is evaluated", **tol)
    close(r2, rate[np.ix_(who, when)], "rates depend on what else is evaluated", **rt)
    i = int(who[0])
    one = top.DiffmahParams(*[x[i] for x in p])
    r1, l1 = top.mah_singlehalo(one, tarr, lgt0)
    close(l1, lg[i], "single-halo history differs from the population's", **tol)
    close(r1, rate[i], "single-halo rate differs from the population's", **rt)
    r1, l1 = top.mah_singlehalo(one, tarr[when], lgt0)
    close(l1, lg[i][when], "history depends on which times are asked for", **tol)
    close(r1, rate[i][when], "rate depends on which times are asked for", **rt)
    close(top.logmh_at_t_obs(p, tarr[int(when[0])], lgt0), lg[:, int(when[0])],
          "mass at one common time differs from the history", **tol)
    j = rng.integers(0, nt, nh)
    close(top.logmh_at_t_obs(p, tarr[j], lgt0), lg[np.arange(nh), j],
          "mass at per-halo times differs from the history", **tol)


SUBS = [
    Sub("agree_x64", strat, check, quick=600, thorough=8000, x64=True),
    Sub("agree_f32", strat, check, quick=600, thorough=5000),
    Sub("uparams_x64", strat, check_uparams, quick=450, thorough=5000, x64=True),
    Sub("uparams_f32", strat, check_uparams, quick=450, thorough=3000),
    Sub("parts_x64", strat_parts, check_parts, quick=150, thorough=4000, x64=True,
        cover=gen.cover_sizes(PART)),
    Sub("parts_f32", strat_parts, check_parts, quick=150, thorough=4000,
        cover=gen.cover_sizes(PART)),
]
