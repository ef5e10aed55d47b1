"""Population-model parameters <-> unbounded form, ingredient by ingredient and as a whole."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, popmodel
from pbt.core import Sub, all_finite, close, require
from pbt.lazy import x64

RULE = (
    "A case is one ingredient (or the complete model) with all its parameters drawn inside their "
    "bounds, some close to a bound, and all its unbounded parameters over the invertible range; "
    "8 draws per case. Non-trivial: every case; distinct by ingredient and draw."
)

NB = 8
# Logistic argument up to which the map can be inverted in the precision used
REACH = 4.0


def strat():
    return st.fixed_dictionaries(dict(
        path=st.sampled_from(sorted(popmodel.COMPONENTS)), seed=gen.seed(),
        edge=st.sampled_from([0.0, 0.3, 1.0]), which=st.integers(0, 300), scalar=st.booleans()))


def draws(bounds, rng, edge):
    rows = [popmodel.random_values(bounds, rng, edge=edge) for _ in range(NB)]
    return {n: np.array([r[n] for r in rows]) for n in bounds}


def tol_p(lo, hi):
    m = max(abs(lo), abs(hi))
    return 1e-12 * (m + hi - lo) if x64() else 3e-5 * (hi - lo) + 1e-6 * m


def roundtrip(bounds, P, U, to_p, to_u, case, rec):
    rng = np.random.default_rng(case["seed"])
    names = list(P._fields)
    require(len(names) == len(set(names)), "parameter names collide")
    require(list(U._fields) == ["u_" + n for n in names],
            "unbounded parameters are not named after the bounded ones in order")
    pick = (lambda v: float(v[0])) if case["scalar"] else (lambda v: v)
    v = draws(bounds, rng, case["edge"])
    p = P(**{n: pick(v[n]) for n in names})
    u = to_u(p)
    require(tuple(u._fields) == tuple(U._fields), "wrong names of the unbounded parameters")
    q = to_p(u)
    require(tuple(q._fields) == tuple(P._fields), "wrong names of the bounded parameters")
    rec.count(len(names))
    rec.nontrivial()
    for n in names:
        lo, hi = bounds[n][:2]
        all_finite(getattr(u, "u_" + n), "unbounded parameter is not finite", name=n)
        close(getattr(q, n), getattr(p, n), "bounded -> unbounded -> bounded changes a value",
              atol=tol_p(lo, hi), name=n)
    # from the other side
    uu = {}
    span = REACH / 0.1 if not x64() else 80.0
    for n in names:
        lo, hi = bounds[n][:2]
        uu["u_" + n] = pick(0.5 * (lo + hi) + rng.uniform(-span, span, NB))
    u = U(**uu)
    p = to_p(u)
    w = to_u(p)
    for n in names:
        lo, hi = bounds[n][:2]
        x = np.asarray(getattr(p, n), dtype="f8")
        require(((x > lo) & (x < hi)).all(), "bounded parameter is outside its bounds", name=n,
                value=x, bounds=[lo, hi])
        sig = np.clip((x - lo) / (hi - lo), 1e-9, 1 - 1e-9)
        # error of the bounded value, carried through the inverse
        eps = (1e-14 if x64() else 4e-7) * (max(abs(lo), abs(hi)) / (hi - lo) + 1)
        t = 1e-3 * eps + 2 * eps / (0.1 * sig * (1 - sig)) + (1e-11 if x64() else 2e-4)
        close(getattr(w, "u_" + n), getattr(u, "u_" + n),
              "unbounded -> bounded -> unbounded changes a value", atol=t, name=n)
    # one at a time: strictly increasing, and nobody else moves
    n = names[case["which"] % len(names)]
    lo, hi = bounds[n][:2]
    step = 0.05 * (hi - lo)
    base = {k: pick(v[k]) for k in names}
    x0 = np.clip(v[n], lo + 0.1 * (hi - lo), hi - 0.1 * (hi - lo) - step)
    u0 = to_u(P(**{**base, n: pick(x0)}))
    u1 = to_u(P(**{**base, n: pick(x0 + step)}))
    for k in names:
        a, b = np.asarray(getattr(u0, "u_" + k)), np.asarray(getattr(u1, "u_" + k))
        if k == n:
            require((b > a).all(), "transform is not increasing", name=k)
        else:
            require(np.array_equal(a, b), "transform of one parameter depends on another",
                    changed=n, moved=k)
    return names


def check_component(case, rec):
    c = popmodel.component(case["path"])
    bounds = {n: c.bound(n) for n in c.P._fields}
    rec.label(case["path"])
    roundtrip(bounds, c.P, c.U, c.to_p, c.to_u, case, rec)
    for n in c.P._fields:
        lo, hi = bounds[n]
        d = float(getattr(c.default, n))
        require(lo < d < hi, "default parameter is outside its bounds", name=n, value=d)
    # defaults correspond to each other
    q = c.to_p(c.default_u)
    for n in c.P._fields:
        lo, hi = bounds[n]
        close(getattr(q, n), getattr(c.default, n),
              "default unbounded parameters do not map to the defaults",
              atol=tol_p(lo, hi) + (3e-5 * (hi - lo)), name=n)


def strat_full():
    return st.fixed_dictionaries(dict(
        seed=gen.seed(), edge=st.sampled_from([0.0, 0.3, 1.0]), which=st.integers(0, 300),
        scalar=st.booleans(), n_excl=st.integers(0, 20)))


def check_full(case, rec):
    m = popmodel.full()
    bounds = popmodel.full_bounds()
    P, U = m.DiffmahPop_Params, m.DiffmahPop_UParams
    total = sum(len(popmodel.component(x).P._fields) for x in popmodel.PARTS)
    require(len(P._fields) == total == len(bounds) and set(P._fields) == set(bounds),
            "two ingredients share a parameter name", n=len(P._fields), total=total)
    roundtrip(bounds, P, U, m.get_diffmahpop_params_from_u_params,
              m.get_diffmahpop_u_params_from_params, case, rec)
    # the complete transform is the transform of each ingredient
    rng = np.random.default_rng(case["seed"] + 1)
    v = popmodel.random_values(bounds, rng, edge=case["edge"])
    p = P(**{n: v[n] for n in P._fields})
    u = m.get_diffmahpop_u_params_from_params(p)
    parts = m.get_component_model_params(p)
    uparts = m.get_component_model_u_params(u)
    require(len(parts) == len(popmodel.PARTS) == len(uparts), "an ingredient is missing")
    for path, a, b in zip(popmodel.PARTS, parts, uparts):
        c = popmodel.component(path)
        require(a._fields == c.P._fields and b._fields == c.U._fields,
                "ingredients are handed out in the wrong order", path=path)
        for n in c.P._fields:
            close(getattr(a, n), v[n], "ingredient does not receive its own parameter",
                  rtol=1e-6, atol=1e-9, name=n)
            require(float(getattr(b, "u_" + n)) == float(getattr(u, "u_" + n)),
                    "ingredient does not receive its own parameter", name=n)
        w = c.to_u(c.P(**{n: v[n] for n in c.P._fields}))
        close([float(x) for x in b], [float(x) for x in w],
              "complete transform differs from that of the ingredient", rtol=1e-5, atol=1e-4,
              path=path)
    q = m.get_diffmahpop_params_from_u_params(m.DEFAULT_DIFFMAHPOP_U_PARAMS)
    for n in P._fields:
        lo, hi = bounds[n][:2]
        close(getattr(q, n), getattr(m.DEFAULT_DIFFMAHPOP_PARAMS, n),
              "default unbounded parameters do not map to the defaults", atol=6e-5 * (hi - lo),
              name=n)
    # holding some parameters fixed
    excl = [str(x) for x in rng.choice(P._fields, case["n_excl"], replace=False)]
    var = m.get_varied_params_by_exclusion(p, excl)
    require(list(var._fields) == [n for n in P._fields if n not in excl],
            "wrong parameters are varied")
    back = m._get_all_diffmahpop_params_from_varied(var, m.DEFAULT_DIFFMAHPOP_PARAMS)
    for n in P._fields:
        want = getattr(m.DEFAULT_DIFFMAHPOP_PARAMS, n) if n in excl else v[n]
        close(getattr(back, n), want, "varied parameters are not merged by name", rtol=1e-6,
              atol=1e-9, name=n)


ALL = [{"path": x} for x in sorted(popmodel.COMPONENTS)]
SUBS = [
    Sub("ingredients", strat, check_component, quick=400, thorough=8000, shards=4,
        thorough_shards=8, cover=ALL),
    Sub("ingredients_x64", strat, check_component, quick=240, thorough=4000, shards=4, x64=True,
        cover=ALL),
    Sub("complete", strat_full, check_full, quick=60, thorough=1500),
    Sub("complete_x64", strat_full, check_full, quick=40, thorough=1000, x64=True),
]
