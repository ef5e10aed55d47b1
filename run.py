#!/opt/venv/bin/python
"""Decide one property.

    /opt/venv/bin/python run.py P01              # tier from VERIF_TIER (quick)
    /opt/venv/bin/python run.py P01 --tier thorough
    /opt/venv/bin/python run.py --replay replays/P01-xyz.json

Exit 0: held on everything explored. Exit 1: VIOLATION line(s). Exit 3: the
check itself failed (no verdict).
"""

import argparse
import contextlib
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
import zlib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pbt import env  # noqa: E402

BUDGET = {"quick": 420.0, "thorough": 780.0}  # generation stops after this (s)
HARD = {"quick": 700.0, "thorough": 870.0}  # workers are ended after this (s)


def load(prop):
    env.setup()
    return importlib.import_module(f"checks.{prop.lower()}")


def known_findings(prop):
    fn = os.path.join(env.VERIF, "known_findings.json")
    with open(fn) as f:
        data = json.load(f)
    return [x for x in data["findings"] if x["property"] == prop]


# ------------------------------------------------------------------ worker


class Stop(KeyboardInterrupt):
    """Ends a Hypothesis run from inside a case."""


@contextlib.contextmanager
def independent_draws(on):
    """Generate every case afresh, without the generator's own mutation of earlier cases"""
    from hypothesis.internal.conjecture import engine

    cls = engine.ConjectureRunner
    old = getattr(cls, "generate_mutations_from", None)
    if on and old is not None:
        cls.generate_mutations_from = lambda self, data: None
    try:
        yield
    finally:
        if on and old is not None:
            cls.generate_mutations_from = old


def worker(prop, subname, shard, n_examples, budget, seed, out):
    mod = load(prop)
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    from pbt import core

    sub = {s.name: s for s in mod.SUBS}[subname]
    rec = core.Recorder()
    st = dict(fail=None, first_fail=None, harness=None, truncated=False)
    t_end = t_stop = time.monotonic() + budget
    known = known_findings(prop)

    def attempt(raw):
        now = time.monotonic()
        if st["first_fail"] and now - st["first_fail"] > sub.shrink_s:
            raise Stop
        if not st["first_fail"] and now > t_end:
            st["truncated"] = True
            raise Stop
        case = core.normalise(raw)
        rec.start(case)
        try:
            sub.check(case, rec)
        except Stop:
            raise
        except hypothesis.errors.UnsatisfiedAssumption:
            raise
        except Exception as e:
            is_violation = isinstance(e, core.Violation)
            if not is_violation and core.raised_by_repo(e):
                is_violation = True
                e = core.Violation(f"the code under test raised {type(e).__name__}: {e}")
            elif not is_violation and core.unusable_output(e):
                is_violation = True
                e = core.Violation(
                    "the output of the code under test could not be used: "
                    f"{type(e).__name__}: {e}"
                )
            if not is_violation:
                import traceback

                st["harness"] = traceback.format_exc() + "\ncase: " + core.dumps(case)[:4000]
                raise Stop
            msg = str(e)
            for kf in known:
                if kf.get("sub") == subname and kf["signature"] in msg:
                    rec.label("known-finding:" + kf["id"])
                    rec.finish(case)
                    return
            st["first_fail"] = st["first_fail"] or time.monotonic()
            size = len(core.dumps(case))
            if st["fail"] is None or size <= st["fail"]["size"]:
                st["fail"] = dict(case=case, message=msg, size=size)
            raise core.Violation(msg) from None
        rec.finish(case)

    def search(over, n, s, mutate):
        """n generated cases with the fields of `over` fixed"""

        @hypothesis.seed(s)
        @settings(
            max_examples=n,
            database=None,
            deadline=None,
            print_blob=False,
            report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck),
            phases=(Phase.generate, Phase.shrink),
            verbosity=hypothesis.Verbosity.quiet,
        )
        @given(case=sub.strategy())
        def test(case):
            attempt({**case, **over} if over else case)

        with independent_draws(not mutate):
            test()

    # Half of the cases are drawn independently of each other; for the other half the
    # generator may duplicate parts of a case (which clusters the categories it draws from).
    # Categories in sub.cover are gone through one by one, so that none is left to chance.
    plan = []
    combos = sub.cover or [None]
    n_shards = int(os.environ.get("VERIF_SHARDS", "1"))
    if len(combos) >= n_shards:
        combos = combos[shard::n_shards]
    else:
        combos = [combos[shard % len(combos)]]
    each = max(2, -(-n_examples // len(combos)))
    for over in combos:
        n = each - each // 2 if each >= 12 else each
        plan.append((over, n, False))
        if each > n:
            plan.append((over, each - n, True))
    for i, (over, n, mutate) in enumerate(plan):
        t_end = time.monotonic() + (t_stop - time.monotonic()) / (len(plan) - i)
        try:
            search(over, n, seed + i, mutate)
        except (Stop, core.Violation):
            pass
        except BaseException:
            if st["fail"] is None:
                import traceback

                st["harness"] = traceback.format_exc()
        if st["fail"] or st["harness"]:
            break

    result = dict(
        sub=subname,
        shard=shard,
        evaluations=rec.evaluations,
        elements=rec.elements,
        labels=rec.labels,
        distinct=sorted(rec.distinct),
        nontrivial=sorted(rec.nontrivial_distinct),
        samples=rec.samples,
        truncated=st["truncated"],
        harness=st["harness"],
        fail=st["fail"],
    )
    with open(out, "w") as f:
        f.write(core.dumps(result))


# ------------------------------------------------------------------ replay


def replay(path):
    with open(path) as f:
        data = json.load(f)
    sub_env = data.get("env", {})
    missing = {k: v for k, v in sub_env.items() if os.environ.get(k) != v}
    if missing:
        os.environ.update(missing)
        os.execv(sys.executable, [sys.executable] + sys.argv)
    mod = load(data["property"])
    from pbt import core

    sub = {s.name: s for s in mod.SUBS}[data["sub"]]
    rec = core.Recorder()
    rec.start(data["case"])
    try:
        sub.check(data["case"], rec)
    except Exception as e:
        if isinstance(e, core.Violation) or core.raised_by_repo(e) or core.unusable_output(e):
            print(f"{type(e).__name__}: {e}")
            print(f"VIOLATION property={data['property']} replay={path}")
            return 1
        raise
    print("replay: the property held on this case")
    return 0


# ------------------------------------------------------------------ main


def sub_env(sub):
    d = {"PYTHONHASHSEED": "0"}
    if sub.x64:
        d["JAX_ENABLE_X64"] = "1"
    return d


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run just this sub-check")
    ap.add_argument("--scale", type=float, default=1.0, help="scale case counts")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--worker", nargs=6)
    args = ap.parse_args()
    if args.replay:
        return replay(args.replay)
    if args.worker:
        sub, shard, n, budget, seed, out = args.worker
        worker(args.prop, sub, int(shard), int(n), float(budget), int(seed), out)
        return 0

    t_start = time.time()
    prop, tier = args.prop, args.tier
    if tier not in BUDGET:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = load(prop)
    for kf in known_findings(prop):
        print(f"KNOWN-FINDING: property={prop} {kf['what']}")

    jobs = []
    for sub in mod.SUBS:
        if args.only and sub.name != args.only:
            continue
        shards = sub.shards if tier == "quick" else sub.thorough_shards
        total = sub.quick if tier == "quick" else sub.thorough
        total = max(1, int(total * args.scale))
        per = -(-total // shards)
        for sh in range(shards):
            s = zlib.crc32(f"{seed}/{prop}/{sub.name}/{sh}".encode())
            jobs.append((sub, sh, per, s))

    results, errors = [], []
    with tempfile.TemporaryDirectory(prefix="verif_") as tmp:
        running, queue = [], list(jobs)
        while queue or running:
            while queue and len(running) < args.jobs:
                sub, sh, n, s = queue.pop(0)
                out = os.path.join(tmp, f"{sub.name}.{sh}.json")
                log = open(out + ".log", "w+")
                left = max(20.0, BUDGET[tier] - (time.time() - t_start))
                cmd = [sys.executable, os.path.abspath(__file__), prop, "--worker",
                       sub.name, str(sh), str(n), str(left), str(s), out]
                e = dict(os.environ, **sub_env(sub))
                e.setdefault("TMPDIR", tmp)
                e["VERIF_SCRATCH"] = tmp
                e["VERIF_SHARDS"] = str(sub.shards if tier == "quick" else sub.thorough_shards)
                p = subprocess.Popen(cmd, env=e, stdout=log, stderr=subprocess.STDOUT,
                                     cwd=env.VERIF)
                running.append((p, sub, sh, out, log))
            time.sleep(0.05)
            still = []
            for item in running:
                p, sub, sh, out, log = item
                if p.poll() is None:
                    if time.time() - t_start > HARD[tier]:
                        p.kill()
                        errors.append(f"{sub.name}[{sh}]: killed after {HARD[tier]} s")
                    else:
                        still.append(item)
                    continue
                if os.path.isfile(out):
                    with open(out) as f:
                        r = json.load(f)
                    r["x64"] = sub.x64
                    results.append(r)
                    if r["harness"]:
                        errors.append(f"{sub.name}[{sh}]: {r['harness']}")
                else:
                    log.seek(0)
                    errors.append(f"{sub.name}[{sh}]: worker exit {p.returncode}\n"
                                  + log.read()[-6000:])
                log.close()
            running = still

    # one violation per sub-check: the smallest failing case over its shards
    fails = {}
    for r in results:
        if r["fail"]:
            cur = fails.get(r["sub"])
            if cur is None or r["fail"]["size"] < cur["size"]:
                fails[r["sub"]] = r["fail"]
    subs = {s.name: s for s in mod.SUBS}
    rdir = os.path.join(env.VERIF, "replays")
    for name, f in sorted(fails.items()):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-{name}.json")
        with open(path, "w") as fh:
            json.dump(dict(property=prop, sub=name, env=sub_env(subs[name]),
                           message=f["message"], case=f["case"]), fh, indent=1)
        print(f"  {name}: {f['message'][:1500]}")
        print(f"VIOLATION property={prop} replay={path}")

    by_sub = {}
    labels = {}
    for r in results:
        b = by_sub.setdefault(r["sub"], dict(evaluations=0, elements=0, distinct=set(),
                                             nontrivial=set(), samples=[], truncated=False))
        b["evaluations"] += r["evaluations"]
        b["elements"] += r["elements"]
        b["distinct"] |= set(r["distinct"])
        b["nontrivial"] |= set(r["nontrivial"])
        b["truncated"] |= r["truncated"]
        if len(b["samples"]) < 2:
            b["samples"] += r["samples"][: 2 - len(b["samples"])]
        for k, v in r["labels"].items():
            labels[f"{r['sub']}:{k}"] = labels.get(f"{r['sub']}:{k}", 0) + v
    samples = [dict(sub=k, case=s) for k, b in by_sub.items() for s in b["samples"][:1]]
    evidence = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=sum(b["evaluations"] for b in by_sub.values()),
            distinct_nontrivial=sum(len(b["nontrivial"]) for b in by_sub.values()),
            rule=mod.RULE,
            samples=samples[:12],
            distinct_cases=sum(len(b["distinct"]) for b in by_sub.values()),
            elementary_comparisons=sum(b["elements"] for b in by_sub.values()),
            labels=labels,
            per_subcheck={
                k: dict(evaluations=b["evaluations"], nontrivial=len(b["nontrivial"]),
                        stopped_by_time_budget=b["truncated"])
                for k, b in by_sub.items()
            },
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t_start, 2),
        violations=len(fails),
    )
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    for e in errors:
        print("CHECK-ERROR:", e, file=sys.stderr)
    c = evidence["coverage"]
    print(f"{prop} {tier}: {c['evaluations']} cases, {c['distinct_nontrivial']} distinct "
          f"non-trivial, {len(fails)} violation(s), {evidence['wall_s']} s")
    if fails:
        return 1
    if errors or not results or c["distinct_nontrivial"] == 0:
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
