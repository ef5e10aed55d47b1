"""Make, confirm and try planted bugs.

    plant.py make SPEC.py [ID ...]   write seeded/<ID>/ from the specs and confirm each (demo, tests)
    plant.py try ID [PNN ...]        run the checks (default: the bug's own) against a copy with the bug
    plant.py verify [ID ...]         demo on both trees + tests, from seeded/ alone

A spec file defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=python source)].
Scratch worktrees are made under /tmp and removed.
"""

import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
import textwrap
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
SEEDED = os.path.join(VERIF, "seeded")
SH = '#!/bin/bash\nexport PYTHONPATH="$PWD" JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n' \
     'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


class Copy:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="wt_", dir="/tmp")
        self.path = os.path.join(self.d, "repo")
        r = sh(["git", "-C", REPO, "worktree", "add", "--detach", self.path, "HEAD"])
        assert r.returncode == 0, r.stderr
        with open(os.path.join(self.path, "diffmah/_version.py"), "w") as f:
            f.write("__version__ = '0.7.3'\n")
        return self.path

    def __exit__(self, *a):
        sh(["git", "-C", REPO, "worktree", "remove", "--force", self.path])
        shutil.rmtree(self.d, ignore_errors=True)


def demo(bug, cwd):
    return sh(["bash", os.path.join(SEEDED, bug, "demo.sh")], cwd=cwd, timeout=300)


def tests(path, n=8):
    env = dict(os.environ, PYTHONPATH=path, JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONHASHSEED="0",
               PYTHONDONTWRITEBYTECODE="1")
    xml = os.path.join(os.path.dirname(path), "junit.xml")
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", str(n), "--timeout=300", "--junitxml", xml,
        "diffmah"], cwd=path, env=env)
    bad, good = [], 0
    for c in ET.parse(xml).getroot().iter("testcase"):
        if c.find("failure") is not None or c.find("error") is not None:
            bad.append(c.get("classname") + "::" + c.get("name"))
        elif c.find("skipped") is None:
            good += 1
    base = json.dumps(json.load(open("/opt/vp/BASELINE.json")))
    return [b for b in bad if b.split("::")[1] in base], good


def confirm(bug, n=8):
    out = []
    r = demo(bug, REPO)
    if r.returncode:
        out.append("demo fails on the unchanged tree: " + (r.stdout + r.stderr)[-600:])
    with Copy() as p:
        a = sh(["git", "-C", p, "apply", os.path.join(SEEDED, bug, "patch.diff")])
        if a.returncode:
            return ["patch does not apply: " + a.stderr]
        r = demo(bug, p)
        if r.returncode == 0:
            out.append("demo passes with the bug")
        else:
            print("   demo says:", (r.stdout + r.stderr).strip().splitlines()[-1][:200])
        bad, good = tests(p, n)
        if bad or good < 225:
            out.append(f"tests: {good} passed, failing {bad[:6]}")
    return out


def attempt(bug, props):
    if not props:
        props = [json.load(open(os.path.join(SEEDED, bug, "meta.json")))["property"]]
    with Copy() as p:
        sh(["git", "-C", p, "apply", os.path.join(SEEDED, bug, "patch.diff")])
        for q in props:
            r = sh([PY, os.path.join(VERIF, "run.py"), q], env=dict(os.environ, VERIF_REPO=p), cwd=VERIF)
            lines = [x for x in r.stdout.splitlines() if x.strip()]
            print(f"{bug} {q} exit={r.returncode}", " | ".join(lines)[-300:], flush=True)


def make(spec, ids, n=8):
    s = importlib.util.spec_from_file_location("spec", spec)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    for b in m.BUGS:
        if ids and b["id"] not in ids:
            continue
        d = os.path.join(SEEDED, b["id"])
        os.makedirs(d, exist_ok=True)
        with Copy() as p:
            for fn, old, new in b["edits"]:
                f = os.path.join(p, fn)
                t = open(f).read()
                assert t.count(old) == 1, (b["id"], fn, t.count(old), old)
                open(f, "w").write(t.replace(old, new))
            diff = sh(["git", "-C", p, "diff"]).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        open(os.path.join(d, "demo.py"), "w").write(textwrap.dedent(b["demo"]).lstrip())
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        problems = confirm(b["id"], n)
        print(b["id"], "OK" if not problems else problems, flush=True)
        if not problems:
            attempt(b["id"], [])


if __name__ == "__main__":
    cmd, rest = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        make(rest[0], rest[1:])
    elif cmd == "try":
        attempt(rest[0], rest[1:])
    elif cmd == "verify":
        for b in rest or sorted(os.listdir(SEEDED)):
            print(b, confirm(b) or "OK", flush=True)
