"""Rewrite the per-property section of DESIGN.md from the checks themselves and properties.jsonl."""

import ast
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def const(tree, name):
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == name:
            return ast.literal_eval(n.value)
    return None


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    tech = {c["property"]: c["technique"] for c in man["checks"]}
    out = []
    for p in props:
        tree = ast.parse(open(os.path.join(HERE, "checks", p["id"].lower() + ".py")).read())
        out += [f"### {p['id']} {p['title']}", "", f"*Decided by* {tech.get(p['id'], 'not claimed')}.", "",
                str(const(tree, "RULE")), ""]
        a = const(tree, "ASSUMPTIONS")
        if a:
            out += ["Trusted: " + "; ".join(a) + ".", ""]
        out += ["Why tests cannot: " + p["why_tests_cant"], ""]
    path = os.path.join(HERE, "DESIGN.md")
    text = open(path).read()
    text = re.sub(r"(<!-- begin properties -->\n).*(<!-- end properties -->)",
                  lambda m: m.group(1) + "\n" + "\n".join(out) + m.group(2), text, flags=re.S)
    open(path, "w").write(text)


main()
