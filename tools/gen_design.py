#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design_head.md, the rules and the planted bugs."""
import ast, glob, json, os
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
t = open(os.path.join(H, "design_head.md")).read()
docs = {}
for f in glob.glob(os.path.join(V, "analyzer/rules/r_*.py")):
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if getattr(getattr(d, "func", None), "id", "") == "rule":
                    docs[d.args[0].value] = (os.path.basename(f), " ".join((ast.get_docstring(n) or "").split()))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
man = json.load(open(os.path.join(V, "MANIFEST.json")))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
out = []
for p in props:
    if p["id"] in na:
        continue
    f, d = docs[p["id"]]
    anchors = ", ".join(sorted({"/".join(a.split("/src/")[-1].split("/")[-2:]) for a in p["anchors"]["files"]}))
    out.append("**%s. %s** (`%s`; code: %s). %s" % (p["id"], p["title"], f, anchors, d))
    out.append("Beyond tests: " + p["why_tests_cant"] + "\n")
kf = open(os.path.join(V, "KNOWN_FINDINGS.txt")).read().splitlines()
fixed = ["* " + l[len("fixed: property="):].replace(" ", " (", 1).replace(" ", ") ", 2).replace(") ", " ", 1) for l in kf if l.startswith("fixed:")]
seeds = ["| bug | property | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    m = json.load(open(f))
    seeds.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"], m["what_it_breaks"]))
t = t.replace("@PROPS@", "\n".join(out)).replace("@FIXED@", "\n".join(fixed)).replace("@SEEDS@", "\n".join(seeds))
t = t.replace("@NA@", "\n".join("* %s %s: %s" % (p["id"], p["title"], na[p["id"]]) for p in props if p["id"] in na))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
