#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, the rules that exist and the table below."""
import json
import os
import re
import glob

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GVG = "interprocedural value-flow analysis over rustc MIR (gated value graph, path merging at joins, loops as recurrences, normal-form comparison)"
NAN = GVG + ", NaN-aware comparison outcomes"
T = {
 "K01": (GVG + "; ownership/shape rule on the insertion descent", ""),
 "K02": (GVG + "; sign-cell domain on the pruning decisions", "Sortedness of the subtrees is taken from K01's insertion rule."),
 "K03": (GVG + "; visit-count rule on the traversal recursion", ""),
 "G01": (NAN + "; bound derivation on trigonometric normal forms", "libm's sin, cos, asin, sqrt are assumed to stay in their mathematical ranges."),
 "G03": ("interval analysis over the value graph, rounding of sums kept in view", ""),
 "Y01": (NAN + "; completeness of trait implementations", ""),
 "B02": ("loop-invariant derivation on the recurrence of the value graph", ""),
 "H06": ("type-level query over MIR arithmetic reachable from the hull entry points", ""),
 "A01": ("forwarding query over MIR call sites of all pregenerated wrappers", ""),
 "A02": ("type-checking of the feature matrix, export parity and value-graph equality between configurations", "std-less builds are type-checked, not linked for a bare-metal target."),
 "A03": ("type-level witness programs; per-case value graphs of Display, PartialEq and Clone", ""),
 "A04": ("effect analysis over the call graph (statics, clocks, randomness, addresses)", ""),
 "A05": ("type-level witness programs (must compile, must not compile) plus ownership/effect facts", ""),
 "A06": ("panic-site enumeration over MIR, each site's path conditions discharged by linear reasoning on counts and loop invariants", "Calls into dependencies that have no model are taken not to panic; allocation is taken to succeed."),
 "A07": ("call-graph cycle analysis with a bounded-argument check, recursive-type analysis", ""),
 "A08": ("loop classification and inference of a decreasing measure for every loop that is not counted", "Recursion is judged by A07; loops inside dependencies are taken to end."),
 "I01": (NAN, ""),
}
Z = {
 "Z01": "Numerical convergence of an iterative optimiser depends on the data; no sound static argument bounds it.",
 "Z02": "Quantifies over floating-point rounding of the turn determinant; the analysis models coordinates as exact reals, and the code does not claim robust predicates.",
 "Z03": "A bound on accumulated rounding error of libm's transcendental functions is a runtime quantity out of reach here.",
 "Z04": "A running-time distribution over data is not a property of the source that a sound static rule can decide.",
}
rules = set()
for f in glob.glob(os.path.join(V, "analyzer", "rules", "r_*.py")):
    rules |= set(re.findall(r'^@rule\("(\w+)"', open(f).read(), re.M))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in rules:
        t, note = T.get(i, (GVG, ""))
        checks.append({"property": i, "quick_cmd": "python3 analyzer/check.py %s quick" % i,
                       "thorough_cmd": "python3 analyzer/check.py %s thorough" % i, "technique": "static analysis: " + t, "level": "proof",
                       "level_note": ("For every input, by static analysis of the current source: each obligation is proven, refuted (reported) or, where the code "
                                      "leaves the fragment the analysis understands, left undecided and listed in the evidence without raising an alarm. "
                                      "Trusts rustc's MIR and the operation models of the analyzer; arithmetic on floating-point coordinates is taken as exact. " + note).strip()})
    else:
        na.append({"property": i, "reason": Z.get(i, "No static rule has been built for this property yet.")})
json.dump({"version": 1, "setup_cmd": "python3 analyzer/setup.py", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
