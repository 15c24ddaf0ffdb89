#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current source."""
import glob
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
import threading
threading.stack_size(512 * 1024 * 1024)
import build
import terms
from rules import base

VERIF = build.VERIF
for f in sorted(glob.glob(os.path.join(HERE, "rules", "r_*.py"))):
    importlib.import_module("rules." + os.path.basename(f)[:-3])

TRUSTED = ["rustc nightly MIR construction and type checking (the driver reads its optimisation-free MIR)",
           "the semantic models of core/alloc/std, num-traits and nalgebra operations in analyzer/models.py",
           "arithmetic on coordinates is modelled as exact real arithmetic unless the rule says otherwise"]


def known(pid):
    out = {}
    try:
        for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                k, _, d = rest.partition(" :: ")
                out[k.split("=", 1)[1]] = d
    except FileNotFoundError:
        pass
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    level = next((c["level"] for c in man["checks"] if c["property"] == pid), "proof")
    if pid not in base.RULES:
        print("ERROR: no rule for " + pid)
        return 2
    fn, nan = base.RULES[pid]
    terms.MODE["nan"] = nan
    try:
        doc = build.dump()
    except build.BuildError as e:
        print("ERROR: " + str(e))
        return 2
    def analyse(doc):
        ctx = base.Ctx(doc)
        ctx.tier = tier
        try:
            fn(ctx)
        except base.Missing as e:
            ctx.ob("missing:" + str(e), base.REFUTED, "public function %s, which the property is about, does not exist" % e)
        except Exception as e:
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            ctx.ob("analysis", base.UNDECIDED, "analysis did not complete: %s: %s (%s:%d)" % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno))
        return ctx
    ctx = analyse(doc)
    if tier == "thorough" and not fn.__module__.endswith("r_api"):
        # the same obligations for what is compiled under every other choice of features
        for f in build.COMBINATIONS:
            name = f.replace(",", "+") or "none"
            try:
                other = analyse(build.dump(f))
            except build.BuildError as e:
                ctx.notes.append("not built with features [%s]: %s" % (f, str(e)[:300]))
                continue
            ctx.callsites += other.callsites
            for o in other.obs:
                o.what = "[features: %s] %s" % (name, o.what)
                ctx.obs.append(o)
    kf = known(pid)
    bad = {}
    for o in ctx.obs:
        if o.status == base.REFUTED:
            bad.setdefault(o.key, o)
    listed = [o for o in bad.values() if o.key in kf]
    new = [o for o in bad.values() if o.key not in kf]
    n = len(ctx.obs)
    ok = sum(o.status == base.PROVEN for o in ctx.obs)
    und = [o for o in ctx.obs if o.status == base.UNDECIDED]
    cov = {"obligations": n, "discharged": ok,
           "checker_cmd": "python3 analyzer/check.py %s %s" % (pid, tier),
           "trusted_base": TRUSTED,
           "explanation": ctx.explain or (fn.__doc__ or "").strip(),
           "rule": (fn.__doc__ or "").strip(),
           "functions": sorted(ctx.functions), "functions_analysed": len(ctx.functions),
           "call_sites_resolved": ctx.callsites,
           "samples": [{"obligation": o.key, "status": o.status, "what": o.what[:600], "where": o.where} for o in ctx.obs][:80],
           "feature_sets": ["default"] + (list(build.COMBINATIONS) if tier == "thorough" else []),
           "undecided": [{"obligation": o.key, "why": o.what[:600]} for o in und],
           "notes": ctx.notes}
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
          "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(new),
          "assumptions": TRUSTED[1:]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for o in ctx.obs:
        if o.status == base.UNDECIDED:
            print("UNDECIDED %s: %s" % (o.key, o.what[:500]))
    for o in listed:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, o.key, kf[o.key]))
    if new:
        rp = os.path.join(VERIF, "evidence", pid + ".violation.txt")
        with open(rp, "w") as f:
            for o in new:
                f.write("%s\n  at %s\n  %s\n" % (o.key, o.where, o.what))
        for o in new:
            print("  %s at %s: %s" % (o.key, o.where, o.what[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("%s: %d obligations, %d discharged, %d undecided, %d known findings (%.1f s)" % (pid, n, ok, len(und), len(listed), time.time() - t0))
    return 0


if __name__ == "__main__":
    rc = [3]

    def go():
        rc[0] = main()
    th = threading.Thread(target=go)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(rc[0])
