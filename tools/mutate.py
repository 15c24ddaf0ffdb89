#!/usr/bin/env python3
"""Development aid: run checks against edited scratch copies of the repository.

mutants.txt holds entries
    === <name> <B|R> <props,comma separated> <file relative to src>
    <<<<
    old text
    ----
    new text
    >>>>          (several blocks allowed; "@@ file" switches file)
B: the listed checks should report; R (refactoring): every listed check must stay quiet.
usage: mutate.py [-t] [name-pattern ...]      -t: also run the test-suite      -j: 8 in parallel      -a: refactorings only, against every check
"""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
SC = os.environ.get("MUT_SCRATCH", "/tmp/mutsc")
SRC = "crates/mapping-algorithms/src/"


def load(fn):
    out, cur, blk, mode, f = [], None, None, None, None
    for line in open(fn):
        line = line.rstrip("\n")
        if line.startswith("=== "):
            _, n, k, p, f = line.split()
            cur = (n, k, p.split(","), [])
            out.append(cur)
            mode = None
        elif line.startswith("@@ "):
            f = line[3:].strip()
        elif line == "<<<<":
            blk = [f, [], []]
            mode = 1
        elif line == "----" and mode == 1:
            mode = 2
        elif line == ">>>>":
            cur[3].append((blk[0], "\n".join(blk[1]), "\n".join(blk[2])))
            mode = None
        elif mode:
            blk[mode].append(line)
    return out


def main():
    a = sys.argv[1:]
    tests = "-t" in a
    pats = [x for x in a if not x.startswith("-")]
    fn = os.environ.get("MUTANTS", os.path.join(HERE, "mutants.txt"))
    shard = os.environ.get("MUT_SHARD")
    if not shard and "-j" in a:
        ps = [subprocess.Popen([sys.executable, __file__] + [x for x in a if x != "-j"], env=dict(os.environ, MUT_SHARD="%d/8" % i, MUT_SCRATCH="/tmp/mutsc%d" % i, MUT_WORK="/tmp/mutwork%d" % i)) for i in range(8)]
        for q in ps:
            q.wait()
        return
    for idx, (n, k, props, blocks) in enumerate(load(fn)):
        if shard and idx % 8 != int(shard.split("/")[0]):
            continue
        if pats and not any(re.search(p, n) or p in props for p in pats):
            continue
        os.makedirs(SC, exist_ok=True)
        subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", SC + "/"], check=True)
        bad = None
        for f, old, new in blocks:
            p = os.path.join(SC, SRC, f)
            s = open(p).read()
            if s.count(old) < 1:
                bad = "old text not found in %s: %r" % (f, old[:80])
                break
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        if bad:
            print("?? %-28s %s" % (n, bad))
            continue
        if tests:
            q = subprocess.run(["cargo", "test", "--offline", "-q", "--workspace"], cwd=SC, capture_output=True, text=True, env=dict(os.environ, CARGO_TARGET_DIR="/tmp/muttgt"))
            if q.returncode:
                print("   %-28s tests FAIL %s" % (n, re.findall(r"test (\S+) \.\.\. FAILED|^error.*", q.stdout + q.stderr)[:4]))
        if "-a" in a:
            if k != "R":
                continue
            props = [c["property"] for c in json.load(open(os.path.join(HERE, "..", "MANIFEST.json")))["checks"]]
        env = dict(os.environ, VERIF_REPO=SC, VERIF_WORK=os.environ.get("MUT_WORK", "/tmp/mutwork"))
        for pid in props:
            q = subprocess.run([sys.executable, os.path.join(HERE, "..", "analyzer", "check.py"), pid], capture_output=True, text=True, env=env)
            viol = "VIOLATION property=" + pid in q.stdout
            st = "caught" if viol else "quiet" if q.returncode == 0 else "ERR%d" % q.returncode
            good = (k == "B") == viol and q.returncode in (0, 1)
            lines = [l for l in q.stdout.splitlines() if l.startswith("  ") or l.startswith("UNDEC") or "ERROR" in l]
            und = any(l.startswith("UNDEC") for l in lines)
            show = not good or "-v" in a or (k == "R" and und)
            print("%s %-28s %s %-4s %s%s" % ("ok" if good else "!!", n, k, pid, st, " (undecided)" if und and not viol else ""))
            if show:
                for l in lines[:4]:
                    print("      " + l[:int(os.environ.get("MUTW", "420"))])
                if q.returncode not in (0, 1):
                    print((q.stdout + q.stderr)[-800:])


main()
