#!/usr/bin/env python3
"""Development aid: build /verif/seeded/<id>/ from tools/seeds.txt and verify each bug.

entry:  === <id> <property> <file>
        needs: ...            breaks: ...
        <<<< old ---- new >>>>   (as in mutants.txt)
        demo:                 followed by Rust source up to the next "==="
A demo is a program against the public API that exits 0 on the unchanged tree and fails with the bug.
usage: seed.py [pattern ...]
"""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
SC = "/tmp/seedsc"
SRC = "crates/mapping-algorithms/src/"
DEMO = '''#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it; 0 = behaves as it should.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
mapping-algorithms = { path = "$repo/crates/mapping-algorithms"@FEAT@ }
nalgebra = { version = "0.33.2", default-features = false, features = ["libm"] }
[workspace]
EOF
cd "$d" && CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true cargo build --offline -q || exit 98
timeout 60 "$d/target/debug/demo"
'''


def load(fn):
    out, cur, blk, mode, f = [], None, None, None, None
    for line in open(fn):
        line = line.rstrip("\n")
        if line.startswith("=== "):
            _, n, p, f = line.split()
            cur = {"id": n, "property": p, "blocks": [], "demo": [], "needs": "", "breaks": "", "feat": ""}
            out.append(cur)
            mode = None
        elif mode == "demo":
            cur["demo"].append(line)
        elif line.startswith("@@ "):
            f = line[3:].strip()
        elif line == "<<<<":
            blk = [f, [], []]
            mode = 1
        elif line == "----" and mode == 1:
            mode = 2
        elif line == ">>>>":
            cur["blocks"].append((blk[0], "\n".join(blk[1]), "\n".join(blk[2])))
            mode = None
        elif mode in (1, 2):
            blk[mode].append(line)
        elif line == "demo:":
            mode = "demo"
        elif ":" in line and line.split(":")[0] in ("needs", "breaks", "feat"):
            k, _, v = line.partition(":")
            cur[k] = v.strip()
    return out


def sh(cmd, cwd=None, env=None, limit="800"):
    return subprocess.run(["timeout", limit] + cmd, cwd=cwd, capture_output=True, text=True, env=dict(os.environ, **(env or {})))


def main():
    pats = sys.argv[1:]
    for s in load(os.path.join(HERE, "seeds.txt")):
        if pats and not any(re.search(p, s["id"]) for p in pats):
            continue
        os.makedirs(SC, exist_ok=True)
        subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "/repo/", SC + "/"], check=True)
        bad = None
        for f, old, new in s["blocks"]:
            p = os.path.join(SC, SRC, f)
            t = open(p).read()
            if t.count(old) < 1:
                bad = "old text not found in %s: %r" % (f, old[:80])
                break
            open(p, "w").write(t.replace(old, new, 1))
        if bad:
            print("?? %-22s %s" % (s["id"], bad))
            continue
        diff = sh(["git", "diff"], cwd=SC).stdout
        d = os.path.join(HERE, "..", "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "main.rs"), "w").write("\n".join(s["demo"]).strip() + "\n")
        open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("@FEAT@", ", " + s["feat"] if s["feat"] else ""))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        q = sh(["cargo", "test", "--offline", "-q", "--workspace", "--all-features", "--no-fail-fast"], cwd=SC, limit="120", env={"CARGO_TARGET_DIR": "/tmp/muttgt"})
        res = re.findall(r"test result: (\w+)\. (\d+) passed; (\d+) failed", q.stdout)
        np, nf = sum(int(a) for _, a, _ in res), sum(int(a) for _, _, a in res)
        a = sh(["bash", d + "/demo.sh"], cwd="/repo")
        b = sh(["bash", d + "/demo.sh"], cwd=SC)
        c = sh([sys.executable, os.path.join(HERE, "..", "analyzer", "check.py"), s["property"]], env={"VERIF_REPO": SC, "VERIF_WORK": "/tmp/mutwork"})
        ok = q.returncode == 0 and np >= 73 and a.returncode == 0 and b.returncode not in (0, 98, 99)
        print("%s %-26s tests %d/%d demo %d -> %d  check %s" % ("ok" if ok else "!!", s["id"], np, nf, a.returncode, b.returncode,
              "caught" if c.returncode == 1 and "VIOLATION property=" + s["property"] in c.stdout else "MISSED rc=%d" % c.returncode))
        if not ok:
            print("\n".join((q.stdout + q.stderr).splitlines()[-12:]) if q.returncode or np < 73 else "")
            print(a.stderr[-900:], "\n---", b.stderr[-900:])


main()
