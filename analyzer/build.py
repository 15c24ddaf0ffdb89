"""Compile /repo's current tree through the driver and return the dumped program facts."""
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))
ALLOW = ("core::option,core::result,core::cmp,core::ops,num_traits,core::num,core::convert,core::clone,core::bool,"
         "core::mem,core::default,core::tuple,core::array::equality")

# every choice of features; the default first
COMBINATIONS = [",".join(f for i, f in enumerate(("std", "pregenerated", "tracing")) if n >> i & 1) for n in (3, 0, 1, 2, 4, 5, 6, 7)]
SUITES = [",".join(f for i, f in enumerate(("std", "tracing")) if n >> i & 1) for n in range(4)]


class BuildError(Exception):
    pass


def run(cmd, env=None, cwd=None, timeout=800):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(env or {})
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, ds, fs in os.walk(root):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", "__pycache__"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()[:20]


class Lock:
    def __enter__(self):
        os.makedirs(WORK, exist_ok=True)
        self.f = open(os.path.join(WORK, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def driver():
    out = os.path.join(WORK, "driver")
    rc, log = run(["cargo", "+nightly", "build", "--offline", "--release", "--manifest-path",
                   os.path.join(VERIF, "driver", "Cargo.toml")], {"CARGO_TARGET_DIR": out})
    if rc:
        raise BuildError("driver does not build:\n" + log[-3000:])
    return os.path.join(out, "release", "vdriver")


def sysroot_lib():
    rc, out = run(["rustc", "+nightly", "--print", "sysroot"])
    return out.strip() + "/lib"


def key():
    return tree_hash(os.path.join(REPO, "crates"), os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock"),
                     os.path.join(REPO, "README.md"), os.path.join(VERIF, "driver"), os.path.abspath(__file__))


def forget(target, crate="mapping-algorithms"):
    """make cargo recompile the crate whatever its time stamps say"""
    for d in glob.glob(os.path.join(target, "*", ".fingerprint", crate + "-*")) + glob.glob(os.path.join(target, "*", "build", crate)):
        shutil.rmtree(d, ignore_errors=True)


def check_build(package, features):
    """does the package type-check with exactly these features? -> "" or what the compiler says"""
    with Lock():
        mark = os.path.join(WORK, "ok-%s-%s-%s" % (key(), package, features.replace(",", "_") or "none"))
        if os.path.exists(mark):
            with open(mark) as f:
                return f.read()
        target = os.path.join(WORK, "target")
        for c in ("mapping-algorithms", "mapping-suites"):
            forget(target, c)
        rc, log = run(["cargo", "+nightly", "check", "--offline", "--manifest-path", REPO + "/Cargo.toml", "-p", package,
                       "--lib", "--no-default-features", "--features", features], {"CARGO_TARGET_DIR": target})
        log = errors(log) if rc else ""
        for old in glob.glob(os.path.join(WORK, "ok-*")):
            if os.path.getmtime(old) < time.time() - 3600:
                os.remove(old)
        with open(mark, "w") as f:
            f.write(log)
        return log


def witness(name, progs):
    """type-check each program of `progs` (name -> source) against the library -> name -> list of error messages"""
    with Lock():
        h = hashlib.sha256((key() + json.dumps(progs, sort_keys=True)).encode()).hexdigest()[:20]
        mark = os.path.join(WORK, "wit-%s-%s" % (name, h))
        if os.path.exists(mark):
            with open(mark) as f:
                return json.load(f)
        d = os.path.join(WORK, "witness-" + name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(os.path.join(d, "src", "bin"))
        for n, src in progs.items():
            with open(os.path.join(d, "src", "bin", n + ".rs"), "w") as f:
                f.write("#![allow(dead_code, unused)]\n" + src + "\nfn main() {}\n")
        with open(os.path.join(d, "Cargo.toml"), "w") as f:
            f.write("""[package]
name = "witness-%s"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
mapping-algorithms = { path = "%s/crates/mapping-algorithms" }
nalgebra = { version = "*", default-features = false, features = ["libm"] }
num-traits = { version = "*", default-features = false, features = ["libm"] }
""" % (name, REPO))
        if os.path.exists(os.path.join(REPO, "Cargo.lock")):
            shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
        target = os.path.join(WORK, "target")
        forget(target)
        rc, log = run(["cargo", "+nightly", "check", "--offline", "--manifest-path", os.path.join(d, "Cargo.toml"), "--bins",
                       "--keep-going", "--message-format=json"], {"CARGO_TARGET_DIR": target})
        out = {n: [] for n in progs}
        built = False
        for line in log.split("\n"):
            try:
                m = json.loads(line)
            except ValueError:
                continue
            t = m.get("target", {}).get("name")
            if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                if t in out:
                    code = (m["message"].get("code") or {}).get("code") or ""
                    out[t].append((code + " " + m["message"]["message"]).strip())
                elif t == "mapping_algorithms":
                    raise BuildError("mapping-algorithms does not build: " + m["message"]["message"])
            if m.get("reason") == "compiler-artifact" and t == "mapping_algorithms":
                built = True
        if not built:
            raise BuildError("the witness programs could not be checked: " + log[-1500:])
        shutil.rmtree(d, ignore_errors=True)
        for old in glob.glob(os.path.join(WORK, "wit-*")):
            if os.path.getmtime(old) < time.time() - 3600:
                os.remove(old)
        with open(mark, "w") as f:
            json.dump(out, f)
        return out


def errors(log):
    """the error messages in a cargo log"""
    out = []
    for b in re.split(r"\n(?=error|warning)", "\n" + log):
        b = b.strip()
        if b.startswith("error"):
            out.append("\n".join(b.split("\n")[:3]))
    return "; ".join(out[:6])[:1500] or log[-800:]


def dump(features=None):
    """-> parsed facts of mapping-algorithms as it is in /repo now"""
    with Lock():
        k = key() + ("" if features is None else "-" + (features.replace(",", "_") or "none"))
        path = os.path.join(WORK, "dump-%s.json" % k)
        if not os.path.exists(path):
            drv = driver()
            target = os.path.join(WORK, "target")
            forget(target)
            tmp = path + ".tmp"
            env = {"RUSTC_WRAPPER": drv, "VDRIVER_CRATE": "mapping_algorithms", "VDRIVER_OUT": tmp,
                   "VDRIVER_ALLOW": ALLOW, "CARGO_TARGET_DIR": target,
                   "LD_LIBRARY_PATH": sysroot_lib() + ":" + os.environ.get("LD_LIBRARY_PATH", "")}
            cmd = ["cargo", "+nightly", "check", "--offline", "--manifest-path", REPO + "/Cargo.toml", "-p",
                   "mapping-algorithms", "--lib"]
            if features is not None:
                cmd += ["--no-default-features", "--features", features]
            rc, log = run(cmd, env)
            if rc or not os.path.exists(tmp):
                raise BuildError("mapping-algorithms does not build:\n" + errors(log))
            for old in glob.glob(os.path.join(WORK, "dump-*.json")):
                if os.path.getmtime(old) < os.path.getmtime(tmp) - 3600:
                    os.remove(old)
            os.rename(tmp, path)
        with open(path) as f:
            return json.load(f)
