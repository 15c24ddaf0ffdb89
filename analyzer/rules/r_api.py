"""Rules about the library's surface: A01 (pregenerated functions)."""
import re

from .base import *

SIGNED = ("i8", "i16", "i32", "i64", "isize")
UNSIGNED = ("u8", "u16", "u32", "u64", "usize")
FLOATS = ("f32", "f64")
PRECISION = {"single": "f32", "double": "f64"}
WIDE = ("i32", "i64", "isize", "u32", "u64", "usize") + FLOATS
# what each precision module promises: module -> names
PROMISED = {
    "point_clouds": ["icp_2d", "icp_3d"],
    "polygons": ["%s_%s" % (a, t) for a in ("graham_scan", "jarvis_march") for t in SIGNED + UNSIGNED + FLOATS]
    + ["is_single_point_in_polygon", "are_multiple_points_in_polygon"],
    "geo": ["calculate_haversine_distance", "calculate_sphere_bearing"],
    "lines": ["plot_%dd_%s_bresenham_line" % (n, t) for n in (2, 3) for t in WIDE],
}


def unify(pat, text, params):
    """values of the type parameters that make the signature `pat` read as `text`, or None"""
    toks = re.split(r"(\b(?:%s)\b)" % "|".join(map(re.escape, params)), pat) if params else [pat]
    seen, rx = [], ""
    for i, t in enumerate(toks):
        if i % 2 == 0:
            rx += re.escape(t)
        elif t in seen:
            rx += "(?P=%s)" % t
        else:
            seen.append(t)
            rx += "(?P<%s>[A-Za-z0-9_]+)" % t
    m = re.fullmatch(rx, text)
    return m.groupdict() if m else None


def arguments(sig):
    """the part of a fn signature before its result"""
    d = 0
    i = sig.index("fn(") + 2
    for j in range(i, len(sig)):
        if sig[j] in "([<":
            d += 1
        elif sig[j] in ")]" or (sig[j] == ">" and sig[j - 1] != "-"):
            d -= 1
            if d == 0:
                return sig[:j + 1]
    return sig


def generic_of(name, module, fns):
    """the generic function of `module` a pregenerated name stands for: its words are the words of the name
    without the dimension and the type -> (export, words left over)"""
    best = None
    for e in fns:
        p = e[0].split("::")
        if p[1] != module or "_precision" in e[0]:
            continue
        words, left = p[-1].split("_"), []
        for w in name.split("_"):
            if words and w == words[0]:
                words.pop(0)
            else:
                left.append(w)
        if not words and all(re.fullmatch(r"\dd|[iuf]\d+|[iu]size", w) for w in left):
            if best is None or len(left) < len(best[1]):
                best = (e, left)
    return best




def calls_of(r):
    out = []
    for b in r["bodies"].values():
        for bl in b["blocks"]:
            if bl["t"][0] == "call" and not bl.get("cleanup"):
                out.append(bl["t"][1].get("rpath") or bl["t"][1]["path"])
    return out


def tail(path):
    return "::".join(path.split("::")[-2:])


def forward_rule(ctx, r, target, depth=4):
    """-> (status, what) of "r returns target(its parameters in order) and does nothing else" """
    x = ctx.run(r, opaque=(target,))
    if x.err or x.ret is None:
        return UNDECIDED, "not analysed: %s" % x.err
    if any(a.op == "mref" for a in x.args):
        return UNDECIDED, "takes a mutable reference"
    shp = None
    for t in collect(deep(x.ret), lambda t: t.op == "app" and isinstance(t.args[0], str) and "::" in t.args[0]):
        shp = t
    if shp is None:
        return REFUTED, "does not call %s: it returns %s" % (target, brief(x.ret))
    if shp.args[0] != tail(target):
        # something in between?
        for p in calls_of(r):
            if tail(p) == shp.args[0] and p != target and depth:
                if any(e[1] == "fn" and e[2] == p for e in ctx.facts["exports"]):
                    return REFUTED, "calls %s instead of %s" % (p, target)
                h = next((q for q in ctx.doc["roots"] if q["path"] == p), None)
                if h is None:
                    return UNDECIDED, "calls %s, whose body is not known" % p
                a = forward_rule(ctx, h, target, depth - 1)
                b = forward_rule(ctx, r, p, 0)
                if a[0] == PROVEN and b[0] == PROVEN:
                    return PROVEN, "through %s" % p
                # the generic function may be the one that forwards
                g = next((q for q in ctx.doc["roots"] if q["path"] == target), None)
                c = forward_rule(ctx, g, p, 0) if g is not None else a
                if c[0] == PROVEN and b[0] == PROVEN:
                    return PROVEN, "calls %s, which is what %s does" % (p, target)
                return UNDECIDED, "calls %s: %s" % (p, a[1])
        return REFUTED, "does not call %s: it returns %s" % (target, brief(x.ret))
    want = app(shp.args[0], shp.args[1], *x.args)
    st, why = same(x.ret, want)
    if st != PROVEN:
        return REFUTED, "does more than pass its arguments on: it returns %s" % brief(x.ret)
    if x.eng.panics:
        return REFUTED, "can panic itself"
    return PROVEN, ""


@rule("A01")
def a01(ctx):
    """Every exported function of a `single_precision` or `double_precision` module is traced in MIR: its result must
    be exactly the result of the exported generic function its name stands for, applied to its own parameters in
    order; its signature must be the generic signature at the precision of the module and at the type and dimension
    its name says; and both modules must offer every promised name."""
    fns = [e for e in ctx.facts["exports"] if e[1] == "fn"]
    roots = {r["path"]: r for r in ctx.doc["roots"]}
    offered, vals = {}, {}
    for e in fns:
        m = re.fullmatch(r"crate::(\w+)::(single|double)_precision::(\w+)", e[0])
        if not m:
            continue
        module, prec, name = m.groups()
        offered.setdefault((module, prec), set()).add(name)
        k = "%s::%s_precision::%s" % (module, prec, name)
        g = generic_of(name, module, fns)
        if g is None:
            ctx.ob("generic/" + k, UNDECIDED, "no generic function of %s has this name" % module)
            continue
        (gx, left) = g
        gr = roots.get(gx[2])
        if gr is None or e[2] not in roots:
            ctx.ob("generic/" + k, UNDECIDED, "no body for %s" % gx[2])
            continue
        st, why = forward_rule(ctx, roots[e[2]], gx[2])
        ctx.ob("forward/" + k, st, "returns %s of its own arguments, in order%s" % (gx[2], "; " + why if why else ""), roots[e[2]]["span"])
        params = gr["generics"]
        gs, ws = gx[3], e[3]
        s = unify(gs, ws, params)
        if s is None:
            s = unify(arguments(gs), arguments(ws), params)
        if s is None:
            ctx.ob("types/" + k, REFUTED, "its signature %s is not that of %s at any types" % (ws, gx[2]), roots[e[2]]["span"])
            continue
        vals.setdefault(gx[0], []).append((k, prec, left, s, roots[e[2]]["span"]))
    for gp, ws in vals.items():
        # a parameter is the dimension, the point/output type or the precision
        for k, prec, left, s, sp in ws:
            bad = []
            dims = [w[:-1] for w in left if re.fullmatch(r"\dd", w)]
            tys = [w for w in left if not re.fullmatch(r"\dd", w)]
            for p, v in s.items():
                if v.isdigit():
                    if dims and v != dims[0]:
                        bad.append("dimension %s" % v)
                    continue
                varies = len({w[3].get(p) for w in ws if w[1] == prec}) > 1
                want = tys[0] if varies and tys else PRECISION[prec]
                if v != want:
                    bad.append("%s is %s, not %s" % (p, v, want))
            if dims and not any(v.isdigit() for v in s.values()):
                bad.append("no dimension")
            ctx.require("types/" + k, not bad, "%s at %s%s" % (gp, ", ".join("%s=%s" % i for i in sorted(s.items())), "; wrong: " + "; ".join(bad) if bad else ""), sp)
    for module, names in PROMISED.items():
        for prec in PRECISION:
            have = offered.get((module, prec), set())
            other = offered.get((module, "double" if prec == "single" else "single"), set())
            lost = sorted((set(names) | other) - have)
            ctx.require("offers/%s::%s_precision" % (module, prec), not lost,
                        "%d functions%s" % (len(have), "; missing " + ", ".join(lost) if lost else ""))


# what only exists with the standard library: the error traits of the error type
STD_ONLY = ("core::error::Error", "core::fmt::Display")


def pregenerated(path):
    return "_precision" in path


def surface(doc):
    """the public generic items: name -> (kind, signature, bounds)"""
    out = {}
    for e in doc["facts"]["exports"]:
        if not pregenerated(e[0]):
            out[e[0]] = tuple([e[1]] + [x if isinstance(x, str) else tuple(x) for x in e[3:]])
    public = {a["path"] for a in doc["facts"]["adts"] if a["public"]}
    for a in doc["facts"]["adts"]:
        if a["public"]:
            out["type " + a["path"]] = tuple((f["variant"], f["name"], f["ty"]) for f in a["fields"] if "Public" in f["vis"] or "Restricted" not in f["vis"])
    for i in doc["facts"]["impls"]:
        me = i["self"].split("<")[0]
        if i.get("trait_path") in STD_ONLY:
            continue
        if i.get("trait_path"):
            if me in public or "crate::" in i["trait_path"]:
                out["impl " + i["trait"]] = tuple(i["bounds"])
        elif me in public:
            for f in i["fns"]:
                out["method " + f[0]] = (f[1], tuple(f[2]))
    return out


def plain(r):
    """the body of a function without its source positions"""
    import json
    return re.sub(r'crates/[^"]*?:\d+', "", json.dumps(r))


@rule("A02")
def a02(ctx):
    """Each of the eight choices of std, pregenerated and tracing is compiled (both crates): it must type-check; what it
    exports apart from the precision modules (functions with signatures and bounds, types with public fields, methods,
    trait implementations) must be what the default features export; precision modules must exist exactly with
    `pregenerated`; without `std` nothing may link the standard library; and every function must have the same value
    graph (its callees taken as equal) as with the default features."""
    import build
    ref = ctx.doc
    want = surface(ref)
    by = {r["path"]: r for r in ref["roots"]}
    text = {p: plain(r) for p, r in by.items()}
    compared = 0
    for f in build.COMBINATIONS:
        name = f.replace(",", "+") or "none"
        try:
            d = build.dump(f)
        except build.BuildError as e:
            ctx.ob("builds/" + name, REFUTED, "mapping-algorithms with features [%s]: %s" % (f, e))
            continue
        ctx.ob("builds/" + name, PROVEN, "mapping-algorithms type-checks with features [%s]" % f)
        got = surface(d)
        lost = sorted(set(want) - set(got))
        more = sorted(set(got) - set(want))
        diff = sorted(k for k in want if k in got and got[k] != want[k])
        say = "".join("; %s %s" % (w, ", ".join(x)[:400]) for w, x in (("without", lost), ("with extra", more), ("changed", diff)) if x)
        ctx.require("surface/" + name, not say, "%d public items, as with the default features%s" % (len(got), say))
        mods = [e[0] for e in d["facts"]["exports"] if pregenerated(e[0])]
        if "pregenerated" in f:
            ref_mods = sorted(e[0] for e in ref["facts"]["exports"] if pregenerated(e[0]))
            miss = sorted(set(ref_mods) ^ set(mods))
            ctx.require("pregenerated/" + name, not miss, "%d pregenerated items%s" % (len(mods), "; differing: " + ", ".join(miss)[:300] if miss else ""))
        else:
            ctx.require("pregenerated/" + name, not mods, "no pregenerated items%s" % ("; found " + ", ".join(mods)[:300] if mods else ""))
        if "std" not in f.split(","):
            ctx.require("no-std/" + name, "std" not in d["facts"]["linked"], "the standard library is not linked")
        other = Ctx(d)
        for r in d["roots"]:
            q = by.get(r["path"])
            if q is None:
                if not pregenerated(r["path"]) and not any(t in r["path"] for t in STD_ONLY):
                    ctx.ob("value/%s/%s" % (name, r["path"]), UNDECIDED, "a function that only exists with these features")
                continue
            compared += 1
            if plain(r) == text[r["path"]]:
                continue
            k = "value/%s/%s" % (name, r["path"])
            x, y = other.run(r, opts={"modular": True}), ctx.run(q, opts={"modular": True})
            if x.err or y.err or (x.ret is None) != (y.ret is None) or sorted(x.out) != sorted(y.out):
                ctx.ob(k, UNDECIDED, "not analysed: %s" % (x.err or y.err), r["span"])
                continue
            res = [same(x.ret, y.ret)] if x.ret is not None else []
            res += [same(x.out[i], y.out[i]) for i in sorted(x.out)]
            bad = [s for s in res if s[0] != PROVEN]
            st = REFUTED if any(s[0] == REFUTED for s in bad) else UNDECIDED if bad else PROVEN
            ctx.ob(k, st, "the function computes what it computes with the default features%s" %
                   ("; with [%s]: %s, by default: %s %s" % (f, brief(x.ret), brief(y.ret), bad[0][1]) if bad else ""), r["span"])
    ctx.notes.append("%d function bodies compared with the default features" % compared)
    for f in build.SUITES:
        msg = build.check_build("mapping-suites", f)
        ctx.require("suites/" + (f.replace(",", "+") or "none"), not msg, "mapping-suites type-checks with features [%s]%s" % (f, ": " + msg if msg else ""))


PRELUDE = """
use mapping_algorithms::{kd_tree::KDTree, point_clouds::*, polygons::*};
use nalgebra::{AbstractRotation, Isometry, Point, Point2, RealField, Scalar, Const};
"""
# programs that must type-check: each is a promise about the types
ERROR_IDIOMS = {
    "standard_error": "fn is<E: std::error::Error + 'static>() {} fn w<T: RealField, const N: usize>() { is::<ICPError<T, N>>(); is::<ICPError<f32, 2>>(); is::<ICPError<f64, 3>>(); }",
    "boxed_across_threads": """
fn give<T: RealField, const N: usize>(e: ICPError<T, N>) -> Result<(), Box<dyn std::error::Error + Send + Sync>> { Err(e)?; Ok(()) }
fn worker(e: ICPError<f64, 3>) -> Result<(), Box<dyn std::error::Error + Send + Sync + 'static>> {
    std::thread::spawn(move || -> Result<(), ICPError<f64, 3>> { Err(e) }).join().unwrap()?; Ok(()) }""",
    "displayable": "fn w<T: RealField, const N: usize>(e: &ICPError<T, N>) -> String { format!(\"{e} {e:?}\") }",
    "comparable": "fn w<T: RealField, const N: usize>(a: &ICPError<T, N>, b: &ICPError<T, N>) -> bool { a == b && a.clone() == *b }",
    "copy_and_eq": "fn c<E: Copy>() {} fn e<E: Eq>() {} fn w() { c::<ICPError<f32, 2>>(); e::<ICPError<i32, 2>>(); }",
    "clone_and_debug": """
fn cd<X: Clone + std::fmt::Debug>() {}
fn w<T: RealField + Copy + Default, const N: usize>() { cd::<KDTree<T, N>>(); cd::<ICPConfiguration<T>>(); cd::<ICPConfigurationBuilder<T>>(); cd::<ICPError<T, N>>(); }
fn v() { cd::<KDTree<i32, 2>>(); cd::<KDTree<f64, 3>>(); }""",
    "debug_result": "fn w<T: RealField + Copy, R: AbstractRotation<T, N> + std::fmt::Debug, const N: usize>(r: &ICPSuccess<T, R, N>) -> String where Isometry<T, R, N>: std::fmt::Debug { format!(\"{r:?}\") }",
    "default_tree": "fn w() -> (KDTree<f64, 2>, KDTree<i32, 3>) { (KDTree::default(), Default::default()) }",
    "result_alias": """
fn w(a: &[Point2<f64>], c: ICPConfiguration<f64>) -> Result<f64, Box<dyn std::error::Error>> { Ok(icp::<f64, 2>(a, a, c)?.mse) }""",
}


def is_copy(t, p):
    """is t the value p, rebuilt field by field?"""
    t, p = deep(t), deep(p)
    if t is p or (t.op == "fld" and p.op == "fld" and t.args[:3] == p.args[:3]):
        return True
    if t.op == "con":
        return all(isinstance(f, T) and is_copy(f, fld(p, t.args[1], i)) for i, f in enumerate(t.args[2]))
    if t.op == "ite":
        a = t.args[0]
        if is_copy(a, p):        # a truth value spelled out
            return all(x is (TRUE if o == "True" or o is True else FALSE) for o, x in t.args[1])
        if a.op == "discr" and is_copy(a.args[0], p):
            return all(x is BOT or (x.op == "con" and x.args[1] == o and is_copy(x, p)) for o, x in t.args[1])
        if p.op == "ite" and p.args[0] is a:
            return all(x is BOT or is_copy(x, restrict_atom(p, a, o)) for o, x in t.args[1])
    return False


def method(ctx, trait, typ):
    for r in ctx.doc["roots"]:
        p = r["path"]
        if p.startswith("<crate::") and (" as %s" % trait) in p and p[1:].split("<")[0].split("::")[-1] == typ:
            return r
    return None


@rule("A03")
def a03(ctx):
    """Witness programs that use the error, the tree and the configuration as promised must type-check against the
    library. In MIR, Display::fmt of the error is followed per case to the text it writes: non-empty, different from
    case to case and naming the cloud or threshold of the case; PartialEq::eq must be true exactly for the same case with
    equal payload; every Clone::clone must rebuild its argument field by field."""
    import build
    res = build.witness("errors", {n: PRELUDE + s for n, s in ERROR_IDIOMS.items()})
    for n, errs in sorted(res.items()):
        ctx.require("idiom/" + n, not errs, "the program using it type-checks%s" % ("; " + "; ".join(errs)[:600] if errs else ""))
    adts = {a["path"].split("::")[-1]: a for a in ctx.facts["adts"] if a["public"] or a["path"].startswith("crate::kd_tree")}
    # messages
    r = method(ctx, "core::fmt::Display", "ICPError")
    if r is None:
        ctx.ob("message", REFUTED, "the error has no Display implementation with the standard library on")
    else:
        x = ctx.run(r)
        seen = {}
        if x.err or x.ret is None:
            ctx.ob("message", UNDECIDED, "not analysed: %s" % x.err, r["span"])
        else:
            for asg, leaf in paths(deep(x.ret)):
                case = next((o for a, o in asg if a.op == "discr" and a.args[0] is x.args[0]), None)
                if case is None:
                    case = "every case"
                lits = [t.args[0] for t in collect(leaf, lambda t: t.op == "str")]
                text = "".join(v if isinstance(v, str) else str(v) for v in lits)
                k = "message/%s" % case
                if not lits:
                    empty = leaf.op == "con" and leaf.args[1] == "Ok"
                    ctx.ob(k, REFUTED if empty else UNDECIDED, "what it displays as was not found: %s" % brief(leaf), r["span"])
                    continue
                ctx.require(k, bool(text.strip()), "displays as %r" % text, r["span"])
                seen.setdefault(text, set()).add(case)
                low = text.lower()
                about = {"SourcePointCloudEmpty": ("source", "target"), "TargetPointCloudEmpty": ("target", "source"),
                         "MSEIntervalThreshold": ("interval", "absolute"), "MSEAbsoluteThreshold": ("absolute", "interval")}.get(case)
                if about:
                    ctx.require("about/%s" % case, about[0] in low and about[1] not in low, "the message %r speaks of the %s" % (text, about[0]), r["span"])
            dup = [sorted(v) for v in seen.values() if len(v) > 1]
            ctx.require("distinct-messages", not dup, "no two cases display alike%s" % ("; alike: %s" % dup if dup else ""), r["span"])
    # equality
    r = method(ctx, "core::cmp::PartialEq", "ICPError")
    if r is not None:
        x = ctx.run(r)
        if x.err or x.ret is None:
            ctx.ob("equality", UNDECIDED, "not analysed: %s" % x.err, r["span"])
        else:
            wrong, depends = [], set()
            for asg, leaf in paths(deep(x.ret)):
                d = {a.args[0]: o for a, o in asg if a.op == "discr"}
                if x.args[0] not in d or x.args[1] not in d:
                    wrong.append("%s without looking at the case of both" % brief(leaf))
                    continue
                a, b = d[x.args[0]], d[x.args[1]]
                rest = [y for y, _ in asg if y.op != "discr"]
                if a != b and leaf is not FALSE:
                    wrong.append("%s equals %s" % (a, b))
                if a == b:
                    if rest:
                        depends.add(a)
                    elif leaf is not TRUE:
                        wrong.append("%s does not equal itself" % a)
            ctx.require("equality", not wrong, "errors are equal exactly when the case and its payload are%s" % ("; " + "; ".join(sorted(set(wrong)))[:500] if wrong else ""), r["span"])
    # clones
    for n in ("KDTree", "KDNode", "ICPError", "ICPConfiguration", "ICPConfigurationBuilder"):
        r = method(ctx, "core::clone::Clone", n)
        if r is None:
            continue
        x = ctx.run(r, opts={"modular": True})
        if x.err or x.ret is None:
            ctx.ob("clone/" + n, UNDECIDED, "not analysed: %s" % x.err, r["span"])
            continue
        ok = is_copy(x.ret, x.args[0])
        st = PROVEN if ok else UNDECIDED if unresolved(x.ret) else REFUTED
        ctx.ob("clone/" + n, st, "a clone has the fields of the original%s" % ("" if ok else "; it is %s" % brief(x.ret)), r["span"])


# parts of the standard library whose results depend on their arguments only
STD_PURE = ("std::collections::", "std::f32", "std::f64", "std::num", "std::error", "std::primitive", "std::panicking", "std::rt")
# operations whose result is not a function of their arguments
IMPURE = ("core::sync::atomic", "core::panic::location", "core::any::type_name", "core::any::TypeId", "core::any::type_id",
          "core::hint::black_box", "core::cell::", "alloc::sync", "core::arch", "core::intrinsics::caller_location", "core::fmt::Pointer")
RNG_PURE = ("rand_core::SeedableRng::seed_from_u64", "rand_core::SeedableRng::from_seed", "rand_core::SeedableRng::from_rng")
ENTROPY = ("thread_rng", "from_entropy", "from_os_rng", "OsRng", "getrandom", "rand::random", "ThreadRng", "EntropyRng", "rand::rng()")
UNORDERED = ("iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "into_keys", "into_values", "drain", "retain", "extract_if")
HASHED = ("std::collections::hash", "hashbrown")


def local_bodies(ctx):
    """every body of the crate once: key -> (root, body)"""
    out = {}
    for r in ctx.doc["roots"]:
        for k, b in r["bodies"].items():
            if b["krate"] == ctx.doc["crate"] or b["path"].startswith("crate::") or b["path"].startswith("<crate::"):
                out.setdefault(b["path"], (r, b))
    return out


def owner(path):
    return path.split("::{closure")[0]


def call_graph(ctx):
    """function -> functions of the crate it may call (closures belong to the function they are written in)"""
    g = {}
    for p, (r, b) in local_bodies(ctx).items():
        s = g.setdefault(owner(p), set())
        for bl in b["blocks"]:
            if bl["t"][0] == "call":
                q = bl["t"][1].get("rpath") or bl["t"][1].get("path") or ""
                if "crate::" in q:
                    s.add(owner(q))
    return g


def reaches(g, start, avoid=()):
    seen, todo = set(), [start]
    while todo:
        x = todo.pop()
        if x in seen or x in avoid:
            continue
        seen.add(x)
        todo += g.get(x, ())
    return seen


@rule("A04")
def a04(ctx):
    """Effect analysis over the MIR of every function of the crate, under every choice of features: no static (other than
    those the tracing macros declare), no thread-local and no unsafe code, no interior mutability in its types; no call
    into the parts of the standard library that see time, environment, files, threads or random hash keys, into entropy
    sources or to address-dependent operations; no conversion of an address to a number; generators are seeded with a
    constant; hash maps are walked in their random order only inside down-sampling; and no value returned anywhere
    depends on whether logging is enabled."""
    import build
    for f in build.COMBINATIONS:
        name = f.replace(",", "+") or "none"
        try:
            facts = build.dump(f)["facts"]
        except build.BuildError:
            continue                      # A02 speaks about that
        st = [s for s in facts["statics"] if not s["ty"].startswith("tracing") and (s["mut"] or not s["freeze"] or s["tl"])]
        ctx.require("statics/" + name, not st, "%d statics%s" % (len(facts["statics"]), "; state kept in " + ", ".join("%s: %s" % (s["path"], s["ty"]) for s in st) if st else ""),
                    st[0]["span"] if st else "")
        ctx.require("unsafe/" + name, not facts["unsafe"] and not facts["unsafe_items"], "no unsafe code%s" % "".join("; " + u for u in facts["unsafe"] + facts["unsafe_items"]))
        cells = ["%s.%s: %s" % (a["path"], x["name"], ", ".join(b)) for a in facts["adts"] for x in a["fields"]
                 for b in [[y for y in x["bad"] if "::Arc" not in y and "::rc::" not in y]] if b]
        ctx.require("cells/" + name, not cells, "%d types without interior mutability%s" % (len(facts["adts"]), "; found " + "; ".join(cells) if cells else ""))
    bodies = local_bodies(ctx)
    g = call_graph(ctx)
    public = [r["path"] for r in ctx.doc["roots"] if r["public"]]
    down = [r["path"] for r in ctx.doc["roots"] if r["path"].endswith("::downsample_point_cloud_voxel")]
    elsewhere = set()
    for p in public:
        if p not in down:
            elsewhere |= reaches(g, p, down)
    calls = 0
    for p, (r, b) in sorted(bodies.items()):
        ctx.functions.add(p)
        bad = []
        for bl in b["blocks"]:
            if bl.get("cleanup"):
                continue
            for s in bl["s"]:
                if s[0] == "=" and s[2][0] == "cast" and ("Expose" in str(s[2][1]) or "FromExposed" in str(s[2][1])):
                    bad.append(("an address is turned into a number", s[3]))
                if s[0] == "=" and s[2][0] == "tls":
                    bad.append(("thread-local storage", s[3]))
            if bl["t"][0] != "call":
                continue
            calls += 1
            c = bl["t"][1]
            names = [c.get("path") or "", c.get("rpath") or "", c.get("impl_self") or ""]
            kr = {c.get("krate"), c.get("rkrate")}
            if any(e in n for e in ENTROPY for n in names):
                bad.append(("entropy: " + names[0], bl["sp"]))
            elif "std" in kr and not any(n.lstrip("<").startswith(q) for q in STD_PURE for n in names[:2]) and not any(n.startswith("<std::collections") for n in names):
                bad.append(("the environment: " + names[0], bl["sp"]))
            elif any(n.lstrip("<").startswith(q) for q in IMPURE for n in names[:2]):
                bad.append(("something other than its arguments: " + names[0], bl["sp"]))
            if any(h in n for h in HASHED for n in names) and (c.get("name") or names[0].split("::")[-1]) in UNORDERED and owner(p) in elsewhere:
                bad.append(("the random order of a hash map: " + names[0], bl["sp"]))
        ctx.require("effects/" + p, not bad, "%s%s" % ("%d blocks without effects" % len(b["blocks"]), "".join("; depends on " + w for w, _ in bad)), bad[0][1] if bad else b["span"])
    ctx.callsites += calls
    # what the results are made of
    for r in ctx.doc["roots"]:
        if not r["generic"]:
            continue
        x = ctx.run(r, opts={"modular": True})
        if x.err:
            ctx.ob("result/" + r["path"], UNDECIDED, "not analysed: %s" % x.err, r["span"])
            continue
        vals = [v for v in [x.ret] + list(x.out.values()) if v is not None]
        log = sorted({t.args[0] for v in vals for t in collect(v, lambda t: t.op in ("app", "out") and isinstance(t.args[0], str)
                                                               and (t.args[0].startswith("log::") or "max_level" in t.args[0] or t.args[0] == "tracing"))})
        ctx.require("result/" + r["path"], not log, "made of its arguments only%s" % ("; depends on " + ", ".join(log) if log else ""), r["span"])
    for p, (r, b) in sorted(bodies.items()):
        for bl in b["blocks"]:
            if bl["t"][0] == "call" and any(q in (bl["t"][1].get("path") or "") for q in ("::seed_from_u64", "::from_seed")):
                st = constant(b, bl["t"][2][0])
                ctx.ob("seed/" + p, st, "the generator starts from a constant", bl["sp"])


def constant(b, o, depth=6):
    """is the operand a compile-time constant?"""
    if "const" in o:
        return PROVEN
    p = o.get("cp") or o.get("mv")
    if not p or len(p) != 1 or not depth:
        return UNDECIDED
    if 1 <= p[0] <= b["argc"]:
        return UNDECIDED          # a function of the arguments all the same
    defs = [s[2] for bl in b["blocks"] for s in bl["s"] if s[0] == "=" and s[1] == [p[0]]]
    calls = [bl for bl in b["blocks"] if bl["t"][0] == "call" and bl["t"][3] == [p[0]]]
    if len(defs) != 1 or calls:
        return UNDECIDED
    if defs[0][0] == "use":
        return constant(b, defs[0][1], depth - 1)
    return UNDECIDED


SHARED = {
    "send_sync": """
fn ss<X: Send + Sync>() {}
fn w<T: RealField + Copy + Default, R: AbstractRotation<T, N> + Send + Sync, const N: usize>() where Isometry<T, R, N>: Send + Sync {
    ss::<KDTree<T, N>>(); ss::<ICPConfiguration<T>>(); ss::<ICPConfigurationBuilder<T>>(); ss::<ICPError<T, N>>(); ss::<ICPSuccess<T, R, N>>();
}
fn v() { ss::<KDTree<i32, 2>>(); ss::<KDTree<f32, 3>>(); ss::<ICPConfiguration<f64>>(); }""",
    "query_from_many_threads": """
fn w(tree: &KDTree<f64, 3>, ps: &[Point<f64, 3>]) -> usize {
    std::thread::scope(|s| {
        let a = s.spawn(|| ps.iter().filter(|p| tree.nearest(p).is_some()).count());
        let b = s.spawn(|| tree.len());
        let c = s.spawn(|| tree.is_empty());
        let d = s.spawn(|| { let mut n = 0; tree.traverse_tree(&mut |_: &Point<f64, 3>| n += 1); n });
        a.join().unwrap() + b.join().unwrap() + c.join().unwrap() as usize + d.join().unwrap()
    })
}""",
    "queries_borrow_shared": """
fn w(a: &[Point2<f64>], b: &[Point2<f64>], p: &Point2<f64>, c: &ICPConfiguration<f64>) {
    let _ = (graham_scan::<f64, f64>(a, false, None), jarvis_march::<f64, f64>(a, None), are_multiple_points_in_polygon(a, b),
             is_single_point_in_polygon(p, b), calculate_polygon_extents(a), find_nearest_neighbour_naive(p, a), lex_sort(a), lex_sort_ref(a),
             calculate_point_cloud_center(a), downsample_point_cloud_voxel(a, 1.0f64), icp(a, b, c.clone()));
    let _ = transform_point_cloud(a, nalgebra::Isometry2::<f64>::identity());
}""",
    "moved_to_a_thread": """
fn w(tree: KDTree<f32, 2>, c: ICPConfiguration<f32>) { std::thread::spawn(move || (tree.len(), c)); }""",
}
# programs that must be rejected
EXCLUSIVE = {
    "insert_needs_exclusive": ("fn w(t: &KDTree<f64, 2>) { let _ = t.insert(Point2::new(0.0, 0.0)); }", "fn w(t: &mut KDTree<f64, 2>) { let _ = t.insert(Point2::new(0.0, 0.0)); }"),
    "traverse_mut_needs_exclusive": ("fn w(t: &KDTree<f64, 2>) { t.traverse_tree_mut(&mut |p: &mut Point2<f64>| p.x = 1.0); }", "fn w(t: &mut KDTree<f64, 2>) { t.traverse_tree_mut(&mut |p: &mut Point2<f64>| p.x = 1.0); }"),
    "traverse_is_read_only": ("fn w(t: &mut KDTree<f64, 2>) { t.traverse_tree(&mut |p: &mut Point2<f64>| { p.x = 1.0; }); }", "fn w(t: &mut KDTree<f64, 2>) { t.traverse_tree(&mut |p: &Point2<f64>| { let _ = p.x; }); }"),
    "sort_needs_exclusive": ("fn w(a: &[Point2<f64>]) { lex_sort_in_place(a); }", "fn w(a: &mut [Point2<f64>]) { lex_sort_in_place(a); }"),
    "sorted_references_are_read_only": ("fn w(a: &[Point2<f64>]) { for p in lex_sort_ref(a).unwrap() { p.x = 1.0; } }", "fn w(a: &[Point2<f64>]) { for p in lex_sort_ref(a).unwrap() { let _ = p.x; } }"),
    "no_insert_during_query": ("fn w(t: &mut KDTree<f64, 2>) { t.traverse_tree(&mut |p: &Point2<f64>| { let _ = t.insert(*p); }); }", "fn w(t: &mut KDTree<f64, 2>, u: &mut KDTree<f64, 2>) { t.traverse_tree(&mut |p: &Point2<f64>| { let _ = u.insert(*p); }); }"),
}


@rule("A05")
def a05(ctx):
    """Type-level witnesses: programs that share trees, configurations, errors and results between threads and query them
    through shared references must type-check; programs that modify a tree or a slice through a shared reference must be
    rejected, while their twins with exclusive access type-check. With no unsafe code and no interior mutability in any
    type of the crate, under any choice of features, a shared reference then cannot be used to modify anything."""
    import build
    progs = {n: PRELUDE + s for n, s in SHARED.items()}
    for n, (bad, good) in EXCLUSIVE.items():
        progs["not_" + n] = PRELUDE + bad
        progs["but_" + n] = PRELUDE + good
    res = build.witness("sharing", progs)
    for n in SHARED:
        ctx.require("shares/" + n, not res[n], "the program using it type-checks%s" % ("; " + "; ".join(res[n])[:600] if res[n] else ""))
    for n in EXCLUSIVE:
        if res["but_" + n]:
            ctx.ob("rejects/" + n, UNDECIDED, "its twin does not type-check either: %s" % "; ".join(res["but_" + n])[:300])
            continue
        errs = res["not_" + n]
        kinds = {e.split(" ")[0] for e in errs}
        ctx.require("rejects/" + n, bool(errs), "modifying through a shared reference is rejected (%s)" % (", ".join(sorted(kinds)) or "it type-checks"))
    for f in build.COMBINATIONS:
        name = f.replace(",", "+") or "none"
        try:
            facts = build.dump(f)["facts"]
        except build.BuildError:
            continue
        ctx.require("unsafe/" + name, not facts["unsafe"] and not facts["unsafe_items"], "no unsafe code%s" % "".join("; " + u for u in facts["unsafe"] + facts["unsafe_items"]))
        cells = ["%s.%s: %s" % (a["path"], x["name"], ", ".join(b)) for a in facts["adts"] for x in a["fields"]
                 for b in [[y for y in x["bad"] if "::Arc" not in y and "::rc::" not in y]] if b]
        ctx.require("cells/" + name, not cells, "%d types without interior mutability%s" % (len(facts["adts"]), "; found " + "; ".join(cells) if cells else ""))
