"""KD-tree: insertion, exact nearest search, traversal."""
import re
from rules.base import *

NODECLASS = "kd_tree"


def method(c, name):
    rs = [r for r in c.doc["roots"] if r["public"] and r["path"].startswith("crate::kd_tree::KDTree::")
          and r["path"].endswith("::" + name)]
    if not rs:
        raise Missing("KDTree::" + name)
    return rs[0]


def node_layout(c):
    """(struct path, point field, [child fields]) of the recursive node type"""
    for a in c.facts["adts"]:
        kids = [i for i, f in enumerate(a["fields"]) if a["path"] + "<" in f["ty"] and f["ty"].startswith("core::option::Option<alloc::boxed::Box<")]
        pts = [i for i, f in enumerate(a["fields"]) if f["ty"].startswith("nalgebra::geometry::point::OPoint<")]
        if len(kids) == 2 and len(pts) == 1 and "kd_tree" in a["path"]:
            return a["path"], pts[0], kids, len(a["fields"])
    return None


def tree_layout(c):
    for a in c.facts["adts"]:
        if a["path"] == "crate::kd_tree::KDTree":
            fs = a["fields"]
            root = [i for i, f in enumerate(fs) if f["ty"].startswith("core::option::Option<")]
            cnt = [i for i, f in enumerate(fs) if f["ty"] == "usize"]
            if len(root) == 1 and len(fs) == len(root) + len(cnt) <= 2:
                return root[0], (cnt[0] if cnt else None), len(fs), "Box" in fs[root[0]]["ty"]
    return None


def get(v, *path):
    """field path; 'S' steps into Some"""
    for p in path:
        v = fld(v, "Some", 0) if p == "S" else fld(v, "", p)
    return v


def norm(t):
    """field terms without their recorded kind, so that paths compare by position only"""
    memo = {}

    def f(x):
        if x in memo:
            return memo[x]
        if x.op == "fld" and x.args[3] != "bool" and x.args[3] is not None:
            r = raw("fld", f(x.args[0]), x.args[1], x.args[2], x.args[3])
        elif not x.args:
            r = x
        else:
            r = rebuild(x, f)
        memo[x] = r
        return r
    return f(t)


def find_field(terms_, base, path):
    """the term for base.path as it occurs in the analysed values"""
    cur = base
    for variant, i in path:
        found = None
        for t in terms_:
            for x in collect(t, lambda y: y.op == "fld" and y.args[0] is cur and y.args[1] == variant and y.args[2] == i):
                found = x
                break
            if found is not None:
                break
        if found is None:
            return None
        cur = found
    return cur


def recursive_fns(c, r, opaque=()):
    """paths of the self-recursive functions the root calls, outermost first"""
    x = c.run(r, opaque)
    out = []
    vals = [v for v in [x.ret] + list(x.out.values()) if v is not None] + [p.cond for p in x.panics]
    for v in vals:
        for t in collect(v, lambda y: y.op in ("rec", "recout")):
            if t.args[0] not in out:
                out.append(t.args[0])
    return x, out


def node_fn(c, path):
    return c.root(path, generic=True)


def call_roles(app, tree, p2):
    """index of the node / data / depth argument in a call from the tree level -> (dict, depth0)"""
    roles, depth0 = {}, None
    for i, a in enumerate(app.args[3:] if app.op == "out" else app.args[2:]):
        if a is p2:
            roles["data"] = i
        elif freevars(a) and tree in freevars(a) and not (isinstance(shape(a), tuple) and shape(a)[0] == "vec"):
            roles.setdefault("node", i)
        elif const_val(a) is not None:
            roles["depth"] = i
            depth0 = a
    return roles, depth0


class Stop(Exception):
    pass


def undecided(c, key, why, where=""):
    c.ob(key, UNDECIDED, why, where)
    raise Stop


def insert_model(c, P="K01"):
    """analyse insertion; returns what the search needs to know"""
    r = method(c, "insert")
    tl, nl = tree_layout(c), node_layout(c)
    if tl is None or nl is None:
        undecided(c, "layout", "the tree is not a struct of an optional root node with two optional boxed children")
    x, recs = recursive_fns(c, r)
    if x.err:
        undecided(c, "insert", x.err)
    if len(recs) != 1:
        undecided(c, "insert", "insertion is not one recursive function over nodes (%d found)" % len(recs))
    y = c.run(r, (recs[0],))
    if y.err:
        undecided(c, "insert", y.err)
    return r, tl, nl, recs[0], y


@rule("K01")
def k01(c):
    """Insertion as a value-flow graph, by structural induction over the tree: every path of the
    recursive insertion either meets an equal point and changes nothing, or fills exactly one empty
    child with the new point, or recurses into exactly one present child; the child taken depends
    only on one coordinate comparison, and equality with every visited node is excluded first."""
    try:
        _k01(c)
    except Stop:
        pass


def _k01(c):
    r, tl, nl, rec, y = insert_model(c)
    ri, ci, nf, boxed = tl
    p1, p2 = y.args[0], y.args[1]
    tree = y.root
    T1 = raw("sym", "p1", None)
    out = y.out[1]
    t = [s for s in freevars(out) if s.args[0] == "p1"]
    if not t:
        undecided(c, "insert", "insertion does not read the tree")
    t = t[0]
    where = r["span"]
    # ---- tree level
    npaths = 0
    depth0, roles = None, None
    for asg, leaf in paths(deep(out)):
        npaths += 1
        d = dict(asg)
        rootnone = any(a.op == "discr" and a.args[0].op == "fld" and a.args[0].args[0] is t and a.args[0].args[2] == ri and o == "None" for a, o in asg)
        rootsome = any(a.op == "discr" and a.args[0].op == "fld" and a.args[0].args[0] is t and a.args[0].args[2] == ri and o == "Some" for a, o in asg)
        key = "KDTree::insert/" + ("empty" if rootnone else "nonempty")
        if rootnone == rootsome:
            c.ob(key, UNDECIDED, "path does not test whether the tree is empty", where)
            continue
        if leaf is t:
            c.ob(key, REFUTED, "a path leaves the whole tree unchanged without consulting the nodes" if rootsome else "inserting into an empty tree stores nothing", where)
            continue
        if leaf.op != "con":
            c.ob(key, UNDECIDED, "result is not a tree value: " + brief(leaf), where)
            continue
        root, cnt = fld(leaf, "", ri), fld(leaf, "", ci) if ci is not None else None
        oldcnt = find_field([out], t, [("", ci)]) if ci is not None else None
        if rootnone:
            ok = root.op == "con" and root.args[1] == "Some"
            n = root.args[2][0] if ok else None
            ok = ok and n.op == "con" and fld(n, "", nl[1]) is p2 and all(fld(n, "", k) is NONE() for k in nl[2])
            c.require("KDTree::insert/empty/root", ok, "an empty tree gets a childless root holding the new point; found " + brief(root), where)
            if ci is not None:
                ok = cnt is ONE or (oldcnt is not None and cnt is add(oldcnt, ONE))
                c.require("KDTree::insert/empty/count", ok, "the first insertion makes the length one; found " + brief(cnt), where)
            continue
        inner = root.args[2][0] if root.op == "con" and root.args[1] == "Some" else root
        if inner.op == "fld":
            inner2 = inner
            c.require("KDTree::insert/nonempty/root", False, "a path never hands the point to the root node; root is " + brief(inner2), where)
            continue
        if inner.op != "out" or inner.args[0] != rec:
            c.ob(key, UNDECIDED, "root is not updated by the recursive insertion: " + brief(inner), where)
            continue
        roles, depth0 = call_roles(inner, t, p2)
        c.require("KDTree::insert/nonempty/args", "node" in roles and "data" in roles, "the root node receives exactly the new point; found " + brief(inner), where)
        retapp = [a for a in d if a.op == "app" and a.args[0] == rec]
        if ci is not None:
            if len(retapp) != 1:
                c.require("KDTree::insert/nonempty/count", False, "the length changes without asking whether the point was stored; found " + brief(cnt), where)
            else:
                stored = d[retapp[0]]
                want = add(oldcnt, ONE) if stored and oldcnt is not None else oldcnt
                ok = cnt is want or (not stored and cnt.op == "fld" and cnt.args[0] is t and cnt.args[2] == ci)
                c.require("KDTree::insert/nonempty/count/%s" % ("stored" if stored else "kept"), ok,
                          "the length grows by one exactly when the node reports the point as stored; found %s when stored=%s" % (brief(cnt), stored), where)
    if roles is None or "node" not in roles or "data" not in roles:
        return
    sides, axis, nk = node_insert(c, rec, nl, roles)
    # ---- default, len, is_empty, From
    dflt = [q for q in c.doc["roots"] if q["path"].endswith("Default>::default") and "kd_tree::KDTree<" in q["path"]]
    if dflt:
        v = c.run(dflt[0]).ret
        ok = v is not None and v.op == "con" and fld(v, "", ri) is NONE() and (ci is None or fld(v, "", ci) is ZERO)
        c.require("KDTree::default", ok, "the default tree is empty with length zero; found " + brief(v), dflt[0]["span"])
    if ci is not None:
        q = method(c, "len")
        v = c.run(q).ret
        c.require("KDTree::len", v.op == "fld" and v.args[2] == ci and v.args[0].op == "sym", "the length is the maintained count; found " + brief(v), q["span"])
    q = method(c, "is_empty")
    z = c.run(q)
    v = z.ret
    s = [a for a in support(v)]
    ok = False
    if len(s) == 1:
        a = s[0]
        if a.op == "geq" and a.args[0].op == "fld" and a.args[0].args[2] == ci and a.args[1] == 1:
            ok = restrict_atom(v, a, True) is FALSE and restrict_atom(v, a, False) is TRUE
        elif a.op == "discr" and a.args[0].op == "fld" and a.args[0].args[2] == ri:
            ok = restrict_atom(v, a, "Some") is FALSE and restrict_atom(v, a, "None") is TRUE
    c.require("KDTree::is_empty", ok, "the tree is empty exactly when it stores no point; found " + brief(v), q["span"])
    fr = [q for q in c.doc["roots"] if "convert::From<&[" in q["path"] and "kd_tree::KDTree<" in q["path"]]
    if not fr:
        raise Missing("KDTree: From<&[Point]>")
    q = fr[0]
    ins = method(c, "insert")["path"]
    z = c.run(q, (ins,))
    v = z.ret
    key = "KDTree::from"
    if v is None or z.err:
        c.ob(key, UNDECIDED, z.err or "no value", q["span"])
        return
    ok, why = from_slice(c, v, ins, ri, ci)
    c.ob(key, ok, "building from a slice inserts its points one by one in order into an empty tree; " + why, q["span"])


def from_slice(c, v, ins, ri, ci):
    if v.op != "lout" or v.args[0].op != "loop":
        st = REFUTED if not contains(v, lambda t: t.op in ("loop", "app", "filt", "sorted")) else UNDECIDED
        if not contains(v, lambda t: t.op == "out" and t.args[0] == ins):
            st = REFUTED
        return st, "found " + brief(v)
    lp, idx = v.args[0], v.args[1]
    n, inits, l = lp.args[0], lp.args[1], lp.args[2]
    pts = [s for s in freevars(v) if s.op == "sym" and s.args[0] == "p1"]
    if len(pts) != 1:
        return REFUTED, "the slice is not read"
    pts = pts[0]
    init = inits[idx]
    if not (init.op == "con" and fld(init, "", ri) is NONE() and (ci is None or fld(init, "", ci) is ZERO)):
        return REFUTED, "starts from " + brief(init)
    if n is not length(pts):
        return REFUTED, "runs %s times" % brief(n)
    k = fresh("k", "uint")
    accs = [fresh("a", s) for s in l.args[1][1:]]
    body = open_mlam(l, [k] + accs)[idx]
    if not (body.op == "out" and body.args[0] == ins):
        return (REFUTED if body.op in ("ite", "var") else UNDECIDED), "step is " + brief(body)
    if body.args[3] is not accs[idx] or body.args[4] is not at(pts, k):
        return REFUTED, "step is " + brief(body)
    return PROVEN, ""


def node_insert(c, rec, nl, roles, report=True):
    """check the recursive insertion; -> {child field: set of signs of data-point}, axis term, names"""
    r = node_fn(c, rec)
    x = c.run(r)
    w = r["span"]
    K = "insert"

    def ob(key, st, what):
        if report:
            c.ob(K + "/" + key, st, what, w)
    if x.err or x.ret is None:
        ob("node", UNDECIDED, x.err or "no value")
        raise Stop
    ni, di = roles["node"] + 1, roles["data"] + 1
    out = x.out.get(ni)
    if out is None:
        ob("node", UNDECIDED, "node is not updated in place")
        raise Stop
    node = raw("sym", "p%d" % ni, x.eng.t.shape(r["bodies"][r["key"]]["locals"][ni]))
    data = x.args[roles["data"]]
    depth = x.args[roles["depth"]] if "depth" in roles else None
    pf, kids = nl[1], nl[2]
    vals = [out, x.ret]
    point = find_field(vals, node, [("", pf)])
    if point is None:
        ob("node", REFUTED, "insertion never looks at the node's own point")
        raise Stop
    n = length(data)
    kf = {k: find_field(vals, node, [("", k)]) for k in kids}
    kv = {k: (find_field(vals, node, [("", k), ("Some", 0)]) if kf[k] is not None else None) for k in kids}
    eqv = seq_eq(point, data, n)
    eqatoms = support(eqv)
    axes = axis_terms([v for v in vals], data, point)
    pair = lift(None, lambda a, b: tup(a, b), x.ret, out)
    try:
        ps = paths(deep(pair))
    except OverflowError:
        ob("node", UNDECIDED, "too many paths")
        raise Stop
    sides = {k: set() for k in kids}
    axis_used = set()
    bysign = {}
    for asg, leaf in ps:
        d = dict(asg)
        ret, o = leaf.args[2]
        # what is known about equality and about the axis comparison
        e = eqv
        for a in eqatoms:
            if a in d:
                e = restrict_atom(e, a, d[a])
        sg = set("-0+")
        ax = None
        differ = e is FALSE
        for t, (atom, flip) in axes.items():
            if atom in d:
                ax = t
                so = d[atom]
                so = {"-": "+", "+": "-", "0": "0"}[so] if flip else so
                sg &= {so}
                axis_used.add(t)
                if so != "0":
                    differ = True
        same_ = e is TRUE
        if same_ and differ:
            continue
        if o is node or o is BOT:
            if ret is FALSE:
                if same_:
                    ob("equal/unchanged", PROVEN, "an equal point changes nothing and reports nothing stored")
                else:
                    ob("new/dropped", REFUTED, "a point that differs from the visited node is not stored (path %s)" % pathtext(asg))
            elif same_:
                ob("equal/report", REFUTED, "an equal point is reported as stored although nothing changes")
            else:
                ob("new/dropped", REFUTED, "a point is reported as stored without being stored (path %s)" % pathtext(asg))
            continue
        if o.op != "con":
            ob("node", UNDECIDED, "node becomes " + brief(o))
            continue
        ch = [i for i in range(nl[3]) if not same_field(fld(o, "", i), node, i)]
        if pf in ch:
            ob("point/kept", REFUTED, "the node's own point is replaced by " + brief(fld(o, "", pf)))
            continue
        kc = [i for i in ch if i in kids]
        if len(kc) != 1 or len(ch) != 1:
            ob("one-child", REFUTED if len(kc) != 1 else UNDECIDED, "insertion changes fields %s of the node" % ch)
            continue
        k = kc[0]
        nv = fld(o, "", k)
        if same_:
            ob("equal/changed", REFUTED, "a point equal to the node's is stored again (path %s)" % pathtext(asg))
            continue
        if not differ:
            ob("equal/unchecked", REFUTED, "the new point goes below a node without excluding that it equals the node's point (path %s)" % pathtext(asg))
        else:
            ob("differ/path", PROVEN, "below the node only if it differs from the node's point")
        present = None
        for a, oo in asg:
            if a.op == "discr" and is_field(a.args[0], node, k):
                present = oo
        if nv.op == "con" and nv.args[1] == "Some" and nv.args[2][0].op == "con":
            new = nv.args[2][0]
            ok = fld(new, "", pf) is data and all(fld(new, "", q) is NONE() for q in kids)
            ob("leaf/new", PROVEN if ok else REFUTED, "the new child holds the new point and nothing else; found " + brief(new))
            ob("leaf/empty", PROVEN if present == "None" else REFUTED, "the new child takes an empty place (else the stored subtree is lost; path %s)" % pathtext(asg))
            ob("leaf/report", PROVEN if ret is TRUE else REFUTED, "storing is reported")
        elif nv.op == "con" and nv.args[1] == "Some" and nv.args[2][0].op == "recout":
            rc = nv.args[2][0]
            a = list(rc.args[3:])
            ok = is_some_field(a[roles["node"]], node, k) and a[roles["data"]] is data
            ob("descend/args", PROVEN if ok else REFUTED, "the point is handed to the same child that is updated; found " + brief(rc))
            rr = [q for q in d if q.op == "rec" and q.args[0] == rec]
            okr = len(rr) == 1 and tuple(rr[0].args[2:]) == tuple(rc.args[3:]) and boolean(d[rr[0]]) is ret
            okr = okr or (ret.op == "ite")
            ob("descend/report", PROVEN if okr else REFUTED, "descending reports what the child reports; found %s" % brief(ret))
            if depth is not None:
                bysign.setdefault("depth", set()).add(a[roles["depth"]])
        elif nv is NONE():
            ob("leaf/lost", REFUTED, "a child is removed")
        else:
            ob("node", UNDECIDED, "child becomes " + brief(nv))
            continue
        for s in sg:
            sides[k].add(s)
            bysign.setdefault(s, set()).add(k)
    for s in "-0+":
        ks = bysign.get(s, set())
        ob("side/" + s, PROVEN if len(ks) == 1 else REFUTED,
           "the child taken depends only on the coordinate comparison (comparison %s leads to children %s)" % (s, sorted(ks)))
    if len(axis_used) != 1:
        ob("axis", REFUTED if not axis_used or len(axis_used) > 1 else PROVEN, "the comparison uses one coordinate per level; found %d" % len(axis_used))
    info = {"sides": sides, "axis": None, "next": bysign.get("depth", set()), "depth": depth}
    if len(axis_used) == 1:
        info["axis"] = next(iter(axis_used))
    return sides, info, None


def same_field(v, node, i):
    return v.op == "fld" and v.args[0] is node and v.args[2] == i


def is_field(v, node, i):
    return v.op == "fld" and v.args[0] is node and v.args[2] == i


def is_some_field(v, node, i):
    return v.op == "fld" and v.args[1] == "Some" and is_field(v.args[0], node, i)


def axis_terms(vals, a, b):
    """coordinate comparisons a[t] ? b[t] among the tests -> {t: (sign atom, flipped)}"""
    out = {}
    atoms = set()
    for v in vals:
        for t in collect(v, lambda y: y.op == "sign"):
            atoms.add(t)
    for s in atoms:
        for t in collect(s, lambda y: y.op == "at" and y.args[0] is a):
            t = t.args[1]
            if any(v.op == "bv" for v in freevars(t)):
                continue
            q = sign(sub(at(a, t), at(b, t)))
            if q.op == "ite" and q.args[0] is s:
                flip = dict(q.args[1])["-"].args[0] == "+"
                out[t] = (s, flip)
    return out


def pathtext(asg):
    return ", ".join("%s=%s" % (brief(a, 90), o) for a, o in asg)[:700]


# ---------------------------------------------------------------- nearest
class Order:
    """finite set of quantities with <= and < facts"""

    def __init__(self):
        self.e = {}
        self.q = set()

    def le(self, a, b, strict=False):
        self.q |= {a, b}
        self.e[(a, b)] = self.e.get((a, b), False) or strict

    def closure(self):
        e = dict(self.e)
        ch = True
        while ch:
            ch = False
            for (a, b), s in list(e.items()):
                for (b2, d), s2 in list(e.items()):
                    if b2 == b:
                        ns = s or s2
                        if (a, d) not in e or (ns and not e[(a, d)]):
                            e[(a, d)] = ns
                            ch = True
        return e


@rule("K02")
def k02(c):
    """Exactness of the search by structural induction: on every path of the recursive search the
    returned candidate is shown (by the order facts the path has tested, the ordering invariant that
    insertion establishes, and |a_i - b_i|^2 <= |a - b|^2) to be no farther than the node's point and
    than the best of either subtree, searched or skipped."""
    try:
        _k02(c)
    except Stop:
        pass


def _k02(c):
    tl, nl = tree_layout(c), node_layout(c)
    if tl is None or nl is None:
        undecided(c, "layout", "unknown tree layout")
    q = method(c, "nearest")
    x, recs = recursive_fns(c, q)
    if x.err or len(recs) != 1:
        undecided(c, "nearest", x.err or "the search is not one recursive function over nodes (%d)" % len(recs), q["span"])
    rec = recs[0]
    y = c.run(q, (rec,))
    w = q["span"]
    t = y.args[0]
    p2 = y.args[1]
    roles = None
    depth0 = None
    for asg, leaf in paths(deep(y.ret)):
        st = [o for a, o in asg if a.op == "discr" and is_field(a.args[0], t, tl[0])]
        if st == ["None"]:
            c.require("KDTree::nearest/empty", leaf is NONE(), "an empty tree has no nearest point; found " + brief(leaf), w)
        elif st == ["Some"]:
            l2 = leaf
            if leaf.op == "con" and leaf.args[1] == "Some":
                l2 = leaf.args[2][0]
                if l2.op == "fld" and l2.args[1] == "Some":
                    l2 = l2.args[0]
            ok = l2.op == "app" and l2.args[0] == rec
            if not ok:
                cond_ = [a for a, o in asg if a.op == "discr" and a.args[0].op == "app"]
                if leaf is NONE() and cond_ and any(o == "None" for a, o in asg if a in cond_):
                    continue
                c.require("KDTree::nearest/root", False, "a non-empty tree is not searched from its root: " + brief(leaf), w)
                continue
            roles, depth0 = call_roles(l2, t, p2)
            c.require("KDTree::nearest/root", "node" in roles and "data" in roles, "the search starts at the root with the query; found " + brief(l2), w)
        else:
            c.require("KDTree::nearest/root", False, "emptiness of the tree is not what decides: " + brief(leaf), w)
    if roles is None:
        return
    # ---- the invariant insertion establishes
    qi, tl, nl, irec, yi = insert_model(c)
    ti = [s for s in freevars(yi.out[1]) if s.args[0] == "p1"][0]
    iroles = idepth0 = None
    for a in collect(yi.out[1], lambda z: z.op == "out" and z.args[0] == irec):
        iroles, idepth0 = call_roles(a, ti, yi.args[1])
    if not iroles or "node" not in iroles:
        undecided(c, "insert", "roles of the insertion's arguments")
    sides, info, _ = node_insert(c, irec, nl, iroles, report=False)
    # ---- the recursive search
    r = node_fn(c, rec)
    x = c.run(r)
    w = r["span"]
    if x.err or x.ret is None:
        undecided(c, "nearest/node", x.err or "no value", w)
    tgt = x.args[roles["data"]]
    depth = x.args[roles["depth"]] if "depth" in roles else None
    node = [s for s in freevars(x.ret) if s.op == "sym" and s.args[0] == "p%d" % (roles["node"] + 1)]
    if not node:
        c.require("nearest/candidate", False, "the search of a node does not look at it", w)
        return
    node = node[0]
    pf, kids = nl[1], nl[2]
    # the best point found so far may be handed down
    rest = [i for i in range(len(x.args)) if i not in (roles["node"], roles["data"], roles.get("depth"))]
    best = None
    if len(rest) == 1 and isinstance(shape(x.args[rest[0]]), tuple) and shape(x.args[rest[0]])[0] == "vec":
        roles["best"] = rest[0]
        best = x.args[rest[0]]
        for b0 in first_best(y.ret, rec, roles["best"]):
            c.ob("KDTree::nearest/root", PROVEN if b0.op == "fld" and b0.args[2] == pf and t in freevars(b0) else UNDECIDED,
                 "the search starts from a point of the tree; found " + brief(b0), w)
    elif rest:
        undecided(c, "nearest/node", "the search takes more than a node, a query, a depth and the best point so far", w)
    gives_option = returns_option(r)
    point = find_field([x.ret], node, [("", pf)])
    if point is None:
        c.require("nearest/candidate", False, "the search of a node does not look at its point", w)
        return
    recs_ = sorted(collect(deep(x.ret), lambda z: z.op == "rec" and z.args[0] == rec), key=str)
    child = {}
    for a in recs_:
        nd = a.args[2 + roles["node"]]
        k = [k for k in kids if is_some_field(nd, node, k)]
        if nd.op == "ite" or a.args[2 + roles["data"]].op == "ite":
            undecided(c, "nearest/recursion", "which child is searched is decided inside the call: " + brief(a), w)
        ok = len(k) == 1 and a.args[2 + roles["data"]] is tgt
        c.require("nearest/recursion", ok, "recursion searches a child for the same query; found " + brief(a), w)
        if ok:
            child.setdefault(k[0], set()).add(a)
    # axis of search and of insertion agree at every depth
    axes = axis_terms([x.ret], tgt, point)
    ax = None
    D = lambda a: sumi(length(tgt), (lambda j: lam(j, mul(sub(at(a, j), at(tgt, j)), sub(at(a, j), at(tgt, j)))))(fresh("k", "uint")))
    if info["axis"] is not None and depth is not None and info["depth"] is not None:
        ax = subst(info["axis"], {info["depth"]: depth})
        if len(axes) == 1:
            ax = next(iter(axes))
        nxt_i = {subst(z, {info["depth"]: depth}) for z in info["next"]}
        nxt_n = {a.args[2 + roles["depth"]] for k in child for a in child[k]}
        st = REFUTED
        nxt_i, nxt_n = one_step(nxt_i, subst(info["axis"], {info["depth"]: depth}), depth, length(tgt)), one_step(nxt_n, ax, depth, length(tgt))
        if len(nxt_n) == 1 and len(nxt_i) == 1:
            st = same_walk((idepth0, subst(info["axis"], {info["depth"]: depth}), next(iter(nxt_i))), (depth0, ax, next(iter(nxt_n))), depth, length(tgt))
        c.ob("nearest/axis", st, "search and insertion walk the levels with the same coordinate sequence (start %s/%s, step %s/%s)" %
             (idepth0, depth0, [show(z) for z in nxt_i], [show(z) for z in nxt_n]), w)
    Q = {"P": (D(point), point)}
    if best is not None:
        Q["B"] = (D(best), best)
    found = {}                      # name -> (child, call)
    for k in kids:
        for i, a in enumerate(sorted(child.get(k, ()), key=str)):
            if gives_option:
                for z in collect(deep(x.ret), lambda z: z.op == "fld" and z.args[0] is a and z.args[1] == "Some"):
                    Q["C%d.%d" % (k, i)] = (D(z), z)
            else:
                Q["C%d.%d" % (k, i)] = (D(a), a)
            found["C%d.%d" % (k, i)] = (k, a)
    A = None
    if ax is not None:
        da = sub(at(tgt, ax), at(point, ax))
        A = mul(da, da)
        Q["A"] = (A, None)
    atoms = {}
    names = list(Q)
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            reg(atoms, Q[a][0], Q[b][0], a, b)
            sa, sb = rt(Q[a][0]), rt(Q[b][0])
            if a != "A" and b != "A":
                reg(atoms, sa, sb, a, b)
    guarded = {}
    if A is not None:
        da = sub(at(tgt, ax), at(point, ax))
        for nme in names:
            if nme != "A":
                for sg, z in (("+", da), ("-", neg(da))):
                    g = {}
                    reg(g, z, rt(Q[nme][0]), "A", nme)
                    for at_, v in g.items():
                        guarded[at_] = (sg, v)
        sgn = sign(da)
    n = 0
    try:
        ps = paths(deep(x.ret))
    except OverflowError:
        undecided(c, "nearest/paths", "too many paths", w)
    for asg, leaf in ps:
        d = dict(asg)
        if any(a.op == "discr" and a.args[0].op == "rec" and o == "None" for a, o in asg):
            continue          # induction: searching a node always finds a point
        if leaf is NONE():
            c.require("nearest/none", False, "searching a node returns nothing (path %s)" % pathtext(asg), w)
            continue
        v = leaf if not gives_option else leaf.args[2][0] if leaf.op == "con" and leaf.args[1] == "Some" else None
        if leaf.op == "rec":
            who = next((m for m in found if found[m][1] is leaf), None)
            if who and who not in Q:
                Q[who] = (ZERO, None)
        else:
            who = next((m for m in Q if v is not None and Q[m][1] is v), None)
        if who is None:
            st = UNDECIDED if v is not None and (unresolved(v) - {"rec"} or v.op == "ite") else REFUTED
            c.ob("nearest/candidate", st, "the result is not the node's point or a child's best: " + brief(leaf), w)
            continue
        o = Order()
        unknown = []
        side = set("-0+")
        if A is not None:
            if sgn.op == "ite" and sgn.args[0] in d:
                g = dict(sgn.args[1])[d[sgn.args[0]]].args[0]
                side = {g}
            o.le("A", "P")
            o.le("A", "A")
        for m, (k, a) in found.items():
            o.le(m, "C%d" % k)
            if best is not None:
                b = choose_path(a.args[2 + roles["best"]], d)
                for m2 in Q:
                    if Q[m2][1] is b:
                        o.le(m, m2)
        for a, oo in asg:
            if a in atoms:
                q1, q2, fl = atoms[a]
                z = {"-": "+", "+": "-", "0": "0"}[oo] if fl else oo
                addrel(o, q1, q2, z)
            elif a in guarded and side <= {guarded[a][0], "0"}:
                q1, q2, fl = guarded[a][1]
                z = {"-": "+", "+": "-", "0": "0"}[oo] if fl else oo
                addrel(o, q1, q2, z)
            elif a.op == "sign" and not (A is not None and a is sgn.args[0]):
                unknown.append(a)
        for k in kids:
            ks = sides[k]
            if ("+" not in ks and "-" not in side) or ("-" not in ks and "+" not in side):
                o.le("A", "C%d" % k)
        cl = o.closure()
        if any(a == b and s for (a, b), s in cl.items()):
            continue          # contradictory path
        n += 1
        need = ["P"] + (["B"] if best is not None else [])
        for k in kids:
            dis = [oo for a, oo in asg if a.op == "discr" and is_field(a.args[0], node, k)]
            if dis != ["None"]:
                need.append("C%d" % k)
        for m in need:
            ok = m == who or (who, m) in cl
            nm = {"P": "the node's own point", "B": "the best point so far"}.get(m, "the subtree in field %s" % m[1:])
            if ok:
                c.ob("nearest/minimal", PROVEN, "result no farther than " + nm)
            else:
                und = set()
                for a in unknown:
                    und |= unresolved(a) - {"rec"}
                c.ob("nearest/minimal/" + m, UNDECIDED if und else REFUTED,
                     "the returned point (%s) is not shown to be at least as near as %s on the path %s" % (who, nm, pathtext(asg)), w)
    c.notes.append("%d feasible search paths" % n)
    c.require("nearest/paths", n >= 4, "at least four feasible search paths were analysed (%d)" % n, w)


def first_best(v, rec, i):
    return {a.args[2 + i] if a.op == "rec" else a.args[2 + i] for a in collect(deep(v), lambda z: z.op in ("app", "rec") and z.args[0] == rec)}


def returns_option(r):
    ty = r["types"][r["bodies"][r["key"]]["locals"][0]]
    return ty["k"] == "adt" and ty["d"].endswith("Option")


def one_step(steps, axis, depth, n):
    """steps to the next level that come to the same where only the remainder of the level counts"""
    up = add(depth, ONE)
    if axis is raw("rem", depth, n) and all(s is up or s is raw("rem", up, n) for s in steps):
        return {up}
    return steps


def same_walk(a, b, depth, n):
    """(start, axis, next) twice: is the coordinate at every level the same?"""
    if a == b:
        return PROVEN

    def plain(s, ax, nx):
        """the start when the coordinate at level l is (start + l) mod n"""
        up = add(depth, ONE)
        wraps = [raw("rem", up, n)]
        if ax is raw("rem", depth, n) and (nx is up or nx in wraps):
            return s
        if ax is depth and s is ZERO and (nx in wraps or cut(nx, up)):
            return s
        return None

    def cut(nx, up):
        """n is followed by 0"""
        if nx.op != "ite" or nx.args[0].op != "geq":
            return False
        return all(const_val(subst_all(nx, {n: num(v), depth: num(i)})) == (i + 1) % v for v in (1, 2, 3, 4) for i in range(v))

    pa, pb = plain(*a), plain(*b)
    if pa is not None and pb is not None:
        return PROVEN if pa is pb else REFUTED
    for v in (1, 2, 3, 4):
        da, db = a[0], b[0]
        for _ in range(2 * v + 2):
            xa, xb = (const_val(subst_all(u[1], {n: num(v), depth: e})) for u, e in ((a, da), (b, db)))
            if xa is None or xb is None:
                return UNDECIDED
            if xa != xb:
                return REFUTED
            da, db = (subst_all(u[2], {n: num(v), depth: e}) for u, e in ((a, da), (b, db)))
    return UNDECIDED


def subst_all(t, m):
    return deep(subst(t, m))


def rt(x):
    return app("sqrt", "num", x)


def reg(atoms, X, Y, a, b):
    s = sign(sub(X, Y))
    if s.op == "ite":
        atoms[s.args[0]] = (a, b, dict(s.args[1])["-"].args[0] == "+")


def addrel(o, a, b, z):
    if z == "-":
        o.le(a, b, True)
    elif z == "+":
        o.le(b, a, True)
    else:
        o.le(a, b)
        o.le(b, a)


# ---------------------------------------------------------------- traversal
@rule("K03")
def k03(c):
    """Traversal by structural induction: on every path the calls made on the visitor are exactly
    one with the node's point and one recursion into each present child; the mutable form rebuilds
    the node from what those calls returned and nothing else."""
    try:
        for nm in ("traverse_tree", "traverse_tree_mut"):
            _k03(c, nm)
    except Stop:
        pass


def _k03(c, nm):
    tl, nl = tree_layout(c), node_layout(c)
    if tl is None or nl is None:
        undecided(c, "layout", "unknown tree layout")
    ri, ci = tl[0], tl[1]
    q = method(c, nm)
    w = q["span"]
    mut = nm.endswith("mut")
    # find the recursive helper among the reachable bodies
    recs = recursive_bodies(q)
    if len(recs) != 1:
        undecided(c, nm, "traversal is not one recursive function over nodes (%d)" % len(recs), w)
    rec = recs[0]
    y = c.run(q, (rec,), {"by_ref": (2,)})
    if y.err:
        undecided(c, nm, y.err, w)
    t = y.start.get(1, y.args[0])
    fo, f0 = deep(y.out[2]), y.start[2]
    # which argument of the helper is the visitor, and which the part of the tree
    roles = {}
    for e in collect(fo, lambda z: z.op == "out" and z.args[0] == rec):
        roles["func"] = e.args[1]
        for i, a in enumerate(e.args[3:]):
            if i != e.args[1] and t in freevars(a):
                roles["node"] = i
    if "node" not in roles:
        c.require(nm + "/root", False, "the whole tree is traversed, from its root; the visitor's calls are " + brief(fo), w)
        return
    r = node_fn(c, rec)
    body = r["bodies"][r["key"]]
    ty = r["types"][body["locals"][roles["node"] + 1]]
    while ty["k"] == "ref":
        ty = r["types"][ty["e"]]
    lay = (rec, roles, ty["k"] == "adt" and ty["d"].endswith("Option"), nl[1], nl[2])
    root = find_field([fo] + ([deep(y.out[1])] if mut else []), t, [("", ri)])
    no = None
    if mut:
        out = deep(y.out[1])
        no = lift(None, lambda a: fld(a, "", ri), out)
        for asg, leaf in paths(out):
            c.require(nm + "/tree", leaf is t or ci is None or is_field(fld(leaf, "", ci), t, ci), "the length stays; found " + brief(leaf), w)
    if root is None:
        c.require(nm + "/root", False, "the whole tree is traversed, from its root", w)
        return
    _visits(c, nm + "/root", w, fo, f0, no, None, root, lay, True)
    w = r["span"]
    x = c.run(r)
    if x.err:
        undecided(c, nm + "/node", x.err, w)
    fi, ni = roles["func"] + 1, roles["node"] + 1
    if fi not in x.out:
        undecided(c, nm + "/node", "the visitor is not passed by mutable reference", w)
    part = x.start.get(ni, x.args[ni - 1])
    no = x.out.get(ni) if mut else None
    _visits(c, nm, w, deep(x.out[fi]), x.start[fi], no, None if lay[2] else part, part if lay[2] else None, lay, False)


def _visits(c, key, w, fo, f0, no, node, opt, lay, whole):
    """On every path the visitor is called once with the node's point and each child is handed on once; nothing happens
    for an absent node. `whole`: it may be handed on as it is."""
    rec, roles, takes_opt, pf, kids = lay

    def is_node(v):
        return v is node if node is not None else v.op == "fld" and v.args[1] == "Some" and same_field(v.args[0], opt)

    def same_field(v, u):
        return v is u or v.op == "fld" == u.op and v.args[:3] == u.args[:3]

    def field_of(v, k):
        return v.op == "fld" and v.args[1] == "" and v.args[2] == k and is_node(v.args[0])

    def guard(a):
        if a.op == "discr":
            if opt is not None and same_field(a.args[0], opt):
                return "node"
            for k in kids:
                if field_of(a.args[0], k):
                    return k
        return None

    def handed(v):
        """which part of the tree an argument of the helper is"""
        if v.op == "con" and v.args[1] == "Some" and takes_opt:
            v, opt_form = v.args[2][0], False
        else:
            opt_form = takes_opt
        if opt_form:
            return "node" if opt is not None and same_field(v, opt) else next((k for k in kids if field_of(v, k)), None)
        if is_node(v):
            return "node"
        return next((k for k in kids if v.op == "fld" and v.args[1] == "Some" and field_of(v.args[0], k)), None)

    pair = lift(None, lambda a, b: tup(a, b), fo, no) if no is not None else lift(None, lambda a: tup(a), fo)
    tests = sorted({a.args[0] for a in collect(pair, lambda z: z.op == "ite") if guard(a.args[0]) is not None}, key=lambda a: (guard(a) != "node", str(a)))
    work, n = [()], 0
    while work and n < 5000:
        n += 1
        asg = work.pop()
        d = dict(asg)
        pres = {guard(a): o for a, o in asg if guard(a) is not None}

        def pick(v):
            v = choose_path(v, d)
            if v.op == "ite":
                raise Fork(v.args[0])
            return v

        try:
            for a in tests:
                if a not in d and (guard(a) == "node" or pres.get("node") != "None"):
                    raise Fork(a)
            cur, ev = fo, []
            while True:
                cur = pick(cur)
                if cur is f0:
                    break
                if cur.op == "called":
                    ev.append(("point", cur, tuple(pick(z) for z in cur.args[1])))
                    cur = cur.args[0]
                elif cur.op in ("recout", "out") and cur.args[0] == rec and cur.args[1] == roles["func"]:
                    ev.append(("part", cur, pick(cur.args[3 + roles["node"]])))
                    cur = cur.args[3 + roles["func"]]
                else:
                    ev = None
                    break
            new = pick(no) if no is not None else None
        except Fork as e:
            for oo in terms.outcomes(e.args[0]):
                work.append(asg + ((e.args[0], oo),))
            continue
        if ev is None:
            c.ob(key + "/visits", UNDECIDED, "the visitor's calls are " + brief(cur), w)
            continue
        on = "on path " + pathtext(asg)
        src, odd, pts, cnt = {}, [], 0, {}
        for kind, e, a in ev:
            if kind == "point":
                if len(a) == 1 and field_of(a[0], pf):
                    pts += 1
                    src["point"] = e
                else:
                    odd.append(", ".join(brief(z, 100) for z in a))
            else:
                k = handed(a)
                if k is None or k == "node" and not whole:
                    odd.append(brief(a, 100))
                else:
                    cnt[k] = cnt.get(k, 0) + 1
                    src[k] = e
        c.require(key + "/other", not odd, "the visitor gets nothing but the points of the tree (%s) %s" % ("; ".join(odd)[:300], on), w)
        none = opt is not None and pres.get("node") == "None"
        if none:
            c.require(key + "/empty", not pts and not [k for k in cnt if k != "node"] and cnt.get("node", 0) <= 1, "nothing is visited where there is no node " + on, w)
        elif "node" in cnt:
            c.require(key + "/point", pts == 0 and cnt == {"node": 1}, "every point is visited once; parts handed on: %s %s" % (cnt, on), w)
        else:
            c.require(key + "/point", pts == 1, "the visitor is called once with the node's point (%d times %s)" % (pts, on), w)
            for k in kids:
                got = cnt.get(k, 0)
                ok = got == 1 or got == 0 and pres.get(k) == "None"
                c.require(key + "/child", ok, "the child in field %d (%s) is traversed %d times %s" % (k, {"None": "absent", "Some": "present"}.get(pres.get(k), "not tested"), got, on), w)
        if new is None:
            continue

        def made(v, k):
            """the part as the traversal of it left it"""
            e = src.get(k)
            if e is None:
                return None
            if v.op == "con" and v.args[1] == "Some":
                v = choose_path(v.args[2][0], d)
                if takes_opt:
                    return False
            elif not takes_opt and k != "bare":
                return False
            return v.op in ("recout", "out") and v.args[0] == rec and v.args[1] == roles["node"] and \
                [choose_path(z, d) for z in v.args[3:]] == [choose_path(z, d) for z in e.args[3:]]

        if "node" in cnt:
            c.require(key + "/result", bool(made(new, "node")), "the tree becomes what its traversal made of it; found %s %s" % (brief(new), on), w)
            continue
        if none:
            c.require(key + "/result", new is NONE() or same_field(new, opt), "an absent node stays absent; found %s %s" % (brief(new), on), w)
            continue
        if opt is not None:
            if not (new.op == "con" and new.args[1] == "Some"):
                st = REFUTED if new is NONE() or same_field(new, opt) else UNDECIDED
                c.ob(key + "/result", st, "a node that was visited becomes %s %s" % (brief(new), on), w)
                continue
            new = choose_path(new.args[2][0], d)
        if new.op != "con":
            c.ob(key + "/result", REFUTED if is_node(new) else UNDECIDED, "the node becomes %s %s" % (brief(new), on), w)
            continue
        p = choose_path(fld(new, "", pf), d)
        ok = p.op == "out" and p.args[0] == "callback" and p.args[3] is src.get("point")
        c.require(key + "/written", ok, "the visitor's change to the point is stored; found %s %s" % (brief(p), on), w)
        for k in kids:
            v = choose_path(fld(new, "", k), d)
            got = made(v, k)
            ok = got if got is not None else v is NONE() and pres.get(k) == "None" or field_of(v, k)
            c.require(key + "/shape", ok, "child field %d keeps its place; found %s %s" % (k, brief(v), on), w)


def choose_path(v, d):
    while v.op == "ite":
        o = terms._decided(v.args[0], d)
        if o is None:
            return v
        v = dict(v.args[1])[o]
    return v


class Fork(Exception):
    pass


def recursive_bodies(q):
    """crate functions reachable from q that call themselves, also from a closure of theirs"""
    out = []
    for k, b in q["bodies"].items():
        own = re.sub(r"(::\{closure[^}]*\})+$", "", b["path"])
        for blk in b["blocks"]:
            t = blk["t"]
            if t[0] == "call" and isinstance(t[1], dict) and t[1].get("key") and q["bodies"].get(t[1]["key"], {}).get("path") == own:
                if own not in out:
                    out.append(own)
    return out
