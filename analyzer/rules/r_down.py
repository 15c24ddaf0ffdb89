"""Voxel down-sampling."""
from rules.base import *
from rules.r_cloud import ready, dim_of, K, pointwise, PC

WIDE = ("isize", "i64", "i128")
NARROW = ("i8", "i16", "i32", "u8", "u16", "u32", "u64", "u128", "usize")


def size_facts(asg, n):
    """n when the tests on this path fix it (0 or 1), else None"""
    lo, hi = 0, None
    for a, o in asg:
        if a.op == "geq" and a.args[0] is n:
            if o:
                lo = max(lo, a.args[1])
            else:
                hi = a.args[1] - 1 if hi is None else min(hi, a.args[1] - 1)
    return hi if hi is not None and hi == lo else None


def shortcuts(c, key, v, p, w):
    """the paths that reach the grouping; the others must be clouds of at most one point, returned as they are"""
    n = length(p)
    out = []
    for asg, leaf in paths(v):
        if collect(leaf, lambda y: y.op == "groupby") or unresolved(leaf):
            out.append((asg, leaf))
            continue
        m = size_facts(asg, n)
        top = [a.args[1] - 1 for a, o in asg if a.op == "geq" and a.args[0] is n and not o]
        ok = top and min(top) <= 1 and deep(leaf) is p or m is not None and (leaf is raw("list") or const_val(length(leaf)) == 0 if m == 0 else
                                m == 1 and deep(leaf) in (p, mklist(at(p, ZERO))))
        st = PROVEN if ok else UNDECIDED if any(unresolved(a) for a, _ in asg) else REFUTED
        if not ok and const_val(length(leaf)) == 0 and any(contains(a, lambda y: y.op == "groupby") for a, _ in asg):
            st = UNDECIDED
        c.ob(key + "shortcut", st, "every cloud is grouped into voxels; on the path [%s] the result is %s"
             % ("; ".join("%s=%s" % (brief(a, 80), o) for a, o in asg), brief(leaf, 200)), w)
    return out


def setup(c):
    r = c.public("downsample_point_cloud_voxel", PC)
    x = c.run(r)
    w = r["span"]
    key = "downsample_point_cloud_voxel/"
    if not ready(c, x, key[:-1], w):
        return None
    return x, w, key, x.args[0], x.args[1]


def groups(leaf):
    return collect(leaf, lambda y: y.op == "groupby")


@rule("D01")
def d01(c):
    """The grouping as a fold keyed by voxel: the fold covers every point, the key is, for every dimension,
    the floor of coordinate over voxel size, in an integer type wide enough, and every point enters the group
    of its key, once."""
    s = setup(c)
    if s is None:
        return
    x, w, key, p, size = s
    n, N = length(p), dim_of(p)
    for asg, leaf in shortcuts(c, key, deep(x.ret), p, w):
        gs = groups(leaf)
        if not gs:
            why = fold_drops(leaf, p)
            if why:
                c.ob(key + "once", REFUTED, "every point enters its voxel's group; " + why, w)
                continue
        if len(gs) != 1:
            c.ob(key + "grouping", UNDECIDED, "points are grouped by one fold; found %d in %s" % (len(gs), brief(leaf)), w)
            continue
        m, kl, first, step = gs[0].args
        c.ob(key + "all", PROVEN if m is n else UNDECIDED if unresolved(m) else REFUTED, "every point is assigned to a voxel; %s of %s are" % (brief(m), brief(n)), w)
        j = K()
        judge_key(c, key, open1(kl, j), p, j, size, N, w)
        # what a point adds to its group
        old = fresh("old")
        f, (st,) = open1(first, j), open_mlam(step, [j, old])
        comps = components(f, st, old, p, j, N)
        if any(k == "other" for _, k, _, _ in comps) or not comps:
            odd = [(a, b) for _, k, a, b in comps if k == "other"]
            # does the group receive the point itself, the same way first and later?
            for a, b in odd:
                stt = UNDECIDED
                c.ob(key + "once", stt, "a point enters its voxel's group once; a group starts as %s and becomes %s" % (brief(a), brief(b)), w)
        else:
            c.ob(key + "once", PROVEN, "a point enters its voxel's group once", w)


def judge_key(c, key, kv, p, j, size, N, w):
    d = K()
    if not (isinstance(shape(kv), tuple) or kv.op in ("seq", "list", "upd", "updseq", "cat")):
        c.ob(key + "index", UNDECIDED, "the voxel index has one entry per dimension; it is " + brief(kv), w)
        return
    L = length(kv)
    if L is not N:
        c.ob(key + "index", UNDECIDED if unresolved(kv) else REFUTED, "the voxel index has one entry per dimension; it has " + brief(L), w)
        return
    want = deep(erase_casts(mul(at(at(p, j), d), inv(size))))
    entry = deep(at(kv, d))
    st, why = floor_of(entry, want, at(at(p, j), d))
    if unresolved(entry) and st == REFUTED:
        st = UNDECIDED
    c.ob(key + "index", st, "in every dimension the voxel index is the floor of the coordinate over the voxel size; " + (why or "it is"), w)
    for asg, e in paths(entry):
        narrow = []
        for q in collect(e, lambda y: y.op == "app" and y.args[0] in ("cast", "wrap")):
            to = q.args[2].args[0]
            if to in WIDE or to in ("f32", "f64", "O", "T"):
                continue
            narrow.append(to if to in NARROW else None)
        if narrow:
            c.ob(key + "width", REFUTED if all(narrow) else UNDECIDED, "the voxel index fits its type; it is stored as " + ", ".join(str(q) for q in narrow), w)


# The quotient q as k + f, k an integer and f in [0, 1). A value is a*k + b + c*f, (a, b, c).
CLASSES = [(lo, hi, z) for lo, hi in ((None, -3), (-2, -2), (-1, -1), (0, 0), (1, 1), (2, None)) for z in (True, False)]


def span(v, cl):
    """(lo, lo attained, hi, hi attained) of a*k + b + c*f; None = unbounded"""
    a, b, c = v
    lo, hi, z = cl
    ends = []
    for want_hi in (False, True):
        k = hi if (a > 0) == want_hi else lo
        e = b if a == 0 else None if k is None else a * k + b
        att = True
        if not z and c:
            up = (c > 0) == want_hi
            e = e if e is None or not up else e + c
            att = False
        ends.append((e, att))
    return ends


def sign_set(v, cl):
    (lo, la), (hi, ha) = span(v, cl)
    out = set()
    if hi is None or hi > 0:
        out.add("+")
    if lo is None or lo < 0:
        out.add("-")
    if (lo is None or lo < 0 or lo == 0 and la) and (hi is None or hi > 0 or hi == 0 and ha):
        out.add("0")
    return out


def quotient(e, want, coord, cl):
    """e on the class of quotients, or None"""
    e0 = deep(erase_casts(e, ("O", "T", "f32", "f64")))
    if e0 is want:
        return (1, 0, 1)
    q = const_val(e)
    if q is not None:
        return (0, q, 0)
    if e.op == "poly":
        r = (0, 0, 0)
        wi = dict(poly_items(want))
        if len(wi) == 1 and next(iter(wi)) in dict(poly_items(e)):
            m0 = next(iter(wi))
        else:
            m0 = None
        for m, x in poly_items(e):
            if m == ():
                v = (0, 1, 0)
            elif m == m0:
                v = (1, 0, 1)
                x = x / wi[m0] if wi[m0] != 1 else x
            elif len(m) == 1 and m[0][1] == 1:
                v = quotient(m[0][0], want, coord, cl)
            else:
                y = ONE
                for g, k in m:
                    for _ in range(k):
                        y = mul(y, g)
                v = (1, 0, 1) if deep(erase_casts(y)) is want else None
            if v is None:
                return None
            r = tuple(s + x * y for s, y in zip(r, v))
        return r
    if e.op == "app" and e.args[0] in ("floor", "ceil", "trunc", "cast"):
        v = quotient(e.args[-1], want, coord, cl)
        if v is None:
            return None
        a, b, c = v
        if a != int(a) or b != int(b) or c != int(c):
            return None
        if c == 0 or cl[2]:
            return (a, b, 0)
        if e.args[0] == "cast" and e.args[2].args[0] in ("O", "T", "f32", "f64"):
            return v
        if c not in (1, -1):
            return None
        # strictly between two neighbouring integers
        low, high = ((a, b, 0), (a, b + 1, 0)) if c == 1 else ((a, b - 1, 0), (a, b, 0))
        if e.args[0] == "floor":
            return low
        if e.args[0] == "ceil":
            return high
        (x, _), (y, _) = span(low, cl)
        return low if x is not None and x >= 0 else high if y is not None and y < 0 else None
    return None


def floor_of(v, want, coord):
    """whether v is the floor of the quotient, by cases on its integer part and whether it has a fraction"""
    open_, wrong = None, None
    for asg, e in paths(v):
        for cl in CLASSES:
            sure = True
            for a, o in asg:
                if a.op == "sign":
                    sv = quotient(a.args[0], want, coord, cl)
                    if sv is None and deep(erase_casts(a.args[0])) in (deep(coord), deep(neg(coord))):
                        # the voxel size is positive
                        sv = (1, 0, 1) if deep(erase_casts(a.args[0])) is deep(coord) else (-1, 0, -1)
                    s = None if sv is None else sign_set(sv, cl)
                elif a.op == "geq":
                    sv = quotient(a.args[0], want, coord, cl)
                    s = None if sv is None else {q != "-" for q in sign_set((sv[0], sv[1] - a.args[1], sv[2]), cl)}
                else:
                    s = None
                if s is None:
                    sure = False
                elif o not in s:
                    sure = None
                    break
                elif len(s) > 1:
                    sure = False
            if sure is None:
                continue
            r = quotient(e, want, coord, cl)
            if r is None:
                open_ = open_ or "it is " + brief(e)
                continue
            diff = (r[0] - 1, r[1], r[2])
            s = sign_set(diff, cl)
            if s == {"0"}:
                continue
            if sure and "0" not in s:
                wrong = wrong or "for a quotient in [%s, %s]%s it is %s" % (cl[0], cl[1], "" if cl[2] else " with a fraction", brief(e))
            else:
                open_ = open_ or "it is " + brief(e)
    if wrong:
        return REFUTED, wrong
    if open_:
        for asg, e in paths(v):
            if any(contains(a, lambda y: y is coord) for a, _ in asg):
                continue
            # no test on the coordinate: the value itself has to be the floor
            e = deep(erase_casts(e))
            if e.op == "app" and e.args[0] == "floor":
                if deep(e.args[2]) is not want:
                    return REFUTED, "it is " + brief(e)
            elif e.op == "app" and e.args[0] in ("round", "ceil", "trunc") or not contains(e, lambda y: y.op == "app" and y.args[0] in
                    ("floor", "ceil", "trunc", "round", "frem", "rem_euclid", "div_euclid", "op:BitAnd")):
                return REFUTED, "it is " + brief(e)
        return UNDECIDED, open_
    return PROVEN, None


def components(first, step, old, p, j, N):
    """how a group's value is accumulated -> [(path, kind, first, step)], kind: list, sum, count, mean, other"""
    out = []

    def go(f, s, o, path):
        f, s = deep(f), deep(s)
        if f.op == "con" and f.args[2] and s.op == "con" and s.args[:2] == f.args[:2]:
            for i, (a, b) in enumerate(zip(f.args[2], s.args[2])):
                known = [y for y in collect(step, lambda y: y.op == "fld" and y.args[0] is o and y.args[2] == i)]
                oi = known[0] if known else fld(o, f.args[1] or "", i, shape(a))
                go(a, b, oi, path + (("f", oi.args[1], i, oi.args[3] if len(oi.args) > 3 else None),))
            return
        pt = at(p, j)
        if f.op == "list" and len(f.args) == 1 and same_point(f.args[0], pt, N) and s.op == "cat" and len(s.args) == 2:
            ok = any(s.args[i] is o and s.args[1 - i].op == "list" and len(s.args[1 - i].args) == 1 and same_point(s.args[1 - i].args[0], pt, N) for i in (0, 1))
            out.append((path, "list" if ok else "other", f, s))
            return
        if const_val(f) == 1 and const_val(erase_casts(sub(s, o))) == 1:
            out.append((path, "count", f, s))
            return
        d = K()
        try:
            fd, sd, od, xd = at(f, d), at(s, d), at(o, d), at(pt, d)
            if deep(fd) is xd and deep(sub(sd, od)) is xd:
                out.append((path, "sum", f, s))
                return
            if deep(fd) is xd:
                out.append((path, "drift", f, s))
                return
        except Exception:
            pass
        out.append((path, "other", f, s))
    step = deep(step)
    go(first, step, old, ())
    # a running mean needs the count kept beside it
    cnt = [q for q, k, _, _ in out if k == "count"]
    res = []
    for q, k, f, s in out:
        if k == "drift":
            d = K()
            o, x = along(old, q), at(p, j)
            k = "other"
            for cq in cnt:
                m = add(along(old, cq), ONE)
                if deep(sub(at(s, d), add(at(o, d), mul(sub(at(x, d), at(o, d)), inv(m))))) is ZERO:
                    k = "mean"
        res.append((q, k, f, s))
    return res


def along(o, path):
    for _, v, i, sh in path:
        o = fld(o, v, i, sh)
    return o


def same_point(a, b, N):
    d = K()
    return a is b or (isinstance(shape(a), tuple) or a.op == "seq") and deep(at(a, d)) is deep(at(b, d))


@rule("D02")
def d02(c):
    """The result as a sequence over the voxel groups: one element per group, and, with the group's
    accumulators replaced by what they accumulate (list, sum, count, running mean), that element is in
    every dimension the sum over the group divided by its size."""
    s = setup(c)
    if s is None:
        return
    x, w, key, p, size = s
    N = dim_of(p)
    for asg, leaf in shortcuts(c, key, deep(x.ret), p, w):
        for t in {q.args[2].args[0] for q in collect(leaf, lambda y: y.op == "app" and y.args[0] == "cast" and y.args[2].args[0] in NARROW
                                                     and not contains(y, lambda z: z.op == "app" and z.args[0] in ("floor", "ceil", "round", "trunc")))}:
            c.ob(key + "count", REFUTED if t not in ("usize", "u64", "u128", "i128") else UNDECIDED, "the number of points is not truncated; it is converted to " + t, w)
        leaf = deep(erase_casts(leaf))
        gs = groups(leaf)
        if len(gs) != 1:
            c.ob(key + "grouping", UNDECIDED, "points are grouped by one fold; found %d in %s" % (len(gs), brief(leaf)), w)
            continue
        gv = raw("groupvals", gs[0])
        G = length(gv)
        if leaf.op == "sorted":
            leaf = leaf.args[0]
        if leaf is gv:
            b = K()
            leaf = raw("seq", G, lam(b, at(gv, b)))
        if leaf.op != "seq" and leaf.op != "filt":
            c.ob(key + "one", UNDECIDED, "one point is returned per voxel; the result is " + brief(leaf), w)
            continue
        if leaf.op == "filt":
            m, g, body = leaf.args
            b = K()
            gb = deep(open1(g, b))
            c.ob(key + "one", UNDECIDED if unresolved_but(gb, gs[0]) else REFUTED, "one point is returned per voxel; some are left out unless " + brief(gb), w)
        else:
            m, body = leaf.args
            st = PROVEN if m is G else UNDECIDED if unresolved(m) else REFUTED
            c.ob(key + "one", st, "one point is returned per voxel; there are %s for %s voxels" % (brief(m, 150), "len(groups)"), w)
        b, j, old, d = K(), K(), fresh("old"), K()
        e = deep(erase_casts(at(open1(body, b), d)))
        f, (stp,) = open1(gs[0].args[2], j), open_mlam(gs[0].args[3], [j, old])
        comps = components(f, stp, old, p, j, N)
        if not comps or any(k == "other" for _, k, _, _ in comps):
            bad = [(f, s2) for _, k, f, s2 in comps if k == "other"]
            c.ob(key + "centroid", REFUTED if all(judge_other(f, s2, old, p, j) for f, s2 in bad) and bad else UNDECIDED,
                 "a group keeps its points, or their sum and number; it starts as %s and becomes %s" % (brief(bad[0][0]) if bad else "?", brief(bad[0][1]) if bad else "?"), w)
            continue
        g = at(gv, b)
        S, C = fresh("S", "num"), fresh("C", "num")
        k = K()
        m = {}
        for q, kind, _, _ in comps:
            t = along(g, q)
            if kind == "list":
                m[length(t)] = C
                m[sumi(length(t), lam(k, at(at(t, k), d)))] = S
            elif kind == "sum":
                m[at(t, d)] = S
            elif kind == "count":
                m[t] = C
            elif kind == "mean":
                m[at(t, d)] = mul(S, inv(C))
        e2 = e
        for a in sorted(m, key=lambda t: t.op == "len"):
            e2 = subst(e2, {a: m[a]})
        e2 = deep(e2)
        for asg2, got in paths(e2):
            left = collect(got, lambda y: y is gv or y.op == "groupby")
            if got is mul(S, inv(C)):
                st = PROVEN
            elif single(asg2, C) and (got is S or any(kind == "list" and got is deep(at(at(along(g, q), ZERO), d)) for q, kind, _, _ in comps)):
                st = PROVEN
            elif dead(asg2, C):
                continue
            elif left and partial(got, gv):
                st = REFUTED
            elif left or unresolved(got):
                st = UNDECIDED
            else:
                st = REFUTED
            c.ob(key + "centroid", st, "every coordinate is the voxel's coordinate sum S over its number of points C; found " + brief(got), w)


def single(asg, C):
    """the path is only taken for groups of one point"""
    f = [(a, o) for a, o in asg if a.op == "geq" and a.args[0] is C]
    return any(not o and a.args[1] <= 2 for a, o in f)


def dead(asg, C):
    return any(a.op == "geq" and a.args[0] is C and not o and a.args[1] <= 1 for a, o in asg)


def partial(got, gv):
    """a sum or selection over part of a group"""
    if unresolved_but(got, gv.args[0]):
        return False
    for y in collect(got, lambda y: y.op in ("sumi", "minf", "maxf")):
        if contains(y, lambda z: z is gv):
            return True
    return not collect(got, lambda y: y.op in ("loop", "lout", "app") and contains(y, lambda z: z is gv))


def unresolved_but(v, gb):
    return unresolved(subst(v, {gb: fresh("gb")}))


def judge_other(f, s, old, p, j):
    """a definitely wrong accumulation: resolved terms over the point and the old value only"""
    return not unresolved(f) and not unresolved(s)


def fold_drops(v, p):
    """a grouping loop without closed form one of whose paths leaves the current point out"""
    for lp in collect(v, lambda y: y.op == "loop"):
        n, inits, l = lp.args[:3]
        for i, t in enumerate(inits):
            if not (t.op == "con" and t.args[1] == "emptymap"):
                continue
            k = K()
            accs = [fresh("a", s) for s in l.args[1][1:]]
            body = open_mlam(l, [k] + accs)
            here = lambda y: y.op == "at" and y.args[0] is p and k in freevars(y.args[1])
            for asg, leaf in paths(deep(body[i])):
                if any(a.op == "sign" and a.args[1] and o == "u" for a, o in asg):
                    continue
                tests = "; ".join("%s=%s" % (brief(a, 100), o) for a, o in asg)
                if leaf is accs[i] and not all(contains(a, lambda y: y.op == "pred" and y.args[0] == "mhas") for a, _ in asg):
                    return "on the path [%s] it is left out" % tests
                if leaf.op != "mupd" or leaf.args[0] is not accs[i]:
                    continue
                nv = subst(leaf.args[2], {y: fresh("old") for y in collect(leaf.args[2], lambda y: y.op == "mget")})
                if not contains(nv, here) and contains(leaf.args[1], here) and not unresolved(nv):
                    return "on the path [%s] the group becomes %s" % (tests, brief(leaf.args[2], 150))
    return None
