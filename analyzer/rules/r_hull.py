"""Convex hulls."""
from rules.base import *
from rules.r_cloud import ready, K, check_sorted, judge_lex
from rules.r_icp import restrict_deep_all, atoms_in, tests_of, fm

MOD = "polygons"
DOWN = "downsample_point_cloud_voxel"


class Turn:
    """a loop seen at one turn: bound, initial values, index, accumulators, their next values, exit tests"""

    def __init__(self, lp):
        self.loop = lp
        self.bound, self.inits, l = lp.args[:3]
        self.k = fresh("k", "uint")
        self.accs = [fresh("a", s) for s in l.args[1][1:]]
        body = open_mlam(l, [self.k] + self.accs)
        self.next = [deep(b) for b in body[:len(self.accs)]]
        self.exits = [deep(b) for b in body[len(self.accs):]]
        self.lengths()

    def lengths(self):
        """the length of a sequence no turn changes is that it starts with"""
        m = {}
        for a, b, i in zip(self.accs, self.next, self.inits):
            s = shape(a)
            if not (isinstance(s, tuple) and s[0] == "slice"):
                continue
            n = length(a)
            if n.op == "len" and length(b) is n and not contains(length(i), lambda y: y in self.accs):
                m[n] = length(i)
        if m:
            self.next = [deep(subst(b, m)) for b in self.next]
            self.exits = [deep(subst(b, m)) for b in self.exits]

    def here(self, t):
        """a term after the loop, as seen at the turn that left it"""
        memo = {}

        def f(y):
            if y in memo:
                return memo[y]
            if y.op == "lout" and y.args[0] is self.loop:
                r = self.accs[y.args[1]]
            elif y.op == "lcnt" and y.args[0] is self.loop:
                r = self.k
            elif y.op == "lexit" and y.args[0] is self.loop:
                r = y
            elif y.op == "loop" or not y.args:
                r = y
            else:
                r = rebuild(y, f)
            memo[y] = r
            return r
        return f(t)


# ------------------------------------------------------------------------------- members of a cloud
def both(*sts):
    """conjunction of (status, why)"""
    und = None
    for st, why in sts:
        if st == REFUTED:
            return st, why
        if st == UNDECIDED:
            und = und or (st, why)
    return und or (PROVEN, "")


class Members:
    """whether the points of a sequence, or a point, are elements of a cloud: an induction over the loops that
    build them, with the accumulators assumed to hold elements"""

    def __init__(self, cloud):
        self.cloud = cloud
        self.loops = {}

    def fail(self, t, assume, what):
        lo = contains(t, lambda y: y.op in ("lout", "loop", "rec", "called", "out")) or any("::" in q for q in unresolved(t))
        return (UNDECIDED if lo else REFUTED), what + brief(t, 200)

    def seq(self, t, assume=frozenset(), asg=()):
        if t is self.cloud or t in assume or t is BOT:
            return PROVEN, ""
        if t.op == "ite":
            return both(*[self.seq(x, assume) for _, x in t.args[1]])
        if t.op == "sorted":
            return self.seq(t.args[0], assume)
        if t.op == "cat":
            return both(*[self.seq(x, assume) for x in t.args])
        if t.op == "list":
            return both(*[self.elem(x, assume) for x in t.args])
        if t.op == "seq":
            return self.elem(deep(open1(t.args[1], K())), assume)
        if t.op == "filt":
            return self.elem(deep(open1(t.args[2], K())), assume)
        if t.op == "upd":
            return both(self.seq(t.args[0], assume), self.elem(t.args[2], assume))
        if t.op == "lout":
            return self.lout(t, assume)
        return self.fail(t, assume, "a cloud other than the input: ")

    def elem(self, t, assume=frozenset()):
        if t in assume or t is BOT:
            return PROVEN, ""
        if t.op == "ite":
            return both(*[self.elem(x, assume) for _, x in t.args[1]])
        if t.op == "at":
            return self.seq(t.args[0], assume)
        if t.op == "argf":
            return self.elem(deep(open1(t.args[4], K())), assume) if t.args[4] is not None else (UNDECIDED, brief(t))
        if t.op == "list" and len(t.args) == 2:
            x, y = t.args
            if x.op == "at" and y.op == "at" and x.args[0] is y.args[0] and (const_val(x.args[1]), const_val(y.args[1])) == (0, 1):
                return self.elem(x.args[0], assume)
        if t.op == "lout":
            return self.lout(t, assume)
        return self.fail(t, assume, "a point that is not one of the input's: ")

    def any(self, t, assume):
        """a value that is a point or a sequence of points"""
        s = shape(t)
        e = elem_shape(s)
        if e in ("num", "int", "uint", "bool"):
            return self.elem(t, assume)
        if isinstance(e, tuple) or isinstance(s, tuple):
            return self.seq(t, assume)
        return UNDECIDED, brief(t, 120)

    def lout(self, t, assume):
        key = (t.args[0], assume)
        if key not in self.loops:
            self.loops[key] = {}
            tn = Turn(t.args[0])
            good = set(range(len(tn.accs)))
            why = {}
            while True:
                have = frozenset(assume | {tn.accs[i] for i in good})
                bad = {}
                for i in good:
                    st = both(self.kind(tn, i)(tn.inits[i], assume), self.kind(tn, i)(tn.next[i], have))
                    if st[0] != PROVEN:
                        bad[i] = st
                if not bad:
                    break
                # what does not hold by itself is no ground for the others; a first definite failure stays one
                if len(bad) == len(good) or not why:
                    pass
                why.update(bad)
                good -= set(bad)
            self.loops[key] = {i: (PROVEN, "") if i in good else why[i] for i in range(len(tn.accs))}
        return self.loops[key].get(t.args[1], (UNDECIDED, ""))

    def kind(self, tn, i):
        ss = [shape(tn.accs[i]), shape(tn.next[i]), shape(tn.inits[i])]
        for s in ss:
            e = elem_shape(s)
            if isinstance(e, tuple):
                return self.seq
            if e is not None:
                return self.elem
        if tn.inits[i].op == "list" and not tn.inits[i].args or tn.next[i].op == "cat":
            return self.seq
        return lambda t, a: (UNDECIDED, "unknown: " + brief(t, 100))


# --------------------------------------------------------------------------------------- cases
class Case:
    """the result of a hull function on one kind of call: its hull paths and the cloud they run over"""


SHAPES = {"sym": 1, "var": 1, "bv": 2, "fld": 3, "app": 1, "rec": 1, "lout": 2, "recout": 2, "out": 2, "mlam": 1, "argf": 5}


def values(t, pred):
    """the terms inside t that satisfy pred, not looking into the shapes of others"""
    seen, out, stack = set(), [], [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if pred(x):
            out.append(x)
        skip = SHAPES.get(x.op)
        for i, a in enumerate(x.args):
            if i != skip:
                terms_in(a, stack)
    return out


def down_calls(v):
    return values(v, lambda y: y.op == "app" and isinstance(y.args[0], str) and y.args[0].endswith("::" + DOWN))


def cases(c, name, report=False):
    """-> root span, [Case], one per sortedness claim (if there is one) and presence of a voxel size"""
    r = c.public(name, MOD)
    x = c.run(r, opaque=(DOWN,))
    w = r["span"]
    if not ready(c, x, name, w):
        return w, []
    out = []
    p = x.args[0]
    claim = next((a.args[0] if a.op == "ite" else a for a in x.args[1:-1] if shape(a) == "bool"), None)
    vox = x.args[-1]
    for has in ("None", "Some"):
        for srt in ((True, False) if claim is not None else (None,)):
            def dec(a, srt=srt, has=has):
                if a is claim:
                    return srt
                if a.op == "discr" and a.args[0] is vox:
                    return has
                return None
            k = Case()
            k.p, k.sorted, k.voxel, k.w = p, srt, has == "Some", w
            k.key = name + "/" + ("" if srt is None else "sorted-" if srt else "unsorted-") + ("voxel" if has == "Some" else "plain") + "/"
            k.ret = deep(restrict_deep_all(deep(x.ret), dec))
            # what is known about the sizes of the clouds wherever there is a hull
            facts = None
            for asg, leaf in top_paths(k.ret):
                if leaf.op == "con" and leaf.args[1] == "None":
                    continue
                f = {(a, o) for a, o in asg if a.op == "geq" and not contains(a, lambda y: y.op in ("lout", "lcnt"))}
                facts = f if facts is None else facts & f
            hull = [leaf for asg, leaf in top_paths(k.ret) if leaf.op == "con" and leaf.args[1] == "Some"]
            if facts and hull:
                k.sizes = facts
                def known(a, facts=facts):
                    if a.op == "geq":
                        for f, o in facts:
                            if f.args[0] is a.args[0] and (o and a.args[1] <= f.args[1] or not o and a.args[1] >= f.args[1]):
                                return o
                    return None
                top = {a for a, _ in facts}
                v = restrict_deep_all(k.ret, lambda a: None if a in top else known(a))
                k.ret = deep(inner_facts(v, top, known))
            ds = down_calls(k.ret)
            size = fld(vox, "Some", 0)
            k.cloud = p
            if k.voxel:
                if len(ds) != 1:
                    used = bool(values(k.ret, lambda y: y.op == "fld" and y.args[0] is vox))
                    c.ob(k.key + "downsampled", UNDECIDED if not report or ds or used or unresolved(k.ret) - {"lout", "loop", "lexit"} else REFUTED,
                         "with a voxel size, the down-sampled cloud is used", w)
                    continue
                a = ds[0].args[-2:]
                ok = a[0] is p and a[1].op == "fld" and a[1].args[:3] == size.args[:3]
                c.ob(k.key + "downsampled", PROVEN if ok else UNDECIDED if not report or any(unresolved(q) for q in a) else REFUTED,
                     "with a voxel size, the whole cloud is down-sampled with it; it is " + brief(ds[0]), w)
                if not ok:
                    continue
                k.cloud = ds[0]
            elif ds:
                c.ob(k.key + "downsampled", UNDECIDED if not report or unresolved(ds[0].args[-2]) else REFUTED, "without a voxel size nothing is down-sampled; found " + brief(ds[0]), w)
                continue
            k.hulls, k.none, k.odd = [], [], []
            for asg, leaf in top_paths(k.ret):
                if leaf.op == "con" and leaf.args[1] == "Some":
                    k.hulls.append((asg, leaf.args[2][0]))
                elif leaf.op == "con" and leaf.args[1] == "None":
                    k.none.append(asg)
                else:
                    k.odd.append((asg, leaf))
            if k.odd:
                c.ob(k.key + "result", UNDECIDED, "the result is a hull or nothing; found " + brief(k.odd[0][1]), w)
            out.append(k)
    return w, out


def inner_facts(v, top, known):
    """v with the tests `top` kept in its own diagram but decided inside its tests and values"""
    if v.op == "ite":
        a = v.args[0]
        vals = {o: inner_facts(x, top, known) for o, x in v.args[1]}
        if a in top:
            return ite(a, vals)
        b = raw(a.op, *[terms._map_arg(q, lambda z: restrict_deep_all(z, known)) for q in a.args]) if a.op in ("geq", "sign") else None
        if b is not None and a.op == "sign":
            return terms.ite_on(a, lambda z: restrict_deep_all(z, known), vals)
        return terms.ite_on(a, lambda z: restrict_deep_all(z, known), vals)
    return restrict_deep_all(v, known)


def top_paths(v):
    """paths of the decision diagram, not looking into the hull itself"""
    out = []

    def go(x, asg):
        if x is BOT:
            return
        if x.op == "ite":
            o = terms._decided(x.args[0], dict(asg))
            for oo, y in x.args[1]:
                if o is None or oo == o:
                    go(y, asg + ((x.args[0], oo),))
            return
        out.append((asg, x))
    go(v, ())
    return out


def cond_of(asg):
    g = TRUE
    for a, o in asg:
        g = AND(g, ite(a, {oo: boolean(oo == o) for oo in terms.outcomes(a)}))
    return g


def is_lexit(a):
    return a.op == "lexit"


@rule("H01")
def h01(c):
    """Where the returned vertices come from, by induction over the loops that build the hull, and what the
    tests on each path say about the number of vertices."""
    for name in ("graham_scan", "jarvis_march"):
        w, cs = cases(c, name, True)
        for k in cs:
            n = length(k.p)
            m = Members(k.cloud)
            for asg, h in k.hulls:
                st, why = m.seq(h)
                if st == REFUTED and unresolved(h) - {"lout", "loop", "lexit", "inf"} - {q for q in unresolved(h) if DOWN in q}:
                    st = UNDECIDED
                c.ob(k.key + "members", st, "every vertex is a point of the %s; %s" % ("down-sampled cloud" if k.voxel else "input", why or "all are"), w)
                few = [o for a, o in asg if a.op == "geq" and a.args[0] is n and a.args[1] >= 3]
                only = under_geq(asg, n, 3)
                c.ob(k.key + "too-few", PROVEN if only else REFUTED if not any(contains(a, lambda y: y is n) and a.op != "lexit" and not contains(a, lambda y: y.op == "lout") for a, _ in asg)
                     or few or bounded_geq(asg, n) else UNDECIDED, "fewer than three points have no hull; one is returned on [%s]" % tests_of(asg)[:300], w)
                L = length(h)
                if under_geq(asg, L, 3):
                    c.ob(k.key + "three", PROVEN, "a hull has at least three vertices", w)
                else:
                    rel = [a for a, _ in asg if a.op == "geq" and contains(a.args[0], lambda y: y.op in ("lout", "lcnt"))]
                    direct = [a for a in rel if sub(a.args[0], L).op == "poly" and const_val(sub(a.args[0], L)) is not None or a.args[0] is L]
                    st = REFUTED if not rel or direct else UNDECIDED
                    c.ob(k.key + "three", st, "a hull has at least three vertices; one of %s is returned on [%s]" % (brief(L, 100), tests_of(asg)[:300]), w)
            if not k.hulls:
                c.ob(k.key + "result", UNDECIDED if k.odd else REFUTED, "hulls are returned", w)


def under_geq(asg, x, m):
    """the tests on the path imply x >= m"""
    for a, o in asg:
        if a.op != "geq" or not o:
            continue
        d = const_val(sub(a.args[0], x))
        # a: x + d >= q
        if d is not None and a.args[1] - d >= m:
            return True
    return restrict(int_cmp("ge", x, num(m)), cond_of([(a, o) for a, o in asg if a.op == "geq"])) is TRUE


def bounded_geq(asg, x):
    return any(a.op == "geq" and a.args[0] is x for a, _ in asg)


# ------------------------------------------------------------------------------- monotone chain
def orient(a, b, p):
    """positive for a strict right (clockwise) turn a-b-p"""
    x, y = ZERO, ONE
    return sub(mul(sub(at(b, y), at(a, y)), sub(at(p, x), at(b, x))), mul(sub(at(b, x), at(a, x)), sub(at(p, y), at(b, y))))


def chain_of(t, P):
    """t, the outcome of a loop: is it a chain over P? -> (direction, None) or (None, (status, why))"""
    tn = Turn(t.args[0])
    j = t.args[1]
    a, init, nx = tn.accs[j], tn.inits[j], tn.next[j]
    n = length(P)
    if contains(nx, lambda y: y.op == "first"):
        return counted_chain(tn, j, P)
    if nx.op == "ite" and not contains(nx, lambda y: y.op in ("lout", "lcnt", "rec", "called") and not contains(P, lambda z: z is y)) and \
            all(x.op == "cat" and len(x.args) == 2 and x.args[1].op == "list" and x.args[1] in [y.args[1] for _, y in paths(nx) if y.op == "cat"][:1] for _, x in paths(nx)):
        return None, (REFUTED, "a step of a chain drops only so many points: " + brief(nx, 200))
    if nx.op != "cat" or len(nx.args) != 2 or nx.args[1].op != "list" or len(nx.args[1].args) != 1:
        return None, (UNDECIDED, "a step of a chain is " + brief(nx))
    W, pt = nx.args[0], nx.args[1].args[0]
    if not (pt.op == "at" and pt.args[0] is P):
        return None, (UNDECIDED if unresolved(pt) else REFUTED, "the point added is " + brief(pt))
    up, down = pt.args[1] is tn.k, deep(sub(pt.args[1], sub(sub(n, ONE), tn.k))) is ZERO
    first_up = init.op == "list" and len(init.args) == 1 and init.args[0] is at(P, ZERO) and deep(sub(pt.args[1], add(tn.k, ONE))) is ZERO
    first_down = init.op == "list" and len(init.args) == 1 and deep(init.args[0]) is deep(at(P, sub(n, ONE))) and deep(sub(pt.args[1], sub(sub(n, num(2)), tn.k))) is ZERO
    empty = init.op == "list" and not init.args or const_val(length(init)) == 0
    if tn.exits and any(e is not FALSE for e in tn.exits):
        return None, (UNDECIDED, "a chain can stop early")
    if not (empty and (up or down) and tn.bound is n or (first_up or first_down) and deep(sub(tn.bound, sub(n, ONE))) is ZERO):
        st = REFUTED if empty and not unresolved(pt.args[1]) - unresolved(P) and not unresolved(tn.bound) - unresolved(P) else UNDECIDED
        return None, (st, "a chain takes %s of %s points, at turn %s point %s, starting as %s" % (brief(tn.bound, 80), brief(n, 80), tn.k, brief(pt.args[1], 80), brief(init, 80)))
    if W is a:
        return None, (REFUTED, "a chain never drops its last point")
    if W.op != "lout":
        return None, (UNDECIDED, "dropping points is " + brief(W))
    q = Turn(W.args[0])
    i = W.args[1]
    b = q.accs[i]
    if q.inits[i] is not a:
        return None, (UNDECIDED, "dropping starts from " + brief(q.inits[i]))
    L = length(b)
    g = int_cmp("ge", L, num(2))
    e = K()
    exit_ = FALSE
    for x in q.exits:
        exit_ = OR(exit_, x)
    exit_ = deep(erase_casts(exit_))
    goes = NOT(exit_)
    pop = deep(restrict(q.next[i], goes))
    ge = lambda t: under(t, g)
    popped = const_val(deep(sub(length(ge(pop)), sub(L, ONE)))) == 0 and deep(at(ge(pop), e)) is deep(at(b, e)) or \
        pop.op == "seq" and deep(sub(pop.args[0], sub(L, ONE))) is ZERO and deep(open1(pop.args[1], e)) is at(b, e)
    if not popped:
        return None, (UNDECIDED if unresolved(pop) else REFUTED, "dropping the last point leaves " + brief(pop))
    if not (q.bound is INF or q.bound.op == "inf"):
        return None, (UNDECIDED, "dropping is bounded by " + brief(q.bound))
    d = erase_casts(orient(at(b, sub(L, num(2))), at(b, sub(L, ONE)), pt))
    for wk, want in (("", OR(NOT(g), real_cmp("gt", d, ZERO))),):
        if deep(erase_casts(want)) is exit_:
            return ("up" if up or first_up else "down"), None
    und = unresolved(exit_) - unresolved(P) - unresolved(a)
    diff = next(((asg, leaf) for asg, leaf in paths(tup(exit_, deep(erase_casts(want)))) if leaf.args[2][0] is not leaf.args[2][1]), None)
    return None, (UNDECIDED if und or diff is None else REFUTED, "dropping goes on while the last turn is not a strict right turn; on [%s] it %s" %
                  (tests_of(diff[0])[:400] if diff else "", "stops" if diff and diff[1].args[2][0] is TRUE else "goes on"))


def counted_chain(tn, j, P):
    """a chain that counts the points to drop, and then drops as many"""
    a, init, nx = tn.accs[j], tn.inits[j], tn.next[j]
    n, L = length(P), length(a)
    unknown = (None, (UNDECIDED, "a step of a chain is " + brief(nx)))
    try:
        ps = [(asg, x) for asg, x in paths(nx, 400) if fm(counts(asg))]
    except OverflowError:
        return unknown
    fs = [y for y in collect(nx, lambda y: y.op == "first") if not has_bound(y)]
    if len(fs) != 1 or any(x.op != "cat" or len(x.args) != 2 or x.args[1] is not ps[0][1].args[1] for _, x in ps):
        return unknown
    F = fs[0]
    found = exists(*F.args).args[0] if exists(*F.args).op == "ite" else None
    pt = ps[0][1].args[1]
    if pt.op != "list" or len(pt.args) != 1 or found is None:
        return unknown
    pt = pt.args[0]
    up = pt.op == "at" and pt.args[0] is P and pt.args[1] is tn.k
    down = pt.op == "at" and pt.args[0] is P and deep(sub(pt.args[1], sub(sub(n, ONE), tn.k))) is ZERO
    if not (up or down) or tn.bound is not n or not (init.op == "list" and not init.args or const_val(length(init)) == 0) or any(e is not FALSE for e in tn.exits):
        return unknown
    e = K()
    for asg, x in ps:
        there = [o for t, o in asg if t is found]
        few = not fm(counts(asg) + [(dict(poly_items(sub(L, num(2)))), False)])
        want = ZERO if few else F if there == [True] else F.args[0] if there == [False] else None
        kept = x.args[0]
        if want is None or kept is not a and not (kept.op == "seq" and deep(open1(kept.args[1], e)) is at(a, e)):
            return unknown
        d = sub(sub(L, length(kept)), want)
        rows = counts(asg) + [(r, False) for r in (dict(poly_items(y)) for y in (F, sub(F.args[0], F)) + tuple(sub(q, q.args[0]) for q in nats(d)))]
        rows += [({m: Fraction(1)}, False) for r, _ in list(rows) for m in r if m != () and all(is_nonneg_atom(q) for q, _ in m)]
        if any(fm(rows + [(dict(poly_items(sub(v, ONE))), False)]) for v in (d, neg(d))):
            return unknown
    i = K()
    stop = deep(erase_casts(open1(F.args[1], i)))
    turn = deep(erase_casts(real_cmp("gt", orient(at(a, sub(sub(L, num(2)), i)), at(a, sub(sub(L, ONE), i)), pt), ZERO)))
    if deep(F.args[0]) not in (nat(sub(L, ONE)), sub(L, ONE)):
        return unknown
    if stop is turn:
        return ("up" if up else "down"), None
    und = unresolved(stop) - unresolved(P) - unresolved(a)
    return None, (UNDECIDED if und else REFUTED, "dropping goes on while the last turn is not a strict right turn; it stops when " + brief(stop))


INF = terms.INF if hasattr(terms, "INF") else None


@rule("H02")
def h02(c):
    """The two chains as nested recurrences: each outer loop runs over all sorted points in one direction and
    appends each; its inner loop drops the last point exactly while there are two and the turn is not strictly
    right (the determinant compared as a polynomial). The hull is compared, element by element and in length,
    with the joined chains."""
    w, cs = cases(c, "graham_scan")
    for k in cs:
        key = k.key
        los = []
        for asg, h in k.hulls:
            for t in [h] + [a for a, _ in asg]:
                for y in collect(t, lambda y: y.op == "lout" and not has_bound(y)):
                    if y not in los:
                        los.append(y)
        found = {}
        srcs = [k.cloud] + collect(k.ret, lambda y: y.op == "sorted" and y.args[0] is k.cloud)
        bad = []
        for y in los:
            why = None
            for P in srcs:
                d, wy = chain_of(y, P)
                if d:
                    found.setdefault(P, {})[d] = y
                    why = None
                    break
                if why is None or contains(Turn(y.args[0]).next[y.args[1]], lambda z: z.op == "at" and z.args[0] is P):
                    why = wy
            if why:
                bad.append(why)
        if len(found) > 1:
            c.ob(key + "chain", UNDECIDED, "the chains run over different points depending on the input", w)
            continue
        up = down = None
        if found:
            P, ud = next(iter(found.items()))
            up, down = ud.get("up"), ud.get("down")
        if up is None or down is None:
            ref = [b for b in bad if b[0] == REFUTED]
            if los and not bad:
                c.ob(key + "chain", REFUTED, "the hull is built from an ascending and a descending chain; there is only the %s one" % ("ascending" if up is not None else "descending"), w)
            elif ref:
                c.ob(key + "chain", REFUTED, "a chain keeps only strict right turns over all points; " + ref[0][1], w)
            else:
                c.ob(key + "chain", UNDECIDED, "the hull is built from two chains; " + (bad[0][1] if bad else "none was found"), w)
            continue
        c.ob(key + "chain", PROVEN, "an ascending and a descending chain over all points keep only strict right turns", w)
        a, b = sub(length(up), ONE), sub(length(down), ONE)
        i = K()
        some = FALSE
        # every chain has a point, as each turn appends one
        sane = AND(int_cmp("ge", a, ZERO), int_cmp("ge", b, ZERO))
        for asg, h in k.hulls:
            if not fm(counts(asg + tuple(literals(sane)))):
                continue
            some = OR(some, cond_of(asg))
            h = under(h, sane)
            c.compare(key + "size", under(length(h), sane), under(add(a, b), sane), "the hull has the vertices of both chains but their last ones", w)
            lo = int_cmp("lt", i, a)
            try:
                got = under(at(h, i), AND(sane, AND(int_cmp("ge", i, ZERO), int_cmp("lt", i, add(a, b)))))
            except Exception as ex:
                c.ob(key + "vertices", UNDECIDED, "the hull is the joined chains; " + str(ex), w)
                continue
            g1, g2 = under(got, AND(lo, int_cmp("ge", i, ZERO))), under(got, NOT(lo))
            c.compare(key + "first", g1, at(up, i), "the hull begins with the ascending chain", w)
            c.compare(key + "second", g2, deep(at(down, sub(i, a))), "the hull goes on with the descending chain", w)
        want = AND(int_cmp("ge", length(k.p), num(3)), int_cmp("ge", add(a, b), num(3)))
        c.compare(key + "nothing", under(some, sane), under(want, sane), "there is a hull exactly when the chains have three vertices or more", w)


def has_bound(t):
    return bool(free_bvs(t))


def free_bvs(t):
    """bound variables of t that t does not bind itself"""
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        memo[x] = frozenset()
        out = set()
        if x.op == "bv":
            out.add(x.args[0])
        st = []
        for q in x.args:
            terms_in(q, st)
        for q in st:
            out |= go(q)
        if x.op == "mlam":
            out.discard(x.args[0])
        memo[x] = frozenset(out)
        return memo[x]
    return go(t)


def terms_in(a, out):
    if isinstance(a, T):
        out.append(a)
    elif isinstance(a, tuple):
        for x in a:
            terms_in(x, out)


@rule("H03")
def h03(c):
    """Which sequence the chain loops read, for each combination of sortedness claim and voxel size: the input
    itself only when it is claimed sorted and not down-sampled, otherwise a lexicographic sort of the cloud."""
    w, cs = cases(c, "graham_scan")
    for k in cs:
        key = k.key
        n = 0
        for asg, h in k.hulls:
            raw_reads, sorted_reads = [], []
            for y in collect(h, lambda y: y.op == "at"):
                base = y.args[0]
                if base is k.cloud and reads_outside_sort(h, y):
                    raw_reads.append(y)
                elif base.op == "sorted":
                    if base not in sorted_reads:
                        sorted_reads.append(base)
            if k.sorted and not k.voxel:
                st = PROVEN if raw_reads and not sorted_reads else UNDECIDED
                if not raw_reads:
                    for s in sorted_reads:
                        lex_order(c, key + "order", s, k.cloud, w, "the chains run over sorted points")
                else:
                    c.ob(key + "order", st, "points claimed to be sorted are used as they are", w)
                continue
            if raw_reads:
                quants = [a for a in atoms_in(tup(h, cond_of(asg))) if a.op in ("exists", "forall") and contains(a, lambda y: y is k.cloud) and not has_bound(a)]
                st, why = REFUTED, ""
                if quants:
                    st, why = sorted_by_test(k, asg, h, quants)
                c.ob(key + "order", st, "the chains run over sorted points; they read %s as it is%s" % (brief(k.cloud, 100), why), w)
                if st != PROVEN:
                    continue
            if not sorted_reads and not raw_reads:
                c.ob(key + "order", UNDECIDED, "the chains run over sorted points; none was found", w)
            for s in sorted_reads:
                lex_order(c, key + "order", s, k.cloud, w, "the chains run over lexicographically sorted points")


def sorted_by_test(k, asg, h, quants):
    """whether the cloud is read as it is only where a test has found it sorted"""
    P = k.cloud
    for q in quants:
        for o in (True, False):
            d = dict(asg)
            if q in d and d[q] != o:
                continue
            g = deep(restrict(h, ite(q, {True: boolean(o), False: boolean(not o)})))
            rest = [a for a in quants if a is not q]
            if not any(reads_outside_sort(g, y) for y in collect(g, lambda y: y.op == "at" and y.args[0] is P)):
                continue
            if (q.op == "exists") == o:
                if rest:
                    continue
                return REFUTED, " where " + tests_of(((q, o),))
            i = K()
            n, body = q.args[0], deep(open1(q.args[1], i))
            good = body if q.op == "forall" else NOT(body)
            a, b = at(P, i), at(P, add(i, ONE))
            le = sign_case(sub(at(a, ZERO), at(b, ZERO)), TRUE, sign_case(sub(at(a, ONE), at(b, ONE)), TRUE, TRUE, FALSE), FALSE)
            miss = deep(AND(deep(good), NOT(deep(le))))
            if deep(sub(n, sub(length(P), ONE))) is not ZERO:
                return UNDECIDED, " where " + tests_of(((q, o),))
            if miss is not FALSE:
                return (UNDECIDED if unresolved(body) - unresolved(P) else REFUTED), " where only %s holds for neighbours" % brief(good, 200)
            return PROVEN, ", but only where every neighbour is in order"
    return UNDECIDED, " under " + brief(quants[0], 200)


def reads_outside_sort(t, y):
    """y occurs in t other than within the sorted sequence itself"""
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x in seen or x.op == "sorted":
            continue
        seen.add(x)
        if x is y:
            return True
        terms_in(x.args, stack)
    return False


def lex_order(c, key, s, cloud, w, what):
    """s is the cloud sorted lexicographically, in two dimensions"""
    st, why = same(s.args[0], cloud)
    c.ob(key + "/elements", st, "exactly the points of the cloud are sorted; found " + brief(s.args[0]), w)
    if s.args[1].op != "mlam":
        c.ob(key + "/order", UNDECIDED, "comparator is " + brief(s.args[1]), w)
        return
    a, b = fresh("a", ("vec", num(2), "num")), fresh("b", ("vec", num(2), "num"))
    got = deep(open_mlam(s.args[1], [a, b])[0])
    want = con("Ordering", "Equal")
    for d in (1, 0):
        want = sign_case(sub(at(a, num(d)), at(b, num(d))), con("Ordering", "Less"), want, con("Ordering", "Greater"))
    if got is want:
        c.ob(key + "/order", PROVEN, what, w)
        return
    diff = next(((asg, q) for asg, q in paths(tup(got, want)) if q.args[2][0] is not q.args[2][1] and not any(o == "u" for _, o in asg)), None)
    if diff is None:
        c.ob(key + "/order", PROVEN, what, w)
    else:
        c.ob(key + "/order", UNDECIDED if unresolved(got) else REFUTED, "%s; on [%s] it answers %s" % (what, tests_of(diff[0]), brief(diff[1].args[2][0])), w)


def sign_case(p, lt, eq, gt):
    return cond(real_cmp("lt", p, ZERO), lt, cond(real_cmp("gt", p, ZERO), gt, eq))


# ------------------------------------------------------------------------------- gift wrapping
class March:
    """the outer loop of the gift wrapping: `cur` the vertex it stands at, `hull` what is built before this turn,
    `nxt` the point chosen, by an inner loop over the cloud, as the next vertex"""

    def __init__(self, k, asg, h):
        self.why = None
        los = {y.args[0] for y in collect(h, lambda y: y.op == "lout" and not has_bound(y))}
        # the loop that builds the hull: the one whose outcome is the hull
        hs = [y for y in collect(h, lambda y: y.op == "lout" and not has_bound(y)) if isinstance(elem_shape(shape(y)), tuple)]
        lps = {y.args[0] for y in hs}
        if len(lps) != 1:
            self.why = "the hull is built by one loop; found %d" % len(lps)
            return
        self.loop = lps.pop()
        tn = self.tn = Turn(self.loop)
        j = next(y.args[1] for y in hs if y.args[0] is self.loop)
        self.j, self.hull = j, tn.accs[j]
        self.final = deep(tn.here(h))
        nx = tn.next[j]
        if not (nx.op == "cat" and len(nx.args) == 2 and nx.args[0] is self.hull and nx.args[1].op == "list" and len(nx.args[1].args) == 1):
            self.why = "each turn appends one vertex; it makes the hull " + brief(nx)
            return
        pushed = nx.args[1].args[0]
        inner = []
        for t in tn.next + tn.exits:
            for y in collect(t, lambda y: y.op == "lout" and not has_bound(y)):
                if y not in inner:
                    inner.append(y)
        if len(inner) != 1:
            self.why = "one loop chooses the next vertex; found %d" % len(inner)
            return
        lo = inner[0]
        self.sel = Turn(lo.args[0])
        i = lo.args[1]
        a = self.sel.accs[i]
        if shape(a) in ("uint", "int"):
            P = next((y.args[0] for t in [pushed] + tn.next + tn.exits for y in collect(t, lambda y: y.op == "at" and (y.args[1] is lo or y.args[1] in tn.accs))), k.cloud)
            mk = lambda q: deep(at(P, q))
        else:
            mk = lambda q: q
        self.e, self.cur, self.nxt = mk(a), deep(mk(self.sel.inits[i])), mk(lo)
        self.step = lift(("pt", a), mk, self.sel.next[i]) if mk(a) is not a else self.sel.next[i]
        L = self.L = deep(add(tn.k, length(tn.inits[j])))
        first = cond(int_cmp("ge", L, ONE), at(self.hull, ZERO), self.cur)
        if pushed is self.cur:
            # the vertex it stands at is pushed
            self.prev, self.guard = at(self.hull, sub(L, ONE)), int_cmp("ge", L, ONE)
            ca = [q for q in range(len(tn.accs)) if contains(self.cur, lambda y: y is tn.accs[q])]
            self.goes = deep(subst(self.cur, {tn.accs[q]: tn.next[q] for q in ca})) if ca else None
            self.start = deep(subst(self.cur, {tn.accs[q]: tn.inits[q] for q in ca})) if ca else None
            if self.goes is not self.nxt:
                self.why = "the next vertex is the chosen point; it is " + brief(self.goes) if self.goes is not None else "the vertex does not change"
                return
        elif pushed is self.nxt or deep(pushed) is deep(self.nxt):
            last = deep(at(self.hull, sub(L, ONE)))
            if self.cur is not last and not (self.cur in tn.accs and tn.next[tn.accs.index(self.cur)] is self.nxt):
                self.why = "the march stands at " + brief(self.cur)
                return
            self.prev, self.guard = at(self.hull, sub(L, num(2))), int_cmp("ge", L, num(2))
            i0 = tn.inits[j]
            self.start = i0.args[0] if i0.op == "list" and len(i0.args) == 1 else None
            first = at(self.hull, ZERO)
        else:
            self.why = "the vertex appended is " + brief(pushed)
            return
        self.first = first
        # candidates looked at in reverse
        N = length(k.cloud)
        seen = collect(self.step, lambda y: y.op == "at" and y.args[0] is k.cloud and contains(y.args[1], lambda z: z is self.sel.k))
        if seen and all(deep(sub(y.args[1], sub(sub(N, ONE), self.sel.k))) is ZERO for y in seen):
            q = fresh("k", "uint")
            self.step = deep(subst(self.step, {self.sel.k: sub(sub(N, ONE), q)}))
            self.sel.k = q
        # no turn goes beyond one that always leaves the loop
        self.last = deep(add(N, sub(tn.k, self.L)))
        self.stops = FALSE
        if not contains(self.last, lambda y: y is tn.k):
            taken = FALSE
            for e in tn.exits:
                taken = OR(taken, e)
            self.stops = under(deep(subst(taken, {tn.k: self.last})), int_cmp("ge", N, ONE))
            if self.stops is TRUE:
                tn.exits = [under(e, int_cmp("le", tn.k, self.last)) for e in tn.exits]
        self.exit_some = {o for a_, o in asg if a_.op == "lexit" and a_.args[0] is self.loop}


class Facts:
    """what the tests of a path say about signs of polynomials in the coordinates"""

    def __init__(self, asg):
        self.asg = [(erase_casts(a), o) for a, o in asg]
        self.used = set()

    def sign(self, p):
        """'-', '0', '+', or None"""
        p = deep(erase_casts(p))
        v = terms.sign(p)
        d = dict(self.asg)
        while v.op == "ite":
            if v.args[0] not in d:
                return None
            self.used.add(v.args[0])
            v = dict(v.args[1])[d[v.args[0]]]
        return v.args[0] if v.op == "sg" else None

    def equal(self, a, b):
        """True, False or None"""
        ss = [self.sign(sub(at(a, num(d)), at(b, num(d)))) for d in (0, 1)]
        if any(s in ("-", "+") for s in ss):
            return False
        return True if ss == ["0", "0"] else None

    def holds(self, g):
        v = deep(restrict(deep(g), cond_of([x for x in self.asg if x[0].op == "geq"])))
        for a, _ in self.asg:
            if a.op == "geq":
                self.used.add(a)
        return True if v is TRUE else False if v is FALSE else None

    def strange(self):
        return [a for a, _ in self.asg if a not in self.used]


def march_of(c, k, cname):
    ms = []
    for asg, h in k.hulls:
        m = March(k, asg, h)
        if m.why:
            c.ob(k.key + cname, UNDECIDED, "the hull is a march over the points; " + m.why, k.w)
            continue
        m.asg, m.h = asg, h
        ms.append(m)
    return ms


def choice(m, k):
    """every case of looking at one candidate -> (kind: 'wrap' | 'back' | 'other', description, strange)"""
    x = deep(at(k.cloud, m.sel.k))
    out, n = [], 0
    for asg, leaf in paths(deep(erase_casts(m.step))):
        f = Facts(asg)
        n += 1
        leaf = deep(leaf)
        s = f.sign(orient(m.cur, m.e, x))
        D = f.sign(orient(m.prev, m.cur, x))
        dot = f.sign(add(mul(sub(at(m.cur, ZERO), at(m.prev, ZERO)), sub(at(x, ZERO), at(m.cur, ZERO))),
                         mul(sub(at(m.cur, ONE), at(m.prev, ONE)), sub(at(x, ONE), at(m.cur, ONE)))))
        has = f.holds(m.guard)
        ecur, xcur, xe = f.equal(m.e, m.cur), f.equal(x, m.cur), f.equal(x, m.e)
        if s in ("-", "+"):
            ecur = xcur = xe = False
        if D in ("-", "+"):
            xcur = False
        if dot in ("-", "+"):
            xcur = False
        if ecur and xcur is None and xe is not None:
            xcur = xe
        if xcur and ecur is None and xe is not None:
            ecur = xe
        if xe:
            if ecur is None:
                ecur = xcur
            if xcur is None:
                xcur = ecur
        back = True if has and D == "0" and dot == "-" else False if has is False or D in ("-", "+") or dot in ("0", "+") or xcur else None
        desc = "[%s]" % tests_of(asg)[:500]
        odd = f.strange()
        if leaf is m.e or leaf is erase_casts(m.e):
            if back is not True:
                if ecur is not False and s not in ("-", "+") and xcur is not True:
                    out.append(("wrap", "a first candidate is passed over on " + desc, odd))
                elif ecur is not True and s in ("-", None) and xe is not True and xcur is not True:
                    out.append(("wrap", "a candidate on the outer side is passed over on " + desc, odd))
        elif leaf is x or leaf is erase_casts(x):
            if ecur is not True and s in ("+", None) and xe is not True:
                out.append(("wrap", "a candidate on the inner side is taken on " + desc, odd))
            elif ecur is not True and s == "0" and xcur is not False and xe is not True:
                out.append(("wrap", "the current vertex itself can replace a candidate on " + desc, odd))
            if back is not False and (ecur is not False or s in ("0", None)) and xe is not True:
                out.append(("back", "a point behind the current vertex is taken on " + desc, odd))
        else:
            out.append(("other", "the candidate becomes %s on %s" % (brief(leaf, 150), desc), odd))
    return out, n


# order types of the last edge, the candidate so far and the point looked at: (hull before, current vertex, the cloud)
STATES = [([], (0, 0), [(0, 4), (4, 4), (4, 0), (2, 4), (0, 2), (2, 0), (1, 3)]),
          ([(0, 0)], (0, 4), [(0, 0), (4, 4), (4, 0), (2, 4), (0, 2), (1, 3)]),
          ([(0, 0), (0, 4)], (4, 4), [(0, 0), (0, 4), (4, 0), (2, 4), (4, 2), (1, 3)]),
          ([(0, 0), (0, 4)], (2, 4), [(0, 0), (0, 4), (4, 0), (4, 4), (1, 4), (1, 3)]),
          ([(0, 0), (0, 4), (4, 4)], (4, 0), [(0, 0), (4, 4), (4, 2), (2, 0), (1, 3)]),
          ([(0, 0), (0, 4), (4, 4), (4, 0)], (2, 0), [(0, 0), (4, 0), (3, 0), (1, 3)]),
          ([], (0, 0), [(2, 2), (4, 4), (5, 0), (3, 1)]),
          ([(0, 0)], (2, 2), [(0, 0), (4, 4), (1, 1), (5, 0), (3, 1)]),
          ([(0, 0), (2, 2)], (4, 4), [(0, 0), (2, 2), (3, 3), (5, 0), (3, 1)])]


def specialise_points(t, m, k, hull, cur, e, x):
    """t for one order type"""
    pt = lambda p: mklist(num(p[0]), num(p[1]))
    vals = {m.e: pt(e), m.cur: pt(cur), deep(at(k.cloud, m.sel.k)): pt(x)}
    off = const_val(sub(m.L, m.tn.k))
    if off is None or len(hull) - off < 0:
        return None
    kk = len(hull) - int(off)
    t = deep(subst(t, {m.tn.k: num(kk)}))
    hs = {num(i): pt(p) for i, p in enumerate(hull)}
    memo = {}

    def f(y):
        if y in memo:
            return memo[y]
        if y in vals:
            r = vals[y]
        elif y.op == "at" and y.args[0] is m.hull and y.args[1] in hs:
            r = hs[y.args[1]]
        elif not y.args or y.op in ("loop", "lout"):
            r = y
        elif y.op == "ite":
            r = terms.ite_on(y.args[0], f, {o: f(z) for o, z in y.args[1]})
        else:
            r = rebuild(y, f)
        memo[y] = r
        return r
    return deep(f(t))


def configurations(m, k):
    """order types for which the choice is definitely wrong -> [(kind, description)]"""
    step = deep(erase_casts(m.step))
    orr = lambda a, b, p: (b[1] - a[1]) * (p[0] - b[0]) - (b[0] - a[0]) * (p[1] - b[1])
    out, n = [], 0
    pushed_cur = m.guard is not None and const_val(sub(m.L, m.tn.k)) == 0
    for hull, cur, cloud in STATES:
        if not pushed_cur:
            hull = hull + [cur]
        prev = (hull if pushed_cur else hull[:-1])[-1:]
        behind = lambda p: bool(prev) and orr(prev[0], cur, p) == 0 and (cur[0] - prev[0][0]) * (p[0] - cur[0]) + (cur[1] - prev[0][1]) * (p[1] - cur[1]) < 0
        for e in [cur] + [p for p in cloud if not behind(p)]:
            for x in cloud + [cur]:
                if x == e:
                    continue
                s = orr(cur, e, x)
                if behind(x):
                    want, kind = "e", "back"
                elif e == cur:
                    want, kind = "x", "wrap"
                elif x == cur:
                    want, kind = "e", "wrap"
                elif s == 0:
                    continue
                else:
                    want, kind = ("x" if s < 0 else "e"), "wrap"
                r = specialise_points(step, m, k, hull, cur, e, x)
                if r is None:
                    continue
                v = [const_val(at(r, num(d))) if r.op == "list" and len(r.args) == 2 else None for d in (0, 1)]
                n += 1
                if None in v:
                    continue
                if (int(v[0]), int(v[1])) != (e if want == "e" else x):
                    out.append((kind, "from %s, reached from %s, with candidate %s, looking at %s, it %s" %
                                (cur, prev[0] if prev else "nowhere", e if e != cur else "none", x, "passes over it" if want == "x" else "takes it")))
    return out, n


def judge_choice(c, key, res, kind, what, w, m, k):
    found, n = res
    bad = [q for q in found if q[0] == kind and not q[2]]
    if found and not bad:
        bad = [q for q in configurations(m, k)[0] if q[0] == kind]
    und = [q for q in found if q[0] == "other" or q[0] == kind]
    if bad:
        c.ob(key, REFUTED, what + "; " + bad[0][1], w)
    elif und:
        c.ob(key, UNDECIDED, what + "; " + und[0][1], w)
    else:
        c.ob(key, PROVEN, "%s (%d cases of one candidate)" % (what, n), w)


@rule("H04")
def h04(c):
    """The starting point as a minimum over the whole cloud with a lexicographic key; every case of looking at one
    candidate point, with the determinant compared as a polynomial; and when the march is over."""
    w, cs = cases(c, "jarvis_march")
    for k in cs:
        for m in march_of(c, k, "march"):
            tn = m.tn
            what = "the march starts at the lexicographically smallest point"
            s = m.start
            if s is None or s.op != "argf":
                c.ob(k.key + "start", UNDECIDED if s is None or unresolved(s) - unresolved(k.cloud) or s.op != "at" else REFUTED, what + "; it starts at " + brief(s) if s is not None else what, w)
            else:
                kind, tie, n, kl, vl, _ = s.args
                i = K()
                key, val = deep(open1(kl, i)), deep(open1(vl, i))
                p = deep(at(k.cloud, i))
                comps = key.args[2] if key.op == "con" else key.args if key.op == "list" else ()
                ok = kind == "min" and n is length(k.cloud) and len(comps) == 2 and all(q is deep(at(p, num(d))) for d, q in enumerate(comps)) and val is p
                und = unresolved(key) - unresolved(p) or unresolved(val) - unresolved(p) or unresolved(n) - unresolved(k.cloud)
                c.ob(k.key + "start", PROVEN if ok else UNDECIDED if und else REFUTED, what + "" if ok else "%s; it is the %s of %s over %s" % (what, kind, brief(key), brief(n)), w)
            # every point is looked at
            x = deep(at(k.cloud, m.sel.k))
            N = length(k.cloud)
            seen = collect(m.step, lambda y: y.op == "at" and contains(y.args[1], lambda z: z is m.sel.k))
            off = [y for y in seen if y.args[0] is k.cloud and y.args[1] is not m.sel.k]
            whole = m.sel.bound is N and not [e for e in m.sel.exits if e is not FALSE] and x in seen and not off
            st = PROVEN if whole else UNDECIDED if unresolved(m.sel.bound) - unresolved(N) or not seen or any(y.args[0] is not k.cloud and not (y.args[0] is m.hull) for y in seen) else REFUTED
            c.ob(k.key + "every", st, "every point is a candidate at every step" + ("" if whole else "; %s turns over %s" % (brief(m.sel.bound, 100), ", ".join(brief(y, 80) for y in seen[:3]))), w)
            judge_choice(c, k.key + "choice", choice(m, k), "wrap", "the candidate furthest to the outer side is kept", w, m, k)
            # the end
            firsts = [m.first] + ([s] if s is not None else [])
            taken = FALSE
            for e in tn.exits:
                taken = OR(taken, e)
            st, why = PROVEN, ""
            if not m.exit_some and (len(tn.exits) != 1 or not terms.INF_P(tn.bound) if hasattr(terms, "INF_P") else False):
                st, why = REFUTED, "a march that has not come back is a hull too"
            some = m.exit_some or {0}
            for r in some:
                if not isinstance(r, int) or r >= len(tn.exits):
                    st, why = REFUTED, "a march that ran out is a hull too"
                    continue
                for asg, leaf in paths(deep(erase_casts(tn.exits[r]))):
                    if leaf is not TRUE:
                        continue
                    f = Facts(asg)
                    eqs = [f.equal(m.nxt, under_path(q, asg)) for q in firsts]
                    if True in eqs:
                        continue
                    f.equal(m.nxt, m.cur)
                    f.holds(m.guard)
                    why = "it ends on [%s] although the next vertex need not be the first" % tests_of(asg)[:400]
                    if st == PROVEN or not f.strange():
                        st = UNDECIDED if f.strange() else REFUTED
                    break
            c.ob(k.key + "end", st, "the hull is complete when the march is back at its start; " + why, w)
            st, why = PROVEN, ""
            for asg, leaf in paths(deep(erase_casts(taken))):
                if leaf is TRUE:
                    continue
                f = Facts(asg)
                eqs = [f.equal(m.nxt, under_path(q, asg)) for q in firsts]
                same_ = f.equal(m.nxt, m.cur)
                f.holds(m.guard)
                if False in eqs or same_ is True:
                    continue
                st, why = (UNDECIDED if f.strange() else REFUTED), "it goes on, on [%s], from its start" % tests_of(asg)[:400]
                if st == REFUTED:
                    break
            c.ob(k.key + "closes", st, "the march ends once it is back at its start; " + why, w)
            # a complete march is not thrown away
            enough = AND(int_cmp("ge", length(m.h), num(3)), AND(int_cmp("ge", length(k.p), num(3)), int_cmp("ge", length(k.cloud), num(3))))
            lost = []
            for asg, leaf in top_paths(under(k.ret, enough)):
                if leaf is terms.BOT or leaf.op == "con" and leaf.args[1] == "Some":
                    continue
                if any(a.op == "lexit" and a.args[0] is m.loop and o not in m.exit_some for a, o in asg):
                    continue
                lost.append((any(a.op not in ("lexit", "geq", "sign") or a.op != "lexit" and contains(a, lambda y: y.op == "pred") for a, o in asg), asg))
            st = PROVEN if not lost else UNDECIDED if all(u for u, _ in lost) else REFUTED
            c.ob(k.key + "kept", st, "a march that is back at its start after three vertices is the hull" + ("" if not lost else "; it is given up on [%s]" % tests_of(lost[0][1])[:300]), w)
        if not k.hulls:
            c.ob(k.key + "march", UNDECIDED if k.odd else REFUTED, "a march around the points is a hull; nothing is ever returned", w)


def under_path(t, asg):
    return deep(restrict(deep(t), cond_of([(a, o) for a, o in asg if a.op == "geq"])))


@rule("H05")
def h05(c):
    """Every case of looking at one candidate behind the current vertex (collinear with the edge it was reached by,
    in the opposite direction), and the exits of the march once the hull has as many vertices as there are points."""
    w, cs = cases(c, "jarvis_march")
    for k in cs:
        for m in march_of(c, k, "march"):
            tn = m.tn
            judge_choice(c, k.key + "behind", choice(m, k), "back", "a point behind the current vertex is never taken", w, m, k)
            taken = FALSE
            for e in tn.exits:
                taken = OR(taken, e)
            n = length(k.cloud)
            # the turn at which the hull has n vertices
            turn = deep(add(n, sub(tn.k, m.L)))
            what = "the march stops once it has as many vertices as there are points"
            if contains(turn, lambda y: y is tn.k) or unresolved(turn) - unresolved(n):
                c.ob(k.key + "bounded", UNDECIDED, what + "; the hull has %s vertices" % brief(m.L), w)
                continue
            inf = tn.bound.op == "inf"
            if not inf:
                room = sub(turn, tn.bound)
                v = int_cmp("ge", room, ZERO)
                st = PROVEN if deep(v) is TRUE else UNDECIDED
                c.ob(k.key + "bounded", st, what + "; it makes at most %s turns" % brief(tn.bound), w)
                continue
            g = m.stops
            if g is TRUE:
                c.ob(k.key + "bounded", PROVEN, what, w)
            else:
                # does any test at all bound the turns?
                counts = [a for a in atoms_in(taken) if a.op == "geq" and contains(a, lambda y: y is tn.k) and contains(a, lambda y: y.op == "len")]
                odd = [a for a in atoms_in(taken) if a.op not in ("geq", "sign")]
                accs = [a for a in atoms_in(taken) if any(contains(a, lambda y, q=q: y is q) for q in tn.accs if shape(q) in ("uint", "int"))]
                c.ob(k.key + "bounded", UNDECIDED if counts or odd or accs else REFUTED, what + "; then it goes on, on [%s]" % brief(g, 300), w)


# ------------------------------------------------------------------------------- the type arithmetic is done in
ARITH = {"add", "sub", "mul", "div", "rem", "neg", "add_assign", "sub_assign", "mul_assign", "div_assign", "rem_assign", "mul_add",
         "sum", "product", "dot", "perp", "cross", "norm", "norm_squared", "magnitude", "magnitude_squared", "metric_distance", "distance",
         "distance_squared", "center", "lerp", "scale", "scale_mut", "abs", "signum", "pow", "powi", "powf", "determinant", "mean", "row_mean",
         "column_mean", "abs_sub", "component_mul", "component_div", "add_scalar", "tr_dot", "cast_signed", "dotc", "lp_norm", "normalize", "unscale",
         "sum_of_squares", "variance", "gemm", "axpy", "inc", "dec", "double", "square", "div_euclid", "rem_euclid", "div_floor", "mod_floor"}
ARITH_TRAITS = ("core::ops::arith::", "core::iter::traits::accum::")
REDUCE = {"sum", "product"}


def reach(r, skip=()):
    """keys of the bodies reachable from the root's, not entering those whose path ends in one of skip"""
    types = r["types"]
    seen, stack = set(), [r["key"]]

    def refs(x, out):
        if isinstance(x, dict):
            if isinstance(x.get("key"), str):
                out.add(x["key"])
            if isinstance(x.get("ty"), int):
                k = types[x["ty"]].get("key")
                if k:
                    out.add(k)
            if isinstance(x.get("t"), int) and x["t"] < len(types):
                k = types[x["t"]].get("key")
                if k:
                    out.add(k)
            for v in x.values():
                refs(v, out)
        elif isinstance(x, list):
            for v in x:
                refs(v, out)
    while stack:
        k = stack.pop()
        if k in seen or k not in r["bodies"]:
            continue
        b = r["bodies"][k]
        if any(b["path"].split("::{closure")[0].endswith("::" + q) for q in skip):
            continue
        seen.add(k)
        out = set()
        refs(b["blocks"], out)
        refs(b.get("promoted"), out)
        for q in b["locals"]:
            t = q if isinstance(q, int) else q.get("ty") if isinstance(q, dict) else None
            if t is not None and types[t].get("key"):
                out.add(types[t]["key"])
        stack += list(out)
    return seen


def arith_sites(r, keys, tname):
    """(operation, type, function, where) of arithmetic on values made of `tname`, and conversions of them"""
    import re
    types = r["types"]
    word = re.compile(r"\b%s\b" % re.escape(tname))
    sites, conv, ncalls = [], [], 0

    def s(a):
        return types[a["t"]]["s"] if isinstance(a, dict) and "t" in a else ""
    for k in keys:
        b = r["bodies"][k]
        for bl in b["blocks"]:
            if bl.get("cleanup"):
                continue
            t = bl["t"]
            if t[0] != "call" or not isinstance(t[1], dict) or "name" not in t[1]:
                continue
            ncalls += 1
            c = t[1]
            args = [s(a) for a in c.get("args", [])]
            for q in args:
                for m in re.finditer(r"\{<([^{}]*) as ((?:core::ops::arith|core::iter::traits::accum)::\w+)[^{}]*>::(\w+)", q):
                    if word.search(m.group(1)):
                        sites.append((m.group(3), m.group(1), b["path"], bl["sp"]))
            tr = c.get("trait") or ""
            if c["name"] == "as_" and len(args) >= 2 and word.fullmatch(args[0].lstrip("&")):
                conv.append((args[1], b["path"], bl["sp"]))
            if c["name"] == "as_" and len(args) >= 2 and word.fullmatch(args[1]):
                conv.append(("from " + args[0], b["path"], bl["sp"]))
            if c.get("krate") in ("mapping_algorithms",) or not (c["name"] in ARITH or tr.startswith(ARITH_TRAITS)):
                continue
            if not args:
                continue
            of = args[-1] if c["name"] in REDUCE and (c.get("trait") or "").endswith("Iterator") else args[0]
            if word.search(of.split("{")[0]):
                sites.append((c["name"], of, b["path"], bl["sp"]))
    return sites, conv, ncalls


NUMBERS = {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"}


@rule("H06")
def h06(c):
    """The types at every call site of an arithmetic operation reachable from the hull functions: none may operate on
    the coordinate type (or vectors of it), and coordinates may only be converted to the calculation type."""
    import re
    for name in ("graham_scan", "jarvis_march"):
        r = c.public(name, MOD)
        w = r["span"]
        c.run(r, opaque=(DOWN,))
        ty = r["types"][r["bodies"][r["key"]]["locals"][1] if isinstance(r["bodies"][r["key"]]["locals"][1], int) else r["bodies"][r["key"]]["locals"][1]["ty"]]["s"]
        m = re.search(r"OPoint<(\w+),", ty)
        if not m or m.group(1) in NUMBERS:
            c.ob(name + "/type", UNDECIDED, "the coordinate type of %s is not recognised in %s" % (name, ty), w)
            continue
        tname = m.group(1)
        every = reach(r)
        turn = reach(r, (DOWN,))
        for part, keys in (("turn", turn), ("voxel", every - turn)):
            sites, conv, n = arith_sites(r, keys, tname)
            bad = {}
            for op, of, fn, sp in sites:
                op = op.replace("_assign", "")
                bad.setdefault("div" if op in ("unscale",) else "add" if op in ("sum",) else op, []).append((of, fn, sp))
            for to, fn, sp in conv:
                if to in NUMBERS:
                    bad.setdefault("to-integer", []).append(("conversion to " + to, fn, sp))
                c.notes.append("%s/%s: coordinates converted to %s in %s" % (name, part, to, fn))
            for op, ss in sorted(bad.items()):
                of, fn, sp = ss[0]
                key = "voxel/" + op if part == "voxel" else name + "/" + op
                c.ob(key, REFUTED, "no arithmetic is done in the coordinate type; %s operates on %s in %s" % (op, of[:120], fn), sp)
            c.ob("%s/%s/sites" % (name, part), PROVEN, "%d call sites in %d functions looked at for arithmetic on %s" % (n, len(keys), tname), w)
