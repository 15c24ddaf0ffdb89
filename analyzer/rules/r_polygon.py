"""Point-in-polygon."""
from itertools import product

from rules.base import *
from rules.r_cloud import ready, K, is_extreme

MOD = "polygons"


# ---------------------------------------------------------------- sign domain of a point and a segment
class Plane:
    """The abstract domain of E02: signs of the six coordinate differences of a point P and a segment AB and
    of the turn A-B-P.  A cell is one realisable assignment of these signs; a test is understood when it is
    (up to factors of known sign) a product of the seven quantities."""

    def __init__(self, P, A, B):
        z, o = ZERO, ONE
        c = lambda v: (at(v, z), at(v, o))
        (px, py), (ax, ay), (bx, by) = c(P), c(A), c(B)
        dx, dy = sub(bx, ax), sub(by, ay)
        pax, pay, pbx, pby = sub(px, ax), sub(py, ay), sub(px, bx), sub(py, by)
        turn = sub(mul(pax, dy), mul(pay, dx))
        self.basis = [pay, pby, pax, pbx, dy, dx, turn]
        self.coords = [px, py, ax, ay, bx, by]
        prods = [((), ONE)]
        for i in range(7):
            prods.append(((i,), self.basis[i]))
        for i in range(7):
            for j in range(i, 7):
                prods.append(((i, j), mul(self.basis[i], self.basis[j])))
        self.prods = {}
        for ix, p in prods:
            q, s = self.norm(p)
            self.prods.setdefault(q, (ix, s))
        self.memo = {}

    @staticmethod
    def norm(p):
        items = poly_items(p)
        if not items:
            return p, 1
        l = items[0][1]
        return mul(num(1 / l), p), 1 if l > 0 else -1

    def express(self, q):
        """q as (indices of factors, sign), or None"""
        if q in self.memo:
            return self.memo[q]
        ix, p = [], q
        for _ in range(6):
            invs = {a for m, c in poly_items(p) for a, e in m if a.op == "inv"}
            if not invs:
                break
            a = sorted(invs, key=lambda t: t.id)[0]
            d = a.args[0]
            e = self.express(d)
            if e is None:
                break
            p = clear(p, a)
            if p is None:
                self.memo[q] = None
                return None
            ix += list(e[0])
            if e[1] < 0:
                p = neg(p)
        n, s = self.norm(p)
        r = self.prods.get(n)
        r = (tuple(ix) + r[0], s * r[1]) if r is not None else None
        self.memo[q] = r
        return r


def clear(p, a):
    """p times the denominator of a = inv(d)"""
    r = ZERO
    for m, c in poly_items(p):
        e = dict(m).get(a, 0)
        t = mkpoly({tuple((x, y) for x, y in m if x is not a): c})
        if e == 0:
            t = mul(t, a.args[0])
        elif e != 1:
            return None
        r = add(r, t)
    return r


def cells():
    out = {}
    rng = range(-3, 4)
    sg = lambda v: (v > 0) - (v < 0)
    for pay, pby, pax, pbx in product(rng, repeat=4):
        dy, dx = pay - pby, pax - pbx
        out[tuple(map(sg, (pay, pby, pax, pbx, dy, dx, pax * dy - pay * dx)))] = None
    return sorted(out)


CELLS = cells()
NAMES = ("P.y-A.y", "P.y-B.y", "P.x-A.x", "P.x-B.x", "B.y-A.y", "B.x-A.x", "turn")


def spec_hit(cell):
    pay, pby, pax, pbx, dy, dx, turn = cell
    lo, hi = (pay, pby) if dy > 0 else (pby, pay)     # signs of y minus lower end, y minus upper end
    if dy == 0 or not (lo > 0 and hi <= 0):
        return False
    # x <= crossing:  (P.x-A.x)*dy <= (P.y-A.y)*dx for dy>0, the other way for dy<0
    return turn <= 0 if dy > 0 else turn >= 0


def judge_hit(h, P, A, B):
    """the decision graph h says exactly whether the ray from P hits the edge AB"""
    pl = Plane(P, A, B)
    known, odd = {}, set()
    for a in dsup(h):
        if a.op != "sign":
            odd.add(a)
            continue
        e = pl.express(a.args[0])
        if e is None:
            odd.add(a)
        else:
            known[a] = e
    cnt = 0
    for cell in CELLS:
        def value(v):
            if v is BOT:
                return set()
            if v.op != "ite":
                return {v}
            a = v.args[0]
            d = dict(v.args[1])
            if a in known:
                ix, s = known[a]
                z = s
                for i in ix:
                    z *= cell[i]
                o = {-1: "-", 0: "0", 1: "+"}[z]
                for k, y in d.items():
                    if k == o or (len(str(k)) > 1 and o in str(k)):
                        return value(y)
                return set()
            r = set()
            for y in d.values():
                r |= value(y)
            return r
        got = value(h)
        want = TRUE if spec_hit(cell) else FALSE
        cnt += 1
        if got == {want}:
            continue
        desc = ", ".join("%s%s" % (n, {-1: "<0", 0: "=0", 1: ">0"}[c]) for n, c in zip(NAMES, cell))
        wrong = NOT(want) in got
        if not wrong:
            if any(unresolved(g) for g in got):
                return UNDECIDED, "not reduced: " + "; ".join(brief(g, 80) for g in got), cnt
            return REFUTED, "where %s the answer is %s" % (desc, "; ".join(brief(g, 80) for g in got)), cnt
        if len(got) > 1:
            u = set()
            for a in odd:
                u |= unresolved(a)
            if u:
                return UNDECIDED, "not reduced: " + ", ".join(sorted(u)), cnt
            return REFUTED, "where %s the answer depends on %s, expected %s" % (desc, "; ".join(sorted(brief(a, 120) for a in odd)), brief(want)), cnt
        return REFUTED, "where %s the answer is %s" % (desc, brief(got.pop())), cnt
    return PROVEN, "", cnt


# ---------------------------------------------------------------- edge enumeration
def linear_in(i, k):
    """i = k + c -> c, or None"""
    d = sub(i, k)
    return d if k not in freevars(d) else None


class Odd(Exception):
    pass


def edge_cases(body, k, poly, n, N_range):
    """body (a 0/1 count for index k) -> list of (lo, hi, ia, ib, gated hit over holes A, B)
    where lo <= k < hi; indices as affine terms over k"""
    out = []

    def conds(v):
        # geq tests on k at the top
        for a in sorted(dsup(v), key=lambda t: t.id):
            if a.op == "geq" and k in freevars(a):
                return a
        return None

    def go(v, lo, hi):
        a = conds(v)
        if a is not None:
            L, c = a.args
            kc = 0
            rest = ZERO
            for m, cf in poly_items(L):
                if m == ((k, 1),):
                    kc = cf
                elif any(k in freevars(t) for t, _ in m):
                    raise Odd("test " + brief(a))
                else:
                    rest = add(rest, mkpoly({m: cf}))
            if abs(kc) != 1:
                raise Odd("test " + brief(a))
            # kc*k + rest >= c
            if kc == 1:
                b = sub(num(c), rest)           # k >= b
                go(restrict_deep(v, a, True), tmax(lo, b), hi)
                go(restrict_deep(v, a, False), lo, tmin(hi, b))
            else:
                b = add(sub(rest, num(c)), ONE)   # k < b
                go(restrict_deep(v, a, True), lo, tmin(hi, b))
                go(restrict_deep(v, a, False), tmax(lo, b), hi)
            return
        if emptyrange(lo, hi, n):
            return
        # remainders: rem(k+c, n) wraps
        for t in collect(v, lambda y: y.op == "rem" and y.args[1] is n and k in freevars(y)):
            c = const_shift(t.args[0], k, n)
            if c is None:
                raise Odd("index " + brief(t))
            mult, off = c
            # k + off + mult*n, 0 <= k < n, |off| <= 1
            cut = sub(sub(n, num(off)), ZERO) if off > 0 else num(-off)
            if off == 0:
                go(subst(v, {t: k}), lo, hi)
            elif off > 0:
                go(subst(v, {t: add(k, num(off))}), lo, tmin(hi, cut))
                go(subst(v, {t: sub(add(k, num(off)), n)}), tmax(lo, cut), hi)
            else:
                go(subst(v, {t: sub(add(k, num(off)), ZERO)}), tmax(lo, cut), hi)
                go(subst(v, {t: add(add(k, num(off)), n)}), lo, tmin(hi, cut))
            return
        one = sub(hi, lo)
        if one is ONE:
            v = subst(v, {k: lo})
        out.append((lo, hi, v))
    go(body, N_range[0], N_range[1])
    return out


def const_shift(x, k, n):
    """x = k + off + mult*n"""
    for mult in (0, 1, -1, 2):
        d = sub(sub(x, k), mul(num(mult), n))
        c = const_val(d)
        if c is not None and abs(c) <= 3:
            return mult, int(c)
    return None


def tmax(a, b):
    """the larger of two bounds that are ordered for every n >= 3"""
    d = sub(a, b)
    if least(d) is not None and least(d) >= 0:
        return a
    d = sub(b, a)
    if least(d) is not None and least(d) >= 0:
        return b
    raise Odd("bounds %s, %s" % (brief(a), brief(b)))


def tmin(a, b):
    return b if tmax(a, b) is a else a


def emptyrange(lo, hi, n):
    d = sub(lo, hi)
    l = least(d)
    return l is not None and l >= 0


def least(d):
    """least value of c0 + c1*n for n >= 3 (c1 >= 0), or None"""
    c = const_val(d)
    if c is not None:
        return c
    c0, c1, atom = 0, 0, None
    for m, cf in poly_items(d):
        if m == ():
            c0 = cf
        elif len(m) == 1 and m[0][1] == 1 and is_nonneg_atom(m[0][0]) and atom is None:
            atom, c1 = m[0][0], cf
        else:
            return None
    return c0 + 3 * c1 if c1 >= 0 else None


def hit_of(body, poly):
    """(ia, ib, hit) of a 0/1 body that looks at exactly two vertices"""
    idx = []
    for t in collect(body, lambda y: y.op == "at" and y.args[0] is poly):
        if t.args[1] not in idx:
            idx.append(t.args[1])
    return idx


def abstract(body, poly, ia, ib, A, B):
    v = subst(body, {raw("at", poly, ia): A})
    v = subst(v, {raw("at", poly, ib): B})
    return v


def as_hit(body):
    """0/1 count as gated boolean, or None"""
    ok = all(x in (ZERO, ONE) for x in leaves(body) if x is not BOT)
    if not ok:
        return None
    return lift("ashit", lambda x: boolean(x is ONE), body)


def count_parts(t):
    """count term -> [(coefficient, n, lambda) for the sums] and remaining 0/1 gated leaf"""
    sums, rest = [], ZERO
    for m, c in poly_items(t):
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "sumi":
            sums.append((c, m[0][0].args[0], m[0][0].args[1]))
        else:
            rest = add(rest, mkpoly({m: c}))
    return sums, rest


def analyse_ring(c, key, w, v, poly, P):
    """checks E01 on value v; returns the hit function (h, A, B) if found"""
    n = length(poly)
    one = int_cmp("ge", n, num(3))
    e = deep(subst(v, {n: ZERO}))
    c.compare(key + "empty", e, FALSE, "an empty polygon contains nothing", w)
    for asg, leaf in paths(under(v, AND(NOT(one), int_cmp("ge", n, ONE)))):
        if leaf is TRUE and not any(contains(a, lambda y: y.op == "sumi") for a, _ in asg):
            c.ob(key + "few", UNDECIDED if any(unresolved(a) for a, _ in asg) else REFUTED, "fewer than three vertices contain nothing", w)
    return ring_edges(c, key, w, under(v, one), poly, P)


def ring_edges(c, key, w, v, poly, P):
    n = length(poly)
    size = [a for a in dsup(v) if a.op == "geq" and not contains(a, lambda y: y.op in ("sumi", "at", "loop", "rem")) and contains(a, lambda y: y is n)]
    if size:
        # polygons of different sizes are treated differently
        a = min(size, key=lambda t: t.id)
        res = None
        for o in terms.outcomes(a):
            cnd = ite(a, {True: boolean(o), False: boolean(not o)})
            res = ring_edges(c, key, w, under(v, cnd), poly, P)
            if res is None:
                return None
        return res
    # the answer as the parity of one count: tests hoisted out of the sum are put back into its body
    A, B, k = fresh("A", ("vec", num(2), "num")), fresh("B", ("vec", num(2), "num")), K()
    is_par = lambda a: a.op == "geq" and a.args[0].op == "rem" and const_val(a.args[0].args[1]) == 2

    def build(y):
        if y is BOT:
            return BOT, BOT, []
        gates = sorted([a for a in dsup(y) if not is_par(a)], key=lambda t: t.id)
        if gates:
            a = y.args[0] if y.op == "ite" and y.args[0] in gates else gates[0]
            bs, rs, ms = {}, {}, []
            for o in terms.outcomes(a):
                b, r, mm = build(deep(restrict_deep(y, a, o)))
                bs[o], rs[o] = b, r
                ms += mm
            return ite(a, bs), ite(a, rs), ms
        if y in (TRUE, FALSE):
            return ZERO, ONE if y is TRUE else ZERO, [(y, None)]
        if y.op != "ite":
            raise Odd("the answer is " + brief(y), not unresolved(y))
        a = y.args[0]
        br = dict(y.args[1])
        if a.args[1] != 1 or br[True] not in (TRUE, FALSE) or br[False] is not NOT(br[True]):
            raise Odd("the answer is " + brief(y))
        sums, rest = count_parts(a.args[0].args[0])
        cv = const_val(rest)
        if len(sums) > 1 or cv is None or any(abs(q[0]) % 2 != 1 for q in sums):
            raise Odd("edges are counted as " + brief(a.args[0].args[0]))
        if br[True] is FALSE:
            cv += 1
        if not sums:
            return ZERO, num(int(cv) % 2), [(y, None)]
        return open1(sums[0][2], k), num(int(cv) % 2), [(y, sums[0][1])]
    try:
        body, rest, ms = build(v)
        lens = {m for _, m in ms if m is not None}
        if not lens:
            raise Odd("the answer is not the parity of a count over the edges: " + brief(v), not unresolved(v))
        if len(lens) > 1:
            raise Odd("several counts: " + brief(v))
        m = lens.pop()
        big = [const_val(deep(subst(m, {n: num(q)}))) for q in (1000, 2000)]
        if None not in big and big[0] == big[1] and not contains(body, lambda y: y.op in ("sumi", "loop", "pred")):
            raise Odd("at most %d edges are looked at however many vertices there are" % big[0], True)
        segs = edge_cases(body, k, poly, n, (ZERO, m))
        if rest is not ZERO:
            if rest is ONE:
                raise Odd("the answer is true for an even number of hits", True)
            segs.append((ZERO, ONE, rest))
        edges = []
        for lo, hi, b in segs:
            idx = hit_of(b, poly)
            if not idx and b is ZERO:
                continue
            if len(idx) != 2:
                raise Odd("an edge test looks at vertices " + ", ".join(brief(i, 60) for i in idx), not unresolved(b))
            edges.append((lo, hi, idx, b))
    except Odd as ex:
        c.ob(key + "edges", REFUTED if len(ex.args) > 1 and ex.args[1] else UNDECIDED,
             "the answer is the parity of the number of ring edges hit; " + ex.args[0], w)
        return None
    # every edge (i, i+1) for i in [lo, hi), and the closing edge
    cover = []
    for lo, hi, idx, b in edges:
        i, j = idx
        if const_val(sub(i, j)) == 1:
            i, j = j, i
        elif const_val(sub(j, i)) != 1:
            # the closing edge: (n-1, 0)
            if sub(n, i) is ONE and j is ZERO:
                pass
            elif sub(n, j) is ONE and i is ZERO:
                i, j = j, i
            else:
                c.ob(key + "edges", REFUTED, "vertices %s and %s are joined by an edge that the ring does not have" % (brief(idx[0], 60), brief(idx[1], 60)), w)
                return None
            cover.append(("close", i, j, b))
            continue
        if k in freevars(i):
            off = const_val(sub(i, k))
            if off is None:
                c.ob(key + "edges", UNDECIDED, "edge indices %s, %s" % (brief(i), brief(j)), w)
                return None
            cover.append(("run", add(lo, num(off)), add(hi, num(off)), b))
        else:
            cover.append(("run", i, add(i, ONE), b))
        h = (i, j)
    runs = sorted([x for x in cover if x[0] == "run"], key=lambda x: (const_val(x[1]) is None, const_val(x[1]) or 0))
    pos = ZERO
    ok = True
    for _, lo, hi, b in runs:
        ok = ok and lo is pos
        pos = hi
    ok = ok and sub(n, pos) is ONE
    closing = [x for x in cover if x[0] == "close"]
    n1 = " and ".join("edges %s to %s" % (brief(x[1], 40), brief(x[2], 40)) for x in runs)
    c.require(key + "edges", ok, "every pair of consecutive vertices is an edge, once; examined are %s of %s vertices" % (n1 or "none", brief(n)), w)
    c.require(key + "closing", len(closing) == 1, "the edge from the last vertex back to the first is examined once; it is examined %d times" % len(closing), w)
    hs = set()
    for lo, hi, idx, b in edges:
        i, j = idx
        d = const_val(sub(j, i))
        if d == 1 or (sub(n, i) is ONE and j is ZERO):
            pass
        else:
            i, j = j, i
        h = as_hit(abstract(b, poly, i, j, A, B))
        if h is None or contains(h, lambda y: y is poly or y is k):
            c.ob(key + "weight", UNDECIDED if unresolved(b) else REFUTED, "every edge counts once when hit; found " + brief(b), w)
            return None
        hs.add(deep(h))
    c.require(key + "weight", True, "every edge counts once when hit", w)
    hh = list(hs)
    return hh, A, B


def inside(c):
    r = c.public("is_single_point_in_polygon", MOD)
    x = c.run(r)
    return r, x


@rule("E01")
def e01(c):
    """The answer as the parity of a sum over edge indices; wrap-around, windows or carried vertices are
    all turned into index ranges, which must be exactly the edges (i, i+1) for every i below n-1 and one
    closing edge (n-1, 0), each counting one when hit."""
    r, x = inside(c)
    if not ready(c, x, "is_single_point_in_polygon", r["span"]):
        return
    analyse_ring(c, "is_single_point_in_polygon/", r["span"], deep(x.ret), x.args[1], x.args[0])


@rule("E02")
def e02(c):
    """The hit test of one edge, cut out of the sum over edges, judged on every realisable combination of
    signs of the coordinate differences and of the turn of the point about the edge: it must be true exactly
    for y in (lower end, upper end] and x up to the crossing, in every such cell."""
    r, x = inside(c)
    w = r["span"]
    if not ready(c, x, "is_single_point_in_polygon", w):
        return
    tmp = Ctx(c.doc)
    res = analyse_ring(tmp, "", w, deep(x.ret), x.args[1], x.args[0])
    if res is None:
        for o in tmp.obs:
            if o.status != PROVEN:
                c.ob("edge-hit", UNDECIDED, "the edge test could not be isolated: " + o.what, w)
        if not c.obs:
            c.ob("edge-hit", UNDECIDED, "the edge test could not be isolated", w)
        return
    hs, A, B = res
    for h in hs:
        st, why, cnt = judge_hit(h, x.args[0], A, B)
        c.ob("edge-hit", st, "an edge is hit exactly for y above its lower and not above its upper end and x not beyond the crossing (%d cells); %s" % (cnt, why), w)
        c.notes.append("%d realisable sign cells, %d sign tests" % (len(CELLS), len(dsup(h))))


@rule("E03")
def e03(c):
    """The batch result as a sequence over the points; on every path of its element the value is the
    single-point answer for that point, or false after a test that puts the point strictly outside the
    minimum or maximum over all vertices in one dimension."""
    r = c.public("are_multiple_points_in_polygon", MOD)
    x = c.run(r)
    w = r["span"]
    key = "are_multiple_points_in_polygon/"
    if not ready(c, x, key[:-1], w):
        return
    pts, poly = x.args[0], x.args[1]
    n = length(poly)
    ge = int_cmp("ge", n, num(3))
    v = deep(x.ret)
    c.compare(key + "few", under(v, NOT(ge)), NONE(), "fewer than three vertices give no answer", w)
    y = under(v, ge)
    if y.op != "con" or y.args[1] != "Some":
        c.ob(key + "answers", UNDECIDED if unresolved(y) else REFUTED, "three vertices give an answer; found " + brief(y), w)
        return
    s = y.args[2][0]
    if carried(c, key, s, pts, w):
        return
    c.compare(key + "count", length(s), length(pts), "one answer per point", w)
    k = K()
    el = under(at(s, k), AND(ge, int_cmp("lt", k, length(pts))))
    r1, x1 = inside(c)
    if not ready(c, x1, "is_single_point_in_polygon", r1["span"]):
        return
    single = under(subst(x1.ret, {x1.args[0]: fresh("P"), }) if False else subst2(x1.ret, x1.args[0], at(pts, k), x1.args[1], poly), ge)
    tests = dsup(single)
    bad = None
    for asg, leaf in split_out(el, tests):
        if leaf is single:
            continue
        if leaf in (TRUE, FALSE) or not unresolved(leaf) - unresolved(single):
            if leaf is FALSE:
                st, why = strictly_outside(asg, pts, poly, n, k)
            else:
                st, why = REFUTED, "found " + brief(leaf)
        else:
            st, why = UNDECIDED, "found " + brief(leaf)
        c.ob(key + "same", st, "each answer is the single-point answer, or false strictly outside the bounds; " + why, w)
        bad = True
    if not bad:
        c.ob(key + "same", PROVEN, "each answer is the single-point answer", w)


def carried(c, key, s, pts, w):
    """one pass of a loop that keeps something of a point for the next: is a point ever called inside because of
    what was kept, without a look at both of its coordinates?"""
    if s.op != "lout" or s.args[0].op != "loop" or s.args[0].args[0] is not length(pts) or len(s.args[0].args) < 3:
        return False
    l, oi = s.args[0].args[2], s.args[1]
    try:
        k = K()
        accs = [fresh("a", q) for q in l.args[1][1:]]
        body = open_mlam(l, [k] + accs)
        b = body[oi]
        p = at(pts, k)
        state = [a for i, a in enumerate(accs) if i != oi and contains(body[i], lambda y: y is p)]
        if b.op != "cat" or len(b.args) != 2 or b.args[0] is not accs[oi] or b.args[1].op != "list" or len(b.args[1].args) != 1 or not state:
            return False
        for asg, q in paths(b.args[1].args[0]):
            if q is not TRUE or not any(a in freevars(t) for t, o in asg for a in state):
                continue
            for d in (0, 1):
                if not any(contains(a, lambda y: y is at(p, num(d))) for a, o in asg):
                    c.ob(key + "same", REFUTED, "a point is called inside because of one before it, its coordinate %d never looked at" % d, w)
                    return True
    except (OverflowError, RecursionError, AssertionError, AttributeError, TypeError):
        pass
    return False


def subst2(v, a, a2, b, b2):
    t = fresh("P", shape(a))
    return subst(subst(subst(v, {a: t}), {b: b2}), {t: a2})


def split_out(v, keep, asg=()):
    """paths of v over the tests not in keep"""
    todo = [a for a in sorted(dsup(v), key=lambda t: t.id) if a not in keep]
    if not todo:
        yield asg, deep(v)
        return
    v0 = v
    a = v.args[0] if v.op == "ite" and v.args[0] not in keep else todo[0]
    o = terms._decided(a, dict(asg))
    for oo in terms.outcomes(a) if o is None else (o,):
        x = restrict_deep(v0, a, oo)
        if x is BOT:
            continue
        yield from split_out(x, keep, asg + ((a, oo),))


def strictly_outside(asg, pts, poly, n, k):
    und = False
    desc = []
    for a, o in asg:
        desc.append("%s=%s" % (brief(a, 100), o))
        if a.op != "sign":
            und = und or bool(unresolved(a))
            continue
        q = a.args[0]
        if unresolved(q):
            und = True
            continue
        # q = +-(bound - coordinate)
        for d in (ZERO, ONE):
            co = at(at(pts, k), d)
            for s in (1, -1):
                b = add(mul(num(s), q), co)        # s*q = b - co
                if b.op not in ("minf", "maxf"):
                    continue
                z = o if s == 1 else {"-": "+", "+": "-"}.get(o, o)
                kind = "minf" if b.op == "minf" else "maxf"
                st, why = is_extreme(b, kind, poly, n, d)
                if st == PROVEN and ((kind == "minf" and z == "+") or (kind == "maxf" and z == "-")):
                    return PROVEN, ""
    return (UNDECIDED if und else REFUTED), "it is false without the full test when only " + "; ".join(desc[-4:])
