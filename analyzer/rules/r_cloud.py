"""Point clouds: brute-force search, centroid, transform, generation, sorting, down-sampling, extents."""
from rules.base import *

PC = "point_clouds"


def dim_of(v):
    """dimension of the points in slice v"""
    return elem_shape(shape(v))[1]


def K():
    return fresh("k", "uint")


def ready(c, x, key, where):
    if x.err or x.ret is None:
        c.ob(key, UNDECIDED, x.err or "no value", where)
        return False
    return True


def argsym(x, i):
    """value of parameter i (1-based) on entry"""
    v = x.args[i - 1]
    if v.op == "mref":
        for k, o in x.out.items():
            if k == i:
                s = [y for y in freevars(o) if y.op == "sym" and y.args[0] == "p%d" % i]
                return s[0] if s else None
    return v


def split(c, key, v, cnd, yes, no, where, what):
    """v must satisfy yes(v) when cnd holds and no(v) when it does not"""
    v = deep(v)
    a = deep(restrict(v, cnd))
    b = deep(restrict(v, NOT(cnd)))
    yes(a)
    no(b)


def dist2(a, b, n):
    k = K()
    d = sub(at(a, k), at(b, k))
    return sumi(n, lam(k, mul(d, d)))


def is_argmin(v, pts, query):
    """v is the element of pts nearest to query -> PROVEN / REFUTED / UNDECIDED, why"""
    v = deep(v)
    n = length(pts)
    if v.op == "at" and v.args[0].op != "argf" and v.args[0] is pts:
        i = v.args[1]
        if i.op == "argf":
            v = raw("argf", i.args[0], i.args[1], i.args[2], i.args[3], None, None)
    if v.op != "argf":
        why = loop_argmin(v, pts, query)
        if why:
            return REFUTED, why
        u = unresolved(v)
        segs = [y.args[2 if y.op == "argf" else 0] for y in collect(v, lambda y: y.op in ("argf", "exists"))]
        if v.op == "ite" and any(m is not n for m in segs) and not any(contains(m, lambda y: y.op in ("first", "exists")) for m in segs):
            # candidates of several passes compared with one another
            sts = []
            for asg, leaf in paths(v):
                if any(a.op != "geq" for a, o in asg):
                    u = True
                    continue
                cnd = TRUE
                for a, o in asg:
                    cnd = AND(cnd, ite(a, {True: boolean(o), False: boolean(not o)}))
                sts.append(is_argmin(under(leaf, cnd), pts, query) if leaf.op != "ite" else (UNDECIDED, ""))
            for st, why in sts:
                if st == REFUTED:
                    return st, why
            if not u and all(st == PROVEN for st, _ in sts):
                return PROVEN, ""
            return UNDECIDED, "it is " + brief(v)
        return (UNDECIDED if u else REFUTED), "it is " + brief(v)
    m = v.args[2]
    if m is not n:
        u = unresolved(m)
        return (UNDECIDED if u else REFUTED), "only %s of %s elements are considered" % (brief(m), brief(n))
    k = K()
    key, val = lam(k, dist2(query, at(pts, k), dim_of(pts))), lam(k, at(pts, k))
    ok = [argf("min", t, n, key, val, v.args[5]) for t in ("first", "last")]
    if v.args[4] is None:
        v = raw("argf", *v.args[:4], ok[0].args[4], v.args[5])
    for w in ok:
        if v.args[0] == w.args[0] and v.args[3] is w.args[3] and v.args[4] is w.args[4]:
            return PROVEN, ""
    w = ok[0]
    if v.args[4] is not w.args[4] and v.args[4] is not None:
        if not unresolved(v.args[4]):
            return REFUTED, "the value returned is " + brief(v.args[4])
        return UNDECIDED, "the value returned is " + brief(v.args[4])
    if v.args[3] is w.args[3]:
        return REFUTED, "it is the greatest, not the least"
    return (UNDECIDED if unresolved(v.args[3]) else REFUTED), "the minimised quantity is %s, not the squared distance" % brief(v.args[3])


def loop_argmin(v, pts, query):
    """a search loop without a closed form: its body must replace the kept element by the current one
    exactly when that is nearer than the best so far, and then remember its distance -> refutation or None"""
    if v.op != "lout" or v.args[0].op != "loop":
        return None
    lp, oi = v.args[0], v.args[1]
    n, inits, l = lp.args[:3]
    k = K()
    accs = [fresh("a", s) for s in l.args[1][1:]]
    body = open_mlam(l, [k] + accs)
    if len(body) < len(accs):
        return None
    cur = at(pts, k)
    dk = dist2(query, cur, dim_of(pts))
    best = accs[oi]
    dacc = [a for i, a in enumerate(accs) if i != oi and any(x is dk for x in leaves(body[i]))]
    cands = list(dacc)
    for t in collect(body[oi], lambda y: y.op in ("minf", "maxf")):
        if open1(t.args[2], k) is dk:
            cands.append(t)
    db = dist2(query, best, dim_of(pts))
    cands.append(db)
    known = {}
    for q in cands:
        s = sign(sub(dk, q))
        if s.op == "ite":
            known[s.args[0]] = ({o: g.args[0] for o, g in s.args[1]}, q)
    pair = lift(None, lambda *xs: tup(*xs), body[oi], *[body[accs.index(a)] for a in dacc])
    scale = {}
    for t, q in [(t, q) for q in dacc for t in collect(body[oi], lambda y: y.op == "sign")]:
        # alpha*dk - beta*q, alpha != beta: not decided by which of the two is smaller
        d0 = dict(poly_items(dk))
        m, cf = next(iter(d0.items()))
        al = dict(poly_items(t.args[0])).get(m, 0) / cf
        rest = sub(t.args[0], mul(num(al), dk))
        ri = poly_items(rest)
        if al and len(ri) == 1 and ri[0][0] == ((q, 1),) and ri[0][1] != -al and ri[0][1] / al < 0:
            scale[t] = -ri[0][1] / al
    for asg, leaf in paths(deep(pair)):
        new, ds = leaf.args[2][0], leaf.args[2][1:]
        for a, o in asg:
            if a in scale and o in "+-" and len(asg) == 1 and new in (cur, best) and cur is not best:
                return "an element replaces the best so far when its distance is below %s times the best one" % scale[a]
        rel = [(known[a][0][o], known[a][1]) for a, o in asg if a in known]
        odd = [a for a, o in asg if a not in known]
        if new is not best and new is not cur:
            return None
        if len(rel) != 1:
            continue
        z, q = rel[0]
        if new is cur and z == "+" and q.op != "maxf":
            return "an element farther than the best so far replaces it"
        if new is cur and z == "+" and q.op == "maxf":
            return "the farthest element is kept"
        if new is best and z == "-" and q.op != "maxf" and not odd:
            return "a nearer element does not replace the best so far"
        if new is cur and z == "-" and any(d is not dk for d in ds):
            return "the distance remembered (%s) is not that of the element kept" % brief(ds[0], 80)
        if new is best and any(d is not a for d, a in zip(ds, dacc)):
            return "the distance remembered changes although the element kept does not"
    return None


@rule("N01")
def n01(c):
    """Value-flow graph of the brute-force search with its accumulating loop turned into an arg-min
    over the whole slice: the result is nothing exactly for the empty slice and otherwise the element
    with the least squared distance, the arg-min ranging over every index."""
    r = c.public("find_nearest_neighbour_naive", PC)
    x = c.run(r)
    w = r["span"]
    if not ready(c, x, "find_nearest_neighbour_naive", w):
        return
    q, pts = x.args[0], x.args[1]
    ge = int_cmp("ge", length(pts), ONE)
    v = deep(x.ret)
    e = under(v, NOT(ge))
    key = "find_nearest_neighbour_naive/"
    c.compare(key + "empty", e, NONE(), "an empty slice has no nearest point", w)
    y = under(v, ge)
    found_some(c, key + "nonempty", y, pts, q, w)


def mentions_arg(a):
    """a test on a position an arg-min picked, of which only the range searched is known"""
    return a.op in ("geq", "sign") and contains(a, lambda t: t.op == "argf")


def found_some(c, key, y, pts, q, w):
    leavs = [(a, l) for a, l in paths(y)] if y.op == "ite" else [((), y)]
    for asg, l in leavs:
        if l.op == "con" and l.args[1] == "Some":
            st, why = is_argmin(l.args[2][0], pts, q)
            if asg and st == REFUTED and any(unresolved(a) for a, o in asg):
                st = UNDECIDED
            c.ob(key, st, "the result is the element of the slice with the least squared distance; " + why, w)
        else:
            st = REFUTED if not unresolved(l) and not any(unresolved(a) or mentions_arg(a) for a, o in asg) else UNDECIDED
            c.ob(key, st, "a non-empty slice always has a nearest point; found " + brief(l), w)


@rule("C01")
def c01(c):
    """The centroid as a closed form: per dimension the sum over all points divided by their number,
    and the origin for the empty cloud."""
    r = c.public("calculate_point_cloud_center", PC)
    x = c.run(r)
    w = r["span"]
    if not ready(c, x, "calculate_point_cloud_center", w):
        return
    p = x.args[0]
    n, N = length(p), dim_of(p)
    ge = int_cmp("ge", n, ONE)
    v = deep(erase_casts(x.ret))
    d, k = K(), K()
    mean = mkseq(N, lam(d, mul(sumi(n, lam(k, at(at(p, k), d))), inv(n))))
    c.compare("calculate_point_cloud_center/nonempty", pointwise(under(v, ge), N), mean, "every dimension is the sum of all coordinates over their number", w)
    c.compare("calculate_point_cloud_center/empty", pointwise(under(v, NOT(ge)), N), mkseq(N, lam(d, ZERO)), "the empty cloud's centroid is the origin", w)


def pointwise(v, N):
    """a vector value rebuilt element by element (removes the way it was assembled)"""
    v = deep(v)
    if v.op in ("seq", "list"):
        return v
    k = K()
    return v if v.op in ("sym", "var", "bv") else mkseq(N, lam(k, at(v, k)))


@rule("C02")
def c02(c):
    """The transformed cloud as a closed form: the sequence, of the source's length, of the isometry
    applied to the i-th source point."""
    r = c.public("transform_point_cloud", PC)
    x = c.run(r)
    w = r["span"]
    if not ready(c, x, "transform_point_cloud", w):
        return
    p, iso = x.args[0], x.args[1]
    k = K()
    v = deep(x.ret)
    c.compare("transform_point_cloud/length", lift("len", lambda q: length(q) if q.op in ("seq", "list", "cat", "updseq", "upd", "filt", "sorted") else app("len", "uint", q), v),
              length(p), "the result has as many points as the source", w)
    want = mkseq(length(p), lam(k, models.transform_point(iso, at(p, k))))
    c.compare("transform_point_cloud/points", v, want, "the i-th point is the isometry applied to the i-th source point", w)
    ro = [i for i, o in x.out.items()]
    c.require("transform_point_cloud/source", not ro, "the source is passed read-only", w)


RANDOM_SOURCES = ("from_entropy", "thread_rng", "from_rng", "OsRng", "getrandom", "random", "rng")


@rule("C03")
def c03(c):
    """Generation as a state machine over a generator whose seed is a constant: exactly the requested
    number of rounds, each appending one point, each point drawing once per dimension from that
    dimension's own range."""
    r = c.public("generate_point_cloud", PC)
    x = c.run(r)
    w = r["span"]
    for nm, sp in callee_names(r):
        last = nm.split("::")[-1]
        if last in ("from_entropy", "thread_rng", "from_rng", "from_os_rng", "now", "random") or "OsRng" in nm:
            c.ob("generate_point_cloud/seed", REFUTED, "the generator is seeded from %s, results differ between calls" % nm, sp)
    for b in r["bodies"].values():
        for blk in b["blocks"]:
            for stm in blk["s"]:
                if "PointerExposeProvenance" in str(stm):
                    c.ob("generate_point_cloud/seed", REFUTED, "an address is turned into a number, results differ between calls", b["path"])
    if not ready(c, x, "generate_point_cloud", w):
        return
    cnt, rng = x.args[0], x.args[1]
    v = deep(x.ret)
    key = "generate_point_cloud/"
    seeds = collect(v, lambda y: y.op == "app" and y.args[0] == "rng")
    if not seeds:
        c.ob(key + "seed", UNDECIDED, "no seeded generator found in " + brief(v), w)
        return
    for s in seeds:
        bad = [y for y in freevars(s) if y.op == "sym"]
        c.require(key + "seed", not bad and not unresolved(s), "the generator is seeded with a constant; found " + brief(s), w)
    for asg, leaf in paths(v):
        generated(c, key, leaf, asg, cnt, rng, w)


def generated(c, key, v, asg, cnt, rng, w):
    facts = [(a.args[0], a.args[1], o) for a, o in asg if a.op == "geq"]
    zero = any(L is cnt and cc <= 1 and not o for L, cc, o in facts)
    want = ZERO if zero else cnt
    ctx = " (when %s)" % "; ".join("%s=%s" % (brief(a, 60), o) for a, o in asg) if asg else ""
    if v.op in ("list", "cat", "seq"):
        n = length(v)
        st, why = same(n, want)
        c.ob(key + "rounds", st if asg == () or st != REFUTED or zero else UNDECIDED, "exactly the requested number of points is generated%s; found %s" % (ctx, brief(n)), w)
        if v.op == "seq":
            k = K()
            pt = open1(v.args[1], k)
            draws = collect(pt, lambda y: y.op == "app" and y.args[0] == "draw")
            fixed = [d for d in draws if k not in freevars(d) and d.args[2].op == "app"]
            if fixed or (pt.op == "lout" and k not in freevars(pt)):
                c.ob(key + "state", REFUTED, "every coordinate is a fresh draw; every point is the same " + brief(pt), w)
        return
    if v.op != "lout" or v.args[0].op != "loop":
        c.ob(key + "rounds", UNDECIDED, "the result is not one accumulating loop: " + brief(v), w)
        return
    lp, oi = v.args[0], v.args[1]
    n, inits, l = lp.args[:3]
    st, why = same(n, want)
    if zero and st == PROVEN or n is cnt:
        st = PROVEN
    c.ob(key + "rounds", st, "exactly the requested number of points is generated%s; found %s" % (ctx, brief(n)), w)
    k = K()
    accs = [fresh("a", s) for s in l.args[1][1:]]
    body = open_mlam(l, [k] + accs)
    b = body[oi]
    c.compare(key + "start", inits[oi], mklist(), "generation starts from an empty cloud", w)
    parts = b.args if b.op == "cat" else ()
    if len(parts) != 2 or parts[0] is not accs[oi] or parts[1].op != "list" or len(parts[1].args) != 1:
        c.ob(key + "append", REFUTED if b is accs[oi] or (b.op == "cat" and not unresolved(b) - {"loop", "lout"}) else UNDECIDED,
             "every round appends exactly one point; found " + brief(b), w)
        return
    c.ob(key + "append", PROVEN, "every round appends exactly one point", w)
    pt = parts[1].args[0]
    N = length(rng)
    if pt.op == "lout" and pt.args[0].op == "loop":
        m, ini, ll = pt.args[0].args[:3]
        c.compare(key + "dimensions", m, N, "one draw per dimension", w)
        j = K()
        ac = [fresh("a", s) for s in ll.args[1][1:]]
        bb = open_mlam(ll, [j] + ac)
        q = bb[pt.args[1]]
        stt = None
        for asg2, q1 in paths(q):
            ok = q1.op == "cat" and len(q1.args) == 2 and q1.args[0] is ac[pt.args[1]] and q1.args[1].op == "list" and len(q1.args[1].args) == 1
            for asg3, e in (paths(q1.args[1].args[0]) if ok else [((), q1)]):
                if not ok or e.op != "app" or e.args[0] != "draw":
                    c.ob(key + "range", REFUTED if ok and not contains(e, lambda y: y.op == "app" and y.args[0] == "draw") and not unresolved(e) else UNDECIDED,
                         "each coordinate is one draw; found " + brief(q1), w)
                    continue
                stt = e.args[2]
                rg = e.args[3]
                eqj = [a for a, o in asg2 + asg3 if a.op == "geq" and j in freevars(a)]
                if rg is at(rng, j):
                    st = PROVEN
                elif eqj and all(o is False for a, o in asg2 + asg3 if a in eqj) and N is not None:
                    st = UNDECIDED
                else:
                    st = UNDECIDED if unresolved(rg) else REFUTED
                c.ob(key + "range", st, "coordinate d is drawn from range d; found " + brief(rg), w)
        if stt is None:
            return
        si = ac.index(stt) if stt in ac else None
        if si is None:
            c.ob(key + "state", REFUTED if not freevars(stt) & set(accs) else UNDECIDED, "each draw advances the generator; the state drawn from is " + brief(stt), w)
        else:
            nx = bb[si]
            c.ob(key + "state", PROVEN if all(x.op == "app" and x.args[0] == "rng_next" and x.args[2] is stt for x in leaves(nx)) else UNDECIDED if nx is not stt else REFUTED,
                 "each draw advances the generator; found " + brief(nx), w)
            outer = ini[si]
            oi2 = accs.index(outer) if outer in accs else None
            ok = oi2 is not None and body[oi2].op == "lout" and body[oi2] is not accs[oi2]
            c.ob(key + "state/rounds", PROVEN if ok else REFUTED if not freevars(outer) & set(accs) else UNDECIDED,
                 "the generator's state is carried from one point to the next; found start %s" % brief(outer), w)
    else:
        c.ob(key + "range", UNDECIDED, "a point is " + brief(pt), w)


def callee_names(r):
    """(callee path, span) of all call sites reachable from the root inside the crate"""
    out = []
    for b in r["bodies"].values():
        for blk in b["blocks"]:
            t = blk["t"]
            if t[0] == "call" and isinstance(t[1], dict):
                out.append((t[1].get("path") or t[1].get("decl") or str(t[1]), t[-1] if isinstance(t[-1], str) else b.get("span", "")))
    return out


# ---------------------------------------------------------------- sorting
def lex_parts(a, b, N):
    k = K()
    ne = lam(k, NOT(real_cmp("eq", at(a, k), at(b, k))))
    return exists(N, ne), ne


def judge_comparator(cmp_, N, elem_shape_):
    """cmp_(a, b) is the lexicographic order on the coordinates -> status, why"""
    h, shs, (body,) = cmp_.args
    a, b = fresh("a", shs[0] or elem_shape_), fresh("b", shs[1] or elem_shape_)
    body = deep(open_mlam(cmp_, [a, b])[0])
    return judge_lex(body, a, b, N)


def judge_lex(body, a, b, N):
    # the predicate "coordinates differ" as it appears
    E, ne = lex_parts(a, b, N)
    res = PROVEN, ""
    exs = {t: ("E", False) for t in [at_ for at_ in support(E)]}
    f = first(N, ne)
    sg = sign(sub(at(a, f), at(b, f)))
    sa = sg.args[0] if sg.op == "ite" else None
    smap = {o: g.args[0] for o, g in sg.args[1]} if sa is not None else {}
    for asg, leaf in paths(body):
        if leaf is BOT:
            continue
        e, z, odd = None, None, []
        for at_, o in asg:
            if at_ in exs:
                e = o if restrict_atom(E, at_, o) is TRUE else False if restrict_atom(E, at_, o) is FALSE else None
            elif at_ is sa:
                z = smap[o]
            else:
                odd.append(at_)
        if (e is False and z in ("-", "+")) or (e is True and z == "0"):
            continue
        if z == "u":
            continue
        if e is None and z is not None:
            e = z != "0"     # a differing coordinate exists exactly when the first one differs
        got = leaf.args[1] if leaf.op == "con" else None
        if e is False:
            want = "Equal"
        elif e is True and z in ("-", "+"):
            want = {"-": "Less", "+": "Greater"}[z]
        else:
            want = None
        if want is not None and got == want:
            continue
        u = set()
        for o_ in odd:
            u |= unresolved(o_)
        u |= unresolved(leaf)
        if u:
            res = UNDECIDED, "not reduced: " + ", ".join(sorted(u))[:200]
            continue
        return REFUTED, "on the path [%s] it answers %s%s" % ("; ".join("%s=%s" % (brief(t, 80), o) for t, o in asg), brief(leaf, 60),
                                                        ", expected " + want if want else " without deciding by the first differing coordinate")
    return res


def check_sorted(c, key, v, base, N, w, what):
    """v is `base` sorted lexicographically"""
    if v.op != "sorted":
        u = unresolved(v)
        c.ob(key, UNDECIDED if u else REFUTED, what + "; found " + brief(v), w)
        return
    src, cmp_ = v.args[0], v.args[1]
    st, why = same(src, base)
    c.ob(key + "/elements", st, "exactly the input's points are sorted; found " + brief(src), w)
    if cmp_.op != "mlam":
        c.ob(key + "/order", UNDECIDED, "comparator is " + brief(cmp_), w)
        return
    st, why = judge_comparator(cmp_, N, shape(at(base, K())))
    c.ob(key + "/order", st, what + "; " + why, w)


SORTS = (("lex_sort", "ret"), ("lex_sort_ref", "ret"), ("lex_sort_in_place", "out"))


@rule("L01")
def l01(c):
    """Each sorting function's success value is sort(input, comparator), where sort is the standard
    stable sort (a permutation); the comparator's decision graph is compared with the lexicographic
    order: equal exactly when no coordinate differs, otherwise the order of the first differing one."""
    orders = {}
    for nm, how in SORTS:
        r = c.public(nm, PC)
        x = c.run(r)
        w = r["span"]
        if not ready(c, x, nm, w):
            continue
        p = argsym(x, 1)
        if p is None:
            c.ob(nm + "/sorted", REFUTED, "the input is never used", w)
            continue
        N = dim_of(p)
        ge = int_cmp("ge", N, ONE)
        v = under(x.ret, ge)
        if how == "ret":
            if v.op != "con" or v.args[1] != "Some":
                c.ob(nm + "/sorted", UNDECIDED if unresolved(v) or v.op == "ite" else REFUTED, "a cloud without NaN is sorted; found " + brief(v), w)
                continue
            check_sorted(c, nm + "/sorted", v.args[2][0], p, N, w, "ascending lexicographic order")
            c.require(nm + "/input", not x.out, "only the in-place variant can change its input", w)
        else:
            o = under(x.out[1], ge) if 1 in x.out else p
            c.compare(nm + "/reports", v, TRUE, "sorting a cloud without NaN reports success", w)
            check_sorted(c, nm + "/sorted", o, p, N, w, "ascending lexicographic order")


@rule("L02", nan=True)
def l02(c):
    """With NaN modelled explicitly: each sorting function's outcome is a decision on exactly
    'dimension zero' and 'some coordinate of some point is NaN'; on failure the slice is the input
    itself, and every partial comparison that could meet NaN is reached only when none exists."""
    for nm, how in SORTS:
        r = c.public(nm, PC)
        x = c.run(r)
        w = r["span"]
        if not ready(c, x, nm, w):
            continue
        p = argsym(x, 1)
        if p is None:
            c.ob(nm + "/decision", REFUTED, "the input is never used", w)
            continue
        N, n = dim_of(p), length(p)
        ge = int_cmp("ge", N, ONE)
        k, d = K(), K()
        isnan = lambda t: cmp_sign(t, "u")
        anynan = exists(n, lam(k, exists(N, lam(d, isnan(at(at(p, k), d))))))
        bad = OR(NOT(ge), anynan)
        v = deep(x.ret)
        ok = okness(v, how)
        c.compare(nm + "/decision", ok, NOT(bad), "success exactly when the dimension is positive and no coordinate is NaN", w)
        if how == "out" and 1 in x.out:
            o = under(x.out[1], bad)
            c.compare(nm + "/untouched", o, p, "a refused slice is left as it was", w)
        for pn in x.panics:
            if pn.cond is FALSE:
                continue
            # unwrap of a NaN comparison: reachable only without NaN
            cd = under(pn.cond, bad)
            if cd is not FALSE:
                c.ob(nm + "/nan-compare", UNDECIDED if unresolved(cd) else REFUTED, "a comparison that fails on NaN can be reached with a NaN coordinate: %s" % brief(pn.cond), pn.span)
            else:
                c.ob(nm + "/nan-compare", PROVEN, "reached only when no coordinate is NaN", pn.span)


def okness(v, how):
    if how == "out":
        return v

    def leaf(l):
        if l.op == "con" and l.args[1] in ("Some", "None"):
            return boolean(l.args[1] == "Some")
        return cond(pred("is_some", l), TRUE, FALSE)
    return deep(lift(None, leaf, v))


# ---------------------------------------------------------------- extents
@rule("X01")
def x01(c):
    """The extents as closed forms: per dimension the running minimum and maximum over every vertex,
    started from values no coordinate exceeds; nothing below three vertices."""
    r = c.public("calculate_polygon_extents", "polygons")
    x = c.run(r)
    w = r["span"]
    key = "calculate_polygon_extents/"
    if not ready(c, x, key[:-1], w):
        return
    p = x.args[0]
    n, N = length(p), dim_of(p)
    ge = int_cmp("ge", n, num(3))
    v = deep(x.ret)
    c.compare(key + "few", under(v, NOT(ge)), NONE(), "fewer than three vertices have no extents", w)
    y = under(v, ge)
    if y.op != "con" or y.args[1] != "Some":
        c.ob(key + "bounds", UNDECIDED if unresolved(y) else REFUTED, "three vertices have extents; found " + brief(y), w)
        return
    e = y.args[2][0]
    c.compare(key + "dimensions", length(e), N, "one range per dimension", w)
    d = K()
    rg = deep(at(e, d))
    st, why = loop_extents(rg, p, n, d)
    if st is not None:
        c.ob(key + "bounds", st, "every bound is the extreme coordinate over all vertices; " + why, w)
        return
    if rg.op != "con" or rg.args[0] != "RangeInclusive" and "RangeInclusive" not in str(rg.args[0]):
        c.ob(key + "bounds", UNDECIDED if unresolved(rg) else REFUTED, "a range per dimension; found " + brief(rg), w)
        return
    for kind, q, nm in (("minf", rg.args[2][0], "lower"), ("maxf", rg.args[2][1], "upper")):
        st, why = is_extreme(deep(q), kind, p, n, d)
        c.ob(key + nm, st, "the %s bound of every dimension is the %s over all vertices; found %s" % (nm, "minimum" if kind == "minf" else "maximum", brief(q)), w)


def loop_extents(rg, p, n, d):
    """bounds kept by a loop without closed form: every round must leave min/max of the old bound and the
    current coordinate, judged on the order facts of each path of the loop's body"""
    k = K()

    def opened(v):
        if v.op == "at" and v.args[1] is d and v.args[0].op == "lout":
            v = v.args[0]
            f = lambda t: at(t, d)
        elif v.op == "lout":
            f = lambda t: t
        else:
            return None
        lp, oi = v.args[0], v.args[1]
        if lp.op != "loop":
            return None
        m, inits, l = lp.args[:3]
        accs = [ACC.setdefault((lp, i), fresh("a", s)) for i, s in enumerate(l.args[1][1:])]
        body = open_mlam(l, [k] + accs)
        return lp, f(accs[oi]), f(body[oi]), f(inits[oi]), m
    ACC = {}
    if rg.op == "con":
        a, b = opened(rg.args[2][0]), opened(rg.args[2][1])
        if a is None or b is None or a[0] is not b[0]:
            return None, ""
        (lo, nlo, ilo), (hi, nhi, ihi), m = a[1:4], b[1:4], a[4]
    else:
        a = opened(rg)
        if a is None:
            return None, ""
        g = lambda t, i: fld(t, None, i)
        o, nw, ini, m = a[1:]
        ls = [x for x in leaves(nw) if x.op == "con"]
        if not ls or ini.op != "con":
            return None, ""
        V = ls[0].args[1]
        lo, hi = fld(o, V, 0, "num"), fld(o, V, 1, "num")
        nlo, nhi = fld(nw, V, 0, "num"), fld(nw, V, 1, "num")
        ilo, ihi = ini.args[2][0], ini.args[2][1]
    from rules.r_kd import Order
    x = at(at(p, k), d)
    if m is not n:
        return (UNDECIDED if unresolved(m) else REFUTED), "the loop covers %s of %s vertices" % (brief(m), brief(n))
    isk = lambda t: const_val(t) is not None or (t.op == "app" and t.args[0] in ("max_value", "min_value", "infinity", "neg_infinity"))
    ks = {t for y in [nlo, nhi] for t in leaves(deep(y)) if isk(t)}
    for y in (nlo, nhi):
        for t in collect(deep(y), lambda u: u.op == "sign"):
            ks |= {num(-cf) for m, cf in poly_items(t.args[0]) if not m} | {a for m, _ in poly_items(t.args[0]) for a, _ in m if isk(a)} | {ZERO}
    ks |= {t for t in (ilo, ihi) if isk(t)}
    ks = sorted(ks, key=lambda t: t.id)
    qs = [lo, hi, x]
    known = {}
    for a in qs + ks:
        for b in qs + ks:
            if a is not b:
                s = sign(sub(a, b))
                if s.op == "ite":
                    known[s.args[0]] = (a, b, {o: gg.args[0] for o, gg in s.args[1]})
    wide = ilo.op == "app" and ilo.args[0] in ("max_value", "infinity")
    pair = lift(None, lambda u, v: tup(u, v), deep(nlo), deep(nhi))
    for asg, leaf in paths(deep(pair)):
        a, b = leaf.args[2]
        if any(t not in known for t, _ in asg) or a not in qs + ks or b not in qs + ks:
            return UNDECIDED, "a bound becomes %s / %s" % (brief(a, 60), brief(b, 60))
        for st in (("first", "later") if wide else ("later",)):
            od = Order()
            for i, t in enumerate(ks):
                for q in qs:
                    if t.op == "app":
                        od.le(*((q, t) if t.args[0] in ("max_value", "infinity") else (t, q)))
                for u in ks[:i]:
                    rank = lambda z: const_val(z) if z.op != "app" else Fraction(10) ** 60 * (1 if z.args[0] in ("max_value", "infinity") else -1)
                    if rank(t) != rank(u):
                        od.le(*((t, u) if rank(t) < rank(u) else (u, t)), True)
            if st == "first":
                od.le(x, lo)
                od.le(hi, x)
                for q, t in ((lo, ilo), (hi, ihi)):
                    if t in ks:
                        od.le(q, t)
                        od.le(t, q)
            else:
                od.le(lo, hi)
            bad = False
            for t, o in asg:
                u, v, zs = known[t]
                z = zs[o]
                if z == "-":
                    od.le(u, v, True)
                elif z == "+":
                    od.le(v, u, True)
                elif z == "0":
                    od.le(u, v)
                    od.le(v, u)
                else:
                    bad = True
            cl = od.closure()
            if bad or any(cl.get((q, q)) for q in qs + ks):
                continue
            le = lambda u, v: u is v or (u, v) in cl
            if not (le(a, lo) and le(a, x) and (a is lo or a is x or le(lo, a) or le(x, a))):
                return REFUTED, "on the path [%s] the lower bound becomes %s" % ("; ".join("%s=%s" % (brief(t, 80), o) for t, o in asg), brief(a, 60))
            if not (le(hi, b) and le(x, b) and (b is hi or b is x or le(b, hi) or le(b, x))):
                return REFUTED, "on the path [%s] the upper bound becomes %s" % ("; ".join("%s=%s" % (brief(t, 80), o) for t, o in asg), brief(b, 60))
    return UNDECIDED, "the loop keeps the extremes; its start was not examined"


def is_extreme(q, kind, p, n, d):
    if q.op != kind:
        if q.op in ("minf", "maxf"):
            return REFUTED, ""
        return (UNDECIDED if unresolved(q) else REFUTED), ""
    init, m, l = q.args
    k = K()
    body = open1(l, k)
    neutral = init.op in ("app", "inf", "poly") and (
        (init.op == "app" and init.args[0] in (("max_value", "infinity") if kind == "minf" else ("min_value", "neg_infinity"))))
    if init.op == "poly" and not neutral:
        z = neg(init)
        neutral = z.op == "app" and z.args[0] in (("min_value", "neg_infinity") if kind == "minf" else ("max_value", "infinity"))
    elem = init.op == "at" and init.args[1] is d and init.args[0].op == "at" and init.args[0].args[0] is p
    if body is at(at(p, k), d) and m is n and (neutral or elem):
        return PROVEN, ""
    off = None
    if elem and body.op == "at" and body.args[1] is d and body.args[0].op == "at" and body.args[0].args[0] is p:
        off = sub(body.args[0].args[1], k)
        if const_val(off) is not None and const_val(init.args[0].args[1]) == 0 and const_val(off) == 1 and sub(n, m) is ONE:
            return PROVEN, ""
    return (UNDECIDED if unresolved(q) else REFUTED), ""
