"""Plotted lines."""
from fractions import Fraction

from rules.base import *
from rules.r_icp import restrict_deep_all, tests_of, fm
from rules.r_hull import Turn, sign_case, has_bound

MOD = "lines"


# ----------------------------------------------------------------------------------- linear reasoning
def form(p):
    return dict(poly_items(p))


def minus(f):
    return {m: -v for m, v in f.items()}


def shifted(f, k):
    g = dict(f)
    g[()] = g.get((), Fraction(0)) + k
    return g


def possible(atom, o, facts):
    """whether the outcome of a test is compatible with linear facts [(form, strict)]"""
    if atom.op == "sign":
        f = form(atom.args[0])
        rows = {"+": [(f, True)], "-": [(minus(f), True)], "0": [(f, False), (minus(f), False)]}.get(o)
        return rows is not None and fm(facts + rows)
    if atom.op == "geq":
        f = shifted(form(atom.args[0]), -atom.args[1])
        return fm(facts + ([(f, False)] if o is True else [(shifted(minus(f), -1), False)]))
    return True


def decided(facts):
    memo = {}

    def dec(atom):
        if atom.op not in ("sign", "geq"):
            return None
        if atom not in memo:
            outs = [o for o in outcomes(atom) if possible(atom, o, facts)]
            memo[atom] = outs[0] if len(outs) == 1 else None
        return memo[atom]
    return dec


def rows_of(asg):
    rows = []
    for a, o in asg:
        if a.op == "sign":
            f = form(a.args[0])
            rows += {"+": [(f, True)], "-": [(minus(f), True)], "0": [(f, False), (minus(f), False)]}.get(o, [])
        elif a.op == "geq":
            f = shifted(form(a.args[0]), -a.args[1])
            rows.append((f, False) if o is True else (shifted(minus(f), -1), False))
    return rows


# ------------------------------------------------------------------------------------------ the line
class Line:
    """`points`: emitted(k, d) the d-th coordinate of the k-th point the main loop emits, as numbers of the input's
    type, in terms of the accumulators of that loop; pa the axis whose extent fixes the number of turns"""


def delta(L, d):
    return sub(at(L.p2, d), at(L.p1, d))


def flat_cat(v):
    if v.op == "cat":
        out = []
        for q in v.args:
            out += flat_cat(q)
        return out
    if v.op == "list":
        return [raw("list", q) for q in v.args]
    return [v]


def is_seq_of_points(v):
    return isinstance(elem_shape(shape(v)), tuple)


def line(c, key, report=False):
    """the main loop, or None with the reason reported under key"""
    if "line" not in c.memo:
        c.memo["line"] = build(c)
    L = c.memo["line"]
    if L.why:
        st, why = L.why
        c.ob(key, st if report else UNDECIDED, why, L.w)
        return None
    return L


def build(c):
    L = Line()
    L.why = None
    r = c.public("plot_bresenham_line", MOD)
    L.r, L.w = r, r["path"]
    x = c.run(r)
    if x.err or x.ret is None:
        L.why = UNDECIDED, "not followed: %s" % x.err
        return L
    L.x = x
    L.p1, L.p2 = x.args[:2]
    v = deep(x.ret)
    L.N = shape(L.p1)[1]
    ps = paths(v)
    L.ends, L.loops = [], set()
    for asg, leaf in ps:
        cut = callee_of(leaf)
        if cut and any(q in cut for q in ("dedup", "retain", "truncate", "pop")):
            L.why = REFUTED, "points are removed from the line after they were added (%s): points that differ may be the same in the output type" % cut
            return L
        seq = flat_cat(leaf)
        if not seq or seq[-1].op != "list":
            L.why = UNDECIDED, "the line ends with one point added after a loop; it is " + brief(leaf)
            return L
        head = seq[:-1]
        if len(head) == 1 and head[0].op == "lout":
            L.loops.add((head[0].args[0], head[0].args[1]))
        elif head:
            L.why = UNDECIDED, "the line is not built by one loop: " + brief(leaf)
            return L
        else:
            L.why = UNDECIDED, "on some inputs the line is a single point: [%s]" % tests_of(asg)
            return L
        L.ends.append(seq[-1].args[0])
    if len(L.loops) != 1:
        L.why = UNDECIDED, "the line is built by %d loops" % len(L.loops)
        return L
    lp, j = L.loops.pop()
    L.rawloop = lp
    # the axis that fixes the number of turns
    idx = axes(L, lp)
    L.axes = idx
    L.found = None
    if len(idx) == 1:
        L.found = idx[0]
        L.pa = fresh("axis", "uint")
        m = {L.found: L.pa}
        if L.found.op == "lout":
            d = delta(L, L.pa)
            for y in collect(lp, lambda y: y.op == "lout" and y.args[0] is L.found.args[0] and y is not L.found):
                if shape(y) == "num":
                    m[y] = sign_case(d, neg(d), d, d)
        if const_val(L.found) is not None:
            L.why = REFUTED, "the number of steps and the step direction are those of axis %s, whichever axis is longest" % brief(L.found)
            return L
        lp = deep(subst(lp, m))
    else:
        L.why = UNDECIDED, "%d axes fix the number of steps" % len(idx)
        return L
    if lp.op != "loop":
        L.why = UNDECIDED, "no loop left: " + brief(lp)
        return L
    L.loop, L.j = lp, j
    L.tn = tn = Turn(lp)
    nx, pts = tn.next[j], tn.accs[j]
    parts = flat_cat(nx) if nx.op == "cat" else [nx]
    if parts[0] is not pts or any(q.op != "list" for q in parts[1:]) or contains(raw("list", *parts[1:]), lambda y: y is pts):
        L.why = UNDECIDED, "each turn adds points to the line; it makes it " + brief(nx)
        return L
    if len(parts) != 2:
        L.why = REFUTED, "each turn adds %d points to the line instead of one" % (len(parts) - 1)
        return L
    L.point = parts[1].args[0]
    return L


def callee_of(v):
    return v.op if v.op in ("dedup",) else v.args[0] if v.op in ("app", "out") and isinstance(v.args[0], str) else None


def axes(L, lp):
    """the axes singled out: index terms, without those of searches over the axes themselves"""
    out = []
    seen = set()
    stack = [lp]
    while stack:
        y = stack.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.op in ("at", "upd") and isinstance(y.args[1], T) and not has_bound(y.args[1]) and (
                y.op == "upd" or y.args[0] in (L.p1, L.p2)):
            if y.args[1] not in out:
                out.append(y.args[1])
            if y.args[1].op in ("lout", "argf"):
                seen.add(y.args[1])
        for a in y.args:
            _push_args(a, stack)
    named = [i for i in out if const_val(i) is None]
    return named or out


def _push_args(a, stack):
    if isinstance(a, T):
        stack.append(a)
    elif isinstance(a, tuple):
        for q in a:
            _push_args(q, stack)


def given(L, t, d, sp, sd=None, order=None):
    """t on the inputs whose extent along the longest axis has sign sp and along d sign sd; those extents written
    as w (at least one step long) and r*w"""
    asg = {}
    dp = sign(delta(L, L.pa))
    asg[dp.args[0]] = next(o for o, g in dp.args[1] if g.args[0] == sp)
    if sd is not None and order != "same":
        dd = sign(delta(L, d))
        asg[dd.args[0]] = next(o for o, g in dd.args[1] if g.args[0] == sd)
    facts = [(form(L.N), True)]
    for i in (d, L.pa):
        facts.append((form(i), False))
        facts.append((shifted(form(sub(L.N, i)), -1), False))
    if order == "above":
        facts.append((shifted(form(sub(d, L.pa)), -1), False))
    elif order == "below":
        facts.append((shifted(form(sub(L.pa, d)), -1), False))
    idec = decided(facts)

    def dec(a):
        return asg[a] if a in asg else idec(a) if a.op == "geq" else None
    t = deep(restrict_deep_all(t, dec))
    one = {"+": ONE, "-": num(-1), "0": num(0)}
    m = {at(L.p2, L.pa): add(at(L.p1, L.pa), mul(one[sp], L.wide))}
    if sd is not None and order != "same":
        m[at(L.p2, d)] = add(at(L.p1, d), mul(one[sd], mul(L.ratio, L.wide)))
    t = deep(subst(t, m))
    t = deep(subst(t, {inv(add(ONE, L.N)): L.h}))
    base = [(form(L.wide), True), (form(L.h), True), (form(sub(num(Fraction(1, 3)), L.h)), False)]
    t = deep(restrict_deep_all(t, lambda a: dec(a) if a in asg or a.op == "geq" else decided(base)(a)))
    return t


def coord(L, t, d):
    """a coordinate of a point of the output, seen as a number of the input's type"""
    return erase_casts(deep(at(t, d)))


def scenario(L, d, sp, sd, order):
    """(change of coordinate d in one turn, {accumulator: its value now, its next}) under the assumptions"""
    tn = L.tn
    q = coord(L, L.point, d)
    m = {a: b for a, b in zip(tn.accs, tn.next)}
    m[tn.k] = add(tn.k, ONE)
    q2 = coord(L, subst(L.point, m), d)
    out = [sub(q2, q)]
    accs = []
    for i, a in enumerate(tn.accs):
        if i == L.j:
            continue
        s = shape(a)
        if s == "num":
            now, nxt, ini = a, tn.next[i], tn.inits[i]
        elif elem_shape(s) == "num":
            now, nxt, ini = at(a, d), at(tn.next[i], d), at(tn.inits[i], d)
        else:
            continue
        accs.append((now, given(L, ini, d, sp, sd, order)))
        out.append(nxt)
    v = lift(None, lambda *xs: tup(*xs), *[given(L, deep(o), d, sp, sd, order) for o in out])
    return v, accs


def setup(L):
    L.wide = fresh("extent", "num")
    L.ratio = fresh("slope", "num")
    L.h = fresh("tolerance", "num")
    L.facts = [(form(L.wide), True), (form(L.h), True), (form(sub(num(Fraction(1, 3)), L.h)), False),
               (form(L.ratio), False), (form(sub(ONE, L.ratio)), False)]


# ------------------------------------------------------------------------------ the longest axis
def longest(L):
    """the axis found is one with the greatest extent -> status, why"""
    t = L.found
    if t.op == "argf":
        kind, _, n, key, val, _ = t.args
        k = fresh("k", "uint")
        if val is not None and open1(val, k) is not k:
            return UNDECIDED, "the axis is " + brief(t)
        if n is not L.N:
            return (UNDECIDED if unresolved(n) else REFUTED), "only %s of the axes are compared" % brief(n)
        st, why = extent_key(L, open1(key, k), k)
        if st == PROVEN and kind != "max":
            return REFUTED, "the axis followed is the one with the smallest extent"
        return st, why
    if t.op != "lout":
        return UNDECIDED, "the axis is " + brief(t)
    tn = Turn(t.args[0])
    oi = t.args[1]
    if tn.exits:
        return UNDECIDED, "the search for the longest axis may end early"
    i, i0 = tn.accs[oi], tn.inits[oi]
    others = [(a, b, n0) for a, b, n0, s in zip(tn.accs, tn.next, tn.inits, map(shape, tn.accs)) if s == "num" and a is not i]
    others = [(a, b, n0) for a, b, n0 in others if a is not i]
    # the element considered at a turn
    idx = {y.args[1] for b in tn.next for y in collect(b, lambda y: y.op == "at" and y.args[0] is L.p2)} - {i}
    idx = {q for q in idx if not has_bound(q)}
    if len(idx) != 1:
        return UNDECIDED, "%d axes are considered at each turn" % len(idx)
    j = idx.pop()
    # the axes considered: from a up (or down), and the one the search starts with, must be all of them
    more = fresh("more", "uint")
    here = lambda t: deep(subst(deep(t), {L.N: add(ONE, more)}))
    if tn.k not in freevars(j):
        return UNDECIDED, "the axis considered is " + brief(j)
    if const_val(sub(j, tn.k)) is not None:
        lo_, hi_ = here(sub(j, tn.k)), here(sub(add(sub(j, tn.k), tn.bound), ONE))
    elif tn.k not in freevars(add(j, tn.k)):
        hi_ = here(add(j, tn.k))
        lo_ = sub(add(hi_, ONE), here(tn.bound))
    else:
        return UNDECIDED, "the axis considered is " + brief(j)
    s0 = here(i0)
    if s0 is sub(lo_, ONE):
        lo_ = s0
    elif s0 is add(hi_, ONE):
        hi_ = s0
    if lo_ is not num(0) or hi_ is not more:
        for n in (0, 1, 2, 3, 6):
            a_, b_ = (const_val(deep(subst(t, {more: num(n)}))) for t in (lo_, hi_))
            if a_ is not None and b_ is not None and (a_ > 0 or b_ < n):
                return REFUTED, "of %d axes only %s to %s are compared" % (n + 1, a_, b_)
        return UNDECIDED, "the axes compared are %s to %s" % (brief(lo_), brief(hi_))
    whole_ = same(here(sub(j, tn.k)), num(0))[0] == PROVEN and const_val(i0) == 0
    d0 = delta(L, i0)
    abs0 = sign_case(d0, neg(d0), d0, d0)
    for a, b, n0 in others:
        if const_val(n0) is not None and const_val(n0) <= 0 and whole_:
            continue
        st, why = same(n0, abs0)
        if st != PROVEN:
            return UNDECIDED, "the greatest extent starts as " + brief(n0)
    W, V = fresh("w", "num"), fresh("v", "num")
    for sk in "-0+":
        for sv in "-0+":
            vals = [tn.next[oi]] + [b for _, b, _ in others]
            v = lift(None, lambda *xs: tup(*xs), *vals)
            m, asg = {}, {}
            for ax, s, z in ((j, sk, W), (i, sv, V)):
                dd = sign(delta(L, ax))
                asg[dd.args[0]] = next(oo for oo, g in dd.args[1] if g.args[0] == s)
                m[at(L.p2, ax)] = add(at(L.p1, ax), {"+": z, "-": neg(z), "0": num(0)}[s])
            for a, _, _ in others:
                m[a] = {"0": num(0)}.get(sv, V)
            v = deep(restrict_deep_all(deep(v), lambda a: asg.get(a)))
            v = deep(subst(v, m))
            facts = [(form(z), True) for s, z in ((sk, W), (sv, V)) if s != "0"]
            v = deep(restrict_deep_all(v, decided(facts)))
            w1, v1 = (W if sk != "0" else num(0)), (V if sv != "0" else num(0))
            for pa, leaf in paths(v):
                rows = facts + rows_of(pa)
                if not fm(rows):
                    continue
                if any(a.op != "sign" for a, _ in pa):
                    return UNDECIDED, "the choice of the longest axis depends on " + tests_of(pa)[:200]
                ni, nm = leaf.args[2][0], leaf.args[2][1:]
                gt, lt = form(sub(w1, v1)), form(sub(v1, w1))
                if ni is j:
                    if fm(rows + [(lt, True)]):
                        return REFUTED, "an axis replaces the longest one so far although its extent is smaller"
                    if any(q is not w1 for q in nm):
                        return REFUTED, "the extent remembered (%s) is not that of the axis kept" % brief(nm[0], 80)
                elif ni is i:
                    if fm(rows + [(gt, True)]):
                        return REFUTED, "an axis with a larger extent does not replace the longest one so far"
                    if any(q is not v1 for q in nm):
                        return REFUTED, "the extent remembered (%s) changes although the axis kept does not" % brief(nm[0], 80)
                else:
                    return UNDECIDED, "the axis kept is " + brief(ni)
    return PROVEN, ""


def extent_key(L, key, k):
    d = delta(L, k)
    W = fresh("w", "num")
    got = set()
    for s in "-0+":
        dd = sign(d)
        o = next(oo for oo, g in dd.args[1] if g.args[0] == s)
        t = deep(restrict_deep_all(deep(key), {dd.args[0]: o}))
        t = deep(subst(t, {at(L.p2, k): add(at(L.p1, k), {"+": W, "-": neg(W), "0": num(0)}[s])}))
        if s == "0":
            if const_val(t) != 0:
                return (UNDECIDED if unresolved(t) else REFUTED), "axes are compared by " + brief(key)
            continue
        got.add(t)
    if len(got) == 1 and next(iter(got)) in (W, mul(W, W)):
        return PROVEN, ""
    return (UNDECIDED if any(unresolved(t) for t in got) else REFUTED), "axes are compared by %s, not by their extent" % brief(key)


# --------------------------------------------------------------------------------- error accumulator
class Track:
    """on one axis: steps (path, change of the coordinate), and the accumulator whose value is the distance
    the coordinate lags behind the line: its scale, start, range"""


def track(L, sp, sd, order):
    """-> Track; .steps = feasible (path, change); .rel = (status, why); .span = (status, why)"""
    tk = Track()
    d = L.pa if order == "same" else fresh("d", "uint")
    tk.v, accs = scenario(L, d, sp, sd, order)
    ps = paths(tk.v)
    tk.all = [(asg, leaf.args[2]) for asg, leaf in ps if fm(L.facts + [(r, s) for r, s in rows_of(asg)])]
    tk.R = R = ONE if order == "same" else num(0) if sd == "0" else L.ratio
    sg = {"+": ONE, "-": num(-1), "0": num(0)}[sd]
    slope = mul(sg, R)
    tk.rel = UNDECIDED, "no accumulator decides when the coordinate changes"
    tk.span = UNDECIDED, "no accumulator decides when the coordinate changes"
    tk.e, tk.steps = None, [(asg, q[0], True) for asg, q in tk.all]
    deciding = [i for i, (now, ini) in enumerate(accs)
                if any(contains(a, lambda y: y is now) for asg, _ in tk.all for a, _ in asg)]
    tk.deciding = bool(deciding)
    if not deciding and sd != "0":
        why = shared(tk.v) or missing_axes(L, tk.v)
        if why:
            tk.rel = tk.span = REFUTED, why
            return tk
    fails = []
    for i in deciding:
        now, ini = accs[i]
        res = relation(L, tk, i, now, ini, sd, slope, sg)
        if res[0] == PROVEN:
            tk.rel = PROVEN, ""
            tk.e = fresh("lag", "num")
            spread(L, tk, i, now, ini, res[2], sd)
            return tk
        fails.append(res)
    if not deciding and sd != "0":
        if all(const_val(q[0]) is not None for _, q in tk.all) and not any(asg for asg, _ in tk.all):
            tk.rel = tk.span = REFUTED, "the coordinate changes by %s in every turn, whatever the slope" % brief(tk.all[0][1][0])
    elif len(deciding) == 1 and fails and fails[0][0] == REFUTED:
        tk.rel = tk.span = fails[0][:2]
    return tk


def shared(v):
    """a loop over the axes whose decisions use one element of a sequence for every axis"""
    for lp in collect(v, lambda y: y.op == "loop" and not has_bound(y)):
        tn = Turn(lp)
        own = []
        for a, b in zip(tn.accs, tn.next):
            own.append({y.args[1] for y in collect(b, lambda y: y.op == "upd" and contains(y.args[0], lambda z: z is a))})
        if not any(tn.k in freevars(i) for s in own for i in s):
            continue
        for a, s in zip(tn.accs, own):
            if elem_shape(shape(a)) != "num":
                continue
            tests = [t for b in tn.next for t in collect(b, lambda y: y.op == "sign")]
            read = {y.args[1] for t in tests for y in collect(t, lambda y: y.op == "at" and y.args[0] is a)}
            nx = tn.next[tn.accs.index(a)]
            fixed = {y.args[1] for y in collect(nx, lambda y: y.op == "upd" and contains(y.args[0], lambda z: z is a))
                     if tn.k not in freevars(y.args[1]) and tn.k in freevars(y.args[2])}
            if read and fixed:
                return "the errors of all axes are accumulated in one element (%s)" % ", ".join(sorted(brief(i, 60) for i in fixed))
    return None


def missing_axes(L, v):
    """the only loop over the axes does not reach all of them"""
    lps = [tn for tn in map(Turn, collect(v, lambda y: y.op == "loop" and not has_bound(y)))
           if any(contains(b, lambda y: y.op == "upd" and y.args[1] is tn.k) for b in tn.next)]
    if len({tn.bound for tn in lps}) != 1:
        return None
    for n in (3, 4, 5, 7):
        b = const_val(deep(subst(lps[0].bound, {L.N: num(n)})))
        if b is not None and b < n:
            return "of %d axes only the first %s are followed" % (n, b)
    return None


def relation(L, tk, i, now, ini, sd, slope, sg):
    """accumulator i is, up to scale and start, how far the coordinate lags behind the line: on every path its
    change over its scale is the slope minus the change of the coordinate, seen in the direction of the line"""
    if sd == "0":
        for asg, q in tk.all:
            if q[0] is num(0) and sub(q[1 + i], now) is num(0):
                wide = any(contains(a.args[0], lambda y: y is L.wide) for g, _ in tk.all for a, _ in g if a.op == "sign")
                return PROVEN, "", L.wide if wide else ONE
        return UNDECIDED, "the accumulator changes on an axis without extent", None
    cands = set()
    for asg, q in tk.all:
        ch = sub(q[1 + i], now)
        if q[0] is num(0) and ch is not num(0):
            cands.add(div(ch, tk.R))
    if len(cands) != 1:
        st = REFUTED if len(cands) > 1 and not any(unresolved(x) for x in cands) else UNDECIDED
        return st, "while the coordinate stays the accumulated error changes by " + " or ".join(sorted(brief(mul(x, tk.R), 100) for x in cands)), None
    sc = cands.pop()
    k = const_val(sc)
    if k is None:
        k = const_val(div(sc, L.wide))
    if k is None or k == 0:
        if const_val(sc) is None and not unresolved(sc) and free_of(sc, frozenset()):
            return REFUTED, "a turn adds %s to the accumulated error, which is no fixed multiple of the slope" % brief(mul(sc, tk.R), 120), None
        return UNDECIDED, "the accumulated error grows by " + brief(mul(sc, tk.R), 120), None
    for asg, q in tk.all:
        ch = sub(q[1 + i], now)
        lag = sub(mul(ch, inv(sc)), sub(tk.R, mul(sg, q[0])))
        if lag is not num(0):
            st = UNDECIDED if unresolved(lag) else REFUTED
            return st, "in a turn where the coordinate changes by %s the accumulated error changes by %s instead of %s: it no longer measures the distance from the line" % (
                brief(q[0], 60), brief(ch, 120), brief(mul(sc, sub(tk.R, mul(sg, q[0]))), 120)), None
    return PROVEN, "", sc


def spread(L, tk, i, now, ini, sc, sd):
    """the range of the lag: an interval preserved by every turn"""
    e = tk.e
    pos = (const_val(sc) or const_val(div(sc, L.wide))) > 0
    rename = {now: add(ini, mul(sc, e))}
    scinv = inv(sc)

    def norm(t):
        t = deep(subst(t, rename))
        memo = {}

        def f(y):
            if y in memo:
                return memo[y]
            if y.op == "ite" and y.args[0].op == "sign":
                p = mul(y.args[0].args[0], scinv)
                brs = {o: f(q) for o, q in y.args[1]}
                if not pos:
                    brs = {{"+": "-", "-": "+"}.get(o, o): q for o, q in brs.items()}
                s = sign(p)
                if s.op == "sg":
                    r = brs[s.args[0]]
                else:
                    r = ite(s.args[0], {o: brs[g.args[0]] for o, g in s.args[1]})
            elif not y.args:
                r = y
            else:
                r = rebuild(y, f)
            memo[y] = r
            return r
        return f(t)
    v = norm(tk.v)
    facts = list(L.facts)
    if sd == "0":
        facts += [(form(L.ratio), False), (minus(form(L.ratio)), False)]
        v = deep(subst(v, {L.ratio: num(0)}))
        facts = [(f, s) for f, s in L.facts if ((L.ratio, 1),) not in f]
    ps = []
    for asg, leaf in paths(v):
        if fm(facts + rows_of(asg)):
            ps.append((asg, leaf.args[2][0], mul(sub(leaf.args[2][1 + i], ini), scinv)))
    # thresholds: tests e + ratio*a - t
    bounds = set()
    odd = None
    me, mr = ((e, 1),), ((L.ratio, 1),)
    for asg, _, _ in ps:
        for a, o in asg:
            f = form(a.args[0]) if a.op == "sign" else None
            if f is None:
                odd = a
                continue
            x = f.get(me, 0)
            if not x:
                odd = a
                continue
            rest = {m: v2 / x for m, v2 in f.items() if m not in (me, mr)}
            if any(any(y in (e, L.ratio) for y, _ in m) for m in rest):
                odd = a
                continue
            bounds.add(mkpoly(minus(rest)))
    zero = num(0)
    los = [(zero, False)]
    his = [(zero, False)] if tk.R is not L.ratio else []
    for b in bounds:
        los += [(sub(b, ONE), False), (sub(b, ONE), True)]
        his += [(b, True), (b, False)]
    best = None
    for lo, ls in los:
        for hi, hs in his:
            inv_ = [(form(sub(e, lo)), ls), (form(sub(hi, e)), hs)]
            init = [(form(sub(zero, lo)), ls), (form(sub(hi, zero)), hs)]
            if not all(implied(facts, f, s) for f, s in init):
                continue
            ok = True
            for asg, dq, e2 in ps:
                rows = facts + inv_ + rows_of(asg)
                if not fm(rows):
                    continue
                if not (implied(rows, form(sub(e2, lo)), ls) and implied(rows, form(sub(hi, e2)), hs)):
                    ok = False
                    break
            if ok:
                tight = implied(facts + inv_, form(sub(ONE, e)), True) and implied(facts + inv_, form(add(ONE, e)), True)
                if tight:
                    best = (lo, hi, inv_)
                    break
        if best:
            break
    if best:
        lo, hi, inv_ = best
        tk.span = PROVEN, "the lag stays between %s and %s" % (brief(lo), brief(hi))
        tk.steps = [(asg, dq, fm(facts + inv_ + rows_of(asg))) for asg, dq, _ in ps]
        return
    tk.steps = [(asg, dq, True) for asg, dq, _ in ps]
    tk.span = UNDECIDED, "no range of the accumulated error is preserved by every turn"
    if tk.R is L.ratio and len(bounds) == 1 and odd is None:
        b = bounds.pop()
        known, fr = list(facts), True
        for y in collect(ini, lambda y: y.op == "app"):
            if isinstance(y.args[0], str) and y.args[0].split("::")[-1] == "fract":
                known += [(form(sub(ONE, y)), True), (form(add(ONE, y)), True)]
            else:
                fr = False
        if const_val(ini) is None and fr and (fm(known + [(minus(form(b)), True)]) or fm(known + [(form(sub(b, ONE)), True)])):
            tk.span = REFUTED, "the accumulated error starts at %s, which may be beyond what makes the coordinate follow" % brief(ini, 100)
        elif not fm(facts + [(form(sub(ONE, b)), False)]):
            tk.span = REFUTED, "the coordinate only follows once it lags by more than one unit (%s)" % brief(b)
        elif not fm(facts + [(form(b), True)]):
            tk.span = REFUTED, "the coordinate runs ahead of the line by a unit or more (it follows from a lag of %s)" % brief(b)
        elif const_val(b) == 1:
            tk.span = REFUTED, "the coordinate may lag behind the line by exactly one unit"


def implied(rows, f, strict):
    return not fm(rows + [(minus(f), not strict)])


TRACKS = [(sp, sd, order) for sp in "+-" for sd in "+-0" for order in ("above", "below")]


def tracks(c, L):
    if "tracks" not in c.memo:
        setup(L)
        c.memo["tracks"] = {k: track(L, *k) for k in TRACKS}
    return c.memo["tracks"]


def naming(sp, sd, order):
    way = {"+": "up", "-": "down", "0": "level"}
    return "%s-%s-%s" % (way[sp], way[sd], order)


# --------------------------------------------------------------------------------------------- rules
@rule("B01")
def b01(c):
    """The value returned is the loop's points followed by the end point. The axis that fixes the number of turns has
    the greatest extent (induction over the search). Each turn adds one point; the first is the start; the difference
    between successive points, by the signs of the extents: exactly one unit towards the end on that axis, and none or
    one unit towards the end on every other one (on the paths the range of the error accumulator allows)."""
    L = line(c, "B01/form", True)
    if L is None:
        return
    w, d = L.w, fresh("d", "uint")
    every = tracks(c, L)
    for e in L.ends:
        e = coord(L, e, d)
        lo = e.args[0] if e.op == "at" else e
        if lo.op == "lout" and lo.args[0].args[0] is erase_casts(L.rawloop.args[0]):
            c.ob("B01/end", REFUTED if lo.args[0].args[1][lo.args[1]] is L.p1 else UNDECIDED, "the line ends with the end point, not with the last position reached", w)
            continue
        c.compare("B01/end", e, at(L.p2, d), "the line ends with the end point", w)
    st, why = longest(L)
    c.ob("B01/longest-axis", st, "the axis stepped along is one with the greatest extent" + ("; " + why if why else ""), w)
    tn = L.tn
    if tn.exits:
        c.ob("B01/count", UNDECIDED, "the loop may end before its number of turns", w)
    ini = tn.inits[L.j]
    start = {a: b for a, b in zip(tn.accs, tn.inits)}
    start[tn.k] = num(0)
    first_ = coord(L, deep(subst(L.point, start)), d)
    extra = flat_cat(ini)
    if ini.op == "list" and not ini.args:
        extra = []
    if extra:
        c.ob("B01/start", UNDECIDED, "points are added before the loop: " + brief(ini), w)
        return
    c.compare("B01/start", first_, at(L.p1, d), "the first point emitted is the start point", w)
    for sp in "+-":
        nm = {"+": "up", "-": "down"}[sp]
        n = given(L, tn.bound, L.pa, sp)
        st, why = whole(L, n)
        c.ob("B01/count-" + nm, st, "one point is emitted for every whole unit of the extent of the longest axis" + why, w)
        tk = track(L, sp, sp, "same")
        ok = {"+": ONE, "-": num(-1)}[sp]
        judge_set(c, "B01/primary-" + nm, tk.steps, (ok,), "on the longest axis each point is one unit nearer to the end", w, tk.deciding and tk.rel[0] == UNDECIDED)
    for (sp, sd, order), tk in every.items():
        ok = {"+": (num(0), ONE), "-": (num(0), num(-1)), "0": (num(0),)}[sd]
        judge_set(c, "B01/other-" + naming(sp, sd, order), tk.steps, ok,
                  "on another axis each point is at most one unit from the previous one, towards the end", w, tk.span[0] != PROVEN and sd == "0")


def whole(L, n):
    """n is the number of whole units of the extent"""
    n = deep(n)
    if n.op == "app" and n.args[0] == "cast" and show(n.args[2]).find("usize") >= 0:
        st, why = same(n.args[3], L.wide)
        return st, "" if st == PROVEN else "; it emits the whole units of " + brief(n.args[3])
    if n.op == "ite":
        # several cases: one that is reached and counts something else
        for asg, leaf in paths(n):
            rows = [(form(L.wide), True)] + rows_of(asg)
            if any(a.op not in ("sign", "geq") for a, _ in asg) or not fm(rows) or unresolved(leaf):
                continue
            q = leaf.args[3] if leaf.op == "app" and leaf.args[0] == "cast" else None
            if q is None or all(len(m) <= 1 and all(e == 1 for _, e in m) for m in form(q)) and fm(rows + [(form(sub(q, L.wide)), True)]) | fm(rows + [(form(sub(L.wide, q)), True)]):
                return REFUTED, "; on [%s] it emits %s" % (tests_of(asg)[:200], brief(leaf, 200))
    return (UNDECIDED if unresolved(n) or n.op == "ite" else REFUTED), "; it emits " + brief(n)


def judge_set(c, key, steps, ok, what, w, soft=False):
    bad = next(((asg, q) for asg, q, feas in steps if feas and q not in ok), None)
    if bad is None:
        c.ob(key, PROVEN, what, w)
        return
    st = UNDECIDED if unresolved(bad[1]) or soft or const_val(bad[1]) is None and contains(bad[1], lambda y: y.op in ("upd", "updseq")) else REFUTED
    c.ob(key, st, "%s; in a turn with [%s] it changes by %s" % (what, tests_of(bad[0])[:300], brief(bad[1])), w)


@rule("B02")
def b02(c):
    """For every combination of directions: the accumulator that decides when another axis steps changes, on every path
    of a turn, by the slope minus the step made (so it is the distance from the ideal line), and the interval between its
    threshold minus one and its threshold is preserved by every turn and within (-1, 1)."""
    L = line(c, "B02/form")
    if L is None:
        return
    st, why = longest(L)
    c.ob("B02/slope", st, "the slope of every axis against the one stepped along is at most one" + ("; " + why if why else ""), L.w)
    for k, tk in tracks(c, L).items():
        if k[1] == "0":
            continue
        nm = naming(*k)
        c.ob("B02/measure-" + nm, tk.rel[0], "the accumulated error is the distance from the ideal line" + ("; " + tk.rel[1] if tk.rel[1] else ""), L.w)
        c.ob("B02/range-" + nm, tk.span[0], "that distance stays below one unit" + ("; " + tk.span[1] if tk.span[1] else ""), L.w)
    for k, tk in tracks(c, L).items():
        if k[1] == "0":
            judge_set(c, "B02/level-" + naming(*k), tk.steps, (num(0),), "an axis without extent never changes", L.w, True)


@rule("B03")
def b03(c):
    """Every loop of the plotting function, and of what it calls, runs a number of turns fixed before its first turn; the
    main one the whole number of units of the extent of the longest axis."""
    r = c.public("plot_bresenham_line", MOD)
    x = c.run(r)
    w = r["path"]
    if x.err or x.ret is None:
        c.ob("B03/form", UNDECIDED, "not followed: %s" % x.err, w)
        return
    v = deep(x.ret)
    loops = collect(v, lambda y: y.op == "loop")
    n = 0
    for lp in sorted(loops, key=lambda y: brief(y, 200)):
        n += 1
        key = "B03/loop%s" % ("" if n == 1 else "-%d" % n)
        b = lp.args[0]
        if b.op != "inf":
            c.ob(key, PROVEN, "the number of turns is fixed before the first", w)
            continue
        tn = Turn(lp)
        pos = [a for a in tn.accs if elem_shape(shape(a)) == "num" or shape(a) == "num"]
        deps = [a for a in pos if any(contains(e, lambda y: y is a) for e in tn.exits)]
        c.ob(key, REFUTED if deps and not has_bound(lp) else UNDECIDED,
             "the number of turns is fixed before the first; this loop runs until a position or error it computes satisfies a test", w)
    L = line(c, "B03/form")
    if L is None:
        return
    setup(L) if not hasattr(L, "wide") else None
    for sp in "+-":
        st, why = whole(L, given(L, L.tn.bound, L.pa, sp))
        c.ob("B03/count-" + {"+": "up", "-": "down"}[sp], st, "the main loop runs once per whole unit of the extent" + why, w)
