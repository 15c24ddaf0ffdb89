"""Registration: validation, convergence, iteration bookkeeping, correspondences, the step, configuration."""
import re

import models
from rules.base import *
from rules.r_cloud import K, dim_of, is_argmin, ready, okness

ICP = "point_clouds::icp"
NEAR = ("KDTree", "find_nearest_neighbour_naive")


# ------------------------------------------------------------------------------- the full registration
def full(c):
    r = c.public("icp", ICP)
    x = c.run(r, ("KDTree", "icp_iteration"))
    c.public("icp_iteration", ICP)
    if not ready(c, x, "icp", r["span"]):
        return None
    return x, r["span"]


def config_field(c, name):
    """position of a configuration setting, from the crate's own type declaration"""
    for a in c.facts["adts"]:
        if a["path"].endswith("::ICPConfiguration"):
            fs = [f["name"] for f in a["fields"]]
            return fs.index(name) if name in fs else None
    return None


def settings(c, x, i):
    """the configuration's settings as symbols: (use_kd_tree, max_iterations, absolute, interval)"""
    cfg = x.args[i]
    out = []
    for k, sh in ((0, "bool"), (1, "uint"), (2, None), (3, "num")):
        nm = ("use_kd_tree", "max_iterations", "mse_absolute_threshold", "mse_interval_threshold")[k]
        j = config_field(c, nm)
        out.append(fld(cfg, "", k if j is None else j, sh))
    return out


def err_name(v):
    if v.op == "con" and v.args[1] == "Err" and v.args[2] and v.args[2][0].op == "con":
        return v.args[2][0].args[1]
    return None


def sign_of(asg, x, y):
    """outcome of comparing x with y on the path: '-', '0', '+', 'u' or None"""
    for a, o in asg:
        if a.op != "sign":
            continue
        e = a.args[0]
        if e is deep(sub(x, y)):
            return o
        if e is deep(sub(y, x)):
            return {"-": "+", "+": "-"}.get(o, o)
    return None


def nan_of(asg, x):
    """True/False when the path tells whether x is NaN, else None"""
    r = None
    for a, o in asg:
        if a.op == "sign" and contains(a.args[0], lambda y: y is x):
            if o != "u":
                r = False
            elif a.args[0] is x:
                return True
    return r


@rule("I01", nan=True)
def i01(c):
    """Decision diagram of the validation: every path that ends in a dedicated error implies that error's
    condition, every path that reaches the iteration implies that none of them holds."""
    f = full(c)
    if f is None:
        return
    x, w = f
    p1, p2 = x.args[0], x.args[1]
    kd, mx, ab, iv = settings(c, x, 2)
    eps = raw("app", "epsilon", "num")
    abv = fld(ab, "Some", 0, "num")

    def geq1(asg, t):
        for a, o in asg:
            if a.op == "geq" and a.args[0] is t and a.args[1] == 1:
                return o
        return None

    def low(asg, v):
        s, n = sign_of(asg, v, eps), nan_of(asg, v)
        if n is True or s in ("-", "0"):
            return True
        if s == "u":
            return None if n is False else True
        if s == "+":
            return False
        z = sign_of(asg, v, ZERO)
        if z in ("-", "0"):
            return True
        return None

    def absent(asg):
        for a, o in asg:
            if a.op == "discr" and a.args[0] is ab:
                return o == "None"
        return None

    def conds(asg):
        no = absent(asg)
        return {
            "SourcePointCloudEmpty": neg3(geq1(asg, length(p1))),
            "TargetPointCloudEmpty": neg3(geq1(asg, length(p2))),
            "IterationNumIsZero": neg3(geq1(asg, mx)),
            "MSEIntervalThreshold": low(asg, iv),
            "MSEAbsoluteThreshold": False if no else None if no is None else low(asg, abv),
        }

    def feasible(asg):
        for v in (iv, abv):
            n = [o for a, o in asg if a.op == "sign" and contains(a.args[0], lambda y: y is v)]
            own = [o for a, o in asg if a.op == "sign" and a.args[0] is v]
            if own and own[0] != "u" and "u" in n:
                return False
            if own and own[0] == "u" and any(o != "u" for o in n):
                return False
            e = sign_of(asg, v, eps)
            if own and own[0] in "-0" and e in ("0", "+"):
                return False
        return True

    seen = set()
    for asg, leaf in paths(deep(x.ret)):
        if not feasible(asg):
            continue
        loops = any(contains(a, lambda y: y.op == "loop") for a, _ in asg)
        en = err_name(leaf)
        cs = conds(asg)
        tests = "; ".join("%s=%s" % (brief(a, 60), o) for a, o in asg if a.op != "lexit")
        odd = [a for a, _ in asg if not contains(a, lambda y: y.op == "loop") and unresolved(a)]
        if not loops and en is not None and not contains(leaf, lambda y: y.op == "loop") and en in cs:
            seen.add(en)
            st = PROVEN if cs[en] else UNDECIDED if odd else REFUTED
            c.ob("icp/%s" % en, st, "the error %s is only given for its own reason; it is given on [%s]" % (en, tests), w)
        elif not loops and en is not None and not contains(leaf, lambda y: y.op in ("loop", "app")):
            st = UNDECIDED if odd or all(v is None for v in cs.values()) else REFUTED
            c.ob("icp/error", st, "an invalid input gets its dedicated error; on [%s] it is %s" % (tests, en), w)
        else:
            for e, v in cs.items():
                st = PROVEN if v is False else UNDECIDED if odd else REFUTED
                c.ob("icp/%s/accepted" % e, st, "nothing that deserves the error %s is iterated on; [%s] is" % (e, tests), w)
    for e in ("SourcePointCloudEmpty", "TargetPointCloudEmpty", "IterationNumIsZero", "MSEIntervalThreshold", "MSEAbsoluteThreshold"):
        if e not in seen:
            c.ob("icp/%s/given" % e, UNDECIDED, "the error %s is never given" % e, w)


def neg3(b):
    return None if b is None else not b


class Loop:
    """the iteration loop of the full registration, seen at one turn"""

    def __init__(self, v):
        ls = collect(v, lambda y: y.op == "loop" and contains(y, is_call))
        self.n = len(ls)
        if len(ls) != 1:
            return
        self.loop = lp = ls[0]
        self.bound, self.inits, l = lp.args[:3]
        self.k = K()
        self.accs = [fresh("a", s) for s in l.args[1][1:]]
        body = open_mlam(l, [self.k] + self.accs)
        self.next, self.exits = body[:len(self.accs)], body[len(self.accs):]

    def here(self, t):
        """a term after the loop, in terms of the turn that left it"""
        memo = {}

        def f(y):
            if y in memo:
                return memo[y]
            if y.op == "lout" and y.args[0] is self.loop:
                r = self.accs[y.args[1]]
            elif y.op == "lcnt" and y.args[0] is self.loop:
                r = self.k
            elif y.op == "loop" or not y.args:
                r = y
            else:
                r = rebuild(y, f)
            memo[y] = r
            return r
        return f(t)


def is_call(y):
    return y.op == "app" and isinstance(y.args[0], str) and y.args[0].endswith("::icp_iteration")


def calls_in(ts):
    out = []
    for t in ts:
        for y in collect(t, is_call):
            if y not in out:
                out.append(y)
    return out


def turn(c, x, w):
    """-> (Loop, [(path tests, call, leaf of ret, exit)]) or None"""
    v = deep(x.ret)
    lp = Loop(v)
    if lp.n != 1:
        c.ob("icp/loop", UNDECIDED, "the registration has one iteration loop; found %d" % lp.n, w)
        return None
    return v, lp


def pick(t, asg):
    """t on a path"""
    t = deep(t)
    for a, o in asg:
        if a in support_all(t):
            t = restrict_deep(t, a, o)
    return deep(t)


def support_all(t):
    out = set()
    while t.op == "ite":
        out |= set(support(t))
        break
    a = first_test(t)
    if a is not None:
        out.add(a)
        if t.op in ("con", "list"):
            for y in collect(t, lambda y: y.op == "ite"):
                out |= set(support(y))
    return out


@rule("I03")
def i03(c):
    """The iteration loop as a recurrence: what one turn is given, what it carries to the next, when it is
    left and with what."""
    f = full(c)
    if f is None:
        return
    x, w = f
    t = turn(c, x, w)
    if t is None:
        return
    v, lp = t
    p1, p2, cfg = x.args[:3]
    kd, mx, ab, iv = settings(c, x, 2)
    k = lp.k
    key = "icp/"
    left = deep(sub(mx, k))
    nloop = 0
    # what a turn carries to the next one
    for use in (True, False):
        sel = ((deep(kd).args[0] if deep(kd).op == "ite" else kd, use),)
        on = lambda q: pick(restrict_deep_all(deep(q), sel), sel)
        rs = calls_in([on(q) for q in lp.next + lp.exits])
        if len(rs) != 1:
            c.ob(key + "call", UNDECIDED, "one turn of the loop is one iteration; it has %d" % len(rs), w)
            continue
        R = rs[0]
        a = R.args[2:] if len(R.args) == 9 else R.args[1:]
        a = R.args[-7:]
        c.compare(key + "source", a[0], p1, "an iteration transforms the original source cloud", w)
        c.compare(key + "config", a[6], cfg, "an iteration uses the configuration given", w)
        for nm, pos in (("cloud", 1), ("transform", 4), ("error", 5)):
            if a[pos] not in lp.accs:
                c.ob(key + "carry-" + nm, REFUTED if simple(a[pos]) else UNDECIDED,
                     "the %s is carried from one iteration to the next; it is %s" % (nm, brief(a[pos])), w)
                continue
            i = lp.accs.index(a[pos])
            want = outof(R, pos)
            c.compare(key + "carry-" + nm, on(lp.next[i]), want, "the %s is carried from one iteration to the next" % nm, w)
        okc = deep(ite(discr_atom(R, lp.exits), {"Ok": TRUE, "Err": FALSE}))
        for asg, leaf in paths(v):
            if any(q is sel[0][0] and o != use for q, o in asg):
                continue
            ex = [(q, o) for q, o in asg if q.op == "lexit"]
            if not ex:
                continue
            nloop += 1
            o = ex[0][1]
            cnd = on(lp.exits[o])
            leaf = lp.here(leaf)
            leaf = on(leaf)
            if leaf.op == "con" and leaf.args[1] == "Err":
                en = err_name(leaf)
                st = PROVEN if en == "AlrogithmDidNotConverge" else UNDECIDED if en is None else REFUTED
                c.ob(key + "failure", st, "when no iteration converges the did-not-converge error is given; it is " + brief(leaf), w)
                judge_cond(c, key + "exhausted", cnd, [deep(int_cmp("le", mx, k)), AND(int_cmp("le", mx, k), NOT(okc))],
                           "the registration gives up exactly after the allowed number of iterations", w)
            elif leaf.op == "con" and leaf.args[1] == "Ok" and leaf.args[2][0].op == "con":
                fs = leaf.args[2][0].args[2]
                names = next(([q["name"] for q in s["fields"]] for s in c.facts["adts"] if s["path"].endswith("::ICPSuccess")), None)
                pos = {n: i for i, n in enumerate(names or ("transform", "mse", "iteration_num"))}
                c.compare(key + "transform", fs[pos["transform"]], outof(R, 4), "the transform accumulated up to and including the last iteration is returned", w)
                c.compare(key + "mse", fs[pos["mse"]], fld(R, "Ok", 0, "num"), "the last iteration's error is returned", w)
                c.compare(key + "number", erase_casts(fs[pos["iteration_num"]]), k, "the zero-based number of the converging iteration is returned", w)
                judge_cond(c, key + "converged", cnd, [AND(int_cmp("lt", k, mx), okc), okc], "the registration stops at the first iteration that converges", w)
            else:
                c.ob(key + "result", UNDECIDED, "the registration returns " + brief(leaf), w)
    if not nloop:
        c.ob(key + "result", UNDECIDED, "the result comes from the iteration loop", w)
    if lp.bound.op != "inf" and not (lp.bound is mx):
        c.ob(key + "bound", UNDECIDED if unresolved(lp.bound) else REFUTED, "at most the allowed number of iterations runs; it is " + brief(lp.bound), w)


def judge_cond(c, key, got, wants, what, w):
    got = deep(got)
    wants = [deep(q) for q in wants]
    if any(got is q for q in wants):
        return c.ob(key, PROVEN, what, w)
    u = {q for q in unresolved(got) if "icp_iteration" not in q}
    return c.ob(key, UNDECIDED if u else REFUTED, "%s; it does when %s, expected %s" % (what, brief(got), brief(wants[0])), w)


def simple(t):
    return not {q for q in unresolved(t) if q != "lout" and q != "loop"}


def outof(R, pos):
    sh = shape(R.args[-7:][pos])
    return app_raw("out", R.args[0], pos, sh, *R.args[-7:])


def discr_atom(R, ts):
    for t in ts:
        for a in atoms_in(t):
            if a.op == "discr" and a.args[0] is R:
                return a
    return raw("discr", R, ("Ok", "Err"))


def atoms_in(t):
    return [y.args[0] for y in collect(t, lambda y: y.op == "ite")]


def restrict_deep_all(t, sel):
    """every test inside t for which sel (pairs, or a function of the test) has an outcome decided, binders included"""
    if callable(sel):
        dec = sel
    else:
        dec = dict(sel).get
    memo = {}

    def f(y):
        if y in memo:
            return memo[y]
        o = dec(y.args[0]) if y.op == "ite" else None
        if o is not None:
            r = f(dict(y.args[1])[o])
        elif y.op == "ite":
            r = rebuild(y, f)
        elif not y.args:
            r = y
        else:
            r = rebuild(y, f)
        memo[y] = r
        return r
    return f(t)


# ------------------------------------------------------------------------------------ one iteration
class Step:
    """one iteration, on the inputs for which it does not fail to find neighbours"""


def step(c):
    r = c.public("icp_iteration", ICP)
    w = r["span"]
    x0 = c.run(r, NEAR)
    if not ready(c, x0, "icp_iteration", w):
        return None
    x = c.run(r, NEAR, {"lens": {2: length(x0.args[0])}})
    if not ready(c, x, "icp_iteration", w):
        return None
    s = Step()
    s.x, s.w, s.p1, s.p3 = x, w, x.args[0], x.args[2]
    s.tree, s.cfg = x.args[3], x.args[6]
    sh = ("vec", length(s.p1), elem_shape(shape(s.p1)))
    s.p2 = raw("sym", "p2", sh)
    s.T = raw("sym", "p5", None) if not freevars_named(x, "p5") else freevars_named(x, "p5")
    s.err = freevars_named(x, "p6") or raw("sym", "p6", "num")
    s.n, s.N = length(s.p1), dim_of(s.p1)
    s.Q = raw("sym", "matched", sh)
    return s


def freevars_named(x, nm):
    for t in [x.ret] + list(x.out.values()):
        for y in collect(t, lambda y: y.op == "sym" and y.args[0] == nm):
            return y
    return None


def is_near(y):
    return y.op == "app" and isinstance(y.args[0], str) and (y.args[0].endswith("::nearest") or y.args[0].endswith("::find_nearest_neighbour_naive"))


def query_of(s, y):
    """(kind, what is searched, index of the queried point) of a nearest search; index None when the query is no current point"""
    a = y.args[-2:]
    if y.args[0].endswith("::nearest"):
        kind, data, q = "tree", a[0], a[1]
    else:
        kind, q, data = "all", a[0], a[1]
    i = q.args[1] if q.op == "at" and q.args[0] is s.p2 else None
    return kind, data, i


def matched(s, t):
    """t with every neighbour found for the current point i written as element i of the matches"""
    memo = {}

    def f(y):
        if y in memo:
            return memo[y]
        r = None
        if y.op == "fld" and y.args[1] == "Some" and is_near(y.args[0]):
            kind, data, i = query_of(s, y.args[0])
            if i is not None and (data is s.p3 or data is fld(s.tree, "Some", 0)):
                r = at(s.Q, i if not i.args else f(i))
        if r is None:
            r = y if not y.args else rebuild(y, f)
        memo[y] = r
        return r
    return f(t)


def failing(s):
    """the tests that say some point has no neighbour"""
    out = []
    for t in [s.x.ret] + list(s.x.out.values()):
        for a in atoms_in(t):
            if a.op == "exists" and contains(a, lambda y: y.op == "discr" and is_near(y.args[0])) and a not in out:
                out.append(a)
    return out


def success(s, t):
    """t on the inputs for which every point has a neighbour, with the matches named"""
    f = {a: False for a in failing(s)}
    t = restrict_deep_all(deep(t), f)
    t = deep(matched(s, deep(t)))
    return t


def branches(t):
    return paths(deep(t))


def nonempty(s, t):
    return under(t, int_cmp("le", ONE, s.n))


@rule("I04")
def i04(c):
    """Every neighbour search of an iteration, by what is searched and for which point; the failure test; and,
    in every product of a matched and a source coordinate, that both carry the same index."""
    s = step(c)
    if s is None:
        return
    key, w = "icp_iteration/", s.w
    ts = [deep(t) for t in [s.x.ret] + list(s.x.out.values())]
    dtree = discr_of(ts, s.tree)
    for have in ("Some", "None"):
        on = [deep(restrict_deep_all(t, {dtree: have})) if dtree is not None else t for t in ts]
        fail = [a for t in on for a in atoms_in(t) if a.op == "exists" and contains(a, lambda y: y.op == "discr" and is_near(y.args[0]))]
        ns = []
        for t in on:
            for y in collect(t, is_near):
                if y not in ns:
                    ns.append(y)
        what = "a KD-tree" if have == "Some" else "no KD-tree"
        if not ns:
            own = own_search(s, on)
            if not own:
                picks = [y for t in on for y in collect(t, lambda y: y.op == "at" and y.args[0] is s.p3)]
                odd = [y for y in picks if unresolved(y.args[1]) or contains(y.args[1], lambda z: z.op in ("argf", "loop", "lout", "runext", "pos"))]
                st = REFUTED if picks and not odd and not any(is_loop(y) for t in on for y in collect(t, lambda y: True)) else UNDECIDED
                c.ob(key + "search-" + have, st, "with %s the matches come from a neighbour search; none was found%s" % (what, "" if not picks else ", matched is " + brief(picks[0])), w)
                continue
        kinds = set()
        for y in ns:
            kind, data, i = query_of(s, y)
            kinds.add(kind)
            want = fld(s.tree, "Some", 0) if kind == "tree" else s.p3
            c.compare(key + "searched-" + kind, data, want, "the whole target cloud is searched", w)
            if i is None:
                q = y.args[-1] if kind == "tree" else y.args[-2]
                c.ob(key + "query", UNDECIDED if unresolved(q) else REFUTED, "the neighbour of each currently transformed point is searched; it is that of " + brief(q), w)
        if have == "Some" and ns:
            c.ob(key + "uses-tree", PROVEN if "tree" in kinds else REFUTED, "the KD-tree is used when one is supplied", w)
            # the brute-force search only where the tree found nothing
            f = lambda a: "Some" if a.op == "discr" and is_near(a.args[0]) and query_of(s, a.args[0])[0] == "tree" else None
            rest = [deep(restrict_deep_all(t, f)) for t in on]
            if "tree" in kinds and any(contains(t, lambda y: y.op == "fld" and is_near(y.args[0]) and query_of(s, y.args[0])[0] == "all") for t in rest):
                c.ob(key + "tree-result", REFUTED, "what the KD-tree finds is the match", w)
        # failure exactly when some point has no neighbour
        k = K()
        none = lambda y: ite(discr_like(on, y), {"None": TRUE, "Some": FALSE})
        tr = [y for y in ns if query_of(s, y)[0] == "tree"]
        al = [y for y in ns if query_of(s, y)[0] == "all"]
        for asg, leaf in branches(on[0]):
            fa = [(a, o) for a, o in asg if a in fail]
            en = err_name(leaf)
            if fa and all(o for _, o in fa):
                st = PROVEN if en == "NoNearestNeighbour" else UNDECIDED if en is None and unresolved(leaf) - {"lout"} else REFUTED
                c.ob(key + "none", st, "a point without neighbour fails the iteration with the no-nearest-neighbour error; it gives " + brief(leaf), w)
            elif en == "NoNearestNeighbour" and fa:
                c.ob(key + "none", REFUTED, "the no-nearest-neighbour error means that a point has no neighbour; it is given on [%s]" % tests_of(asg), w)
        for a in fail:
            n, l = a.args[:2]
            b = open1(l, k)
            okf = n is s.n
            ats = [q for q in atoms_in(b) if q.op == "discr" and is_near(q.args[0])]
            idx = all(query_of(s, q.args[0])[2] is k for q in ats)
            # true when every search finds nothing, false when the first finds something
            allnone = deep(restrict_deep_all(b, {q: "None" for q in ats}))
            okf = okf and idx and allnone is TRUE
            first = [q for q in ats if (query_of(s, q.args[0])[0] == "tree") == (have == "Some")]
            okf = okf and all(deep(restrict_deep_all(b, {q: "Some"})) is FALSE for q in first)
            c.ob(key + "fails-" + have, PROVEN if okf else UNDECIDED if unresolved(a, ("nearest",)) else REFUTED, "every source point's search counts; the test is " + brief(a), w)
        if not fail and ns:
            c.ob(key + "fails-" + have, UNDECIDED, "an iteration with a point without neighbour fails", w)
        # pairing
        for nm, t in (("error", 0), ("transform", 1)):
            v = success(s, on[t] if t == 0 else deep(restrict_deep_all(deep(s.x.out[5]), {dtree: have} if dtree is not None else {})))
            judge_pairs(c, s, key + "pairs-" + nm, nonempty(s, v), w)
    f = full(c)
    if f is None:
        return
    x, w = f
    t = turn(c, x, w)
    if t is None:
        return
    v, lp = t
    kd = settings(c, x, 2)[0]
    for use in (True, False):
        a = deep(kd).args[0] if deep(kd).op == "ite" else kd
        rs = calls_in([deep(restrict_deep_all(deep(q), {a: use})) for q in lp.next + lp.exits])
        for R in rs:
            tr = deep(R.args[-7:][3])
            for asg, tr in paths(tr) if use else []:
                ok = tr.op == "con" and tr.args[1] == "Some"
                b = tr.args[2][0] if ok else tr
                whole = ok and b.op == "app" and "KDTree" in b.args[0] and b.args[0].endswith("::from") and b.args[-1] is x.args[1]
                st = PROVEN if whole else REFUTED if not ok and tr.op == "con" or ok and b.op == "app" and b.args[0].endswith("::from") and not unresolved(b.args[-1]) else UNDECIDED
                c.ob("icp/tree", st, "with the KD-tree enabled, it is built from the whole target cloud; it is " + brief(tr), w)
            if not use:
                st = PROVEN if tr.op == "con" and tr.args[1] == "None" else REFUTED if tr.op == "con" else UNDECIDED
                c.ob("icp/no-tree", st, "without the KD-tree enabled none is used; it is " + brief(tr), w)
            c.compare("icp/target", R.args[-7:][2], x.args[1], "the target cloud is searched", w)


def is_loop(y):
    return y.op in ("loop", "lout", "lexit", "called", "rec")


def tests_of(asg):
    return "; ".join("%s=%s" % (brief(a, 80), o) for a, o in asg)


def discr_of(ts, v):
    for t in ts:
        for a in atoms_in(t):
            if a.op == "discr" and a.args[0] is v:
                return a
    return None


def discr_like(ts, v):
    return discr_of(ts, v) or raw("discr", v, ("None", "Some"))


def own_search(s, ts):
    return any(contains(t, lambda y: y.op == "argf") for t in ts)


def judge_pairs(c, s, key, v, w):
    """in every product under a sum, matched and source points have one index"""
    bad, n = None, 0

    def idx(t):
        return {y.args[1] for y in collect(t, lambda y: y.op == "at" and (y.args[0] is s.Q or y.args[0] is s.p2 or y.args[0] is s.p1))}
    for y in collect(v, lambda y: y.op == "sumi"):
        k = K()
        b = open1(y.args[1], k)
        for m, _ in poly_items(b):
            fs = [g for g, _ in m]
            q = set()
            for g in fs:
                if contains(g, lambda z: z.op == "sumi"):
                    continue
                q |= idx(g)
            hasq = any(contains(g, lambda z: z is s.Q) for g in fs)
            if hasq and len(q) > 1:
                bad = y
            n += hasq
    if bad is not None:
        c.ob(key, REFUTED, "each source point is paired with its own match; found the sum " + brief(bad), w)
    elif n and not contains(v, is_near):
        c.ob(key, PROVEN, "each source point is paired with its own match", w)
    else:
        c.ob(key, UNDECIDED, "each source point is paired with its own match; found " + brief(v), w)


def cases(s):
    """tree given / not given -> function deciding the corresponding test"""
    d = discr_of([deep(t) for t in [s.x.ret] + list(s.x.out.values())], s.tree)
    if d is None:
        return [("any", {})]
    return [("tree", {d: "Some"}), ("no-tree", {d: "None"})]


def given(s, t, case):
    return nonempty(s, success(s, restrict_deep_all(deep(t), case)))


def sqdist(s, T):
    """the error a transform gives over all pairs"""
    i, d = K(), K()
    p = models.transform_point(T, at(s.p1, i))
    e = sub(at(p, d), at(at(s.Q, i), d))
    return sumi(s.n, lam(i, sumi(s.N, lam(d, mul(e, e)))))


@rule("I06")
def i06(c):
    """The cloud, the transform and the error an iteration leaves behind, as terms: the cloud is the new
    transform applied to the source cloud, the error the sum of squared distances of that cloud to the matches."""
    s = step(c)
    if s is None:
        return
    key, w = "icp_iteration/", s.w
    for nm, case in cases(s):
        T = given(s, s.x.out[5], case)
        cl = given(s, s.x.out[2], case)
        i, d = K(), K()
        try:
            got = at(at(cl, i), d)
            c.compare(key + "cloud-size", length(cl), s.n, "the transformed cloud has one point per source point", w)
            c.compare(key + "cloud", got, at(models.transform_point(T, at(s.p1, i)), d), "every transformed point is the new transform applied to its source point", w)
        except Exception as ex:
            c.ob(key + "cloud", UNDECIDED, "every transformed point is the new transform applied to its source point; %s" % ex, w)
        E = deep(sqdist(s, T))
        found = 0
        for asg, leaf in paths(given(s, s.x.ret, case)):
            if leaf.op == "con" and leaf.args[1] == "Ok":
                found += 1
                c.compare(key + "error", leaf.args[2][0], E, "the error returned is the sum of the squared distances between the transformed points and their matches", w, asg)
        for asg, leaf in paths(given(s, s.x.out[6], case)):
            if leaf is not s.err:
                c.compare(key + "error-kept", leaf, E, "the error remembered is the sum of the squared distances between the transformed points and their matches", w, asg)
        if not found:
            c.ob(key + "error", UNDECIDED, "an iteration returns its error", w)
    # where registration starts
    f = full(c)
    t = turn(c, f[0], f[1]) if f else None
    if t is None:
        return
    lp = t[1]
    rs = calls_in(lp.next + lp.exits)
    for R in rs:
        a = R.args[-7:]
        for what, pos, want in (("untransformed source cloud", 1, f[0].args[0]), ("identity transform", 4, raw("app", "iso_identity", None)), ("largest possible error", 5, None)):
            if a[pos] not in lp.accs:
                c.ob("icp/start", UNDECIDED, "registration starts from the " + what, f[1])
                continue
            v = deep(lp.inits[lp.accs.index(a[pos])])
            if pos == 5:
                ok = v.op == "app" and v.args[0] in ("max_value", "MAX", "infinity")
                c.ob("icp/start-error", PROVEN if ok else UNDECIDED if unresolved(v) else REFUTED, "registration starts from the largest possible error; it starts from " + brief(v), f[1])
            else:
                c.compare("icp/start-%d" % pos, v, want, "registration starts from the " + what, f[1])


@rule("I02", nan=True)
def i02(c):
    """The convergence test as a decision diagram over the new error, the previous one and the thresholds,
    compared with the one required."""
    s = step(c)
    if s is None:
        return
    key, w = "icp_iteration/", s.w
    kd, mx, ab, iv = settings(c, s.x, 6)
    abv = fld(ab, "Some", 0, "num")
    for nm, case in cases(s):
        T = given(s, s.x.out[5], case)
        ret = given(s, s.x.ret, case)
        E = None
        for asg, leaf in paths(ret):
            if leaf.op == "con" and leaf.args[1] == "Ok":
                E = leaf.args[2][0] if E is None or E is leaf.args[2][0] else False
        if not E:
            c.ob(key + "converges", UNDECIDED, "an iteration that converges returns its error", w)
            continue
        isabs = discr_of([ret], ab)
        d = sub(s.err, E)
        # |d| < t, written on the signs of t - d and t + d
        want_int = deep(absless(d, iv))
        want_abs = deep(real_cmp("lt", E, abv))
        none, some = {isabs: "None"}, {isabs: "Some"}
        okr = deep(lift(None, lambda l: boolean(l.args[1] == "Ok") if l.op == "con" and l.args[1] in ("Ok", "Err") else l, ret))
        for sub_, want, what in ((none, want_int, "without an absolute threshold, it converges when the error differs from the previous one by less than the interval threshold"),
                                 (some, OR(want_abs, want_int), "with an absolute threshold, it also converges when the error is below it")):
            if isabs is None and sub_ is some:
                c.ob(key + "absolute", REFUTED if not unresolved_but_near(okr) else UNDECIDED, "the absolute threshold is used", w)
                continue
            got = deep(restrict_deep_all(okr, sub_)) if isabs is not None else okr
            judge_diagram(c, key + ("absolute" if sub_ is some else "interval"), got, deep(want), E, s, what, w)
        for asg, leaf in paths(ret):
            if leaf.op == "con" and leaf.args[1] == "Err":
                en = err_name(leaf)
                c.ob(key + "goes-on", PROVEN if en == "IterationDidNotConverge" else UNDECIDED if en is None else REFUTED, "an iteration that does not converge says so; it says " + str(en), w)
        # the error remembered
        both = deep(tup(okr, given(s, s.x.out[6], case)))
        for asg, leaf in paths(both):
            if leaf.args[2][0] is FALSE:
                v = leaf.args[2][1]
                c.ob(key + "remembers", PROVEN if v is E else UNDECIDED if unresolved_but_near(v) else REFUTED,
                     "an iteration that does not converge remembers its error; on [%s] it remembers %s" % (tests_of(asg)[:200], brief(v)), w)


def unresolved_but_near(v):
    return {q for q in unresolved(v) if "nearest" not in q}


def absless(d, t):
    """|d| < t the way the engine writes it"""
    a = models.rabs(d)
    return real_cmp("lt", a, t)


def feasible_signs(asg):
    """signs of d, t - d and t + d (as the absolute value's test leaves them) that can occur together"""
    nan = [a.args[0] for a, o in asg if a.op == "sign" and o == "u"]
    return True


def judge_diagram(c, key, got, want, E, s, what, w):
    if got is want:
        return c.ob(key, PROVEN, what, w)
    # both depend on the same tests: look for an assignment on which they differ
    diff = None
    for asg, leaf in paths(tup(got, want)):
        g, x = leaf.args[2]
        if g is not x and consistent(asg):
            diff = (asg, g, x)
            break
    if diff is None:
        return c.ob(key, PROVEN, what, w)
    u = unresolved_but_near(got)
    return c.ob(key, UNDECIDED if u else REFUTED, "%s; on [%s] it %s" % (what, tests_of(diff[0])[:500], "converges" if diff[1] is TRUE else "does not"), w)


def consistent(asg):
    """whether signs of linear terms over at most a few quantities can occur together (order reasoning on differences)"""
    asg = [(a.args[0], o) for a, o in asg if a.op == "sign"]
    known = {}
    for e, o in asg:
        known[e] = o
    # NaN: a sum is NaN when one of its parts is; parts that were compared without 'u' are numbers
    okv = set()
    for e, o in asg:
        if o != "u":
            okv |= {m for m, _ in poly_items(e)}
    for e, o in asg:
        if o == "u" and {m for m, _ in poly_items(e)} <= okv:
            return False
    nan = [e for e, o in asg if o == "u"]
    fin = [(e, o) for e, o in asg if o in "-0+"]
    if len({m for e in nan for m, _ in poly_items(e)}) == 1:
        m = next(iter({m for e in nan for m, _ in poly_items(e)}))
        if any(m in {q for q, _ in poly_items(e)} for e, _ in fin):
            return False
    # linear feasibility by Fourier-Motzkin over the monomials as unknowns
    rows = []
    for e, o in fin:
        r = dict(poly_items(e))
        if o in "+0":
            rows.append((r, o == "+"))
        if o in "-0":
            rows.append(({m: -q for m, q in r.items()}, o == "-"))
    return fm(rows)


def fm(rows):
    """rows: (linear form, strict): form > 0 or >= 0; the constant monomial is ()"""
    rows = [(dict(r), st) for r, st in rows]
    vs = sorted({m for r, _ in rows for m in r if m != ()}, key=str)
    for v in vs:
        pos = [(r, st) for r, st in rows if r.get(v, 0) > 0]
        ng = [(r, st) for r, st in rows if r.get(v, 0) < 0]
        rows = [(r, st) for r, st in rows if not r.get(v, 0)]
        for r1, s1 in pos:
            for r2, s2 in ng:
                q = {}
                for m in set(r1) | set(r2):
                    x = r1.get(m, 0) * -r2[v] + r2.get(m, 0) * r1[v]
                    if x and m != v:
                        q[m] = x
                rows.append((q, s1 or s2))
        if len(rows) > 400:
            return True
    return all(r.get((), 0) > 0 or r.get((), 0) == 0 and not st for r, st in rows)


# ---------------------------------------------------------------------------------------- the step
def implementations(c, n):
    """methods of the crate's own traits implemented for dimension n: name -> root"""
    out = {}
    for r in c.doc["roots"]:
        m = re.match(r"^<(.*), %d> as (crate::.*)>::(\w+)$" % n, r["path"])
        if m and r["generic"]:
            out[m.group(3)] = r
    return out


def specialise(c, s, t, n):
    """t in dimension n, the crate's own trait methods replaced by what they do there"""
    t = deep(subst(deep(t), {s.N: num(n)}))
    impl = implementations(c, n)
    for _ in range(6):
        ys = [y for y in collect(t, lambda y: y.op == "app" and y.args[0] in impl)]
        if not ys:
            break
        y = min(ys, key=lambda q: len(collect(q, lambda z: True)))
        x = c.run(impl[y.args[0]])
        if x.err or x.ret is None:
            return None, "%s: %s" % (y.args[0], x.err)
        m = {a: b for a, b in zip(x.args, y.args[2:])}
        t = deep(subst(t, {y: deep(subst(x.ret, m))}))
    return t, None


@rule("I05")
def i05(c):
    """The new transform, in 2D and in 3D, with the crate's own trait resolved: a product of a rigid motion
    and the old transform, whose parts are compared entry by entry with U*V^T (last column of U negated when
    the determinant is negative) of the cross-covariance and the centroid difference."""
    s = step(c)
    if s is None:
        return
    w = s.w
    for n in (2, 3):
        key = "step-%dd/" % n
        for nm, case in cases(s):
            T = given(s, s.x.out[5], case)
            t, why = specialise(c, s, T, n)
            if t is None:
                c.ob(key + "form", UNDECIDED, why, w)
                continue
            judge_step(c, s, key, t, n, w)


def con_like(t, *fs):
    return raw("con", t.args[0], t.args[1], tuple(fs))


def entries(v, n):
    return [[deep(at(at(v, num(j)), num(i))) for i in range(n)] for j in range(n)]


def judge_step(c, s, key, t, n, w):
    if contains(t, is_near):
        c.ob(key + "form", UNDECIDED, "the step is computed from the matches; " + brief(t), w)
        return
    by_parts = None
    if t.op == "con" and t.args[2] and t.args[2][0].op == "app" and t.args[2][0].args[0] == "rot_mul":
        # rotations and translations composed by hand
        r1, r2 = t.args[2][0].args[2:]
        own = lambda q: q.op == "fld" and q.args[0] is s.T
        if own(r2) and not own(r1):
            by_parts = fld(s.T, "", 1, ("vec", num(n), "num"))
            t = raw("app", "iso_mul", None, con_like(t, r1, t.args[2][1]), s.T)
        elif own(r1) and not own(r2):
            c.ob(key + "composed", REFUTED, "the step is composed after the old transform, not before it", w)
            return
    if not (t.op == "app" and t.args[0] == "iso_mul"):
        u = unresolved(t)
        st = REFUTED if t is s.T or t.op == "con" and not contains(t, lambda y: y is s.T) and not u else UNDECIDED
        c.ob(key + "composed", st, "the new transform is the step composed after the old transform; it is " + brief(t), w)
        return
    a, b = t.args[2:]
    if a is s.T and b is not s.T:
        c.ob(key + "composed", REFUTED, "the step is composed after the old transform, not before it", w)
        return
    if b is not s.T or a.op != "con":
        c.ob(key + "composed", UNDECIDED if unresolved(t) else REFUTED, "the new transform is the step composed after the old transform; it is " + brief(t), w)
        return
    if by_parts is None:
        c.ob(key + "composed", PROVEN, "the new transform is the step composed after the old transform", w)
    rot, tr = a.args[2][:2]
    # one matrix on every path, whether the choice between matrices is made before or after making a rotation of them
    odd = []

    def source(y):
        if y.op == "app" and y.args[0] == "rot_from_rotation_matrix":
            return terms._choose(y.args[2], source)
        if y.op == "app" and y.args[0] in ("rot_from_matrix", "Rotation_from_matrix_unchecked"):
            return y.args[2]
        if y is not terms.BOT:
            odd.append(y)
        return y
    made = terms._choose(rot, source)
    if odd:
        c.ob(key + "rotation", UNDECIDED, "the rotation is made from a matrix; it is " + brief(odd[0]), w)
        return
    R = entries(made, n)
    # the decomposed matrix
    us = [y for y in collect(t, lambda y: y.op == "app" and y.args[0].endswith(".u") and "svd" in y.args[0])]
    vs = [y for y in collect(t, lambda y: y.op == "app" and y.args[0].endswith(".v_t") and "svd" in y.args[0])]
    args = {y.args[2] for y in us + vs}
    if len(args) != 1 or not us or not vs:
        c.ob(key + "svd", UNDECIDED if unresolved(t) or not args else REFUTED, "one decomposition gives U and V-transposed; found %d" % len(args), w)
        return
    M = entries(args.pop(), n)
    i = K()
    P, Q, cnt = (deep(subst(q, {s.N: num(n)})) for q in (s.p2, s.Q, s.n))
    ms = [mul(sumi(cnt, lam(i, at(at(P, i), num(d)))), inv(cnt)) for d in range(n)]
    mq = [mul(sumi(cnt, lam(i, at(at(Q, i), num(d)))), inv(cnt)) for d in range(n)]
    cov = [[deep(sumi(cnt, lam(i, mul(sub(at(at(P, i), num(a_)), ms[a_]), sub(at(at(Q, i), num(b_)), mq[b_]))))) for b_ in range(n)] for a_ in range(n)]
    flip = [[cov[j][i_] for j in range(n)] for i_ in range(n)]
    scaled = [[deep(mul(x, inv(cnt))) for x in col] for col in cov]
    if M == cov or M == scaled:
        c.ob(key + "covariance", PROVEN, "the decomposed matrix is the cross-covariance of the centred sets", w)
        U, V = entries(us[0], n), entries(vs[0], n)
        mm = lambda A, B: [[addn(*[mul(A[k][r], B[q][k]) for k in range(n)]) for r in range(n)] for q in range(n)]
        plain = mm(U, V)
        flipd = mm(U[:-1] + [[neg(x) for x in U[-1]]], V)
        det = models.expand([[plain[j][i_] for j in range(n)] for i_ in range(n)])
        want = [[deep(cond(real_cmp("lt", det, ZERO), flipd[j][i_], plain[j][i_])) for i_ in range(n)] for j in range(n)]
    elif M == flip:
        # U and V trade places: taking U*V-transposed of it turns the other way
        U, V = entries(us[0], n), entries(vs[0], n)
        mm = lambda A, B: [[addn(*[mul(A[k][r], B[q][k]) for k in range(n)]) for r in range(n)] for q in range(n)]
        plain, turned = mm(U, V), mm(U[:-1] + [[neg(x) for x in U[-1]]], V)
        det = models.expand([[plain[j][i_] for j in range(n)] for i_ in range(n)])
        same_ = all(R[j][i_] is deep(cond(real_cmp("lt", det, ZERO), turned[j][i_], plain[j][i_])) for i_ in range(n) for j in range(n))
        c.ob(key + "covariance", REFUTED if same_ else UNDECIDED, "the decomposed matrix is the cross-covariance of the centred sets; it is the transposed one" + (", and the rotation is not transposed back" if same_ else ""), w)
        return
    else:
        st = UNDECIDED if any(unresolved(x) for q in M for x in q) else REFUTED
        c.ob(key + "covariance", st, "the decomposed matrix is the cross-covariance of the centred sets; its first entry is %s, expected %s" % (brief(M[0][0]), brief(cov[0][0])), w)
        return
    bad = [(j, i_) for j in range(n) for i_ in range(n) if R[j][i_] is not want[j][i_]]
    if bad:
        j, i_ = bad[0]
        u = {q for q in unresolved(R[j][i_])}
        c.ob(key + "rotation", UNDECIDED if u else REFUTED, "the rotation is U*V-transposed, U's last column negated when its determinant is negative; entry (%d,%d) is %s, expected %s"
             % (i_, j, brief(R[j][i_], 300), brief(want[j][i_], 300)), w)
    else:
        c.ob(key + "rotation", PROVEN, "the rotation is U*V-transposed, U's last column negated when its determinant is negative", w)
    wt = [sub(mq[r], addn(*[mul(want[k][r], ms[k]) for k in range(n)])) for r in range(n)]
    if by_parts is not None:
        turned = models.rotate(a.args[2][0], by_parts)
        byR = [deep(add(wt[r], addn(*[mul(want[k][r], at(by_parts, num(k))) for k in range(n)]))) for r in range(n)]
        byU = [deep(add(wt[r], at(turned, num(r)))) for r in range(n)]
        g = [deep(at(tr, num(r))) for r in range(n)]
        ok = g == byR or g == byU
        c.ob(key + "composed", PROVEN if ok else UNDECIDED if any(unresolved(q) for q in g) else REFUTED,
             "the translation is that of the step composed after the old transform; it is " + brief(g[0]), w)
        return
    for r in range(n):
        c.compare(key + "translation", at(tr, num(r)), wt[r], "the translation is the matched centroid minus the rotated source centroid", w)


# ------------------------------------------------------------------------------------ configuration
SETTERS = (("with_kd_tree", "use_kd_tree"), ("with_max_iterations", "max_iterations"),
           ("with_absolute_mse_threshold", "mse_absolute_threshold"), ("with_mse_interval_threshold", "mse_interval_threshold"))


@rule("I07")
def i07(c):
    """Each builder method composed with build: its own setting is its argument, every other setting is what
    building without it gives; and the settings of a fresh builder."""
    rb = c.public("build", ICP)
    xb = c.run(rb)
    xn = c.run(c.public("builder", ICP))
    if not ready(c, xb, "build", rb["span"]) or not ready(c, xn, "builder", rb["span"]):
        return
    names = next(([f["name"] for f in a["fields"]] for a in c.facts["adts"] if a["path"].endswith("::ICPConfiguration")), [s for _, s in SETTERS])
    shp = {"use_kd_tree": "bool", "max_iterations": "uint", "mse_interval_threshold": "num"}

    def built(b, nm):
        v = deep(subst(xb.ret, {xb.args[0]: b}))
        return deep(as_bool(fld(v, "", names.index(nm), shp.get(nm)))) if shp.get(nm) == "bool" else deep(fld(v, "", names.index(nm), shp.get(nm)))
    if any(s not in names for _, s in SETTERS):
        c.ob("builder/settings", UNDECIDED, "the configuration has the settings " + ", ".join(s for _, s in SETTERS))
        return
    for meth, own in SETTERS:
        r = c.public(meth, ICP)
        x = c.run(r)
        w = r["span"]
        if not ready(c, x, meth, w):
            continue
        b, v = x.args[0], x.args[1]
        if b.op == "mref":
            c.ob(meth + "/receiver", UNDECIDED, "the builder is only read", w)
            continue
        for nm in names:
            got = built(x.ret, nm)
            if nm == own:
                want = v
                c.compare(meth + "/own", got, want, "%s sets its own setting to the given value" % meth, w)
            else:
                c.compare(meth + "/" + nm, got, built(b, nm), "%s leaves %s as it was" % (meth, nm), w)
    # build gives what the builder holds: building twice, with a setting in between, is covered above; the
    # settings of a fresh builder
    for nm, want in (("use_kd_tree", FALSE), ("max_iterations", num(20)), ("mse_absolute_threshold", NONE())):
        c.compare("default/" + nm, erase_casts(built(xn.ret, nm)), want, "the default of %s" % nm, xn.root["span"])
    from fractions import Fraction
    v = erase_casts(built(xn.ret, "mse_interval_threshold"))
    q = const_val(v)
    ok = q is not None and abs(Fraction(q) - Fraction(1, 100)) < Fraction(1, 10 ** 9)
    c.ob("default/mse_interval_threshold", PROVEN if ok else REFUTED if q is not None else UNDECIDED, "the default interval threshold is 0.01; it is " + brief(v), xn.root["span"])
