"""Panics: every site that can panic, and whether an input reaches it.

The engine records, for each panicking construct (index, slice range, unwrap, subtraction of counts, remainder by a
count, ...), the condition on the inputs under which it fires. Each way that condition can hold is a list of tests; the
linear tests on counts among them, together with what is known of the counts (a remainder is below its divisor, an
index a loop keeps stays below its bound, ...), either contradict each other - the panic cannot happen - or not."""
import itertools
import time
from fractions import Fraction
from rules.base import *
from rules.r_icp import fm
from rules.r_kd import tree_layout


class Known:
    """what holds of the counts an analysis mentions"""

    def __init__(self, x):
        self.x, self.depth, self.asg, self.fixed = x, 0, (), []

    def rows(self, rows):
        """the rows plus what is known of every quantity in them"""
        out, todo, seen = list(rows), list(rows), set()
        while todo:
            r, _ = todo.pop()
            for m in list(r):
                if m == () or m in seen:
                    continue
                seen.add(m)
                for q in self.about(m, out):
                    out.append(q)
                    todo.append(q)
            if len(seen) > 60:
                break
        return out

    def about(self, m, ctx):
        res = []
        if self.depth == 0:
            self.fixed = [r for r in ctx if not any(v.op == "var" for n in r[0] for a, _ in n for v in freevars(a))]
        if all(is_nonneg_atom(a) or e % 2 == 0 for a, e in m):
            res.append(({m: 1}, False))
        for a, e in m:
            if a.op == "idiv" and len(m) == 2 and ((a.args[1], 1) in m) and e == 1 and self.implied(ctx, sub(a.args[1], ONE)):
                r = sub(a.args[0], mul(a, a.args[1]))
                return res + [form(r), form(sub(sub(a.args[1], ONE), r))]
        if len(m) != 1 or m[0][1] != 1:
            return res
        a = m[0][0]
        if a.op == "sym" and shape(a) == "uint" and self.dimension(a):
            res.append(({m: 1, (): -1}, False))
        if a.op == "rem":
            d = a.args[1]
            if self.implied(ctx, sub(d, ONE)):
                res.append(form(sub(sub(d, ONE), a)))
            if is_nonneg(a.args[0]):
                res.append(form(sub(a.args[0], a)))
        if a.op == "len":
            res += self.of_length(a, a.args[0], ctx)
        if a.op == "lout" and not isinstance(shape(a), tuple) or a in self.x.eng.carried:
            for r, _ in ctx:
                if r.get(m) == 1:
                    w = sub(a, as_poly(r))           # the row says a >= w
                    if self.below(a, sub(w, ONE), {}):
                        res.append(form(sub(sub(w, ONE), a)))
        if a.op in ("first", "count"):
            res.append(form(sub(a.args[0], a)))
        if a.op == "nat":
            res.append(form(sub(a, a.args[0])))
            if self.implied(ctx, sub(a, ONE)) or self.implied(ctx, a.args[0]):
                res.append(form(sub(a.args[0], a)))
        if a.op == "argf" and self.implied(ctx, sub(a.args[2], ONE)):
            res.append(form(sub(sub(a.args[2], ONE), a)))
        if a.op == "sumi":
            e = each(a)
            if e:
                res.append(form(sub(a, mul(num(min(e)), a.args[0]))))
                res.append(form(sub(mul(num(max(e)), a.args[0]), a)))
        if a.op == "imin":
            res += [form(sub(y, a)) for y in a.args if isinstance(y, T)]
        return res

    def dimension(self, a):
        return a in self.x.dims

    def implied(self, ctx, p, depth=0):
        """p >= 0 follows from ctx"""
        c = const_val(p)
        if c is not None:
            return c >= 0
        if is_nonneg(p):
            return True
        r = dict(poly_items(neg(add(p, ONE))))
        rows = list(ctx) + [(r, False)]
        if self.depth < 2:
            self.depth += 1
            try:
                for m in list(r):
                    if m != ():
                        rows += self.about(m, rows)
            finally:
                self.depth -= 1
        return not fm(self.light(rows))

    def light(self, rows):
        out, seen = list(rows), set()
        for r, _ in rows:
            for m in r:
                if m != () and m not in seen:
                    seen.add(m)
                    if all(is_nonneg_atom(a) or e % 2 == 0 for a, e in m):
                        out.append(({m: 1}, False))
                    if len(m) == 1 and m[0][1] == 1 and m[0][0] in self.x.dims:
                        out.append(({m: 1, (): -1}, False))
        return out

    # ---- sequences
    def of_length(self, a, s, ctx):
        if s in self.x.eng.carried:
            i, n = self.x.eng.carried[s][:2]
            if self.keeps(s, n):
                return same_form(a, length(i))
            return []
        if s.op == "lout":
            lp, j = s.args[0], s.args[1]
            cnt, inits, l = lp.args[:3]
            vs = [fresh("a", q) for q in l.args[1][1:]]
            k = fresh("k", "uint")
            nx = open_mlam(l, [k] + vs)[j]
            if self.keeps(vs[j], nx):
                return same_form(a, length(inits[j]))
            lv = [y for y in leaves(deep(nx)) if y is not BOT]
            least = [low(length(y)) for y in lv if y is not vs[j]]
            if least and cnt is not INF and len(least) == len(lv):
                m = min(least)
                if self.implied(ctx, sub(cnt, ONE)):
                    return [form(sub(a, num(m)))]
                m = min(m, low(length(inits[j])))
                return [form(sub(a, num(m)))] if m > 0 else []
            return []
        if s.op == "at" and s.args[0].op == "groupvals":
            g = s.args[0].args[0]
            k, v = fresh("k", "uint"), fresh("v", g.args[3].args[1][1])
            lv = [y for y in leaves(deep(open_mlam(g.args[3], (k, v))[0])) if y is not BOT]
            if lv and all(is_nonneg(sub(length(y), length(v))) for y in lv):
                return [form(sub(a, num(low(length(open1(g.args[2], k))))))]
            return []
        if s.op == "groupvals":
            g = s.args[0]
            n = g.args[0]
            out = [form(sub(n, a))]
            if self.implied(ctx, sub(n, ONE)):
                out.append(form(sub(a, ONE)))
            return out
        return []

    def keeps(self, v, n):
        """every pass leaves the length of v as it was"""
        lv = [y for y in leaves(deep(n)) if y is not BOT]
        return bool(lv) and all(sub(self.extent(y), length(v)) is ZERO for y in lv)

    def extent(self, y):
        """length of a sequence; one lent to a function as a slice keeps its length"""
        while y.op == "out":
            name, i, vals = y.args[0], y.args[1], y.args[3:]
            rs = [r for r in self.x.doc["roots"] if r["path"] == name and r["generic"]]
            if len(rs) != 1 or i >= len(vals):
                break
            b = rs[0]["bodies"][rs[0]["key"]]
            t = rs[0]["types"][b["locals"][i + 1]]
            if t["k"] != "ref" or rs[0]["types"][t["e"]]["k"] != "slice":
                break
            y = vals[i]
        return length(y)

    def below(self, t, u, hyp, depth=0):
        """t <= u in every pass of the loops that make it; hyp: loop variables assumed to be"""
        # tests that come out alike in every pass
        fixed = [(at, o) for at, o in self.asg if not any(v.op == "var" for v in freevars(at))]
        t = deep(t)
        for at, o in fixed:
            t = restrict_atom(t, at, o)
        for y in leaves(t):
            if y is BOT or y in hyp or self.implied(self.fixed + [form(sub(n, add(k, ONE))) for k, n in hyp.values() if k is not None], sub(u, y)):
                continue
            if depth > 4:
                return False
            if y.op == "lout" and not isinstance(shape(y), tuple):
                lp, j = y.args[:2]
                cnt, inits, l = lp.args[:3]
                vs = [fresh("a", q) for q in l.args[1][1:]]
                k = fresh("k", "uint")
                v, i, n = vs[j], inits[j], open_mlam(l, [k] + vs)[j]
            elif y in self.x.eng.carried:
                v = y
                i, n, k, cnt = self.x.eng.carried[y]
                cnt = cnt[0]
            else:
                return False
            if not self.below(i, u, hyp, depth + 1):
                return False
            if cnt is not INF:
                cnt = deep(cnt)
                for at, o in fixed:
                    cnt = restrict_atom(cnt, at, o)
            for c in [cnt] if cnt is INF else [y.args[0] if y.op == "nat" else y for y in leaves(cnt) if y is not BOT]:
                if not self.below(n, u, {**hyp, v: (None, None) if c is INF else (k, c)}, depth + 1):
                    return False
        return True


def as_poly(r):
    return sums([mul(num(c), prods(m)) for m, c in r.items()])


def prods(m):
    p = ONE
    for a, e in m:
        for _ in range(e):
            p = mul(p, a)
    return p


def sums(ts):
    s = ZERO
    for t in ts:
        s = add(s, t)
    return s


def each(a):
    """the whole numbers a sum is made of, if they are all constants"""
    lv = [const_val(y) for y in leaves(deep(open1(a.args[1], fresh("k", "uint")))) if y is not BOT]
    return lv if lv and None not in lv else None


def low(p):
    """a constant the length is at least"""
    return const_of(p) if all(c >= 0 and (m == () or all(is_nonneg_atom(a) for a, _ in m)) for m, c in poly_items(p)) else 0


def const_of(p):
    return dict(poly_items(p)).get((), 0)


def form(p):
    return (dict(poly_items(p)), False)


def same_form(a, b):
    return [form(sub(a, b)), form(sub(b, a))]


def branches(t, known, asg=(), rows=(), limit=3000):
    """the consistent ways through a case distinction: [(tests, rows, leaf)]"""
    out, budget = [], [limit]

    def go(x, asg, rows):
        budget[0] -= 1
        if budget[0] < 0:
            raise OverflowError
        if x is BOT or x is FALSE:
            return
        if x.op != "ite":
            known.asg = asg
            if not rows or fm(known.rows(rows)):
                out.append((asg, rows, x))
            return
        a = x.args[0]
        d = terms._decided(a, dict(asg))
        for o, y in x.args[1]:
            if d is not None and o != d or y is FALSE or y is BOT:
                continue
            r2 = rows
            if a.op == "geq":
                p = sub(a.args[0], num(a.args[1]))
                r2 = rows + [form(p if o else neg(add(p, ONE)))]
                known.asg = asg
                if not fm(known.rows(r2)):
                    continue
            go(y, asg + ((a, o),), r2)
    go(deep(t), tuple(asg), list(rows))
    return out


def ways(cnd, known, limit=3000):
    """the consistent ways to satisfy cnd: lists of (test, outcome)"""
    return [(asg, rows) for asg, rows, x in branches(cnd, known, limit=limit) if x is TRUE]


def open_test(a, o, x):
    """a test whose outcome the caller of a public function is free to choose"""
    if a.op == "geq":
        return all(free_count(q, x) for m, _ in poly_items(a.args[0]) for q, _ in m)
    if a.op == "discr":
        return part(a.args[0], x)
    if a.op == "sym":
        return True
    if a.op == "sign":
        return all(coordinate(q, x) for m, _ in poly_items(a.args[0]) for q, _ in m)
    if a.op == "exists" and o is True:
        # some coordinate differs
        b = open1(a.args[1], fresh("k", "uint"))
        return b.op == "ite" and b.args[0].op == "sign" and open_test(b.args[0], None, x) and all((y is FALSE) == (s == "0") and y in (TRUE, FALSE) for s, y in b.args[1])
    return False


def part(q, x):
    """an argument or a part of one"""
    while q.op == "fld":
        q = q.args[0]
    return q in x.given


def free_count(q, x):
    if q.op == "len":
        return q.args[0] in x.given
    if q.op == "rem" and const_val(q.args[1]) is not None:
        return free_count(q.args[0], x)
    return q in x.dims or q in x.given or q.op == "fld" and shape(q) == "uint" and part(q, x)


def coordinate(q, x):
    if q.op == "app" and (len(q.args) == 2 or q.args[0].startswith("svd.") and part(q.args[-1], x)):
        return True         # a constant of the type; a factor of a matrix
    while q.op in ("at", "fld") or q.op == "app" and q.args[0].startswith("svd."):
        q = q.args[-1] if q.op == "app" else q.args[0]
    return q in x.given


# ---- sites that are not excluded: do they fire on the smallest inputs?
def unfold(t):
    """loops with a small constant number of passes, pass by pass"""
    memo = {}

    def f(y):
        if y in memo:
            return memo[y]
        r = rebuild(y, f) if y.args else y
        for z in (r,):
            if z.op == "lout" and const_val(z.args[0].args[0]) is not None and z.args[0].args[0] is not INF:
                n = int(const_val(z.args[0].args[0]))
                if 0 <= n <= 3:
                    vals = list(z.args[0].args[1])
                    for i in range(n):
                        vals = list(open_mlam(z.args[0].args[2], [num(i)] + vals))[:len(vals)]
                    r = deep(vals[z.args[1]])
            elif z.op == "lout" and z.args[0].args[0] is INF:
                vals = list(z.args[0].args[1])
                for i in range(3):
                    nx = [deep(q) for q in open_mlam(z.args[0].args[2], [num(i)] + vals)]
                    done = OR(*nx[len(vals):])
                    if done is TRUE:
                        r = deep(vals[z.args[1]])
                    if done is not FALSE:
                        break
                    vals = nx[:len(vals)]
        memo[y] = r
        return r
    for _ in range(3):
        u = f(deep(t))
        if u is t:
            break
        t, memo = u, {}
    return t


def small(t, m):
    return unfold(deep(subst(deep(t), m)))


def instances(x, cnd, most=3):
    """the condition in the first passes of the loops around it: [conditions without loop variables]"""
    groups = {}
    for v, (i, n, k, cnt) in x.eng.carried.items():
        groups.setdefault(k, {})[v] = (i, n)
    exits = {rec["k"]: rec["exits"] for rec in x.eng.loops}
    for k in exits:
        groups.setdefault(k, {})
    todo, out = [(deep(cnd), 0)], []
    while todo:
        t, d = todo.pop()
        free = {v for v in freevars(t) if v.op == "var"}
        k = next((k for k in groups if k in free or free & set(groups[k])), None)
        if k is None:
            # positions in a sequence; the condition says which there are
            v = next((v for v in sorted(free, key=str) if shape(v) == "uint"), None)
            if not free:
                out.append(t)
            elif v is not None and d <= 3:
                todo += [(q, d + 1) for q in (deep(subst(t, {v: num(i)})) for i in range(most)) if q is not FALSE]
            continue
        if d > 3 or len(out) > 60:
            continue
        vals, on = {v: i for v, (i, n) in groups[k].items()}, TRUE
        for i in range(most):
            m = {k: num(i), **vals}
            q = AND(on, deep(subst(t, m)))
            if q is not FALSE:
                todo.append((q, d + 1))
            ex = exits.get(k)
            if ex:
                on = AND(on, NOT(deep(subst(OR(*ex), m))))
            vals = {v: deep(subst(n, m)) for v, (_, n) in groups[k].items()}
    return out


def consistent_signs(asg):
    """the sign tests can hold together"""
    rows, hard = [], 0
    for a, o in asg:
        if a.op != "sign":
            continue
        r = dict(poly_items(a.args[0]))
        hard += any(sum(e for _, e in m) > 1 for m in r)
        if o == "+":
            rows.append((r, True))
        elif o == "-":
            rows.append((dict(poly_items(neg(a.args[0]))), True))
        elif o == "0":
            rows += [(r, False), (dict(poly_items(neg(a.args[0]))), False)]
    return hard <= 1 and (not rows or fm(rows))


def by_points(g, x):
    """the group an element goes to depends on nothing but the element"""
    k = fresh("k", "uint")
    t = open1(g.args[1], k)
    stack, seen = [t], set()
    while stack:
        y = stack.pop()
        if y is k:
            return False
        if y in seen or y.op == "at" and y.args[1] is k and y.args[0] in x.given:
            continue
        seen.add(y)
        for a in y.args:
            terms_in(a, stack)
    return True


def terms_in(a, out):
    if isinstance(a, T):
        out.append(a)
    elif isinstance(a, tuple):
        for b in a:
            terms_in(b, out)


def fires(c, x, p):
    """a description of a smallest input that reaches the construct, or None"""
    t0 = time.time()
    lens = sorted({y for y in collect(deep(p.cond), lambda y: y.op == "len") if y.args[0] in x.given} | {length(a) for a in x.given if isinstance(shape(a), tuple) and shape(a)[0] == "seq"}, key=str)
    lens = [y for y in lens if y.op == "len"][:2]
    dims = sorted(x.dims & freevars(deep(p.cond)), key=str)[:1]
    known = Known(x)
    for n in (1, 2) if dims else (0,):
        for ls in itertools.product((0, 1, 2, 3), repeat=len(lens)):
            m = {d: num(n) for d in dims}
            m.update({y: num(v) for y, v in zip(lens, ls)})
            base = small(p.cond, m)
            if base is FALSE:
                continue
            # points that are all alike fall into one group
            one = {y: ONE for y in collect(base, lambda y: y.op == "len" and y.args[0].op == "groupvals" and (const_val(y.args[0].args[0].args[0]) or 0) > 0)
                   if by_points(y.args[0].args[0], x)}
            alike = small(base, {**m, **one}) if one else FALSE
            for q in instances(x, base) + (instances(x, alike) if alike is not FALSE else []):
                if time.time() - t0 > 20:
                    return None
                q = small(q, m)
                try:
                    ws = ways(q, known, 400)
                except (OverflowError, RecursionError):
                    continue
                for asg, _ in ws:
                    if all(open_test(a, o, x) for a, o in asg) and consistent_signs(asg):
                        return ", ".join(["%s = %s" % (brief(y, 40), v) for y, v in zip(lens, ls)] + ["%s = %d" % (d.args[0], n) for d in dims] + ["%s %s" % (brief(a, 60), o) for a, o in asg])
    return None


def sized(q, x):
    """a number of things in memory, of dimensions, or of steps taken one by one"""
    if q.op in ("len", "first", "count", "lcnt", "rem", "imin", "idiv", "nat"):
        return True
    if q in x.dims:
        return True
    if q.op == "sumi":
        return each(q) is not None
    if q.op == "lout":
        return True
    if q.op == "fld":
        return in_tree(q, x)
    if q.op == "var" or q.op == "sym" and not x.root["public"]:
        return True
    return False


def in_tree(q, x):
    """the count a tree keeps of what is in it"""
    if (q.args[1], q.args[2]) not in x.counters:
        return False
    for i, a in enumerate(x.args):
        if q.args[0] in (a, x.start.get(i + 1)):
            ts = x.root["types"]
            t = ts[x.root["bodies"][x.root["key"]]["locals"][i + 1]]
            while t["k"] == "ref":
                t = ts[t["e"]]
            return "KDTree" in str(t.get("path", t.get("name", t)))
    return "KDTree" in x.root["path"]


def grows(p, x):
    return [q for d in p.detail if isinstance(d, T) for y in leaves(d) for m, c in poly_items(y) for q, _ in m if not sized(q, x)]


def entered(x):
    """can the function be called with any arguments? A private one that calls itself one level further down can."""
    if x.root["public"] or "AbstractIsometry" in x.root["path"]:
        return True
    path = x.root["bodies"][x.root["key"]]["path"]
    calls = [v for _, k, v in x.eng.reclog if k == path]
    counts = [i for i, a in enumerate(x.args) if shape(a) == "uint"]
    return bool(calls) and all(i < len(v) and const_val(sub(v[i], x.args[i])) == 1 for v in calls for i in counts)


def judge(c, x, p):
    """(status, why) of one panicking construct"""
    if p.cond is FALSE:
        return PROVEN, ""
    if p.kind == "overflowAdd" and p.unsigned and not grows(p, x):
        return PROVEN, "a count of things in memory or of steps taken one by one"
    if p.kind == "overflowMul" and p.unsigned and len(p.detail) == 2:
        for a, b in (p.detail, p.detail[::-1]):
            if a.op == "idiv" and a.args[1] is b:
                return PROVEN, "at most the dividend"
    if p.kind == "overflowSum" and entered(x) and x.root["public"]:
        for d in p.detail:
            for q in collect(d, lambda y: y.op in ("count", "sumi")):
                if q.args[0].op == "len" and q.args[0].args[0] in x.given:
                    return REFUTED, "one of 8 or 16 bits counts things of which there are as many as the caller passes"
    known = Known(x)
    try:
        ws = ways(p.cond, known)
    except (OverflowError, RecursionError):
        return UNDECIDED, "too many ways to reach it"
    if not ws:
        return PROVEN, ""
    over = p.kind.startswith("overflow") and p.kind != "overflowSub"
    if entered(x) and not (over and not (p.unsigned and any(part(q, x) for q in grows(p, x)))):
        for asg, _ in ws:
            if all(open_test(a, o, x) for a, o in asg):
                return REFUTED, "reached when " + (" and ".join("%s %s" % (brief(a, 80), "" if o is True else "= %s" % (o,)) for a, o in asg) or "called at all")
        try:
            e = fires(c, x, p)
        except Exception:
            e = None
        if e is not None:
            return REFUTED, "reached when " + e
    if not all(p.cond is TRUE or w for w, _ in ws):
        return UNDECIDED, "not excluded"
    return UNDECIDED, "not excluded: " + "; ".join("%s=%s" % (brief(a, 60), o) for a, o in ws[0][0])


def label(path):
    """a function's path without its generic arguments"""
    out, d = [], 0
    for i, ch in enumerate(path):
        if ch == "<" and i:
            d += 1
        elif ch == ">" and d:
            d -= 1
        elif not d:
            out.append(ch)
    return "".join(out).strip("<").replace("crate::", "").replace("::::", "::").replace(">", "")


HEAVY = ("KDTree", "icp_iteration", "find_nearest_neighbour_naive")
# argument whose length is at least that of another one ("matching slice lengths")
MATCHING = {"icp_iteration": (1, 0)}


def analysed(c, r):
    last = r["path"].split("::")[-1]
    opaque = tuple(h for h in HEAVY if h not in r["path"])
    x = c.run(r, opaque)
    if last in MATCHING and not x.err:
        i, j = MATCHING[last]
        if j < len(x.args) and i + 1 in x.start:
            x = c.run(r, opaque, {"lens": {i + 1: length(x.args[j])}})
    x.dims = {raw("sym", g, "uint") for g in r["generics"]}
    x.given = {a for a in x.args if a.op != "mref"} | set(x.start.values())
    x.given |= {b.args[0] for b in x.args if b.op == "ite"}
    x.given = Given(x.given)
    x.given.names = {a.args[0] for a in x.given if a.op == "sym"}
    x.counters = c.counters
    x.doc = c.doc
    return x


def counters(c):
    """fields that only ever count insertions"""
    t = tree_layout(c)
    return {("", t[1])} if t and t[1] is not None else set()


class Given(set):
    """the arguments; in one dimension an argument is another term of the same name"""

    def __contains__(self, q):
        return set.__contains__(self, q) or q.op == "sym" and q.args[0] in self.names


class Site:
    kind, unsigned = "lengths", False

    def __init__(self, cnd):
        self.cond = cnd


def reached(c):
    """the public functions, and private ones that are not simply part of their callers because they call themselves"""
    out = []
    for r in c.doc["roots"]:
        if r["path"].endswith("::fmt"):
            continue
        if r["public"] or r["generic"] and ("AbstractIsometry" in r["path"] or r["bodies"][r["key"]]["path"] in recursive(r)[0]):
            out.append(r)
    return out


@rule("A06")
def panics(c):
    """Every construct that can panic (index, slice bound, unwrap, overflowing arithmetic on counts, division by a count,
    mismatched slices), with the condition on the inputs under which it does, over all paths: linear reasoning on counts
    and lengths, and on bounds kept by every pass of a loop, must contradict it; a site whose condition an input can
    freely meet, or that the smallest inputs meet, is reported."""
    c.counters = counters(c)
    for r in reached(c):
        x = analysed(c, r)
        nm = label(r["path"])
        if x.err:
            c.ob("sites/" + nm, UNDECIDED, "not analysed: " + str(x.err)[:200], r["span"])
            continue
        n = {}
        for p in x.panics:
            k = "%s/%s/%s" % (nm, p.kind, label(p.fn).split("::{")[0].split("::")[-1])
            n[k] = n.get(k, 0) + 1
            st, why = judge(c, x, p)
            c.ob("site/%s/%d" % (k, n[k]), st, "%s in %s%s" % (p.kind, p.fn, ": " + why if why else ""), p.span)
        for i, (cnd, callee, vals) in enumerate(x.eng.log):
            m = MATCHING.get(callee.split("::")[-1])
            if m is None or max(m) >= len(vals):
                continue
            p = Site(AND(cnd, NOT(int_cmp("ge", length(vals[m[0]]), length(vals[m[1]])))))
            st, why = judge(c, x, p)
            c.ob("call/%s/%s" % (nm, callee.split("::")[-1]), st, "the slices handed to %s match in length%s" % (callee, ": " + why if why else ""), r["span"])


# ------------------------------------------------------------------------------------------------ stack
def call_graph(r):
    """body -> bodies called or created in it, over those a function reaches"""
    bodies = r["bodies"]
    inside = {}
    for k, b in bodies.items():
        if b["closure"]:
            inside.setdefault(b["path"].rsplit("::{closure", 1)[0], set()).add(k)
    g = {}
    for k, b in bodies.items():
        g[k] = {blk["t"][1]["key"] for blk in b["blocks"] if blk["t"][0] == "call" and blk["t"][1].get("key") in bodies} | inside.get(b["path"], set())
    return g, {b["path"]: b["krate"] for b in bodies.values()}


def recursive(r):
    """paths of the functions that can reach themselves"""
    g, krate = call_graph(r)
    return {r["bodies"][k]["path"] for k in cycles(g)}, krate


def cycles(g):
    """functions that can reach themselves"""
    out = set()
    for f in g:
        seen, todo = set(), list(g[f])
        while todo:
            h = todo.pop()
            if h in seen:
                continue
            seen.add(h)
            todo += g.get(h, ())
        if f in seen:
            out.add(f)
    return out


def depth_of(c, path):
    """(status, why): is the depth of this function's recursion bounded whatever the input?"""
    rs = [r for r in c.doc["roots"] if r["path"] == path and r["generic"]]
    if len(rs) != 1:
        return UNDECIDED, "no single body"
    x = analysed(c, rs[0])
    calls = [(cn, v) for cn, k, v in x.eng.reclog if k == path]
    if x.err or not calls:
        return UNDECIDED, "not followed: %s" % (x.err or "no call seen")
    known = Known(x)
    for i, a in enumerate(x.args):
        p = x.start.get(i + 1, a)
        if any(i >= len(v) for _, v in calls):
            continue
        if shape(p) == "uint":
            ds = {const_val(sub(v[i], p)) for _, v in calls}
            if None in ds or 0 in ds:
                continue
            if max(ds) < 0:
                return UNDECIDED, "an argument counts down"
            if min(ds) < 0:
                continue
            limited = 0
            for cn, v in calls:
                try:
                    ws = ways(cn, known)
                except (OverflowError, RecursionError):
                    return UNDECIDED, "too many ways to recurse"
                tests = {a for w, _ in ws for a, _ in w if a.op == "geq" and p in freevars(a)}
                if tests:
                    limited += 1
                if tests and all(any(known.implied(rows, sub(u, p)) for u in list(x.dims) + [num(64)]) for _, rows in ws):
                    limited += 1
            if limited == 2 * len(calls):
                return PROVEN, "an argument counts up to a bound that is part of the type"
            if limited:
                return UNDECIDED, "an argument counts up and is tested"
        elif isinstance(shape(p), tuple):
            if all(collect(length(v[i]), lambda y: y.op == "idiv") for _, v in calls):
                return UNDECIDED, "a sequence is divided"
    return REFUTED, "it calls itself once per step along its input"


def nested_types(c):
    """types of the crate that contain themselves, and the public types that hold one"""
    adts = {a["path"]: a for a in c.facts["adts"]}
    g = {p: {q for q in adts for f in a.get("fields", []) if q + "<" in f["ty"] + "<" and (q in f["ty"].replace("<", " ").replace(">", " ").replace(",", " ").split())} for p, a in adts.items()}
    loops = cycles(g)
    hold = {}
    for p in adts:
        seen, todo = set(), [p]
        while todo:
            h = todo.pop()
            if h not in seen:
                seen.add(h)
                todo += g[h]
        if seen & loops and adts[p].get("public"):
            hold[p] = sorted(seen & loops)
    return hold


def along_tree(c, f):
    """whether a function is given a value of a type that contains itself, to go down along it"""
    nested = {q for qs in nested_types(c).values() for q in qs}

    def holds(r, i, depth=0):
        t = r["types"][i]
        if t["k"] == "ref" or t["k"] == "slice":
            return holds(r, t["e"], depth)
        if t["k"] != "adt" or depth > 4:
            return False
        return t["d"] in nested or any("t" in a and holds(r, a["t"], depth + 1) for a in t["a"])

    for r in c.doc["roots"]:
        for b in r["bodies"].values():
            if b["path"] == f:
                return any(holds(r, b["locals"][i]) for i in range(1, b["argc"] + 1))
    return False


@rule("A07")
def stack(c):
    """Cycles of the call graph reachable from each public function, and types that contain themselves: a function that
    calls itself must pass an argument that a constant bounds; one that descends a structure as long as the input does not."""
    c.counters = counters(c)
    memo = {}
    for r in c.doc["roots"]:
        if not (r["public"] and r["generic"]) or r["path"].endswith("::fmt") or r["path"].startswith("<") and " as core::" in r["path"] and "::From<" not in r["path"]:
            continue
        loops, krate = recursive(r)
        mine = krate[r["bodies"][r["key"]]["path"]]
        nm = label(r["path"])
        bad = [f for f in sorted(loops) if krate.get(f) == mine and "{closure" not in f]
        if not bad:
            c.ob("stack/" + nm, PROVEN, "the depth of its calls does not grow with the input: it reaches no function of the crate that calls itself", r["span"])
        parts = {}
        for f in bad:
            if f not in memo:
                memo[f] = depth_of(c, f)
            parts.setdefault("tree" if along_tree(c, f) else label(f), []).append((f,) + memo[f])
        for part_of, fs in sorted(parts.items()):
            f, st, why = max(fs, key=lambda y: rank(y[1]))
            c.ob("stack/%s/%s" % (nm, part_of), st, "the depth of its calls does not grow with the input: %s: %s" % (f, why), r["span"])
    for p, loops in sorted(nested_types(c).items()):
        c.ob("drop/" + p.replace("crate::", "", 1), REFUTED, "dropping or copying a value does not recurse through a chain as long as the input: it holds %s, which holds itself" % ", ".join(loops))
    if not nested_types(c):
        c.ob("drop", PROVEN, "no type of the crate contains itself")


# ------------------------------------------------------------------------------------------------ termination
def fixed(t, vs):
    return not (freevars(t) & vs)


def ends(x, rec):
    """(status, why) of a loop that does not simply run a given number of times"""
    k, nxt = rec["k"], rec["unsolved"]
    vs = set(nxt)
    known = Known(x)
    go = NOT(OR(*rec["exits"])) if rec["exits"] else TRUE
    if not rec["exits"]:
        return UNDECIDED, "nothing leaves the loop"
    try:
        ws = ways(go, known)
    except (OverflowError, RecursionError):
        return UNDECIDED, "too many ways to go on"
    if not ws:
        return PROVEN, "it is left in the first pass"
    groups = {}
    for w, _ in ws:
        g = tuple(sorted(((a, o) for a, o in w if fixed(a, vs | {k})), key=str))
        groups.setdefault(g, None)
    worst = None
    for g in groups:
        d = dict(g)
        sub_ws = [(w, rows) for w, rows in ws if not any(a in d and d[a] != o for a, o in w)]
        st, why = measure(x, rec, known, sub_ws)
        if worst is None or rank(st) > rank(worst[0]):
            worst = (st, why)
    return worst


def rank(st):
    return (PROVEN, UNDECIDED, REFUTED).index(st)


def measure(x, rec, known, ws):
    """something bounded that every pass brings closer to its bound"""
    k, nxt = rec["k"], rec["unsolved"]
    vs = set(nxt)
    tests = sorted({a for w, _ in ws for a, _ in w if a.op == "geq"}, key=str)
    # the number of passes is limited
    ks = [k] + sorted({T_of(m) for a in tests for m, _ in poly_items(a.args[0]) if len(m) > 1 and (k, 1) in m and all(q is k or not freevars(q) & vs and known.implied([], sub(q, num(1))) for q, _ in m)}, key=str)
    if all(any(limit(known, rows, q, vs, tests) for q in ks) for _, rows in ws):
        return PROVEN, "the number of passes is limited"
    # it is left in the pass with a certain number, which cannot be skipped
    for a in tests:
        co = dict(poly_items(a.args[0]))
        m = ((k, 1),)
        if m not in co:
            continue
        for off in (-1, 0, 1):
            b = sub(k, div(add(sub(a.args[0], num(a.args[1])), num(off)), num(co[m])))
            if freevars(b) & (vs | {k}) or not known.implied([], b):
                continue
            if all(not fm(known.rows(list(rows) + same_form(k, b))) for _, rows in ws):
                return PROVEN, "the number of passes is limited"
    # something shrinks to nothing or grows to a limit; while it stays as it is, something else does
    def moves(v, asg, rows):
        """-1, 0 or 1: shrinks, stays, grows; None: unknown"""
        seq = v in seqs
        q = length(v) if seq else v
        n = deep(nxt[v])
        for a, o in asg:
            n = restrict_atom(n, a, o)
        out = set()
        for y in leaves(deep(n)):
            if y is not BOT:
                d = sub(known.extent(y) if seq else y, q)
                out.add(0 if const_val(d) == 0 else -1 if known.implied(rows, sub(num(-1), d)) else 1 if known.implied(rows, sub(d, num(1))) else None)
        return out.pop() if len(out) == 1 else None

    seqs = {y.args[0] for a in tests for y in collect(a, lambda y: y.op == "len")} | {v for v in vs if isinstance(shape(v), tuple) and shape(v)[0] != "vec"}
    cands = [v for v in sorted(vs, key=str) if v in seqs or counted(v, nxt)]
    fine = list(ws)
    try:
        for v in cands:
            fine = [(asg, rows) for asg0, rows0 in fine for asg, rows, _ in branches(restricted(nxt[v], asg0), known, asg0, rows0)]
            if len(fine) > 400:
                raise OverflowError
        ws = fine
    except (OverflowError, RecursionError):
        pass
    dirs = {v: [moves(v, asg, rows) for asg, rows in ws] for v in cands}
    left, how = set(range(len(ws))), []
    while left:
        for v in cands:
            seq = v in seqs
            q = length(v) if seq else v
            got = {dirs[v][i] for i in left}
            gone = None
            if got <= {-1, 0} and -1 in got:
                gone = {i for i in left if dirs[v][i] == -1 and (seq or known.implied(ws[i][1], q))}
            elif got <= {0, 1} and 1 in got:
                gone = {i for i in left if dirs[v][i] == 1 and limit(known, ws[i][1], q, vs - {v}, tests)}
            if gone:
                left -= gone
                how.append("%s %s" % (brief(q, 60), "shrinks" if -1 in got else "grows towards a limit"))
                break
        else:
            break
    if not left:
        return PROVEN, "; otherwise ".join(how) + " in every pass"
    for asg, rows in ws:
        rel = {f for a, _ in asg for f in freevars(a)}
        if k in rel:
            continue
        mv = rel & vs
        still = True
        for v in mv:
            n = deep(nxt[v])
            for a, o in asg:
                n = restrict_atom(n, a, o)
            still = still and {y for y in leaves(deep(n)) if y is not BOT} == {v}
        if still and mv and all(a.op in ("geq", "sign", "sym") or a.op == "discr" for a, _ in asg):
            return REFUTED, "a pass that changes nothing it depends on repeats for ever: " + "; ".join("%s=%s" % (brief(a, 80), o) for a, o in asg)
    how = spins(x, rec, known, ws)
    if how:
        return REFUTED, how
    dep = {v for c in rec["exits"] for v in freevars(c) & (vs | {k})}
    if dep and k not in dep and all(real(v) and not counted(v, nxt) for v in dep):
        return REFUTED, "whether it is left depends only on floating-point values (%s) that a step need not change" % ", ".join(brief(v, 40) for v in sorted(dep, key=str))
    return UNDECIDED, "no measure found"


def spins(x, rec, known, ws):
    """a cycle through the counts and lengths the loop keeps, when what it compares of floating-point values may turn
    out either way; a description, or None"""
    k, nxt = rec["k"], rec["unsolved"]
    vs = set(nxt)
    inner = vs | {k}

    def split(a):
        """the monomials of a count test, or None when it is about something else the loop changes"""
        out = []
        for m, co in poly_items(a.args[0]):
            q = T_of(m)
            if q is None or not freevars(q) & inner or q is k or q in vs or q.op == "len" and q.args[0] in vs:
                out.append((q, co))
            else:
                return None
        return out

    def usable(asg):
        for a, o in asg:
            if a.op == "geq":
                ms = split(a)
                if ms is None or any(q is k and (co > 0) != (o is True) for q, co in ms):
                    return False
            elif a.op == "sign":
                if any(k in freevars(y) for y in collect(a, lambda y: y.op == "app")):
                    return False
            elif a.op == "discr":
                q = a.args[0]
                while q.op in ("at", "fld"):
                    q = q.args[0]
                if q.op != "app" and q.op != "ext" and freevars(q) & inner:
                    return False
            elif freevars(a) & inner:
                return False
        return consistent_signs(asg)

    ws = [asg for asg, _ in ws if usable(asg)]
    qs, ps = set(), set()
    todo, seen = [a for w in ws for a, _ in w if a.op == "geq"], set()
    step = {}
    while todo:
        a = todo.pop()
        for q, _ in split(a) or ():
            if q is None or q is k:
                continue
            if not freevars(q) & inner:
                ps.add(q)
            elif q not in seen:
                seen.add(q)
                qs.add(q)
                v = q.args[0] if q.op == "len" else q
                try:
                    step[q] = [(asg, known.extent(y) if q.op == "len" else y) for asg, y in paths(deep(nxt[v])) if y is not BOT]
                except (OverflowError, RecursionError):
                    return None
                if len(step[q]) > 200:
                    return None
                for asg, y in step[q]:
                    todo += [b for b, _ in asg if b.op == "geq"]
                    for m, _ in poly_items(y):
                        r = T_of(m)
                        if r is not None and not freevars(r) & inner:
                            ps.add(r)
    if len(ps) > 2 or len(qs) > 3 or not ws:
        return None
    qs, ps = sorted(qs, key=str), sorted(ps, key=str)
    first = []
    for q in qs:
        i = x.eng.carried[q.args[0] if q.op == "len" else q][0]
        first.append(length(i) if q.op == "len" else i)
        for m, _ in poly_items(first[-1]):
            r = T_of(m)
            if r is not None and r not in ps:
                ps.append(r)
    if len(ps) > 3:
        return None

    def value(p, env):
        n = Fraction(0)
        for m, co in poly_items(p):
            q = T_of(m)
            if q is not None and q not in env:
                return None
            n += co * (1 if q is None else env[q])
        return n

    def holds(asg, env):
        for a, o in asg:
            if a.op == "geq":
                if any(q is k for q, _ in split(a) or ()):
                    continue
                n = value(a.args[0], env)
                if n is None or (n >= a.args[1]) != (o is True):
                    return False
        return True

    for pv in itertools.product(range(5), repeat=len(ps)):
        env = dict(zip(ps, pv))
        s0 = tuple(value(f, env) for f in first)
        if None in s0 or any(n < 0 for n in s0):
            continue
        on = rec["path"]
        if any(small(t, {p: num(n) for p, n in env.items()}) is FALSE for t in on if isinstance(t, T)):
            continue
        edges, todo = {}, [s0]
        while todo and len(edges) < 60:
            s = todo.pop()
            if s in edges:
                continue
            e = dict(env)
            e.update(zip(qs, s))
            edges[s] = set()
            for w in ws:
                if not holds(w, e):
                    continue
                w = dict(w)
                opts = [[(asg, n) for asg, y in step[q] for n in [value(y, e)] if n is not None and 0 <= n <= 12 and not any(a in w and w[a] != o for a, o in asg) and usable(asg) and holds(asg, e)] for q in qs]
                for ch in itertools.islice(itertools.product(*opts), 200):
                    got = {}
                    if all(got.setdefault(a, o) == o for asg, _ in ch for a, o in asg):
                        edges[s].add(tuple(n for _, n in ch))
            todo += edges[s]
        loop = cycles({s: edges.get(s, set()) for s in edges})
        if loop:
            at = min(loop)
            return "it can go on for ever, whatever number of passes it has made: %s" % (", ".join("%s = %s" % (brief(q, 60), n) for q, n in list(zip(ps, pv)) + list(zip(qs, at))) or "only floating-point values are tested")
    return None


def restricted(t, asg):
    t = deep(t)
    for a, o in asg:
        t = restrict_atom(t, a, o)
    return deep(t)


def T_of(m):
    """the term of a monomial of degree one; None for the constant; the product otherwise"""
    if m == ():
        return None
    if len(m) == 1 and m[0][1] == 1:
        return m[0][0]
    out = num(1)
    for q, e in m:
        for _ in range(e):
            out = mul(out, q)
    return out


def counted(v, nxt):
    """a count: it is compared as one, or it changes by whole constants"""
    if shape(v) in ("uint", "int"):
        return True
    if shape(v) != "num":
        return False
    ds = [const_val(sub(y, v)) for y in leaves(deep(nxt[v])) if y is not BOT]
    return None not in ds and all(Fraction(d).denominator == 1 for d in ds) and not any(v is q for n in nxt.values() for a in collect(n, lambda y: y.op == "sign") for m, _ in poly_items(a.args[0]) for q, _ in m)


def real(v):
    s = shape(v)
    return s == "num" or isinstance(s, tuple) and s[0] == "vec" and s[-1] == "num"


def limit(known, rows, q, vs, tests):
    """on these rows q is at most something the loop does not change"""
    for a in tests:
        co = dict(poly_items(a.args[0]))
        for m, c in poly_items(q):
            if m == () or m not in co:
                continue
            b = sub(q, mul(num(Fraction(c) / co[m]), a.args[0]))      # q eliminated
            lens = {y for y in collect(b, lambda y: y.op == "len") if freevars(y) & vs}
            if freevars(b) & vs and not all(kept(known, y) for y in lens) or (freevars(b) & vs and not lens) or q in (y for y in collect(b, lambda y: True)):
                continue
            for off in (0, 1):
                if known.implied(rows, sub(add(b, num(abs(Fraction(c) / co[m]) * abs(a.args[1]) + off)), q)):
                    return True
    return False


def kept(known, y):
    v = y.args[0]
    return v in known.x.eng.carried and known.keeps(v, known.x.eng.carried[v][1])


def open_ended(c):
    """(call site, function, what) of calls to library functions that repeat until a floating-point value settles, with no limit"""
    out = {}
    for r in c.doc["roots"]:
        for b in r["bodies"].values():
            if b["krate"] != c.doc["crate"]:
                continue
            for blk in b["blocks"]:
                if blk["t"][0] != "call" or blk["t"][1].get("krate") != "nalgebra":
                    continue
                f, args = blk["t"][1], blk["t"][2]
                of_rotation = "geometry::rotation" in f["path"] or "Unit<" in f.get("impl_self", "")
                if f["name"] == "from_matrix" and of_rotation:
                    st = REFUTED
                elif f["name"] == "from_matrix_eps" and of_rotation:
                    v = args[2].get("const", {}).get("i") if len(args) > 2 else None
                    st = UNDECIDED if v is None else REFUTED if str(v) == "0" else PROVEN
                else:
                    continue
                out.setdefault((b["path"], f["name"], st), blk["t"][1])
    return sorted(out)


@rule("A08")
def termination(c):
    """Every loop: counted before it starts, or with a measure (a count or a length, or several in lexicographic order)
    that every pass moves towards a bound; reported when counts and lengths can return to where they were while tests
    on floating-point values may turn out either way. Iterations of the library without a limit are reported too."""
    c.counters = counters(c)
    seen = {}
    for fn, callee, st in open_ended(c):
        k = "library/%s/%s" % (label(fn), callee)
        seen[k] = seen.get(k, 0) + 1
        c.ob("%s/%d" % (k, seen[k]), st, "%s, called in %s, stops after a limited number of rounds (nalgebra repeats it until the rotation found no longer changes, which it may never do)" % (callee, fn))
    if not seen:
        c.ob("library", PROVEN, "no function of the crate calls an iteration of the library that has no limit")
    for r in reached(c):
        if not r["generic"]:
            continue
        x = analysed(c, r)
        nm = label(r["path"])
        if x.err:
            c.ob("loops/" + nm, UNDECIDED, "not analysed: " + str(x.err)[:200], r["span"])
            continue
        n = 0
        for rec in x.eng.loops:
            n += 1
            if rec["exits"] is None:
                c.ob("loop/%s/%d" % (nm, n), PROVEN, "it runs a number of times fixed before it starts", rec["where"][1])
                continue
            st, why = ends(x, rec)
            c.ob("loop/%s/%d" % (nm, n), st, "the loop ends: " + why, rec["where"][1])
