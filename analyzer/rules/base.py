"""What every rule uses: access to the analysed program and a report of obligations."""
import sys
from fractions import Fraction

import engine
import models
import terms
from terms import *

PROVEN, REFUTED, UNDECIDED = "proven", "refuted", "undecided"
RULES = {}


def rule(pid, nan=False):
    def deco(f):
        RULES[pid] = (f, nan)
        return f
    return deco


class Ob:
    def __init__(self, key, status, what, where=""):
        self.key, self.status, self.what, self.where = key, status, what, where


class Missing(Exception):
    """a public function the property is about does not exist"""


class Ctx:
    def __init__(self, doc):
        self.doc = doc
        self.obs = []
        self.functions = set()
        self.callsites = 0
        self.memo = {}
        self.notes = []
        self.facts = doc["facts"]
        self.explain = ""

    # ---- program access
    def roots(self, pred):
        return [r for r in self.doc["roots"] if pred(r)]

    def root(self, path, generic=True):
        """the function with exactly this path"""
        rs = [r for r in self.doc["roots"] if r["path"] == path and (not generic or r["generic"])]
        if not rs:
            rs = [r for r in self.doc["roots"] if r["path"] == path]
        if not rs:
            raise Missing(path)
        return rs[0]

    def public(self, name, module):
        """the public generic function called `name` somewhere below `module`"""
        rs = [r for r in self.doc["roots"] if r["public"] and r["path"].split("::")[-1] == name
              and r["path"].lstrip("<").startswith("crate::" + module) and "_precision::" not in r["path"]]
        if not rs:
            raise Missing("%s::%s" % (module, name))
        return rs[0]

    def run(self, r, opaque=(), opts=None):
        o = {"opaque": tuple(opaque)}
        o.update(opts or {})
        k = (r["key"], tuple(sorted((a, str(b)) for a, b in o.items())))
        if k not in self.memo:
            x = engine.analyse(r, models.M, o)
            self.memo[k] = x
            for b in r["bodies"].values():
                self.functions.add(b["path"])
            self.callsites += sum(x.eng.calls.values())
        return self.memo[k]

    # ---- obligations
    def ob(self, key, status, what, where=""):
        self.obs.append(Ob(key, status, what, where))
        return status == PROVEN

    def require(self, key, ok, what, where=""):
        return self.ob(key, PROVEN if ok else REFUTED, what, where)

    def compare(self, key, got, want, what, where="", given=()):
        """got must be the same value as want (where the tests given came out so)"""
        st, why = same(got, want, given)
        if st != PROVEN:
            what = "%s; found %s, expected %s%s" % (what, brief(got), brief(want), "; " + why if why else "")
        return self.ob(key, st, what, where)


def brief(v, n=400):
    s = show(v)
    return s if len(s) <= n else s[:n] + "..."


RAWOPS = {"loop", "lout", "lexit", "called", "callret", "out", "recout", "updseq", "upd", "runext_raw", "filt"}


def unresolved(v, names=()):
    """operations in v whose meaning the normal form does not capture -> set of descriptions"""
    res, seen = set(), set()
    stack = [v]
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op in ("lout", "loop", "lexit", "called", "recout", "rec", "filt", "flat", "inf", "runext_raw"):
            res.add(t.op)
        elif t.op in ("app", "out"):
            nm = t.args[0]
            if isinstance(nm, str) and "::" in nm and not any(n in nm for n in names):
                res.add(nm)
        for a in t.args:
            _push(a, stack)
    return res


def _push(a, stack):
    if isinstance(a, T):
        stack.append(a)
    elif isinstance(a, tuple):
        for x in a:
            _push(x, stack)


def same(got, want, given=()):
    g, w = deep(got), deep(want)
    if g is w:
        return PROVEN, ""
    try:
        if agree(g, w, tuple(given)):
            return PROVEN, ""
    except (OverflowError, RecursionError):
        pass
    u = unresolved(g) - unresolved(w)
    if u:
        return UNDECIDED, "not reduced: " + ", ".join(sorted(u))[:300]
    return REFUTED, ""


def counts(asg):
    """linear rows saying that the tests on counts came out as they did"""
    rows, seen = [], set()
    for a, o in asg:
        if a.op == "geq":
            p = sub(a.args[0], num(a.args[1]))
            rows.append((dict(poly_items(p if o else neg(add(p, ONE)))), False))
    todo = [m for r, _ in rows for m in r if m != ()]
    while todo:
        m = todo.pop()
        if m in seen or len(seen) > 60:
            continue
        seen.add(m)
        new = []
        if all(is_nonneg_atom(a) or e % 2 == 0 for a, e in m):
            new.append(mkpoly({m: Fraction(1)}))
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a.op == "nat":
                new.append(sub(a, a.args[0]))
            if a.op == "rem" and is_nonneg(a.args[0]):
                new.append(sub(a.args[0], a))
                if (const_val(a.args[1]) or 0) > 0:
                    new.append(sub(a.args[1], add(a, ONE)))
        for q in new:
            r = dict(poly_items(q))
            rows.append((r, False))
            todo += [k for k in r if k != ()]
    return rows


def agree(g, w, given=()):
    """the same value on every consistent way through the tests of both"""
    from rules.r_icp import fm
    for asg, a in paths(g, 600):
        asg = given + asg
        rows = counts(asg)
        if rows and not fm(rows):
            continue
        for asg2, b in paths(under_tests(w, asg), 600):
            if a is b:
                continue
            both = asg + asg2
            rows = counts(both)
            if rows and not fm(rows):
                continue
            x, y = under_tests(a, both), under_tests(b, both)
            none = {n: ZERO for n in sizes(both) if not fm(rows + [({((n, 1),): Fraction(1), (): Fraction(-1)}, False)])}
            if none:
                x, y = deep(subst(x, none)), deep(subst(y, none))
            if x is y:
                continue
            if not any(peeled(x, n, k) is peeled(y, n, k) for n in sum_counts(x, y) for k in (False, True)
                       if divides(x, n) or divides(y, n) or not fm(rows + counts_of(n) + [(dict(poly_items(neg(n))), False)])):
                return False
    return True


def divides(t, n):
    """t is a value only if n is not zero"""
    return inv(n) in {a for y in collect(t, lambda y: y.op == "poly") for m, _ in y.args[0] for a, e in m}


def sizes(asg):
    """the counts tested"""
    return {m[0][0] for a, _ in asg if a.op == "geq" for m, _ in poly_items(a.args[0]) if len(m) == 1 and m[0][1] == 1 and is_nonneg_atom(m[0][0])}


def counts_of(n):
    return [({m: Fraction(1)}, False) for m, c in poly_items(n) if m != () and all(is_nonneg_atom(a) or e % 2 == 0 for a, e in m)]


def under_tests(v, asg):
    for a, o in asg:
        v = restrict_atom(v, a, o) if v.op == "ite" else v
    g = tuple((a.args[0], a.args[1], o) for a, o in asg if a.op == "geq")
    return terms._deep(terms.simp_nat(v, g), tuple(asg))


def sum_counts(*ts):
    out = []
    for t in ts:
        for y in collect(t, lambda y: y.op == "sumi"):
            if const_val(y.args[0]) is None and y.args[0] not in out:
                out.append(y.args[0])
    return out[:6]


def peeled(t, n, last):
    """t with the first (or the last) summand of its sums over n elements taken out"""
    memo = {}

    def f(x):
        r = memo.get(x)
        if r is None:
            r = x
            if x.args and x.op not in ("var", "bv", "sym"):
                if x.op == "sumi" and x.args[0] is n:
                    l = f(x.args[1])
                    k = fresh("k", "uint")
                    m = sub(n, ONE)
                    r = add(open1(l, m), sumi(m, l)) if last else add(open1(l, ZERO), sumi(m, lam(k, open1(l, add(k, ONE)))))
                else:
                    r = rebuild(x, f)
            memo[x] = r
        return r
    return f(t)


def first_test(v):
    """a test inside the fields of a constructor / list"""
    if v.op == "ite":
        return v.args[0]
    for x in (v.args[2] if v.op == "con" else v.args if v.op == "list" else ()):
        a = first_test(x) if isinstance(x, T) else None
        if a is not None:
            return a
    return None


def restrict_deep(v, atom, o):
    if v.op == "ite":
        return restrict_atom(v, atom, o) if atom in support(v) else v
    if v.op == "con" and v.args[2]:
        return raw("con", v.args[0], v.args[1], tuple(restrict_deep(x, atom, o) for x in v.args[2]))
    if v.op == "list" and v.args:
        return raw("list", *[restrict_deep(x, atom, o) for x in v.args])
    return v


def paths(v, limit=20000):
    """all (assignment, leaf) of a decision diagram, tests inside constructors included;
    assignment: tuple of (atom, outcome)"""
    out = []

    def go(x, asg):
        if len(out) > limit:
            raise OverflowError
        if x is BOT:
            return
        if x.op == "ite":
            d = dict(asg)
            o = terms._decided(x.args[0], d)
            for oo, y in x.args[1]:
                if o is None or oo == o:
                    go(y, asg + ((x.args[0], oo),))
            return
        a = first_test(x)
        if a is None:
            out.append((asg, x))
            return
        o = terms._decided(a, dict(asg))
        for oo in terms.outcomes(a) if o is None else (o,):
            go(restrict_deep(x, a, oo), asg + ((a, oo),))
    go(v, ())
    return out


def under(v, cnd):
    """v on the inputs satisfying cnd"""
    lits = literals(cnd)
    v = deep(restrict(deep(v), cnd))
    g = tuple((a.args[0], a.args[1], o) for a, o in lits if a.op == "geq")
    return terms._deep(terms.simp_nat(v, g), tuple(lits))


def literals(c):
    """(atom, outcome) pairs that hold whenever c does"""
    out = []
    while c.op == "ite":
        alive = [(o, x) for o, x in c.args[1] if x is not FALSE and x is not BOT]
        if len(alive) != 1:
            break
        out.append((c.args[0], alive[0][0]))
        c = alive[0][1]
    return out


def subst1(t, a, b):
    return subst(t, {a: b})


def contains(t, pred):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if pred(x):
            return True
        for a in x.args:
            _push(a, stack)
    return False


def collect(t, pred):
    seen, out = set(), []
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if pred(x):
            out.append(x)
        for a in x.args:
            _push(a, stack)
    return out


def erase_casts(t, to=None):
    """conversions between numeric types seen as exact"""
    memo = {}

    def f(x):
        if x in memo:
            return memo[x]
        if x.op == "app" and x.args[0] == "cast" and (to is None or x.args[2].args[0] in to):
            r = f(x.args[3])
        elif not x.args:
            r = x
        else:
            r = rebuild(x, f)
        memo[x] = r
        return r
    return f(t)
