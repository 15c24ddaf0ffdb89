"""Hash-consed value terms: polynomials, gated (decision-diagram) values, sequences, binders.

A value is either a leaf term or an `ite` node testing one atom.  Atoms are tested in one global
order, so two values built differently but choosing the same leaf on every outcome of the same
atoms are the same object.  BOT is "unreachable here" (don't care).
"""
import sys
from fractions import Fraction

sys.setrecursionlimit(20000)
_tab = {}


class T:
    __slots__ = ("op", "args", "id", "h", "bot", "_sup", "_fv")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


def _height(a):
    if isinstance(a, T):
        return a.h
    if isinstance(a, tuple):
        return max((_height(x) for x in a), default=0)
    return 0


def _bot(a):
    if isinstance(a, T):
        return a.bot
    if isinstance(a, tuple):
        return any(_bot(x) for x in a)
    return False


def raw(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is None:
        t = T.__new__(T)
        t.op, t.args, t.id = op, args, len(_tab) + 1
        t.h = max([_height(a) for a in args] + [0])
        if op == "mlam":
            t.h = max(t.h, args[0])
        t.bot = op == "bot" or (op == "ite" and any(_bot(v) for _, v in args[1]))
        t._sup = None
        t._fv = None
        _tab[key] = t
    return t


TRUE = raw("b", 1)
FALSE = raw("b", 0)
BOT = raw("bot")
UNIT = raw("con", "()", "", ())


def boolean(x):
    return TRUE if x else FALSE


# ---------------------------------------------------------------- ite / MDD
def is_ite(v):
    return v.op == "ite"


def outcomes(atom):
    if atom.op == "sign":
        return ("-", "0", "+", "u") if atom.args[1] else ("-", "0", "+")
    if atom.op == "discr":
        return atom.args[1]
    if atom.op == "lexit":
        return tuple(range(atom.args[1]))
    return (True, False)


def support(v):
    """atoms tested by the decision diagram of v"""
    if v.op != "ite":
        return frozenset()
    if v._sup is None:
        s = {v.args[0]}
        for _, x in v.args[1]:
            s |= support(x)
        v._sup = frozenset(s)
    return v._sup


_unify_memo = {}


def unify(a, b):
    """merge two values where BOT is don't care; None when they conflict"""
    if a is b or b is BOT:
        return a
    if a is BOT:
        return b
    if not (a.bot or b.bot):
        return None
    k = (a, b) if a.id < b.id else (b, a)
    if k in _unify_memo:
        return _unify_memo[k]
    tops = [x.args[0] for x in (a, b) if is_ite(x)]
    r = None
    if tops:
        t = min(tops)
        brs, ok = [], True
        for o in outcomes(t):
            u = unify(cof(a, t, o), cof(b, t, o))
            if u is None:
                ok = False
                break
            brs.append((o, u))
        if ok:
            r = node(t, tuple(brs))
    _unify_memo[k] = r
    return r


_assume_memo = {}


def assume_related(v, atom, out):
    """simplify v knowing that integer-threshold atom `atom` has outcome `out`"""
    if atom.op != "geq" or v.op != "ite":
        return v
    L, c = atom.args
    rel = [a for a in support(v) if a.op == "geq" and a.args[0] is L and a is not atom]
    rel = [a for a in rel if (out and a.args[1] <= c) or (not out and a.args[1] >= c)]
    for a in rel:
        v = restrict_atom(v, a, out)
    return v


_ra_memo = {}


def restrict_atom(v, atom, out):
    if v.op != "ite" or atom not in support(v):
        return v
    k = (v, atom, out)
    r = _ra_memo.get(k)
    if r is None:
        if v.args[0] is atom:
            r = dict(v.args[1])[out]
        else:
            r = node(v.args[0], tuple((o, restrict_atom(x, atom, out)) for o, x in v.args[1]))
        _ra_memo[k] = r
    return r


def node(atom, brs):
    """brs: tuple of (outcome, value) with all tops > atom"""
    if atom.op == "geq":
        brs = tuple((o, assume_related(x, atom, o)) for o, x in brs)
    vals = [x for _, x in brs]
    f = vals[0]
    if all(x is f for x in vals):
        return f
    if any(x.bot for x in vals):
        u = BOT
        for x in vals:
            u = unify(u, x)
            if u is None:
                break
        if u is not None:
            return u
    return raw("ite", atom, brs)


def cof(v, atom, o):
    if v.op == "ite" and v.args[0] is atom:
        for oo, x in v.args[1]:
            if oo == o:
                return x
        raise KeyError(o)
    return v


_lift_memo = {}


def lift(name, f, *vals):
    """apply leaf function f to gated values; `name` identifies f for memoisation (None: no memo)"""
    if not any(v.op == "ite" for v in vals):
        if any(v is BOT for v in vals):
            return BOT
        return f(*vals)
    key = (name, vals) if name is not None else None
    if key is not None:
        r = _lift_memo.get(key)
        if r is not None:
            return r
    t = min(v.args[0] for v in vals if v.op == "ite")
    brs = [(o, lift(name, f, *[cof(v, t, o) for v in vals])) for o in outcomes(t)]
    # results may have introduced smaller atoms: use the general constructor
    r = ite(t, dict(brs))
    if key is not None:
        _lift_memo[key] = r
    return r


_ite_memo = {}


def ite(atom, brs):
    """general: brs maps every outcome to a (possibly gated) value"""
    items = tuple((o, brs[o]) for o in outcomes(atom))
    key = (atom, items)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    tops = [v.args[0] for _, v in items if v.op == "ite"]
    t = min(tops + [atom])
    if t is atom:
        r = node(atom, tuple((o, cof(v, atom, o)) for o, v in items))
    else:
        r = node(t, tuple((oo, ite(atom, {o: cof(v, t, oo) for o, v in items})) for oo in outcomes(t)))
    _ite_memo[key] = r
    return r


def cond(c, a, b):
    """c: gated boolean"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c is BOT:
        return BOT
    if c.op != "ite":
        c = ite(c, {True: TRUE, False: FALSE})
    return lift3("cond", c, a, b)


def lift3(name, c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c is BOT:
        return BOT
    if a is b:
        return a
    key = (name, c, a, b)
    r = _lift_memo.get(key)
    if r is not None:
        return r
    if c.op != "ite":
        c = ite(c, {True: TRUE, False: FALSE})
    t = min(v.args[0] for v in (c, a, b) if v.op == "ite")
    r = node(t, tuple((o, lift3(name, cof(c, t, o), cof(a, t, o), cof(b, t, o))) for o in outcomes(t)))
    _lift_memo[key] = r
    return r


def restrict(v, c):
    """v under care set c"""
    if c is TRUE or v.op != "ite" or not (support(v) & related(c)):
        return v
    return cond(c, v, BOT)


def related(c):
    s = support(c)
    Ls = {a.args[0] for a in s if a.op == "geq"}
    if not Ls:
        return s
    return _Rel(s, Ls)


class _Rel:
    def __init__(self, s, Ls):
        self.s, self.Ls = s, Ls

    def __rand__(self, other):
        return [a for a in other if a in self.s or (a.op == "geq" and a.args[0] in self.Ls)]


def join(a, b):
    """values known to be live under disjoint conditions"""
    if a is b or b is BOT:
        return a
    if a is BOT:
        return b
    u = unify(a, b)
    if u is not None:
        return u
    return None


def NOT(a):
    return cond(a, FALSE, TRUE)


def AND(*xs):
    r = TRUE
    for x in xs:
        r = cond(x, r, FALSE) if x is not TRUE else r
    return r


def OR(*xs):
    r = FALSE
    for x in xs:
        r = cond(x, TRUE, r)
    return r


def pred(name, *args):
    """opaque boolean of leaf args"""
    return ite(raw("pred", name, *args), {True: TRUE, False: FALSE})


def leaves(v, acc=None):
    """set of leaves of a gated value"""
    if acc is None:
        acc = {}
    if v.op == "ite":
        for _, x in v.args[1]:
            leaves(x, acc)
    else:
        acc[v] = True
    return list(acc)


_dsup_memo = {}


def dsup(v):
    """atoms tested anywhere in v's decision diagram or in the fields of its constructors"""
    r = _dsup_memo.get(v)
    if r is None:
        s = set()
        if v.op == "ite":
            s.add(v.args[0])
            for _, x in v.args[1]:
                s |= dsup(x)
        elif v.op == "con":
            for x in v.args[2]:
                s |= dsup(x)
        elif v.op == "list":
            for x in v.args:
                s |= dsup(x)
        r = _dsup_memo[v] = frozenset(s)
    return r


_deep_memo = {}


_nat_memo = {}


def nats(v):
    """truncated subtractions in v"""
    r = _nat_memo.get(v)
    if r is None:
        r = frozenset([v]) if v.op == "nat" else frozenset()
        for a in v.args:
            r |= _nats_arg(a)
        _nat_memo[v] = r
    return r


def _nats_arg(a):
    if isinstance(a, T):
        return nats(a)
    r = frozenset()
    if isinstance(a, tuple):
        for x in a:
            r |= _nats_arg(x)
    return r


def simp_nat(v, facts=()):
    """resolve truncated subtractions by the integer tests on the way to them"""
    ns = nats(v)
    if not ns:
        return v
    m = {}
    for t in ns:
        q = t.args[0]
        for L, c, o in facts:
            if o:          # L >= c
                d = sub(q, sub(L, num(c)))
                if d.op != "ite" and is_nonneg(d):
                    m[t] = q
            else:          # L <= c-1
                d = sub(num(c - 1), L)
                e = neg(add(q, d))
                if e.op != "ite" and is_nonneg(e):
                    m[t] = ZERO
    if m:
        v = subst(v, m)
    if v.op == "ite":
        a = v.args[0]
        if a.op == "geq":
            return ite(a, {o: simp_nat(x, facts + ((a.args[0], a.args[1], o),)) for o, x in v.args[1]})
        return ite(a, {o: simp_nat(x, facts) for o, x in v.args[1]})
    if v.op == "con" and v.args[2]:
        return raw("con", v.args[0], v.args[1], tuple(simp_nat(x, facts) for x in v.args[2]))
    return v


def deep(v):
    return _deep(simp_nat(v))


def _deep(v, asg=()):
    """drop from constructor fields every test already decided on the way to them"""
    asg = tuple(x for x in asg if x[0] in dsup(v) or (x[0].op == "geq" and any(
        a.op == "geq" and a.args[0] is x[0].args[0] for a in dsup(v))))
    key = (v, asg)
    r = _deep_memo.get(key)
    if r is not None:
        return r
    if v.op == "ite":
        a = v.args[0]
        d = dict(asg)
        o = _decided(a, d)
        if o is not None:
            r = _deep(dict(v.args[1])[o], asg)
        else:
            r = ite(a, {o: _deep(x, asg + ((a, o),)) for o, x in v.args[1]})
    elif v.op == "con" and v.args[2]:
        r = raw("con", v.args[0], v.args[1], tuple(_deep(x, asg) for x in v.args[2]))
    elif v.op == "list" and v.args:
        r = raw("list", *[_deep(x, asg) for x in v.args])
    else:
        r = v
    _deep_memo[key] = r
    return r


def _decided(a, d):
    if a in d:
        return d[a]
    if a.op == "geq":
        L, c = a.args
        for x, o in d.items():
            if x.op == "geq" and x.args[0] is L:
                if o and x.args[1] >= c:
                    return True
                if not o and x.args[1] <= c:
                    return False
    return None


# ---------------------------------------------------------------- polynomials
def num(c):
    c = Fraction(c)
    return raw("poly", () if c == 0 else (((), c),))


ZERO = num(0)
ONE = num(1)


def poly_items(t):
    if t.op == "poly":
        return t.args[0]
    return ((((t, 1),), Fraction(1)),)


def mkpoly(d):
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda mc: tuple((a.id, e) for a, e in mc[0])))
    if len(items) == 1:
        m, c = items[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return raw("poly", items)


def const_val(t):
    if t.op == "poly":
        if not t.args[0]:
            return Fraction(0)
        if len(t.args[0]) == 1 and t.args[0][0][0] == ():
            return t.args[0][0][1]
    return None


def _padd(a, b):
    d = dict(poly_items(a))
    for m, c in poly_items(b):
        d[m] = d.get(m, 0) + c
    return mkpoly(d)


def _mmul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    # x * inv(x) = 1
    out = {}
    for a, e in d.items():
        out[a] = e
    for a in list(out):
        if a.op == "inv" and a in out:
            base = a.args[0]
            if base in out:
                k = min(out[a], out[base])
                out[a] -= k
                out[base] -= k
    return tuple(sorted(((a, e) for a, e in out.items() if e), key=lambda x: x[0].id))


def _pmul(a, b):
    ca, cb = const_val(a), const_val(b)
    if ca is not None and ca == 1:
        return b
    if cb is not None and cb == 1:
        return a
    d = {}
    for m1, c1 in poly_items(a):
        for m2, c2 in poly_items(b):
            m = _mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    sq = [m for m in d if any(x.op == "app" and x.args[0] == "sqrt" and e > 1 for x, e in m)]
    r = {m: c for m, c in d.items() if m not in sq}
    r = mkpoly(r)
    for m in sq:
        t = mkpoly({tuple((x, e % 2 if x.op == "app" and x.args[0] == "sqrt" else e) for x, e in m
                          if not (x.op == "app" and x.args[0] == "sqrt" and e % 2 == 0)): d[m]})
        for x, e in m:
            if x.op == "app" and x.args[0] == "sqrt":
                for _ in range(e // 2):
                    t = mul(t, x.args[2])
        r = add(r, t)
    return r


def _pinv(a):
    c = const_val(a)
    if c is not None and c != 0:
        return num(1 / c)
    if a.op == "poly":
        items = a.args[0]
        if len(items) == 1:
            m, c = items[0]
            r = num(1 / c)
            for at, e in m:
                i = at.args[0] if at.op == "inv" else raw("inv", at)
                for _ in range(e):
                    r = _pmul(r, i)
            return r
        if not items:
            return raw("inv", a)
        lead = items[0][1]
        return _pmul(num(1 / lead), raw("inv", mkpoly({m: c / lead for m, c in items})))
    if a.op == "inv":
        return a.args[0]
    return raw("inv", a)


NUMERIC_LEAF = {"con", "b", "seq", "list", "cat", "mlam", "mref"}


def add(a, b):
    return lift("add", _padd, a, b)


def neg(a):
    return lift("neg", lambda x: _pmul(num(-1), x), a)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    return lift("mul", _pmul, a, b)


def inv(a):
    return lift("inv", _pinv, a)


def div(a, b):
    return mul(a, inv(b))


def addn(*xs):
    r = ZERO
    for x in xs:
        r = add(r, x)
    return r


# ---------------------------------------------------------------- comparisons
def is_nonneg_atom(a):
    if a.op in ("len", "nat", "imin", "rem", "count", "first", "lcnt"):
        return True
    return shape(a) == "uint"


def is_nonneg(p):
    return all(c >= 0 and all(is_nonneg_atom(a) or (e % 2 == 0) for a, e in m) for m, c in poly_items(p))


_flip = {"-": "+", "+": "-", "0": "0", "u": "u"}


def _sign_leaf(p):
    """gated sign: returns ite over sign atom with con leaves sgn:-,0,+,u"""
    c = const_val(p)
    if c is not None:
        return raw("sg", "-" if c < 0 else "+" if c > 0 else "0")
    items = poly_items(p)
    if len(items) == 2 and items[0][1] == -items[1][1] and all(
            len(m) == 1 and m[0][1] == 1 and m[0][0].op == "app" and m[0][0].args[0] == "sqrt" for m, _ in items):
        # the square root is monotone
        return sign(mul(num(items[0][1]), sub(items[0][0][0][0].args[2], items[1][0][0][0].args[2])))
    lead = items[0][1]
    q = mkpoly({m: cc / lead for m, cc in items})
    at = raw("sign", q, MODE["nan"])
    fl = lead < 0
    sq = signed(q)
    if sq is not None:
        return raw("sg", _flip[sq] if fl else sq)
    return ite(at, {o: raw("sg", _flip[o] if fl else o) for o in outcomes(at)})


def signed(q):
    return None


def sign(p):
    return lift(("sign", MODE["nan"]), _sign_leaf, p)


MODE = {"nan": True}


def cmp_sign(p, outs):
    s = sign(p)
    return lift(("sgsel", outs), lambda g: boolean(g.args[0] in outs), s)


def real_cmp(op, a, b):
    outs = {"lt": "-", "le": "-0", "gt": "+", "ge": "0+", "eq": "0", "ne": "-+u"}[op]
    return lift(("sgsel", outs), lambda g: boolean(g.args[0] in outs), sign2(a, b))


def sign2(a, b):
    """the outcome of comparing two numbers"""
    if not MODE["nan"]:
        return sign(sub(a, b))

    def f(x, y):
        p = sub(x, y)
        if const_val(p) == 0 and const_val(x) is None:      # a number compared with itself
            return lift("selfcmp", lambda g: g if g.args[0] == "u" else raw("sg", "0"), sign(x))
        return sign(p)
    return lift("sign2", f, a, b)


def _geq0(p):
    """integer p >= 0 as gated bool"""
    c = const_val(p)
    if c is not None:
        return boolean(c >= 0)
    items = dict(poly_items(p))
    k = items.pop((), Fraction(0))
    if not items:
        return boolean(k >= 0)
    if k >= 0 and is_nonneg(p):
        return TRUE
    if is_nonneg(neg(add(p, ONE))):
        return FALSE
    for m, cc in items.items():
        # the index an arg-min picks lies in the range searched
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "argf" and abs(cc) == 1:
            lo, hi = argf_range(m[0][0])
            if lo is None:
                continue
            rest = sub(p, mul(num(cc), m[0][0]))
            if is_nonneg_k(add(rest, lo if cc > 0 else neg(hi))):
                return TRUE
    lin = mkpoly(items)
    # canonical orientation: leading coefficient positive
    lead = poly_items(lin)[0][1]
    if lead < 0:
        L = _pmul(num(-1), lin)
        # p = -L + k >= 0  <=>  L <= k  <=> not (L >= k+1)
        at = raw("geq", L, k + 1)
        if is_nonneg(L) and k + 1 <= 0:
            return FALSE
        if L.op == "rem" and const_val(L.args[1]) is not None and k + 1 >= const_val(L.args[1]):
            return TRUE
        return ite(at, {True: FALSE, False: TRUE})
    if lin.op == "rem" and const_val(lin.args[1]) is not None and -k >= const_val(lin.args[1]):
        return FALSE
    at = raw("geq", lin, -k)
    return ite(at, {True: TRUE, False: FALSE})


def is_nonneg_k(p):
    c = const_val(p)
    return c >= 0 if c is not None else is_nonneg(p)


def argf_range(g):
    """(lowest, highest) value of an arg-min whose value is the index itself, shifted by a constant"""
    val, n = g.args[4], g.args[2]
    if val.op not in ("lam", "mlam"):
        return None, None
    k = const_val(sub(open1(val, ZERO), ZERO)) if shape(open1(val, ZERO)) in ("num", "int", "uint") or const_val(open1(val, ZERO)) is not None else None
    if k is None:
        return None, None
    f = fresh("i", "uint")
    if open1(val, f) is not add(f, num(k)):
        return None, None
    return num(k), add(n, num(k - 1))


def geq0(p):
    return lift("geq0", _geq0, p)


def int_cmp(op, a, b):
    if op == "ge":
        return geq0(sub(a, b))
    if op == "gt":
        return geq0(sub(sub(a, b), ONE))
    if op == "le":
        return geq0(sub(b, a))
    if op == "lt":
        return geq0(sub(sub(b, a), ONE))
    e = AND(int_cmp("ge", a, b), int_cmp("le", a, b))
    return e if op == "eq" else NOT(e)


# ---------------------------------------------------------------- binders
_fresh = [0]


def fresh(tag="v", shape=None):
    _fresh[0] += 1
    return raw("var", "%s%d" % (tag, _fresh[0]), shape)


def shape(t):
    """static shape of a value: 'num' 'uint' 'int' 'bool', ('vec', n, elem), ('slice', elem) or None"""
    op = t.op
    if op in ("var", "sym"):
        return t.args[1]
    if op == "bv":
        return t.args[2]
    if op == "fld":
        return t.args[3]
    if op in ("app", "rec"):
        return t.args[1]
    if op in ("lout", "recout", "out"):
        return t.args[2]
    if op == "at":
        return elem_shape(shape(t.args[0]))
    if op == "upd":
        return shape(t.args[0])
    if op == "seq":
        return ("vec", t.args[0], shape(t.args[1].args[2][0]))
    if op == "list":
        return ("vec", num(len(t.args)), shape(t.args[0]) if t.args else None)
    if op in ("len", "nat", "imin", "first", "rem"):
        return "uint"
    if op == "ite":
        for x in leaves(t):
            if x is not BOT:
                return shape(x)
    if op == "b":
        return "bool"
    if op in ("sorted", "updseq"):
        return shape(t.args[0])
    if op in ("minf", "maxf"):
        return "num"
    if op == "flat":
        e = elem_shape(elem_shape(shape(t.args[0])))
        return ("slice", e) if e else None
    if op == "argf":
        return t.args[5]
    if op == "poly":
        return "num"
    return None


def elem_shape(s):
    if isinstance(s, tuple):
        return s[2] if s[0] == "vec" else s[1]
    return None


def mlam(vs, bodies):
    """close bodies (tuple) over vs"""
    h = 1 + max([b.h for b in bodies] + [0])
    m = {v: raw("bv", h, j, v.args[1]) for j, v in enumerate(vs)}
    return raw("mlam", h, tuple(v.args[1] for v in vs), tuple(subst(b, m) for b in bodies))


def lam(v, body):
    return mlam((v,), (body,))


def open_mlam(l, args):
    h, shapes, bodies = l.args
    assert len(args) == len(shapes)
    m = {raw("bv", h, j, shapes[j]): a for j, a in enumerate(args)}
    return tuple(subst(b, m) for b in bodies)


def open1(l, x):
    return open_mlam(l, (x,))[0]


def free_of(t, vs, memo=None):
    vs = set(vs)
    return not (freevars(t) & vs)


def freevars(t):
    if t._fv is None:
        s = set()
        if t.op in ("var", "bv", "sym"):
            s.add(t)
        for a in t.args:
            _fv_into(a, s)
        t._fv = frozenset(s)
    return t._fv


def _fv_into(a, s):
    if isinstance(a, T):
        s |= freevars(a)
    elif isinstance(a, tuple):
        for x in a:
            _fv_into(x, s)


def subst(t, m, memo=None):
    if not m:
        return t
    if memo is None:
        memo = {}
    keys = frozenset(m)
    return _subst(t, m, keys, memo)


def _subst(t, m, keys, memo):
    r = m.get(t)
    if r is not None:
        return r
    if not (freevars(t) & keys):
        # non-variable keys are supported too (rare): fall through only if requested
        if not any(k.op not in ("var", "bv", "sym") for k in keys):
            return t
    r = memo.get(t)
    if r is not None:
        return r
    r = rebuild(t, lambda x: _subst(x, m, keys, memo))
    memo[t] = r
    return r


def _map_arg(a, f):
    if isinstance(a, T):
        return f(a)
    if isinstance(a, tuple):
        return tuple(_map_arg(x, f) for x in a)
    return a


def rebuild(t, f):
    op = t.op
    if op == "ite":
        at = t.args[0]
        vals = {o: f(x) for o, x in t.args[1]}
        return ite_on(at, f, vals)
    if op == "poly":
        r = ZERO
        for m, c in t.args[0]:
            x = num(c)
            for a, e in m:
                fa = f(a)
                for _ in range(e):
                    x = mul(x, fa)
            r = add(r, x)
        return r
    if op == "mlam":
        # open with fresh variables first: nothing can be captured
        vs = tuple(fresh("v", _map_arg(sh, f)) for sh in t.args[1])
        return mlam(vs, tuple(f(b) for b in open_mlam(t, vs)))
    mk = SMART.get(op)
    args = tuple(_map_arg(a, f) for a in t.args)
    if mk and op != "app":
        return mk(*args)
    if op in LIFTED:
        return app_raw(op, *args)
    return raw(op, *args)


def ite_on(at, f, vals):
    """rebuild a test of atom `at` (after mapping f) choosing among vals"""
    if at.op == "sign":
        s = sign(f(at.args[0]))
        return _choose(s, lambda g: vals[g.args[0]])
    if at.op == "geq":
        g = geq0(sub(f(at.args[0]), num(at.args[1])))
        return cond(g, vals[True], vals[False])
    if at.op == "discr":
        v = f(at.args[0])
        return _choose(v, lambda x: _discr_leaf(x, at.args[1], vals))
    if at.op == "pred":
        g = SMARTPRED.get(at.args[0])
        args = tuple(_map_arg(a, f) for a in at.args[1:])
        if g:
            c = g(*args)
        else:
            c = pred_l(at.args[0], *args)
        return cond(c, vals[True], vals[False])
    if at.op == "exists":
        n, l = f(at.args[0]), f(at.args[1])
        return cond(exists(n, l), vals[True], vals[False])
    if at.op == "lexit":
        nt = raw("lexit", f(at.args[0]), at.args[1])
        return ite(nt, vals)
    if at.op in ("var", "bv", "sym", "fld", "at", "lout", "app", "rec", "recout", "out"):
        c = f(at) if at.op in ("var", "bv", "sym") else rebuild(at, f)
        return cond(as_bool(c), vals[True], vals[False])
    nt = raw(at.op, *tuple(_map_arg(a, f) for a in at.args))
    return ite(nt, vals)


def as_bool(c):
    """an opaque boolean-valued leaf becomes a test of itself"""
    def leaf(x):
        if x.op in ("b", "bot"):
            return x
        return ite(x, {True: TRUE, False: FALSE})
    return _choose(c, leaf)


def _choose(v, leaf):
    if v.op == "ite":
        return ite(v.args[0], {o: _choose(x, leaf) for o, x in v.args[1]})
    if v is BOT:
        return BOT
    return leaf(v)


def _discr_leaf(x, variants, vals):
    if x.op == "con":
        return vals[x.args[1]] if x.args[1] in vals else BOT
    return ite(raw("discr", x, variants), vals)


def match(v, variants, brs):
    """brs: variant -> value or callable(leaf)"""
    def leaf(x):
        def g(b):
            return b(x) if callable(b) else b
        if x.op == "con":
            return g(brs[x.args[1]])
        return ite(raw("discr", x, tuple(variants)), {o: g(brs[o]) for o in variants})
    return _choose(v, leaf)


SMARTPRED = {}


def pred_l(name, *args):
    """predicate with gated args lifted"""
    targs = [a for a in args if isinstance(a, T)]
    if any(a.op == "ite" for a in targs):
        return lift(("pred", name, tuple(a if not isinstance(a, T) else None for a in args)),
                    lambda *xs: pred(name, *_weave(args, xs)), *targs)
    return pred(name, *args)


def _weave(args, xs):
    it = iter(xs)
    return tuple(next(it) if isinstance(a, T) else a for a in args)


LIFTED = set()


def app_raw(op, *args):
    """build op(args) lifting gated Term args (top-level args only)"""
    targs = [a for a in args if isinstance(a, T)]
    if any(a.op == "ite" or a is BOT for a in targs):
        shape = tuple(None if isinstance(a, T) else a for a in args)
        mk = SMART.get(op)
        return lift(("app", op, shape), lambda *xs: (mk(*_weave(args, xs)) if mk else raw(op, *_weave(args, xs))), *targs)
    return raw(op, *args)


def app(name, shp, *args):
    return app_raw("app", name, shp, *args)


def mkapp(name, shp, *args):
    r = raw("app", name, shp, *args)
    return as_bool(r) if shp == "bool" else r


def con(ty, variant, *fields):
    return raw("con", ty, variant, tuple(fields))


def con_lift(ty, variant, *fields):
    return con(ty, variant, *fields)


def NONE():
    return con("Option", "None")


def SOME(x):
    return con("Option", "Some", x)


def tup(*xs):
    return con("tuple", "", *xs)


def _fld_leaf(v, variant, i, kind):
    if v.op == "con":
        if v.args[1] != variant and variant not in ("", None) and v.args[1] != "":
            return BOT
        if i >= len(v.args[2]):
            return BOT
        return v.args[2][i]
    if v is BOT:
        return BOT
    r = raw("fld", v, variant, i, kind)
    return as_bool(r) if kind == "bool" else r


def fld(v, variant, i, kind=None):
    return _choose(v, lambda x: _fld_leaf(x, variant or "", i, kind))


# ---------------------------------------------------------------- sequences
INF = raw("inf")


# ---------------------------------------------------------------- maps
def map_get(m, key, dflt):
    """the value stored for key, dflt when there is none (BOT: known to be stored)"""
    def leaf(x):
        if x.op == "mupd" and x.args[1] is key:
            return x.args[2]
        if x.op == "con" and x.args[1] == "emptymap":
            return dflt
        return raw("mget", x, key, dflt)
    return _choose(m, leaf)


def map_has(m, key):
    def leaf(x):
        if x.op == "mupd" and x.args[1] is key:
            return TRUE
        if x.op == "con" and x.args[1] == "emptymap":
            return FALSE
        return ite(raw("pred", "mhas", x, key), {True: TRUE, False: FALSE})
    return _choose(m, leaf)


def map_upd(m, key, v):
    def leaf(x):
        return raw("mupd", x.args[0] if x.op == "mupd" and x.args[1] is key else x, key, v)
    return _choose(m, leaf)


def length(s):
    return _choose(s, _len_leaf)


def _len_leaf(s):
    op = s.op
    if op == "seq":
        return s.args[0]
    if op == "list":
        return num(len(s.args))
    if op == "cat":
        return addn(*[length(x) for x in s.args])
    if op in ("upd", "updseq"):
        return length(s.args[0])
    if op == "sorted":
        return length(s.args[0])
    if op == "groupkeys":
        return length(raw("groupvals", s.args[0]))
    if op == "filt":
        n, g, _ = s.args
        v = fresh("v", "uint")
        return sumi(n, lam(v, cond(open1(g, v), ONE, ZERO)))
    sh = shape(s)
    if isinstance(sh, tuple) and sh[0] == "vec":
        return sh[1]
    return raw("len", s)


def at(s, i):
    return lift("at", _at_leaf, s, i)


def _at_leaf(s, i):
    op = s.op
    if op == "seq":
        return open1(s.args[1], i)
    if op == "list":
        c = const_val(i)
        if c is not None:
            c = int(c)
            return s.args[c] if 0 <= c < len(s.args) else BOT
        if len(s.args) == 1:
            return s.args[0]
        if 0 < len(s.args) <= 4:
            r = s.args[-1]
            for j in range(len(s.args) - 2, -1, -1):
                r = cond(int_cmp("eq", i, num(j)), s.args[j], r)
            return r
    if op == "upd":
        e = int_cmp("eq", i, s.args[1])
        return cond(e, s.args[2], at(s.args[0], i))
    if op == "updseq":
        b, a, n, l = s.args
        inn = AND(int_cmp("ge", i, a), int_cmp("lt", i, add(a, n)))
        return cond(inn, open1(l, i) if inn is not FALSE else BOT, at(b, i) if inn is not TRUE else BOT)
    if op == "cat":
        first = s.args[0]
        n = length(first)
        rest = cat(*s.args[1:])
        c = int_cmp("lt", i, n)
        a = at(first, i) if c is not FALSE else BOT
        b = at(rest, sub(i, n)) if c is not TRUE else BOT
        return cond(c, a, b)
    r = raw("at", s, i)
    return as_bool(r) if elem_shape(shape(s)) == "bool" else r


def mkseq(n, l):
    """sequence of n elements, l: lam index -> elem"""
    if n.op == "ite":
        return _choose(n, lambda x: mkseq(x, l))
    c = const_val(n)
    if c is not None and 0 <= c <= 4:
        return mklist(*[open1(l, num(j)) for j in range(int(c))])
    # eta
    h, shs, (body,) = l.args
    bv = raw("bv", h, 0, shs[0])
    if body.op == "at" and body.args[1] is bv:
        s = body.args[0]
        if bv not in freevars(s) and length(s) is n:
            return s
    # gates independent of the index move outside
    if body.op == "ite":
        a0 = body.args[0]
        if bv not in freevars(a0):
            return ite(a0, {o: mkseq(n, raw_lam(bv, x)) for o, x in body.args[1]})
    return raw("seq", n, l)


def raw_lam(bv, body):
    # re-close body whose bound variable is bv
    v = fresh("v", bv.args[2])
    return lam(v, subst(body, {bv: v}))


def mklist(*xs):
    # eta for fixed lists
    if len(xs) > 1 and all(x.op == "at" for x in xs):
        s = xs[0].args[0]
        if all(x.args[0] is s and const_val(x.args[1]) == j for j, x in enumerate(xs)):
            if const_val(length(s)) == len(xs):
                return s
    return raw("list", *xs)


def cat(*ss):
    out = []
    for s in ss:
        if s.op == "ite":
            return lift(("cat", len(ss)), lambda *xs: cat(*xs), *ss)
        if s.op == "cat":
            out.extend(s.args)
        elif s.op == "list" and not s.args:
            continue
        elif s.op == "list" and out and out[-1].op == "list":
            out[-1] = raw("list", *(out[-1].args + s.args))
        else:
            out.append(s)
    if not out:
        return raw("list")
    if len(out) == 1:
        return out[0]
    return raw("cat", *out)


def subseq(s, a, n):
    """n elements of s from a"""
    v = fresh("v", "uint")
    return _choose(s, lambda x: x if (a is ZERO and n is length(x)) else mkseq(n, lam(v, at(x, add(v, a)))))


def upd(s, i, val):
    def leaf(x, j):
        if x.op == "list":
            c = const_val(j)
            if c is not None and 0 <= c < len(x.args):
                a = list(x.args)
                a[int(c)] = val
                return raw("list", *a)
        if x.op == "upd" and x.args[1] is j:
            return upd(x.args[0], j, val)
        if val.op == "at" and val.args[0] is x and val.args[1] is j:
            return x
        return raw("upd", x, j, val)
    if val.op == "ite" and any(True for _ in (1,)):
        # gates on the written value move outside (also shares an unchanged branch)
        return _choose(val, lambda x: upd(s, i, x))
    return lift(None, leaf, s, i)


def imin(a, b):
    if a is b:
        return a
    if a is INF:
        return b
    if b is INF:
        return a
    d = sub(a, b)
    c = const_val(d)
    if c is not None:
        return a if c <= 0 else b
    if is_nonneg(d):
        return b
    if is_nonneg(neg(d)):
        return a
    return app_raw("imin", *sorted((a, b)))


def nat(p):
    def leaf(q):
        c = const_val(q)
        if c is not None:
            return num(max(c, 0))
        if is_nonneg(q):
            return q
        return raw("nat", q)
    return _choose(p, leaf)


def exists(n, l):
    """gated bool: some k<n with l(k)"""
    if n.op == "ite":
        return _choose(n, lambda x: exists(x, l))
    h, shs, (body,) = l.args
    bv = raw("bv", h, 0, shs[0])
    if body in (TRUE, FALSE):
        if body is FALSE:
            return FALSE
        return int_cmp("ge", n, ONE)
    c = const_val(n)
    if c is not None and 0 <= c <= 4:
        return OR(*[open1(l, num(j)) for j in range(int(c))])
    fl = over_flat(n, bv, body)
    if fl is not None:
        S, i, j, b2 = fl
        return exists(length(S), lam(i, exists(length(at(S, i)), lam(j, b2))))
    rv = reversed_index(n, bv, [body])
    if rv is not None:
        return exists(n, raw_lam(bv, rv[0]))
    if body.op == "ite":
        c = the_one(bv, body)
        if c is not None:
            return AND(int_cmp("ge", c, num(0)), int_cmp("lt", c, n))
        a0 = body.args[0]
        if bv not in freevars(a0):
            return ite(a0, {o: exists(n, raw_lam(bv, x)) for o, x in body.args[1]})
    return ite(raw("exists", n, l), {True: TRUE, False: FALSE})


def the_one(bv, body):
    """c, where body says that the index is c"""
    a = body.args[0]
    if a.op != "geq":
        return None
    d = dict(poly_items(a.args[0]))
    x = d.pop(((bv, 1),), 0)
    if abs(x) != 1:
        return None
    rest = mkpoly(d)
    if bv in freevars(rest):
        return None
    for k in (a.args[1], a.args[1] - 1):
        c = mul(num(x), sub(num(k), rest))
        if int_cmp("eq", bv, c) is body:
            return c
    return None


def over_flat(n, bv, body):
    """n is the length of a flattened sequence S and the body only looks at its elements -> S, hole-body"""
    if n.op != "len" or n.args[0].op != "flat":
        return None
    F = n.args[0]
    S = F.args[0]
    cur = raw("at", F, bv)
    e0 = at(S, fresh("k", "uint"))
    if bv not in freevars(body) or e0.op in ("con", "ite", "app"):
        return None
    i, j = fresh("k", "uint"), fresh("k", "uint")
    b2 = subst(body, {cur: at(at(S, i), j)})
    if bv in freevars(b2):
        return None
    return S, i, j, b2


def forall(n, l):
    v = fresh("v", "uint")
    return NOT(exists(n, lam(v, NOT(open1(l, v)))))


def first(n, l):
    """least k<n with l(k) (only meaningful when one exists)"""
    c = const_val(n)
    if c is not None and 1 <= c <= 4:
        r = num(c - 1)
        for j in range(int(c) - 2, -1, -1):
            r = cond(open1(l, num(j)), num(j), r)
        return r
    h, shs, (body,) = l.args
    if body.op == "ite":
        c = the_one(raw("bv", h, 0, shs[0]), body)
        if c is not None:
            return c
    return raw("first", n, l)


def without_first(n):
    """the length this is one less than; such a count is only formed where the length is not zero"""
    if n.op == "poly":
        d = dict(n.args[0])
        if len(d) == 2 and d.get(()) == -1:
            m = next(m for m in d if m != ())
            if d[m] == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "len":
                return m[0][0]
    return None


def sumi(n, l):
    """sum over k<n of l(k) (numbers)"""
    if n.op == "ite":
        return _choose(n, lambda x: sumi(x, l))
    h, shs, (body,) = l.args
    bv = raw("bv", h, 0, shs[0])
    c = const_val(n)
    if c is not None and 0 <= c <= 4:
        return addn(*[open1(l, num(j)) for j in range(int(c))])
    fl = over_flat(n, bv, body)
    if fl is not None:
        S, i, j, b2 = fl
        return sumi(length(S), lam(i, sumi(length(at(S, i)), lam(j, b2))))
    rv = reversed_index(n, bv, [body])
    if rv is not None:
        return sumi(n, raw_lam(bv, rv[0]))
    whole = without_first(n)
    if whole is not None:
        k, k1 = fresh("k", "uint"), fresh("k", "uint")
        b1 = subst(open1(l, k), {add(k, ONE): k1})
        if k not in freevars(b1) and k1 in freevars(b1):
            l1 = lam(k1, b1)
            return sub(sumi(whole, l1), open1(l1, ZERO))
    if body.op == "ite":
        a0 = body.args[0]
        if bv not in freevars(a0):
            return ite(a0, {o: sumi(n, raw_lam(bv, x)) for o, x in body.args[1]})
        # split off factors that do not depend on the index
        outs = {}
        for lf in leaves(body):
            if lf is BOT:
                continue
            for m, cf in poly_items(lf):
                o = tuple((a, e) for a, e in m if bv not in freevars(a))
                outs[o] = None
        if len(outs) == 1 and () in outs:
            return raw("sumi", n, l)
        r = ZERO
        for o in sorted(outs, key=lambda o: tuple((a.id, e) for a, e in o)):
            def part(lf):
                d = {}
                for m, cf in poly_items(lf):
                    if tuple((a, e) for a, e in m if bv not in freevars(a)) == o:
                        d[tuple((a, e) for a, e in m if bv in freevars(a))] = cf
                return mkpoly(d)
            inn = _choose(body, part)
            r = add(r, mul(mkpoly({o: Fraction(1)}), sumi(n, raw_lam(bv, inn))))
        return r
    r = ZERO
    for m, cf in poly_items(body):
        out = num(cf)
        inn = {}
        for a, e in m:
            if bv in freevars(a):
                inn[a] = e
            else:
                for _ in range(e):
                    out = mul(out, a)
        if not inn:
            r = add(r, mul(out, n))
        else:
            mm = mkpoly({tuple(sorted(inn.items(), key=lambda x: x[0].id)): Fraction(1)})
            r = add(r, mul(out, raw("sumi", n, raw_lam(bv, mm))))
    return r


def runext(kind, init, n, l):
    """min/max of init and l(k) for k<n"""
    if n.op == "ite":
        return _choose(n, lambda x: runext(kind, init, x, l))
    if init.op == "ite":
        return _choose(init, lambda x: runext(kind, x, n, l))
    c = const_val(n)
    if c is not None and 0 <= c <= 4:
        r = init
        for j in range(int(c)):
            x = open1(l, num(j))
            r = _choose(sign(sub(r, x)), lambda g, r=r, x=x: r if g.args[0] in ("-0" if kind == "minf" else "0+") else x)
        return r
    bv = raw("bv", l.args[0], 0, l.args[1][0])
    rv = reversed_index(n, bv, [l.args[2][0]])
    if rv is not None:
        l = raw_lam(bv, rv[0])
    return raw(kind, init, n, l)


def argf(kind, tie, n, key, val, shp):
    """val(k) for the k<n whose key(k) is least/greatest, the first/last of those (n>=1)"""
    c = const_val(n)
    if c is not None and 1 <= c <= 4:
        bk, bv_ = open1(key, ZERO), open1(val, ZERO)
        for j in range(1, int(c)):
            x, y = open1(key, num(j)), open1(val, num(j))
            keep = {"min": "-", "max": "+"}[kind] + ("0" if tie == "first" else "")
            s = sign(sub(bk, x))
            bv_ = _choose(s, lambda g: bv_ if g.args[0] in keep else y)
            bk = _choose(s, lambda g: bk if g.args[0] in keep else x)
        return bv_
    h, shs, (kb,) = key.args
    bv = raw("bv", h, 0, shs[0])
    if kb.op == "app" and kb.args[0] == "sqrt":
        kb = kb.args[2]
        key = raw_lam(bv, kb)
    if kb.op == "poly" and not MODE["nan"]:
        # parts that do not depend on the index and positive factors do not matter
        d = {m: cf for m, cf in poly_items(kb) if any(bv in freevars(a) for a, e in m)}
        if d:
            lead = poly_items(mkpoly(d))[0][1]
            if lead < 0:
                kind = {"min": "max", "max": "min"}[kind]
            key = raw_lam(bv, mkpoly({m: cf / lead for m, cf in d.items()}))
    # counting down is counting up with the ties taken from the other end
    r = reversed_index(n, bv, [open1(key, bv) if False else key.args[2][0], val.args[2][0]] if key.args[0] == val.args[0] else None)
    if r is not None:
        key, val = raw_lam(bv, r[0]), raw_lam(bv, r[1])
        tie = {"first": "last", "last": "first"}[tie]
    return raw("argf", kind, tie, n, key, val, shp)


def index_uses(v, bv):
    """indices into sequences that mention bv"""
    return {t.args[1] for t in _subt(v) if t.op == "at" and bv in freevars(t.args[1])}


def _subt(v):
    seen, st = set(), [v]
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        for a in t.args:
            if isinstance(a, T):
                st.append(a)
            elif isinstance(a, tuple):
                for x in a:
                    if isinstance(x, T):
                        st.append(x)
                    elif isinstance(x, tuple):
                        st.extend(y for y in x if isinstance(y, T))
    return seen


def reversed_index(n, bv, bodies):
    """bodies that only use n-1-bv, rewritten to use bv; None if they are not of that form"""
    if bodies is None or not bodies or n.op == "ite":
        return None
    us = set()
    for b in bodies:
        us |= index_uses(b, bv)
    if not us:
        return None
    back = sub(sub(n, ONE), bv)
    if any(u.op == "ite" or dict(poly_items(u)).get(((bv, 1),)) != -1 for u in us):
        return None
    if not any(u is back for u in us):
        return None
    return [subst(b, {bv: back}) for b in bodies]


def seq_eq(a, b, n):
    v = fresh("v", "uint")
    return forall(n, lam(v, real_cmp("eq", at(a, v), at(b, v))))


SMARTPRED["mhas"] = map_has
SMART = {
    "mget": map_get,
    "mupd": map_upd,
    "app": mkapp,
    "at": at, "len": length, "seq": mkseq, "list": mklist, "cat": cat, "upd": upd, "sumi": sumi,
    "imin": imin, "nat": nat, "inv": inv, "fld": fld,
    "minf": lambda i, n, l: runext("minf", i, n, l), "maxf": lambda i, n, l: runext("maxf", i, n, l),
    "argf": argf, "first": lambda n, l: first(n, l), "filt": lambda n, g, l: raw("filt", n, g, l),
}
LIFTED |= {"app", "cast", "rec", "recout", "out", "rem", "idiv", "sorted"}


# ---------------------------------------------------------------- printing
_show_memo = {}
SHOWMAX = 4000


def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x) for x in t) + ")"
        return str(t)
    r = _show_memo.get(t)
    if r is None:
        r = _show(t)
        if len(r) > SHOWMAX:
            r = r[:SHOWMAX // 2] + "…" + r[-SHOWMAX // 4:]
        _show_memo[t] = r
    return r


def _show(t):
    d = 0
    op, a = t.op, t.args
    if op == "b":
        return "true" if a[0] else "false"
    if op == "bot":
        return "⊥"
    if op == "poly":
        if not a[0]:
            return "0"
        out = []
        for m, c in a[0]:
            f = [show(x, d) + ("^%d" % e if e > 1 else "") for x, e in m]
            if c != 1 or not f:
                f.insert(0, str(c))
            out.append("*".join(f))
        return "(" + " + ".join(out) + ")" if len(out) > 1 else out[0]
    if op == "ite":
        return "{%s ? %s}" % (show(a[0], d), " | ".join("%s:%s" % (o, show(v, d)) for o, v in a[1]))
    if op == "sign":
        return "sgn[%s]" % show(a[0], d)
    if op == "geq":
        return "%s>=%s" % (show(a[0], d), a[1])
    if op == "discr":
        return "discr(%s)" % show(a[0], d)
    if op == "pred":
        return "%s?(%s)" % (a[0], ", ".join(show(x, d) for x in a[1:]))
    if op in ("var", "sym"):
        return str(a[0])
    if op == "bv":
        return "b%d.%d" % a[:2] if a[1] else "b%d" % a[0]
    if op == "mlam":
        return "λ%d/%d.%s" % (a[0], len(a[1]), show(a[2][0], d) if len(a[2]) == 1 else show(a[2], d))
    if op == "con":
        nm = a[1] or a[0]
        if a[0] == "tuple":
            return "(" + ", ".join(show(x, d) for x in a[2]) + ")"
        return nm + ("(" + ", ".join(show(x, d) for x in a[2]) + ")" if a[2] else "")
    if op == "at":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if op == "fld":
        return "%s.%s%s" % (show(a[0], d), (a[1] + "." if a[1] else ""), a[2])
    if op in ("app", "rec"):
        return "%s%s(%s)" % ("rec:" if op == "rec" else "", a[0], ", ".join(show(x, d) for x in a[2:]))
    if op in ("recout", "out"):
        return "%s:%s#%s(%s)" % (op, a[0], a[1], ", ".join(show(x, d) for x in a[3:]))
    if op == "lout":
        return "lout#%s(%s)" % (a[1], show(a[0], d))
    if op == "list":
        return "[" + ", ".join(show(x, d) for x in a) + "]"
    return "%s(%s)" % (op, ", ".join(show(x, d) for x in a))
