"""Great-circle distance and bearing; NaN detection."""
from rules.base import *
from rules.r_cloud import ready

GEO = "geo"
PI = raw("sym", "pi", "num")
TWO_PI = mul(num(2), PI)


# ---------------------------------------------------------------- trigonometric polynomials
def trig(p):
    """normal form of a polynomial in sines and cosines of linear expressions: every product turned into
    sums (unique as a function) -> dict or None"""
    out = {}
    for m, c in poly_items(p):
        cur = {("c", ZERO): c}
        rest = []
        for a, e in m:
            if a.op == "app" and a.args[0] in ("sin", "cos") and a.args[2].op != "ite":
                for _ in range(e):
                    nxt = {}

                    def put(k, x, cf):
                        k, x, cf = unit(k, x, cf)
                        if cf:
                            nxt[(k, x)] = nxt.get((k, x), 0) + cf
                    for (k, x), cf in cur.items():
                        y = a.args[2]
                        h = cf / 2
                        if k == "c" and a.args[0] == "cos":
                            put("c", sub(x, y), h)
                            put("c", add(x, y), h)
                        elif k == "s" and a.args[0] == "sin":
                            put("c", sub(x, y), h)
                            put("c", add(x, y), -h)
                        elif k == "s":
                            put("s", add(x, y), h)
                            put("s", sub(x, y), h)
                        else:
                            put("s", add(x, y), h)
                            put("s", sub(x, y), -h)
                    cur = nxt
            else:
                rest.append((a, e))
        for (k, x), cf in cur.items():
            kk = (k, x, tuple(rest))
            out[kk] = out.get(kk, 0) + cf
    return {k: v for k, v in out.items() if v}


def unit(k, x, cf):
    if x is ZERO:
        return k, x, (0 if k == "s" else cf)
    lead = poly_items(x)[0][1]
    if lead < 0:
        return k, neg(x), (-cf if k == "s" else cf)
    return k, x, cf


def tscale(d, c):
    return {k: v * c for k, v in d.items()}


def tadd(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + v
    return {k: v for k, v in r.items() if v}


TONE = {("c", ZERO, ()): 1}


def hav(a, b):
    deg = mul(PI, num("1/180"))
    dlat = mul(sub(at(b, ZERO), at(a, ZERO)), deg)
    dlon = mul(sub(at(b, ONE), at(a, ONE)), deg)
    s = lambda x: app("sin", "num", x)
    co = lambda x: app("cos", "num", x)
    h = lambda x: mul(s(mul(x, num("1/2"))), s(mul(x, num("1/2"))))
    return add(h(dlat), mul(h(dlon), mul(co(mul(at(a, ZERO), deg)), co(mul(at(b, ZERO), deg)))))


def factor(v, x):
    """v = x * rest -> rest, or None"""
    r = ZERO
    for m, c in poly_items(v):
        d = dict(m)
        if d.get(x, 0) != 1:
            return None
        r = add(r, mkpoly({tuple((a, e) for a, e in m if a is not x): c}))
    return r


def angle_apps(v):
    return collect(v, lambda y: y.op == "app" and y.args[0] in ("atan2", "asin", "acos", "atan"))


def sqarg(t):
    """t = sqrt(q) -> q;  0 -> 0, 1 -> 1"""
    if t.op == "app" and t.args[0] == "sqrt":
        return t.args[2]
    c = const_val(t)
    if c is not None:
        return num(c * c)
    return None


@rule("G02")
def g02(c):
    """The distance as a symbolic value; its angle is reduced to the squared half-chord and compared, as a
    trigonometric polynomial with all products turned into sums, with the haversine."""
    r = c.public("calculate_haversine_distance", GEO)
    x = c.run(r)
    w = r["span"]
    key = "calculate_haversine_distance/"
    if not ready(c, x, key[:-1], w):
        return
    a, b, rad = x.args[:3]
    h = hav(a, b)
    th = trig(h)
    v = deep(x.ret)
    live = 0
    for asg, leaf in paths(v):
        # in exact arithmetic the haversine is within [0, 1]
        skip, odd, at0, at1 = False, [], False, False
        for t, o in asg:
            q = trig(t.args[0]) if t.op == "sign" else None
            rel = relation(q, th) if q is not None else None
            if rel is None:
                odd.append((t, o))
                continue
            kind, s = rel
            z = o if s > 0 else {"-": "+", "+": "-"}.get(o, o)
            if z == "-":
                skip = True
            if z == "0":
                at0 = at0 or kind == "h"
                at1 = at1 or kind == "1-h"
        if skip:
            continue
        live += 1
        st, why = angle_is(leaf, rad, th, at0, at1)
        if st == REFUTED and odd and any(o == "0" for _, o in odd):
            st = UNDECIDED
        if st == REFUTED and any(unresolved(t) for t, _ in odd):
            st = UNDECIDED
        c.ob(key + "formula", st, "the distance is 2*r*asin(sqrt(haversine)); " + why, w)
    if not live:
        c.ob(key + "formula", UNDECIDED, "no feasible path", w)


def relation(q, th):
    """q is a positive or negative multiple of h or 1-h"""
    one_h = tadd(TONE, tscale(th, -1))
    for kind, t in (("h", th), ("1-h", one_h)):
        if set(q) == set(t):
            rs = {q[k] / t[k] for k in q}
            if len(rs) == 1:
                return kind, rs.pop()
    return None


def angle_is(leaf, rad, th, at0, at1):
    if leaf is ZERO and at0:
        return PROVEN, ""
    if at1 and leaf is mul(PI, rad):
        return PROVEN, ""
    f = factor(leaf, rad)
    u = unresolved(leaf)
    if f is None:
        return (UNDECIDED if u else REFUTED), "it is not proportional to the radius: " + brief(leaf)
    apps = angle_apps(f)
    apps = [t for t in apps if any(m == ((t, 1),) for m, _ in poly_items(f))]
    if len(apps) != 1:
        return (UNDECIDED if u or unknown_app(f) else REFUTED), "the central angle is " + brief(f)
    t = apps[0]
    k = factor(f, t)
    k = const_val(k) if k is not None else None
    one_h = tadd(TONE, tscale(th, -1))
    eq = lambda q, w: q is not None and trig(q) == w
    c = lambda n: at0 and False

    def isq(q, wh):
        if q is None:
            return False
        cv = const_val(q)
        if cv is not None:
            return (wh == "h" and ((cv == 0 and at0) or (cv == 1 and at1))) or (wh == "1-h" and ((cv == 1 and at0) or (cv == 0 and at1)))
        return trig(q) == (th if wh == "h" else one_h)
    nm = t.args[0]
    if k is None:
        return (UNDECIDED if u else REFUTED), "the central angle is " + brief(f)
    if nm == "atan2":
        ok = k == 2 and isq(sqarg(t.args[2]), "h") and isq(sqarg(t.args[3]), "1-h")
    elif nm == "asin":
        ok = k == 2 and isq(sqarg(t.args[2]), "h")
    elif nm == "acos":
        ok = (k == 2 and isq(sqarg(t.args[2]), "1-h")) or (k == 1 and trig(t.args[2]) == tadd(TONE, tscale(th, -2)))
    else:
        q = sqarg(t.args[2])
        ok = False
        if q is not None and k == 2:
            invs = {y for m, _ in poly_items(q) for y, e in m if y.op == "inv"}
            if len(invs) == 1:
                i = invs.pop()
                nu = factor(q, i)
                ok = nu is not None and relation(trig(nu), th) and trig(i.args[0]) is not None and same_ratio(trig(nu), th, trig(i.args[0]), one_h)
    if ok:
        return PROVEN, ""
    return (UNDECIDED if u or unknown_app(f) else REFUTED), "the central angle is " + brief(f)


def same_ratio(a, ta, b, tb):
    if set(a) != set(ta) or set(b) != set(tb):
        return False
    rs = {a[k] / ta[k] for k in a} | {b[k] / tb[k] for k in b}
    return len(rs) == 1


KNOWN_APPS = {"sin", "cos", "sqrt", "atan2", "asin", "acos", "atan", "tan"}


def unknown_app(v):
    """operations this rule has no theory for"""
    return bool(collect(v, lambda y: y.op == "app" and y.args[0] not in KNOWN_APPS))


# ---------------------------------------------------------------- G01: domains under rounding
@rule("G01")
def g01(c):
    """Domain analysis of every partial operation (square root, arc sine/cosine) on every path: its operand
    must be bounded by a test on that path (a clamp) or be a sum of squares; facts that only hold in exact
    arithmetic, such as sin^2+... <= 1, are not used.  The result's range follows from the angle function."""
    r = c.public("calculate_haversine_distance", GEO)
    x = c.run(r)
    w = r["span"]
    key = "calculate_haversine_distance/"
    if not ready(c, x, key[:-1], w):
        return
    rad = x.args[2]
    v = deep(x.ret)
    for asg, leaf in paths(v):
        facts = [(t.args[0], o) for t, o in asg if t.op == "sign"]
        desc = "; ".join("sign of %s is %s" % (brief(q, 60), o) for q, o in facts) or "no test"
        u = unresolved(leaf)
        for t in collect(leaf, lambda y: y.op == "app" and y.args[0] in ("sqrt", "asin", "acos", "ln", "log", "powf")):
            nm, q = t.args[0], t.args[2]
            if nm == "sqrt":
                ok = at_least(q, facts, 0)
            elif nm in ("asin", "acos"):
                ok = at_least(add(q, ONE), facts, 0) and at_least(sub(ONE, q), facts, 0)
            else:
                ok = False
            c.ob(key + "domain/" + nm, PROVEN if ok else UNDECIDED if u or unknown_app(q) else REFUTED,
                 "the operand of %s is kept in its domain under rounding; it is %s on the path with %s" % (nm, brief(q, 200), desc), w)
        f = factor(leaf, rad)
        if f is None:
            cv = const_val(leaf)
            c.ob(key + "range", PROVEN if cv == 0 or leaf is mul(PI, rad) else UNDECIDED, "the distance is " + brief(leaf), w)
            continue
        st, why = angle_range(f, facts)
        c.ob(key + "range", st if not u else UNDECIDED if st == REFUTED else st, "the central angle is between zero and pi; " + why, w)


def at_least(q, facts, depth):
    """q >= 0 on the path, also with rounding"""
    c = const_val(q)
    if c is not None:
        return c >= 0
    for p, o in facts:
        r = sub(q, p)
        if o in ("0", "+") and (r is ZERO or (const_val(r) or -1) >= 0):
            return True
        r = add(q, p)
        if o in ("0", "-") and (r is ZERO or (const_val(r) or -1) >= 0):
            return True
        # a positive multiple
        ip, iq = dict(poly_items(p)), dict(poly_items(q))
        if set(ip) == set(iq):
            rs = {iq[m] / ip[m] for m in ip}
            if len(rs) == 1:
                s = rs.pop()
                if (s > 0 and o in ("0", "+")) or (s < 0 and o in ("0", "-")):
                    return True
    if all(cf > 0 and all(e % 2 == 0 or nonneg_atom(a) for a, e in m) for m, cf in poly_items(q)):
        return True
    # 1 - sqrt(y): from 1 - y
    items = dict(poly_items(q))
    c0 = items.pop((), None)
    if depth == 0 and c0 is not None and c0 > 0 and len(items) == 1:
        (m, cf), = items.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "app" and m[0][0].args[0] == "sqrt" and cf < 0:
            k = c0 / -cf
            return at_least(sub(num(k * k), m[0][0].args[2]), facts, 1)
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "app" and m[0][0].args[0] in ("sin", "cos") and abs(cf) <= c0:
            return True
    return False


def nonneg_atom(a):
    return is_nonneg_atom(a) or (a.op == "app" and a.args[0] in ("sqrt", "hypot")) or a is PI


def angle_range(f, facts):
    if const_val(f) is not None and 0 <= const_val(f) <= 3:
        return PROVEN, ""
    apps = [t for t in angle_apps(f) if f is mul(num(1), t) or any(m == ((t, 1),) for m, _ in poly_items(f))]
    if len(apps) != 1 or len(poly_items(f)) != 1:
        return (UNDECIDED if angle_apps(f) else REFUTED), "it is " + brief(f)
    t = apps[0]
    k = const_val(factor(f, t))
    if k is None or k < 0:
        return REFUTED, "it is " + brief(f)
    nm = t.args[0]
    if nm == "atan2":
        y, x = t.args[2], t.args[3]
        yp, xp = at_least(y, facts, 0), at_least(x, facts, 0)
        top = 0.5 if xp else 1
        low = yp
        if not yp:
            return REFUTED, "the first operand of the arc tangent may be negative: " + brief(y, 200)
    elif nm == "asin":
        top, low = 0.5, at_least(t.args[2], facts, 0)
    elif nm == "acos":
        top, low = (0.5 if at_least(t.args[2], facts, 0) else 1), True
    else:
        top, low = 0.5, at_least(t.args[2], facts, 0)
    if not low:
        return UNDECIDED, "it may be negative: " + brief(f)
    return (PROVEN, "") if k * top <= 1 else (REFUTED, "it reaches %s pi: %s" % (k * top, brief(f)))


# ---------------------------------------------------------------- bearing
@rule("G03")
def g03(c):
    """Interval analysis of the bearing (bounds as multiples of pi, ends closed by rounding on addition,
    a remainder by the full turn excludes it): the result must lie in [0, 2 pi) on every path."""
    r = c.public("calculate_sphere_bearing", GEO)
    terms.MODE["fl"] = True         # sums are not re-associated here: their rounding matters
    x = c.run(r, opts={"fl": True})
    w = r["span"]
    key = "calculate_sphere_bearing/"
    if not ready(c, x, key[:-1], w):
        return
    for asg, leaf in paths(deep(x.ret)):
        iv = interval(leaf, [(t.args[0], o) for t, o in asg if t.op == "sign"])
        if iv is None:
            c.ob(key + "range", UNDECIDED if unresolved(leaf) or unknown_app2(leaf) else REFUTED, "the bearing is in [0, 2 pi); it is " + brief(leaf), w)
            continue
        lo, lc, hi, hc = iv
        ok = lo >= 0 and (hi < 2 or (hi == 2 and not hc))
        c.ob(key + "range", PROVEN if ok else REFUTED, "the bearing is in [0, 2 pi); computed range is %s%s pi, %s pi%s" % ("[" if lc else "(", lo, hi, "]" if hc else ")"), w)


def unknown_app2(v):
    return bool(collect(v, lambda y: y.op == "app" and y.args[0] not in KNOWN_APPS | {"frem", "rem_euclid", "fladd"}))


def interval(v, facts):
    """(lo, closed, hi, closed) in multiples of pi, or None"""
    if const_val(v) == 0:
        return (0, True, 0, True)
    items = dict(poly_items(v))
    k = items.pop(((PI, 1),), 0)
    c0 = items.pop((), 0)
    if c0:
        return None
    if not items:
        return (k, True, k, True)
    if len(items) != 1:
        return None
    (m, cf), = items.items()
    if len(m) != 1 or m[0][1] != 1:
        return None
    a = m[0][0]
    iv = atom_interval(a, facts)
    if iv is None:
        return None
    for q, o in facts:
        # sign of a (+ const*pi)
        qi = dict(poly_items(q))
        kk = qi.pop(((PI, 1),), 0)
        if len(qi) == 1 and list(qi)[0] == ((a, 1),):
            s = qi[((a, 1),)]
            b = -kk / s
            oo = o if s > 0 else {"-": "+", "+": "-"}.get(o, o)
            lo, lc, hi, hc = iv
            if oo == "-" and b <= hi:
                hi, hc = b, False
            elif oo == "+" and b >= lo:
                lo, lc = b, False
            elif oo == "0":
                lo = hi = b
                lc = hc = True
            iv = (lo, lc, hi, hc)
    lo, lc, hi, hc = iv
    if cf < 0:
        lo, lc, hi, hc = -hi, hc, -lo, lc
        cf = -cf
    if cf != 1:
        lo, hi = lo * cf, hi * cf
        lc = hc = True
    if k:
        lo, hi = lo + k, hi + k
        lc = hc = True          # adding may round onto the end
    return lo, lc, hi, hc


def atom_interval(a, facts):
    if a.op == "app":
        nm = a.args[0]
        if nm == "atan2":
            return (-1, True, 1, True)
        if nm in ("asin", "atan"):
            return (Fraction(-1, 2), True, Fraction(1, 2), True)
        if nm == "acos":
            return (0, True, 1, True)
        if nm == "fladd":
            i, j = interval(a.args[2], facts), interval(a.args[3], facts)
            return None if i is None or j is None else (i[0] + j[0], True, i[2] + j[2], True)
        if nm in ("frem", "rem_euclid"):
            d = dict(poly_items(a.args[3]))
            mk = d.pop(((PI, 1),), 0)
            if d or mk <= 0:
                return None
            if nm == "rem_euclid":
                return (0, True, mk, True)      # a tiny negative operand rounds up to the modulus
            iv = interval(a.args[2], facts)
            if iv is None:
                return (-mk, False, mk, False)
            lo, lc, hi, hc = iv
            return (0 if lo >= 0 else max(-mk, lo), True, mk if hi >= mk else hi, False if hi >= mk else hc)
    return None


@rule("G04")
def g04(c):
    """The bearing modulo a full turn as an arc tangent of two trigonometric polynomials, compared in
    product-to-sum normal form with the forward azimuth."""
    r = c.public("calculate_sphere_bearing", GEO)
    x = c.run(r)
    w = r["span"]
    key = "calculate_sphere_bearing/"
    if not ready(c, x, key[:-1], w):
        return
    a, b = x.args[:2]
    deg = mul(PI, num("1/180"))
    s = lambda t: app("sin", "num", t)
    co = lambda t: app("cos", "num", t)
    la, lb, dl = mul(at(a, ZERO), deg), mul(at(b, ZERO), deg), mul(sub(at(b, ONE), at(a, ONE)), deg)
    S = trig(mul(s(dl), co(lb)))
    C = trig(sub(mul(co(la), s(lb)), mul(s(la), mul(co(lb), co(dl)))))
    for asg, leaf in paths(deep(x.ret)):
        v = leaf
        turns = 0
        for _ in range(5):
            v, t = strip(v)
            turns += t
            n = v.args[2] if v.op == "app" and v.args[0] in ("frem", "rem_euclid") and v.args[3] is TWO_PI else None
            if n is None:
                break
            v = n
        st, why = PROVEN, ""
        if v.op == "app" and v.args[0] == "atan2":
            y, z = trig(v.args[2]), trig(v.args[3])
            sg = 1 if turns % 2 == 0 else -1
            if turns.denominator != 1 or not positive_multiple(y, z, tscale(S, sg), tscale(C, sg)):
                st, why = REFUTED, "found " + brief(leaf, 700)
        else:
            st, why = REFUTED, "found " + brief(leaf, 700)
        if st == REFUTED and (unresolved(leaf) or unknown_app2(leaf) or any(unresolved(t) for t, _ in asg) or any(o == "0" for _, o in asg)):
            st = UNDECIDED
        c.ob(key + "formula", st, "the bearing is, up to full turns, atan2(sin(dlon)cos(lat2), cos(lat1)sin(lat2)-sin(lat1)cos(lat2)cos(dlon)); " + why, w)


def strip(v):
    """v = rest + t*pi"""
    items = dict(poly_items(v))
    t = Fraction(items.pop(((PI, 1),), 0))
    return mkpoly(items), t


def positive_multiple(y, z, S, C):
    if set(y) != set(S) or set(z) != set(C):
        return False
    rs = {y[k] / S[k] for k in y} | {z[k] / C[k] for k in z}
    return len(rs) == 1 and rs.pop() > 0


# ---------------------------------------------------------------- NaN detection
INTS = ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize")


@rule("Y01", nan=True)
def y01(c):
    """Every implementation of the NaN test as a value: constant false for the integers, true exactly where
    the operand compares unordered with itself for the floats; all fourteen primitive types have one."""
    impls = [i for i in c.facts["impls"] if (i.get("trait_path") or "").split("::")[-1] == "IsNan"]
    if not impls:
        raise Missing("types::IsNan")
    by = {i["self"]: i for i in impls}
    for ty in INTS + ("f32", "f64"):
        if ty not in by:
            c.ob("IsNan/" + ty, REFUTED, "the NaN test is available for " + ty)
            continue
        it = [q for q in by[ty]["items"] if q.split("::")[-1] == "is_nan"]
        rs = [r for r in c.doc["roots"] if it and r["path"] == it[0]]
        if not rs:
            c.ob("IsNan/" + ty, UNDECIDED, "no body for the NaN test of " + ty, by[ty]["span"])
            continue
        x = c.run(rs[0])
        if not ready(c, x, "IsNan/" + ty, rs[0]["span"]):
            continue
        want = FALSE if ty in INTS else cmp_sign(x.args[0], "u")
        got = deep(x.ret)
        c.compare("IsNan/" + ty, got, want, "the NaN test of %s is exact" % ty, rs[0]["span"])
