"""Gated value-flow graphs from dumped MIR.

For one root function every value reaching its result and its `&mut` parameters is expressed as a
term over its inputs (terms.py).  Branches become gates, loops become recurrences (solved to sums,
quantifiers, maps where the shape allows, else kept as `loop` terms with their exact steps), calls
to functions whose body is available are expanded, recursive calls stay opaque (`rec`)."""
from fractions import Fraction
import re
from terms import *
from terms import _choose


class Unmodelled(Exception):
    pass


SK = {"uint": "uint", "int": "int", "bool": "bool", "float": "num", "param": "num"}


class Types:
    def __init__(self, rows):
        self.r = rows

    def strip(self, i):
        while True:
            t = self.r[i]
            if t["k"] in ("ref", "ptr"):
                i = t["e"]
            elif t["k"] == "adt" and t.get("box"):
                i = t["a"][0]["t"]
            else:
                return i

    def const(self, c):
        if "v" in c:
            return num(int(c["v"]))
        return raw("sym", c["p"], "uint")

    def dim(self, i):
        """value of a nalgebra dimension type"""
        t = self.r[i]
        if t["k"] == "adt" and t["d"].endswith("::Const"):
            return self.const(t["a"][0]["c"])
        return raw("sym", t["s"], "uint")

    def shape(self, i, depth=0):
        if i is None or depth > 6:
            return None
        i = self.strip(i)
        t = self.r[i]
        k = t["k"]
        if k in SK:
            return SK[k]
        if k == "alias":
            return None
        if k == "array":
            return ("vec", self.const(t["n"]), self.shape(t["e"], depth + 1))
        if k == "slice":
            return ("slice", self.shape(t["e"], depth + 1))
        if k == "adt":
            d = t["d"]
            if d.endswith("::OPoint"):
                return ("vec", self.dim(t["a"][1]["t"]), self.shape(t["a"][0]["t"], depth + 1))
            if d.endswith("::XY") or d.endswith("::XYZ"):
                return ("vec", num(2 if d.endswith("XY") else 3), self.shape(t["a"][0]["t"], depth + 1))
            if d.endswith("::matrix::Matrix"):
                r, c = self.dim(t["a"][1]["t"]), self.dim(t["a"][2]["t"])
                e = self.shape(t["a"][0]["t"], depth + 1)
                if c is ONE:
                    return ("vec", r, e)
                return ("vec", c, ("vec", r, e))
            if d.endswith("::ArrayStorage"):
                r, c = self.const(t["a"][1]["c"]), self.const(t["a"][2]["c"])
                return ("vec", c, ("vec", r, self.shape(t["a"][0]["t"], depth + 1)))
            if d.endswith("::Vec") or d.endswith("::VecDeque"):
                return ("slice", self.shape(t["a"][0]["t"], depth + 1))
            if d.endswith("::Translation"):
                return ("vec", self.const(t["a"][1]["c"]), self.shape(t["a"][0]["t"], depth + 1))
        return None

    def kind(self, i):
        """numeric | point | matrix | enum | other, of the stripped type"""
        i = self.strip(i)
        t = self.r[i]
        if t["k"] in ("uint", "int"):
            return "int"
        if t["k"] in ("float", "param"):
            return "real"
        if t["k"] == "bool":
            return "bool"
        if t["k"] == "array":
            return "array"
        if t["k"] == "slice":
            return "slice"
        if t["k"] == "adt":
            d = t["d"]
            if d.endswith("::OPoint"):
                return "point"
            if d.endswith("::matrix::Matrix"):
                return "vector" if self.dim(t["a"][2]["t"]) is ONE else "matrix"
            if d.endswith("::Vec") or d.endswith("::VecDeque"):
                return "slice"
            if t.get("enum"):
                return "enum"
        if t["k"] == "tuple":
            return "tuple"
        return "other"


def short(path):
    """last two path segments without generic arguments; inherent impl blocks are named by their type"""
    p = path
    # <impl X for Y> / <impl Y> / <Y as X>
    out, depth, cur = [], 0, ""
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<":
            depth += 1
            cur += c
        elif c == ">" and not (i > 0 and p[i - 1] == "-"):
            depth -= 1
            cur += c
        elif p.startswith("::", i) and depth == 0:
            out.append(cur)
            cur = ""
            i += 2
            continue
        else:
            cur += c
        i += 1
    out.append(cur)
    out = [s for s in out if not (s.startswith("<") and not s.startswith("<impl") and " as " not in s and len(out) > 1 and s is not out[0])]

    def clean(s):
        m = re.match(r"^<impl (.*)>$", s)
        if m:
            s = m.group(1)
            if " for " in s:
                s = s.split(" for ", 1)[1]
            if s.startswith("["):
                return "slice"
            return clean(re.sub(r"<.*$", "", s).split("::")[-1])
        m = re.match(r"^<(.*) as (.*)>$", s)
        if m:
            return clean(re.sub(r"<.*$", "", m.group(2)).split("::")[-1])
        m = re.match(r"^<(.*)>$", s)
        if m:
            return clean(re.sub(r"<.*$", "", m.group(1)).split("::")[-1])
        return re.sub(r"<.*$", "", s)
    segs = [clean(s) for s in out]
    return "::".join(segs[-2:])


class St:
    """memory: cell -> value"""
    __slots__ = ("c",)

    def __init__(self, c=None):
        self.c = c if c is not None else {}

    def copy(self):
        return St(dict(self.c))


def mux(pairs):
    """value selected by mutually exclusive gated conditions; BOT where none holds"""
    vals = [v for _, v in pairs]
    if all(v is vals[0] for v in vals) and vals[0].op != "ite":
        return vals[0]
    return _mux(tuple(pairs))


_mux_memo = {}


def _mux(pairs):
    pairs = tuple((c, v) for c, v in pairs if c is not FALSE and c is not BOT)
    if not pairs:
        return BOT
    for c, v in pairs:
        if c is TRUE:
            return v
    r = _mux_memo.get(pairs)
    if r is not None:
        return r
    tops = [x.args[0] for c, v in pairs for x in (c, v) if x.op == "ite"]
    t = min(tops)
    r = node(t, tuple((o, _mux(tuple((cof(c, t, o), cof(v, t, o)) for c, v in pairs))) for o in outcomes(t)))
    _mux_memo[pairs] = r
    return r


def merge(inc):
    if len(inc) == 1:
        return inc[0]
    conds = [c for c, _ in inc]
    total = FALSE
    for c in conds:
        total = OR(total, c)
    cells = {}
    for _, s in inc:
        for k in s.c:
            cells[k] = 1
    out = St()
    for k in cells:
        vs = [(c, s.c.get(k, BOT)) for c, s in inc]
        v0 = vs[0][1]
        if all(v is v0 for _, v in vs):
            out.c[k] = v0
        else:
            out.c[k] = mux([(c, v) for c, v in vs if v is not BOT] or [(TRUE, BOT)])
    return total, out


BITS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16}


def wrapped(v, src, dst):
    """an integer converted to a type of 8 or 16 bits, which keeps it only where it is known to be small"""
    if dst in ("i32", "u32") and src in ("i64", "isize", "i128"):
        return _choose(v, lambda x: x if const_val(x) is not None or is_nonneg(x) else app("wrap", "int" if dst[0] == "i" else "uint", raw("str", dst), x))
    if dst not in BITS or BITS.get(src, 64) <= BITS[dst] and src[:1] == dst[:1]:
        return v
    top = 2 ** (BITS[dst] - (dst[0] == "i"))

    def leaf(x):
        k = const_val(x)
        if k is not None:
            return x if -top * (dst[0] == "i") <= k < top else num((int(k) + (top if dst[0] == "i" else 0)) % 2 ** BITS[dst] - (top if dst[0] == "i" else 0))
        if x.op == "rem" and const_val(x.args[1]) is not None and 0 < const_val(x.args[1]) <= top:
            return x
        return app("wrap", "uint" if dst[0] == "u" else "int", raw("str", dst), x)
    return _choose(v, leaf)


class Panic:
    def __init__(self, kind, cnd, fn, span, detail):
        self.kind, self.cond, self.fn, self.span, self.detail = kind, cnd, fn, span, detail
        self.unsigned = False


def filtered_walk(v):
    if v.op == "con" and v.args[:2] == ("it", "seq"):
        q, pos, end = v.args[2]
        if q.op == "filt" and pos is ZERO and end is length(q):
            return con("it", "filtit", q, ZERO, q.args[0])
    return None


class Engine:
    def __init__(self, root, models, opts=None):
        self.root = root
        self.t = Types(root["types"])
        self.bodies = root["bodies"]
        self.models = models
        self.nframe = 0
        self.ncell = 0
        self.stack = []       # instance keys being expanded
        self.paths = []       # path-condition stack
        self.panics = []
        self.reclog = []      # recursive calls: (condition, path, argument values)
        self.carried = {}     # variable a loop changes -> (value before, value after one more pass)
        self.unmodelled = {}
        self.calls = {}
        self.loops = []
        self.sorts = []
        self.fndefs = {}
        self.cfg = {}
        self.where = ("", "")
        self.opts = opts or {}
        self.opaque = tuple(self.opts.get("opaque", ()))
        self.nstmts = 0
        self.events = []
        self.pending_skip = None
        self.log = []         # calls of functions kept opaque: (condition, path, argument values)

    # ------------------------------------------------------------ memory
    def newcell(self, st, v, tag="C"):
        self.ncell += 1
        c = (tag, self.ncell)
        st.c[c] = v
        return c

    def mref(self, cell, path=()):
        return raw("mref", cell, tuple(path))

    def get_path(self, v, path):
        for e in path:
            v = self.proj(v, e)
        return v

    def proj(self, v, e):
        if e.op == "pf":
            return fld(v, e.args[0], e.args[1], e.args[2])
        if e.op == "pi":
            return at(v, e.args[0])
        if e.op == "pk":      # map entry
            return self.map_get(v, e.args[0], e.args[1])
        if e.op == "pid":
            return v
        if e.op == "psub":
            return subseq(v, e.args[0], e.args[1])
        raise Unmodelled("projection " + e.op)

    def map_get(self, m, key, dflt):
        return map_get(m, key, dflt)

    def put_path(self, v, path, new):
        if not path:
            return new
        e, rest = path[0], path[1:]
        if e.op == "pid":
            return self.put_path(v, rest, new)
        if v.op == "ite":
            return ite(v.args[0], {o: self.put_path(x, path, restrict_atom(new, v.args[0], o)) for o, x in v.args[1]})
        if v is BOT:
            return BOT
        if e.op == "pf":
            variant, i, kind = e.args[:3]
            inner = self.put_path(fld(v, variant, i, kind), rest, new)
            return self.set_field(v, variant, i, inner, e)
        if e.op == "pi":
            inner = self.put_path(at(v, e.args[0]), rest, new)
            return upd(v, e.args[0], inner)
        if e.op == "pk":
            inner = self.put_path(self.proj(v, e), rest, new)
            return map_upd(v, e.args[0], inner)
        if e.op == "psub":
            inner = self.put_path(self.proj(v, e), rest, new)
            a, n = e.args
            if a is ZERO and n is length(v):
                return inner
            return cat(subseq(v, ZERO, a), inner, subseq(v, add(a, n), sub(sub(length(v), a), n)))
        raise Unmodelled("write through " + e.op)

    def set_field(self, v, variant, i, new, e):
        if v.op == "con":
            if variant and v.args[1] and v.args[1] != variant:
                return BOT
            f = list(v.args[2])
            while len(f) <= i:
                f.append(BOT)
            f[i] = new
            return raw("con", v.args[0], v.args[1], tuple(f))
        # opaque struct: expand using its registered layout
        lay = self.layout.get((variant or "", e.args[3] if len(e.args) > 3 else None))
        if lay is None:
            raise Unmodelled("field write on opaque value")
        ty, vn, kinds = lay
        f = [fld(v, vn, j, kinds[j]) for j in range(len(kinds))]
        f[i] = new
        return raw("con", ty, vn, tuple(f))

    layout = {}

    def read_ref(self, st, r):
        def leaf(x):
            if x.op == "mref":
                cell, path = x.args
                if cell not in st.c:
                    raise Unmodelled("dangling cell")
                return self.get_path(st.c[cell], path)
            return x
        return _choose(r, leaf)

    def write_ref(self, st, r, new):
        """store new through reference value r (possibly gated)"""
        if r.op == "ite":
            brs = {}
            base = dict(st.c)
            for o, x in r.args[1]:
                s2 = St(dict(base))
                self.write_ref(s2, x, restrict_atom(new, r.args[0], o))
                brs[o] = s2
            keys = set()
            for s2 in brs.values():
                keys |= {k for k in s2.c if s2.c[k] is not base.get(k)}
            for k in keys:
                st.c[k] = ite(r.args[0], {o: s2.c[k] for o, s2 in brs.items()})
            return
        if r is BOT:
            return
        if r.op != "mref":
            raise Unmodelled("write through opaque reference")
        cell, path = r.args
        st.c[cell] = self.put_path(st.c[cell], path, new)

    # ------------------------------------------------------------ places
    def field_elem(self, p, downcast):
        """projection element for MIR field p = ['f', i, ty, name, base]"""
        i, ty, name, base = p[1], p[2], p[3], p[4]
        bt = self.t.r[base]
        if bt["k"] == "adt":
            d = bt["d"]
            if bt.get("box"):
                return raw("pid")
            last = d.split("::")[-1]
            if last in ("BoxRaw", "Unique", "NonNull", "ManuallyDrop", "MaybeDangling"):
                return raw("pid")
            if last == "OPoint" or last == "ArrayStorage":
                return raw("pid")
            if last == "Translation":
                return raw("pid")
            if last == "Isometry" and i == 0:
                return raw("pf", "", 0, None, None)
            if last == "Matrix":
                if name == "data":
                    if self.t.kind(base) == "vector":
                        return raw("pwrap")
                    return raw("pid")
                return raw("pid")
            if last in ("XY", "XYZ", "XYZW"):
                return raw("pi", num(i))
            variants = bt.get("v") or []
            vn = downcast or ""
            kinds = None
            for v in variants:
                if (bt["enum"] and v[0] == vn) or not bt["enum"]:
                    kinds = tuple(self.t.shape(f[1]) for f in v[1])
            if kinds is not None:
                tag = bt["s"]
                self.layout[(vn, tag)] = (last, vn, kinds)
                return raw("pf", vn, i, self.t.shape(ty), tag)
            return raw("pf", vn, i, self.t.shape(ty), None)
        if bt["k"] == "tuple":
            tag = bt["s"]
            kinds = tuple(self.t.shape(f) for f in bt["f"])
            self.layout[("", tag)] = ("tuple", "", kinds)
            return raw("pf", "", i, self.t.shape(ty), tag)
        if bt["k"] == "closure":
            return raw("pf", "", i, self.t.shape(ty), None)
        return raw("pf", downcast or "", i, self.t.shape(ty), None)

    def resolve(self, fr, st, p):
        """-> (cell, path elems) or (None, value) when reached through a by-value reference"""
        cell, path = fr.cell(p[0]), []
        val = None
        down = None
        for e in p[1:]:
            k = e[0]
            if k == "*":
                cur = self.get_path(st.c.get(cell, BOT), path) if val is None else val
                cell, path, val = self.deref(st, cur)
                continue
            if k == "d":
                down = e[1]
                continue
            if k == "f":
                el = self.field_elem(e, down)
                down = None
            elif k == "i":
                el = raw("pi", self.read_local(fr, st, e[1]))
            elif k == "ci":
                cur = self.get_path(st.c.get(cell, BOT), path) if val is None else val
                el = raw("pi", sub(length(cur), num(e[1])) if e[2] else num(e[1]))
            elif k == "sub":
                cur = self.get_path(st.c.get(cell, BOT), path) if val is None else val
                n = length(cur)
                end = sub(n, num(e[2])) if e[3] else num(e[2])
                el = raw("psub", num(e[1]), sub(end, num(e[1])))
            else:
                raise Unmodelled("place projection " + k)
            if el.op == "pid":
                continue
            if val is not None:
                val = self.pwrap(val, el)
            else:
                path.append(el)
        return cell, tuple(path), val

    def pwrap(self, v, el):
        if el.op == "pwrap":
            return _choose(v, lambda x: raw("list", x))
        return self.proj(v, el)

    def deref(self, st, cur):
        if cur.op == "mref":
            return cur.args[0], list(cur.args[1]), None
        if cur.op == "ite" and any(x.op == "mref" for x in leaves(cur)):
            # gated mutable reference: keep it as a reference held in a scratch cell
            self.ncell += 1
            c = ("G", self.ncell)
            st.c[c] = cur
            return c, [raw("pderef")], None
        return None, [], cur

    def read_place(self, fr, st, p):
        cell, path, val = self.resolve(fr, st, p)
        if val is not None:
            return val
        v = st.c.get(cell, BOT)
        for e in path:
            if e.op == "pderef":
                v = self.read_ref(st, v)
            elif e.op == "pwrap":
                v = self.pwrap(v, e)
            else:
                v = self.proj(v, e)
        return v

    def read_local(self, fr, st, l):
        return st.c.get(fr.cell(l), BOT)

    def write_place(self, fr, st, p, new):
        cell, path, val = self.resolve(fr, st, p)
        if val is not None:
            raise Unmodelled("write through shared reference")
        self.store(st, cell, path, new)

    def store(self, st, cell, path, new):
        if path and path[0].op == "pderef":
            g = st.c.pop(cell)
            self.write_ref(st, self.extend_ref(g, path[1:]), new)
            return
        path = tuple(e for e in path if e.op != "pid")
        st.c[cell] = self.put_path(st.c.get(cell, BOT), path, new) if path else new

    def extend_ref(self, g, path):
        def leaf(x):
            if x.op == "mref":
                return raw("mref", x.args[0], x.args[1] + tuple(path))
            raise Unmodelled("gated opaque reference")
        return _choose(g, leaf)

    def ref_place(self, fr, st, p, mut):
        if not mut:
            return self.read_place(fr, st, p)
        cell, path, val = self.resolve(fr, st, p)
        if val is not None:
            return val if not path else None
        if path and path[0].op == "pderef":
            return self.extend_ref(st.c[cell], path[1:])
        return raw("mref", cell, tuple(path))

    # ------------------------------------------------------------ operands
    def const(self, fr, c):
        ti = c["ty"]
        t = self.t.r[ti]
        if "c" in c:
            return self.t.const(c["c"])
        if "f" in c:
            return self.fconst(c["f"])
        if "i" in c:
            if t["k"] == "bool":
                return boolean(int(c["i"]) != 0)
            return num(int(c["i"]))
        if "promoted" in c:
            return self.promoted(c["of"], c["promoted"])
        if "str" in c:
            return raw("str", c["str"])
        if "adtbits" in c or "zst" in c or "fields" in c:
            if t["k"] == "fndef":
                k = "fn:%d" % ti
                self.fndefs[k] = t["callee"]
                return con("fndef", k)
            if t["k"] == "closure":
                self.ckinds[t["key"]] = t
                return con("closure", t["key"])
            if t["k"] == "tuple" and not t["f"]:
                return UNIT
            if t["k"] == "adt" and t.get("enum") and "adtbits" in c and "fields" not in c:
                if c["adtbits"] == "0" and len(t["v"]) == 2 and sorted(len(f) for _, f in t["v"]) == [0, 1]:
                    # niche in a non-null pointer
                    pay = next(f[0][1] for _, f in t["v"] if f)
                    pt = self.t.r[pay] if pay is not None else {"k": "?"}
                    if pt["k"] == "ref" or pt.get("box"):
                        return con(t["d"].split("::")[-1], next(n for n, f in t["v"] if not f))
                for (vn, fs), d in zip(t["v"], t["disc"]):
                    if d == c["adtbits"] and all(not f for _, f in t["v"]):
                        return con(t["d"].split("::")[-1], vn)
            if "fields" in c and t["k"] == "adt":
                fs = tuple(self.const(fr, f) for f in c["fields"])
                vn = t["v"][c.get("variant", 0)][0] if t.get("enum") else ""
                return raw("con", t["d"].split("::")[-1], vn, fs)
            if "fields" in c and t["k"] == "tuple":
                return tup(*[self.const(fr, f) for f in c["fields"]])
            if t["k"] == "adt" and not t.get("enum"):
                return con(t["d"].split("::")[-1], "")
            if t["k"] == "adt" and t.get("enum") and "zst" in c and len(t["v"]) == 1:
                return con(t["d"].split("::")[-1], t["v"][0][0])
        if "uneval" in c:
            return mkapp("const:" + short(c["uneval"]), self.t.shape(ti))
        return raw("konst", str(sorted((k, str(v)) for k, v in c.items() if k != "ty")), t["s"])

    ckinds = {}

    def fconst(self, s):
        if s in ("NaN", "-NaN"):
            return raw("nan")
        if s == "inf":
            return raw("sym", "+inf", "num")
        if s == "-inf":
            return neg(raw("sym", "+inf", "num"))
        v = Fraction(s)
        f = float(v)
        import math
        for mult, tgt in ((1, 1), (2, 2), (Fraction(1, 2), Fraction(1, 2))):
            if abs(f - float(mult) * math.pi) < 1e-6:
                return mul(num(tgt), PI)
        if abs(f - math.pi / 180) < 1e-9:
            return mul(PI, num(Fraction(1, 180)))
        return num(v)

    def promoted(self, key, i):
        b = self.bodies.get(key)
        if b is None:
            return raw("konst", "promoted", key)
        pb = b["promoted"][i]
        st = St()
        r, _ = self.exec_body(pb, [], st, key + "#p%d" % i)
        return r if r is not None else BOT

    def operand(self, fr, st, o):
        if "cp" in o:
            return self.read_place(fr, st, o["cp"])
        if "mv" in o:
            return self.read_place(fr, st, o["mv"])
        if "const" in o:
            return self.const(fr, o["const"])
        if "rtc" in o:
            return FALSE
        raise Unmodelled("operand")

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, r, dty):
        k = r[0]
        if k == "use":
            if "cp" in r[1] and dty is not None and self.t.r[dty].get("box"):
                # a Box is only ever copied in order to dereference it in place
                v = self.ref_place(fr, st, r[1]["cp"], True)
                if v is not None:
                    return v
            return self.operand(fr, st, r[1])
        if k in ("ref", "reborrow"):
            v = self.ref_place(fr, st, r[2], r[1])
            if v is None:
                raise Unmodelled("mutable borrow of a shared value")
            return v
        if k == "repeat":
            v = self.operand(fr, st, r[1])
            n = self.t.const(r[2])
            j = fresh("v", "uint")
            return _choose(v, lambda x: mkseq(n, lam(j, x)))
        if k == "cast":
            return self.cast(r[1], self.operand(fr, st, r[2]), r[3], r[4])
        if k == "bin":
            a, b = self.operand(fr, st, r[2]), self.operand(fr, st, r[3])
            return self.binop(r[1], a, b, r[4])
        if k == "un":
            a = self.operand(fr, st, r[2])
            tk = self.t.r[r[3]]["k"]
            if r[1] == "Not":
                if tk == "bool":
                    return NOT(a)
                return app("bitnot", "int", a)
            if r[1] == "Neg":
                return neg(a)
            if r[1] == "PtrMetadata":
                a = self.read_ref(st, a)
                return length(a)
            raise Unmodelled("unary " + r[1])
        if k == "discr":
            v = self.read_place(fr, st, r[1])
            v = self.read_ref(st, v) if v.op == "mref" else v
            return self.discriminant(v, r[2])
        if k == "agg":
            return self.aggregate(fr, st, r[1], [self.operand(fr, st, o) for o in r[2]])
        raise Unmodelled("rvalue %s" % str(r)[:80])

    def discriminant(self, v, ti):
        t = self.t.r[ti]
        if t["k"] == "adt" and t.get("enum"):
            names = [x[0] for x in t["v"]]
            d = dict(zip(names, t["disc"]))
            return match(v, names, {n: num(int(d[n])) for n in names})
        raise Unmodelled("discriminant of " + t["s"])

    def aggregate(self, fr, st, k, ops):
        if k[0] == "array":
            return mklist(*ops) if ops else raw("list")
        if k[0] == "tuple":
            if not ops:
                return UNIT
            return tup(*ops)
        if k[0] == "closure":
            t = self.t.r[k[1]]
            self.ckinds[t["key"]] = t
            return con("closure", t["key"], *ops)
        if k[0] == "adt":
            _, d, vi, vn, names, ti, fi = k
            last = d.split("::")[-1]
            t = self.t.r[ti]
            if last in ("OPoint", "ArrayStorage"):
                return ops[0]
            if last == "Matrix":
                return self.from_data(ops[0], ti)
            if last in ("XY", "XYZ"):
                return mklist(*ops)
            if t.get("box"):
                return ops[0]
            return con(last, vn if t.get("enum") else "", *ops)
        raise Unmodelled("aggregate " + str(k[0]))

    def from_data(self, v, ti):
        if self.t.kind(ti) == "vector":
            return at(v, ZERO)
        return v

    def cast(self, kind, v, dt, stt):
        if kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "Transmute", "Subtype", "BoxDerefTransmute"):
            return v
        s, d = self.t.r[stt]["k"], self.t.r[dt]["k"]
        if kind == "IntToInt":
            if s == "bool":
                return cond(as_bool(v), ONE, ZERO)
            return wrapped(v, self.t.r[stt]["s"], self.t.r[dt]["s"])
        if kind == "IntToFloat":
            return v
        if kind == "FloatToInt":
            return app("cast", "int", raw("str", self.t.r[dt]["s"]), v)
        if kind == "FloatToFloat":
            if self.t.r[stt]["s"] == self.t.r[dt]["s"]:
                return v
            return app("cast", "num", raw("str", self.t.r[dt]["s"]), v)
        raise Unmodelled("cast " + kind)

    def binop(self, op, a, b, ti):
        k = self.t.kind(ti)
        ov = op.endswith("WithOverflow")
        o = op.replace("WithOverflow", "").replace("Unchecked", "")
        if o in ("Add", "Sub") and k == "real" and MODE.get("fl"):
            return fladd(a, b if o == "Add" else neg(b))
        if o in ("Add", "Sub", "Mul"):
            r = {"Add": add, "Sub": sub, "Mul": mul}[o](a, b)
            if ov:
                return tup(r, FALSE)
            return r
        if o == "Div":
            if k == "int":
                return idiv(a, b)
            return div(a, b)
        if o == "Rem":
            return rem(a, b)
        if o in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.compare(o.lower(), a, b, ti)
        if o == "Cmp":
            return self.ordering(a, b, k)
        if o in ("BitAnd", "BitOr", "BitXor"):
            if k == "bool":
                if o == "BitAnd":
                    return AND(a, b)
                if o == "BitOr":
                    return OR(a, b)
                return cond(a, NOT(b), b)
            if o == "BitAnd" and b is ONE:
                return rem(a, num(2))
            if o == "BitAnd" and a is ONE:
                return rem(b, num(2))
            return app("op:" + o, "uint" if self.t.r[ti]["k"] == "uint" else "int", a, b)
        if o in ("Shl", "Shr"):
            c = None if b.op == "ite" else const_val(b)
            if c is not None and o == "Shl":
                return mul(a, num(2 ** int(c)))
            if c is not None and o == "Shr":
                return idiv(a, num(2 ** int(c)))
            return app("op:" + o, "int", a, b)
        raise Unmodelled("binop " + op)

    def compare(self, o, a, b, ti):
        k = self.t.kind(ti)
        if k == "int":
            return int_cmp(o, a, b)
        if k == "real":
            return real_cmp(o, a, b)
        if k == "bool":
            e = cond(a, b, NOT(b))
            if o == "eq":
                return e
            if o == "ne":
                return NOT(e)
        if o in ("eq", "ne"):
            e = self.equal(a, b, ti)
            return e if o == "eq" else NOT(e)
        raise Unmodelled("comparison %s of %s" % (o, self.t.r[self.t.strip(ti)]["s"]))

    def ordering(self, a, b, k):
        O = lambda v: con("Ordering", v)
        if k == "int":
            return cond(int_cmp("lt", a, b), O("Less"), cond(int_cmp("eq", a, b), O("Equal"), O("Greater")))
        return _choose(sign2(a, b), lambda g: {"-": O("Less"), "0": O("Equal"), "+": O("Greater"), "u": BOT}[g.args[0]])

    def partial_ordering(self, a, b, k):
        if k == "int":
            return _choose(self.ordering(a, b, k), SOME)
        O = lambda v: SOME(con("Ordering", v))
        return _choose(sign2(a, b), lambda g: {"-": O("Less"), "0": O("Equal"), "+": O("Greater"), "u": NONE()}[g.args[0]])

    def equal(self, a, b, ti):
        ti = self.t.strip(ti)
        t = self.t.r[ti]
        k = self.t.kind(ti)
        if k == "int":
            return int_cmp("eq", a, b)
        if k == "real":
            return real_cmp("eq", a, b)
        if k == "bool":
            return cond(a, b, NOT(b))
        if k in ("point", "vector"):
            return seq_eq(a, b, length(a))
        if k == "array":
            return seq_eq_shape(a, b, self.t.shape(ti))
        if k == "tuple":
            r = TRUE
            for i, f in enumerate(t["f"]):
                r = AND(r, self.equal(fld(a, "", i, self.t.shape(f)), fld(b, "", i, self.t.shape(f)), f))
            return r
        if k == "enum":
            names = [x[0] for x in t["v"]]

            def vcase(n, fs):
                def g(x):
                    def g2(y):
                        r = TRUE
                        for i, f in enumerate(fs):
                            if f[1] is None:
                                raise Unmodelled("equality of " + t["s"])
                            sh = self.t.shape(f[1])
                            r = AND(r, self.equal(fld(x, n, i, sh), fld(y, n, i, sh), f[1]))
                        return r
                    return match(b, names, {m: (g2 if m == n else FALSE) for m in names})
                return g
            return match(a, names, {n: vcase(n, fs) for n, fs in t["v"]})
        raise Unmodelled("equality of " + t["s"])

    # ------------------------------------------------------------ control flow
    def graph(self, body):
        g = self.cfg.get(id(body))
        if g is None:
            g = Cfg(body)
            self.cfg[id(body)] = g
        return g

    def exec_body(self, body, args, st, key):
        """run body on args; -> (return value, state) or (None, None) if it never returns"""
        self.nframe += 1
        fr = Frame(self.nframe, body, key)
        for i, a in enumerate(args):
            st.c[fr.cell(i + 1)] = a
        self.stack.append(key)
        saved = self.where
        try:
            g = self.graph(body)
            res = self.region(fr, g, 0, st, None, None)
        finally:
            self.stack.pop()
            self.where = saved
        rets = res["ret"]
        if not rets:
            return None, None
        c, s = merge(rets)
        rv = s.c.get(fr.cell(0), UNIT)
        rv = restrict(rv, c)
        for k in [k for k in s.c if k[0] == "L" and k[1] == fr.id]:
            del s.c[k]
        return rv, s

    def region(self, fr, g, entry, st, header, blocks):
        inc = {entry: [(TRUE, st)]}
        out = {"ret": [], "back": [], "exit": []}
        handled = set()
        for b in g.order:
            if b not in inc or b in handled:
                continue
            if blocks is not None and b not in blocks:
                continue
            c, s = merge(inc.pop(b))
            if c is FALSE:
                continue
            if b in g.loops and b != header:
                lb = g.loops[b]
                handled |= lb
                exits = self.mir_loop(fr, g, b, s, lb, c)
                for (kind, tgt), ce, se in exits:
                    if kind == "ret":
                        out["ret"].append((AND(c, ce), se))
                    else:
                        self.edge(out, inc, g, b, tgt, AND(c, ce), se, header, blocks)
                continue
            self.block(fr, g, b, c, s, out, inc, header, blocks)
        return out

    def edge(self, out, inc, g, src, tgt, c, s, header, blocks):
        if c is FALSE:
            return
        if header is not None and tgt == header:
            out["back"].append((c, s))
        elif blocks is not None and tgt not in blocks:
            out["exit"].append((tgt, c, s))
        else:
            inc.setdefault(tgt, []).append((c, s))

    def block(self, fr, g, b, c, s, out, inc, header, blocks):
        blk = fr.body["blocks"][b]
        s = s.copy()
        for stm in blk["s"]:
            self.nstmts += 1
            if stm[0] == "=":
                self.where = (fr.key, stm[3])
                dty = None
                if len(stm[1]) == 1:
                    dty = fr.body["locals"][stm[1][0]]
                v = self.rvalue(fr, s, stm[2], dty)
                self.write_place(fr, s, stm[1], v)
            elif stm[0] == "setd":
                raise Unmodelled("set discriminant")
            else:
                raise Unmodelled("statement " + str(stm)[:60])
        self.where = (fr.key, blk["sp"])
        t = blk["t"]
        E = lambda tgt, cc, ss: self.edge(out, inc, g, b, tgt, cc, ss, header, blocks)
        k = t[0]
        if k == "goto":
            E(t[1], c, s)
        elif k == "drop":
            E(t[1], c, s)
        elif k == "ret":
            out["ret"].append((c, s))
        elif k == "unreachable":
            pass
        elif k == "switch":
            v = self.operand(fr, s, t[1])
            if self.t.r[t[4]]["k"] == "bool":
                other = c
                for val, tgt in t[2]:
                    cc = v if int(val) else NOT(v)
                    E(tgt, AND(c, cc), s.copy())
                    other = AND(other, NOT(cc))
                E(t[3], other, s)
            else:
                other = c
                for val, tgt in t[2]:
                    cc = int_cmp("eq", v, num(int(val)))
                    E(tgt, AND(c, cc), s.copy())
                    other = AND(other, NOT(cc))
                E(t[3], other, s)
        elif k == "assert":
            v = self.operand(fr, s, t[1])
            ok = v if t[2] else NOT(v)
            ops = [self.operand(fr, s, o) for o in t[4]]
            if t[3] == "bounds":
                ok = int_cmp("lt", ops[0], ops[1])
            elif t[3].startswith("overflow"):
                ok = None
                if t[3] == "overflowSub" and self.unsigned(fr, t[4]):
                    ok = int_cmp("ge", ops[0], ops[1])
            self.assertion(t[3], c, ok, ops)
            self.panics[-1].unsigned = t[3].startswith("overflow") and self.unsigned(fr, t[4])
            E(t[5], c, s)
        elif k == "call":
            r = self.call(fr, s, t, c)
            if r is None:
                return
            v, s = r
            if t[4] is None:
                return
            sk, self.pending_skip = self.pending_skip, None
            if sk is not None:
                # an element rejected by a filter: straight back to the loop header
                if header is None:
                    raise Unmodelled("filtered iterator advanced outside a loop header")
                out["back"].append((AND(c, sk[0]), sk[1]))
                c = AND(c, sk[2])
            self.write_place(fr, s, t[3], v)
            E(t[4], c, s)
        elif k == "unwind":
            pass
        else:
            raise Unmodelled("terminator " + str(t)[:60])

    def unsigned(self, fr, ops):
        for o in ops:
            p = o.get("cp") or o.get("mv")
            if p and len(p) == 1:
                return self.t.r[fr.body["locals"][p[0]]]["k"] == "uint"
            if "const" in o:
                return self.t.r[o["const"]["ty"]]["k"] == "uint"
        return False

    def assertion(self, kind, c, ok, detail=()):
        """ok: gated bool that must hold when c does (None: overflow style, decided by rules)"""
        if ok is TRUE:
            self.panics.append(Panic(kind, FALSE, self.where[0], self.where[1], tuple(detail)))
            return
        bad = AND(c, NOT(ok)) if ok is not None else c
        full = bad
        for p in reversed(self.paths):
            full = AND(p, full)
        self.panics.append(Panic(kind, full, self.where[0], self.where[1], tuple(detail)))

    def panic(self, kind, c, detail=()):
        self.assertion(kind, c, FALSE, detail)

    # ------------------------------------------------------------ calls
    def call(self, fr, st, t, c):
        callee, args_o, dst, tgt, atys, dty = t[1], t[2], t[3], t[4], t[5], t[6]
        args = [self.operand(fr, st, o) for o in args_o]
        if "dyn" in callee:
            f = self.operand(fr, st, callee["dyn"])
            return self.call_value(st, f, args, self.t.shape(dty), c)
        return self.invoke(st, callee, args, atys, dty, c)

    def invoke(self, st, callee, args, atys, dty, c=TRUE):
        path = callee["path"]
        sn = short(path)
        self.calls[callee.get("rpath") or path] = self.calls.get(callee.get("rpath") or path, 0) + 1
        if self.is_tracing(callee, atys):
            # spans and events only watch: what they yield is one value nobody but them can use
            k = self.t.kind(dty) if dty is not None else ""
            return app("tracing", "bool" if k == "bool" else None), st
        args = [self.through(st, a, ti) for a, ti in zip(args, atys)] if len(args) == len(atys) else args
        call = Call(self, callee, sn, args, atys, dty, c)
        m = self.models.get(sn)
        if m is None and "rpath" in callee:
            m = self.models.get("r:" + short(callee["rpath"]))
        if m is not None:
            r = m(call, st)
            if r is not NotImplemented:
                return r
        if callee.get("ctor"):
            ti = self.t.strip(dty)
            ty = self.t.r[ti]
            last = ty["d"].split("::")[-1]
            if last == "ArrayStorage" or last == "OPoint":
                return args[0], st
            vn = sn.split("::")[-1] if ty.get("enum") else ""
            return con(last, vn, *args), st
        key = callee.get("key")
        if key in self.bodies and self.is_opaque(key):
            return self.opaque_call(st, callee, self.bodies[key]["path"], args, dty, True, c)
        if key in self.bodies:
            body = self.bodies[key]
            if body.get("closure"):
                # closure invoked through Fn* traits with a tuple of arguments
                return self.call_closure_body(st, key, args[0], self.untuple(args[1], body["argc"] - 1), c)
            if key in self.stack:
                return self.recursive(st, key, args, atys, dty)
            self.paths.append(c)
            try:
                v, s2 = self.exec_body(body, args, st, key)
            finally:
                self.paths.pop()
            if v is None:
                return None
            return v, s2
        if sn.split("::")[0] in ("FnOnce", "FnMut", "Fn") and sn.split("::")[1].startswith("call"):
            a = args[1]
            n = len(self.t.r[atys[1]]["f"])
            return self.call_value(st, args[0], self.untuple(a, n), self.t.shape(dty), c)
        if (callee.get("trait") or "").startswith("crate::") and "rpath" not in callee and args and not any(a.op == "mref" for a in args):
            # a method of one of the crate's own traits, for an implementation not known here
            return app(sn.split("::")[-1], self.t.shape(dty) if dty is not None else None, *args), st
        return self.opaque_call(st, callee, sn, args, dty)

    def is_tracing(self, callee, atys):
        if not any((callee.get(k) or "").startswith("tracing") for k in ("krate", "rkrate")) \
                and not (callee.get("rpath") or "").startswith("<tracing"):
            return False
        # a closure or a mutable borrow handed over could do anything
        return not any(self.t.r[ti]["k"] == "closure" or (self.t.r[ti]["k"] == "ref" and self.t.r[ti].get("m")) for ti in atys)

    def through(self, st, a, ti):
        """a reference to a matrix view held in a variable is a reference to what it views"""
        if a.op == "mref" and ti is not None and self.t.kind(ti) in ("vector", "matrix"):
            for _ in range(3):
                v = self.read_ref(st, a)
                if v.op != "mref":
                    break
                a = v
        return a

    def is_opaque(self, key):
        b = self.bodies[key]
        if self.opts.get("modular") and b["krate"] == self.root["bodies"][self.root["key"]]["krate"] and not b["closure"]:
            return key != self.root["key"]
        return key != self.root["key"] and any(q in b["path"] for q in self.opaque)

    def untuple(self, a, n):
        return [fld(a, "", i) for i in range(n)]

    def call_closure_body(self, st, key, env, args, c):
        body = self.bodies[key]
        et = self.t.r[body["locals"][1]]
        tmp = None
        isref = et["k"] == "ref"
        if isref and et["m"]:
            if env.op != "mref" and not (env.op == "ite" and any(x.op == "mref" for x in leaves(env))):
                tmp = self.newcell(st, env, "E")
                env = self.mref(tmp)
        else:
            env = self.read_ref(st, env)
        self.paths.append(c)
        try:
            v, s2 = self.exec_body(body, [env] + args, st, key)
        finally:
            self.paths.pop()
        if v is None:
            return None
        return v, s2

    def call_value(self, st, f, args, shp, c=TRUE):
        """call a closure / function item / unknown callable value"""
        target = f
        if f.op == "mref":
            target = self.read_ref(st, f)
            while target.op == "mref":
                f = target
                target = self.read_ref(st, f)
        if target.op == "con" and target.args[0] == "closure":
            key = target.args[1]
            body = self.bodies.get(key)
            if body is None:
                raise Unmodelled("closure body missing")
            if len(args) != body["argc"] - 1:
                raise Unmodelled("closure arity")
            et = self.t.r[body["locals"][1]]
            mut = et["k"] == "ref" and et["m"]
            if not mut:
                return self.call_closure_body(st, key, target, args, c)
            if f.op == "mref":
                return self.call_closure_body(st, key, f, args, c)
            cell = self.newcell(st, target, "E")
            r = self.call_closure_body(st, key, self.mref(cell), args, c)
            return r
        if target.op == "con" and target.args[0] == "fndef":
            callee = self.fndefs[target.args[1]]
            atys = self.fn_arg_types(callee, args)
            return self.invoke(st, callee, args, atys, None, c)
        # unknown callable: record the call in its own history
        content = []
        mrefs = []
        for a in args:
            if a.op == "mref":
                mrefs.append(a)
                content.append(self.read_ref(st, a))
            else:
                content.append(a)
        hist = raw("called", target, tuple(content))
        for i, a in enumerate(mrefs):
            old = self.read_ref(st, a)
            self.write_ref(st, a, app_raw("out", "callback", i, shape(old), hist))
        if f.op == "mref":
            self.write_ref(st, f, hist)
        elif target.op != "con":
            self.events.append(hist)
        return mkapp("callret", shp, hist), st

    def fn_arg_types(self, callee, args):
        key = callee.get("key")
        if key in self.bodies:
            return self.bodies[key]["locals"][1:len(args) + 1]
        return [None] * len(args)

    def recursive(self, st, key, args, atys, dty):
        vals, outs = [], []
        for i, a in enumerate(args):
            if a.op == "mref" or a.op == "ite" and any(x.op == "mref" for x in leaves(a)):
                a = self.innermost(st, a)
                outs.append((i, a))
                vals.append(self.read_ref(st, a))
            else:
                vals.append(a)
        k = self.keyname(key)
        c = TRUE
        for p in reversed(self.paths):
            c = AND(p, c)
        self.reclog.append((c, k, tuple(vals)))
        v = app_raw("rec", k, self.t.shape(dty), *vals)
        if self.t.shape(dty) == "bool":
            v = as_bool(v)
        for i, a in outs:
            old = self.read_ref(st, a)
            self.write_ref(st, a, app_raw("recout", k, i, shape(old), *vals))
        return v, st

    def innermost(self, st, a):
        """a reference to a reference is a reference to what that one refers to"""
        while a.op == "mref":
            v = self.read_ref(st, a)
            if v.op != "mref":
                break
            a = v
        return a

    def keyname(self, key):
        return short(key.split("<T")[0].split("<O")[0].split("<F")[0]) if False else self.bodies[key]["path"]

    def opaque_call(self, st, callee, sn, args, dty, wanted=False, c=TRUE):
        name = sn
        if not wanted:
            self.unmodelled[callee.get("rpath") or callee["path"]] = self.where
        vals, outs = [], []
        for i, a in enumerate(args):
            if a.op == "mref" or (a.op == "ite" and any(x.op == "mref" for x in leaves(a))):
                a = self.innermost(st, a)
                outs.append((i, a))
                vals.append(self.read_ref(st, a))
            else:
                vals.append(a)
        shp = self.t.shape(dty) if dty is not None else None
        if wanted:
            for p in reversed(self.paths):
                c = AND(p, c)
            self.log.append((c, name, tuple(vals)))
        v = app(name, shp, *vals)
        for i, a in outs:
            old = self.read_ref(st, a)
            self.write_ref(st, a, app_raw("out", name, i, shape(old), *vals))
        return v, st

    # ------------------------------------------------------------ loops
    def mir_loop(self, fr, g, h, st, blocks, c):
        live = g.live_in[h]
        s0 = st.copy()
        for k in list(s0.c):
            if k[0] == "L" and k[1] == fr.id and k[2] not in live:
                del s0.c[k]
            elif k[0] == "G":
                del s0.c[k]

        def body(s):
            self.paths.append(c)
            try:
                out = self.region(fr, g, h, s, h, blocks)
            finally:
                self.paths.pop()
            ex = [(("blk", tgt), cc, ss) for tgt, cc, ss in out["exit"]]
            ex += [(("ret", None), cc, ss) for cc, ss in out["ret"]]
            for cc, ss in out["back"]:
                for k in list(ss.c):
                    if (k[0] == "L" and k[1] == fr.id and k[2] not in live) or k[0] == "G":
                        del ss.c[k]
            return out["back"], ex
        return self.run_loop(s0, body, fr)

    def diff(self, a, b, path, out, phivars):
        if a is b:
            return
        if a in phivars:
            return
        if a.op == "con" and b.op == "con" and a.args[:2] == b.args[:2] and len(a.args[2]) == len(b.args[2]) and a.args[2]:
            for i, (x, y) in enumerate(zip(a.args[2], b.args[2])):
                self.diff(x, y, path + (raw("pf", a.args[1], i, shape(x), None),), out, phivars)
            return
        if a.op == "con" and a.args[2] and b.op == "ite":
            ls = [x for x in leaves(b) if x is not BOT]
            if ls and all(x.op == "con" and x.args[:2] == a.args[:2] and len(x.args[2]) == len(a.args[2]) for x in ls):
                for i, x in enumerate(a.args[2]):
                    self.diff(x, fld(b, a.args[1], i), path + (raw("pf", a.args[1], i, shape(x), None),), out, phivars)
                return
        # booleans held in phi variables appear as a test of the variable
        if a.op == "ite" and a.args[0] in phivars:
            return
        out.append(path)

    def run_loop(self, st, body, fr=None, counter=None):
        phis = {}     # (cell, path) -> var
        mark, lmark = len(self.panics), len(self.loops)
        for _ in range(12):
            h = st.copy()
            for (cell, path), v in phis.items():
                val = as_bool(v) if v.args[1] == "bool" else v
                h.c[cell] = self.put_path(h.c[cell], path, val) if path else val
            del self.panics[mark:], self.loops[lmark:]
            conts, exits = body(h.copy())
            if not conts:
                if phis:
                    # cannot happen twice: restart without phis
                    pass
                return exits
            bc, back = merge(conts)
            new = []
            pv = set(phis.values())
            for cell in list(h.c):
                if cell not in back.c:
                    continue
                d = []
                self.diff(h.c[cell], back.c[cell], (), d, pv)
                for p in d:
                    new.append((cell, p))
            if not new:
                break
            for cell, p in new:
                # a filtered sequence is walked by the index of the sequence filtered
                fi = filtered_walk(self.get_path(st.c[cell], p))
                if fi is not None:
                    st = st.copy()
                    st.c[cell] = self.put_path(st.c[cell], p, fi) if p else fi
                    continue
                # a range walked by hand is the iterator it turns into
                old = self.get_path(st.c[cell], p)
                if old.op == "con" and old.args[0] in ("Range", "RangeInclusive", "RangeFrom") and all(
                        y.op == "con" and y.args[0] == "it" for y in leaves(self.get_path(back.c[cell], p)) if y is not BOT and y is not old):
                    from models import as_iter
                    fi = as_iter(self, old)
                    if fi is not old:
                        st = st.copy()
                        st.c[cell] = self.put_path(st.c[cell], p, fi) if p else fi
                        continue
                for (c2, p2) in list(phis):
                    if c2 == cell and p2[:len(p)] == p:
                        del phis[(c2, p2)]
                init = self.get_path(st.c[cell], p)
                shp = shape(init)
                if isinstance(shp, tuple) or shp is None:
                    shp = self.cell_shape(fr, cell, p, init, back)
                phis[(cell, p)] = fresh("φ", shp)
        else:
            raise Unmodelled("loop does not stabilise")
        items = list(phis.items())
        inits = {v: self.get_path(st.c[cell], p) for (cell, p), v in items}
        steps = {}
        for (cell, p), v in items:
            steps[v] = restrict(self.get_path(back.c[cell], p), bc)
        return self.solve(inits, steps, exits, bc, mark)

    def cell_shape(self, fr, cell, p, init, back):
        sh = None
        if fr is not None and cell[0] == "L" and cell[1] == fr.id and not p:
            sh = self.t.shape(fr.body["locals"][cell[2]])
        if sh is None:
            new = self.get_path(back.c[cell], p)
            s0, s1 = shape(init), None
            for x in leaves(new):
                s1 = s1 or shape(x)
            if isinstance(s0, tuple) and isinstance(s1, tuple):
                if s0[0] == "vec" and s1[0] == "vec" and s0[1] is s1[1]:
                    return s0
                if init.op in ("list",) or new.op in ("cat", "ite"):
                    e = None
                    for x in leaves(new):
                        if x.op == "cat" and x.args[-1].op == "list":
                            e = shape(x.args[-1].args[-1])
                    return ("slice", e)
                return s0 if s0[0] == "vec" else s1
            return s0
        return sh

    def solve(self, inits, steps, exits, bc, mark=None):
        k = fresh("k", "uint")
        sol = {}                       # var -> term in k
        unsolved = dict(steps)

        def app_sol():
            m = dict(sol)
            if m:
                for v in unsolved:
                    unsolved[v] = subst(unsolved[v], m)

        progress = True
        while progress:
            progress = False
            uv = set(unsolved)
            for v in list(unsolved):
                s = unsolved[v]
                r = self.closed(v, inits[v], s, uv, k)
                if r is not None:
                    sol[v] = r
                    del unsolved[v]
                    # earlier solutions never mention unsolved variables
                    app_sol()
                    progress = True
                    break
        # the length of a sequence that grows by the same amount every time
        lens = {}
        for v in unsolved:
            lv = [x for x in leaves(unsolved[v]) if x is not BOT]
            if lv and all(x.op == "cat" and x.args[0] is v for x in lv) and inits[v].op != "ite":
                g = {addn(*[length(y) for y in x.args[1:]]) for x in lv}
                g0 = next(iter(g))
                if len(g) == 1 and const_val(g0) is not None:
                    lens[raw("len", v)] = add(length(inits[v]), mul(k, g0))
        if lens:
            for v in unsolved:
                unsolved[v] = subst(unsolved[v], lens)
        uv = set(unsolved)
        if mark is not None and (sol or lens):
            memo = {}
            for p in self.panics[mark:]:
                p.cond = subst(subst(p.cond, sol), lens) if lens else subst(p.cond, sol, memo)
                p.detail = tuple(subst(subst(d, sol), lens) if isinstance(d, T) else d for d in p.detail)
        for v in unsolved:
            self.carried[v] = (inits[v], unsolved[v], k, [INF])
        ex = []
        for lab, c, s in exits:
            c = subst(c, sol)
            ex.append([lab, subst(c, lens) if lens else c, s])
        self.loops.append({"k": k, "sol": sol, "unsolved": dict(unsolved), "where": self.where, "exits": None, "path": tuple(self.paths)})
        rec = self.loops[-1]
        # counting exit
        cnt, cidx = None, None
        for i, (lab, c, s) in enumerate(ex):
            b = self.count_bound(c, k, uv)
            if b is not None:
                if cnt is None or True:
                    cnt, cidx = b, i
                    break
        if cnt is INF:
            rec["exits"] = [c for _, c, _ in ex]
        elif cnt is not None:
            for v in unsolved:
                self.carried[v][3][0] = cnt
        res = []
        others = [i for i in range(len(ex)) if i != cidx]
        dep_exits = [i for i in others if freevars(ex[i][1]) & uv]
        if cnt is not None and not dep_exits:
            notc = NOT(ex[cidx][1])
            if others:
                P = FALSE
                conds = {}
                for i in others:
                    conds[i] = restrict(ex[i][1], notc)
                    P = OR(P, conds[i])
                l = lam(k, P)
                E = exists(cnt, l)
                F = first(cnt, l)
                if E is not FALSE:
                    for i in others:
                        ci = subst(conds[i], {k: F}) if len(others) > 1 else TRUE
                        care = subst(conds[i], {k: F})
                        m = self.final(unsolved, inits, k, F, sol, None)
                        res.append((ex[i][0], AND(E, ci), self.subst_state(ex[i][2], sol, k, F, m, care)))
                nE = NOT(E)
            else:
                nE = TRUE
            m = self.final(unsolved, inits, k, cnt, sol, None)
            res.append((ex[cidx][0], nE, self.subst_state(ex[cidx][2], sol, k, cnt, m, None)))
            return res
        rec["exits"] = [c for _, c, _ in ex]
        if not ex:
            self.events.append(raw("diverges"))
            return []
        # general loop
        econds = tuple(c for _, c, _ in ex)
        m, kk, lt = self.general(unsolved, inits, k, econds)
        for i, (lab, c, s) in enumerate(ex):
            ci = TRUE
            if len(ex) > 1:
                at_ = raw("lexit", lt, len(ex))
                ci = ite(at_, {j: boolean(j == i) for j in range(len(ex))})
            res.append((lab, ci, self.subst_state(s, sol, k, kk, m, None)))
        return res

    def subst_state(self, s, sol, k, kval, m, care):
        full = {v: subst(t, {k: kval}) for v, t in sol.items()}
        full.update(m)
        full[k] = kval
        out = St()
        memo = {}
        for c, v in s.c.items():
            nv = subst(v, full, memo)
            if care is not None:
                nv = restrict(nv, care)
            out.c[c] = nv
        return out

    def deps(self, seed, unsolved):
        uv = set(unsolved)
        need, todo = [], list(seed)
        while todo:
            v = todo.pop(0)
            if v in need:
                continue
            need.append(v)
            for w in sorted(freevars(unsolved[v]) & uv):
                if w not in need:
                    todo.append(w)
        return need

    def final(self, unsolved, inits, k, cnt, sol, _):
        """values after exactly cnt iterations"""
        m = {}
        cv = const_val(cnt)
        if cv is not None and 0 <= cv <= 4:
            vals = dict(inits)
            vals = {v: vals[v] for v in unsolved}
            for i in range(int(cv)):
                full = dict(vals)
                full[k] = num(i)
                vals = {v: subst(unsolved[v], full) for v in unsolved}
            return vals
        for v in unsolved:
            vs = self.deps([v], unsolved)
            lt = raw("loop", cnt, tuple(inits[x] for x in vs), mlam([k] + vs, tuple(unsolved[x] for x in vs)), 0)
            r = raw("lout", lt, 0, v.args[1])
            m[v] = as_bool(r) if v.args[1] == "bool" else r
        return m

    def general(self, unsolved, inits, k, econds):
        uv = set(unsolved)
        seed = []
        for c in econds:
            seed += sorted(freevars(c) & uv)
        base = self.deps(seed, unsolved) if seed else []
        m = {}

        def mk(vs):
            return raw("loop", INF, tuple(inits[x] for x in vs), mlam([k] + vs, tuple(unsolved[x] for x in vs) + econds), len(econds))
        lt = mk(base)
        for v in unsolved:
            vs = self.deps([v] + base, unsolved)
            t = mk(vs) if set(vs) != set(base) else lt
            j = (vs if t is not lt else base).index(v)
            r = raw("lout", t, j, v.args[1])
            m[v] = as_bool(r) if v.args[1] == "bool" else r
        return m, raw("lcnt", lt), lt

    def count_bound(self, c, k, uv):
        """c is `k >= b` (exit once the counter reaches b) -> b"""
        if c.op != "ite":
            if c is TRUE:
                return ZERO
            return None
        if freevars(c) & uv:
            return None
        sup = support(c)
        for x in sup:
            if not freevars(x) & (uv | {k}):
                # a test made before the loop
                bs = [(o, self.count_bound(restrict_atom(c, x, o), k, uv)) for o in outcomes(x)]
                if any(b is None for o, b in bs):
                    return None
                return ite(x, dict(bs))
        if len(sup) == 2:
            # equality test: L>=c and not L>=c+1
            a = sorted(sup)
            if all(x.op == "geq" for x in a) and a[0].args[0] is a[1].args[0]:
                lo, hi = sorted(a, key=lambda x: x.args[1])
                if hi.args[1] == lo.args[1] + 1 and c is AND(ite(lo, {True: TRUE, False: FALSE}), NOT(ite(hi, {True: TRUE, False: FALSE}))):
                    L = lo.args[0]
                    kc, rest = self.linear(L, k)
                    if kc == 1:
                        return nat(sub(num(lo.args[1]), rest))
                    if kc == -1:
                        return nat(sub(rest, num(lo.args[1])))
            return None
        if len(sup) != 1:
            return None
        a = next(iter(sup))
        if a.op != "geq":
            return None
        L, cc = a.args
        kc, rest = self.linear(L, k)
        tv = cof(c, a, True)
        if kc == 1 and tv is TRUE:
            return nat(sub(num(cc), rest))
        if kc == -1 and tv is FALSE:
            # exit when not(-k+rest >= cc)  <=> k > rest-cc <=> k >= rest-cc+1
            return nat(add(sub(rest, num(cc)), ONE))
        return None

    def fieldwise(self, v, s, init, uv, k):
        """a struct whose fields follow recurrences of their own and of one another"""
        ty, variant, f0 = init.args[0], init.args[1], init.args[2]
        for x in leaves(s):
            if not (x is BOT or x is v or (x.op == "con" and x.args[0] == ty and x.args[1] == variant and len(x.args[2]) == len(f0))):
                return None
        holes = []
        for i, x0 in enumerate(f0):
            h = fresh("φ", None)
            for t in subterms(s):
                if t.op == "fld" and t.args[0] is v and t.args[2] == i and t.args[3]:
                    h = fresh("φ", t.args[3])
                    break
            else:
                shp = shape(x0)
                h = fresh("φ", shp if shp is not None or not _boolish(x0) else "bool")
            holes.append(h)
        hv = [as_bool(h) if h.args[1] == "bool" else h for h in holes]
        body = subst(s, {v: raw("con", ty, variant, tuple(hv))})
        if v in freevars(body):
            return None
        steps = {h: fld(body, variant, i) for i, h in enumerate(holes)}
        sols = self.solve_vars(steps, dict(zip(holes, f0)), uv - {v}, k)
        if sols is None:
            return None
        return raw("con", ty, variant, tuple(sols[h] for h in holes))

    def solve_vars(self, steps, inits, outer, k):
        """closed forms for all of several mutually dependent variables, or None"""
        steps, sols = dict(steps), {}
        while steps:
            for h in list(steps):
                r = self.closed(h, inits[h], steps[h], set(steps) | outer, k)
                if r is not None:
                    break
            else:
                return None
            del steps[h]
            if freevars(r) & (set(steps) | outer | {h}):
                return None
            sols[h] = r
            steps = {g: subst(x, {h: r}) for g, x in steps.items()}
        return sols

    def peeled(self, v, init, s, uv, k):
        """a value that takes its lasting shape in the first iteration (e.g. an option that starts empty)"""
        e0 = subst(s, {v: init, k: ZERO})
        if v in freevars(e0) or e0.op == "ite" and any(a for a in support(e0) if freevars(a) & uv):
            return None
        if e0.op != "con" or not e0.args[2] or e0.args[1] == init.args[1]:
            return None
        k2 = fresh("k", "uint")
        r = self.fieldwise(v, subst(s, {k: add(k2, ONE)}), e0, uv, k2)
        if r is None:
            return None
        return cond(int_cmp("ge", k, ONE), subst(r, {k2: sub(k, ONE)}), init)

    def split_test(self, s, v):
        """s chooses by one sign test -> (atom, {outcome: value})"""
        if s.op != "ite" or len(support(s)) != 1 or s.args[0].op != "sign":
            return None
        return s.args[0], dict(s.args[1])

    def extremal(self, v, init, s, k):
        """running minimum / maximum: s = min(v, f(k))"""
        t = self.split_test(s, v)
        if t is None:
            return None
        a, br = t
        p = a.args[0]
        c = dict(poly_items(p)).get(((v, 1),))
        if c is None:
            return None
        f = sub(v, div(p, num(c)))
        if v in freevars(f) or f.op == "ite":
            return None
        lo, hi = ("-", "+") if c > 0 else ("+", "-")     # outcome meaning v < f, v > f
        if any(br[o] is not v and br[o] is not f for o in (lo, hi)):
            return None
        if "u" in br and br["u"] is not v and br["u"] is not f:
            return None
        j = fresh("k", "uint")
        l = lam(j, subst(f, {k: j}))
        if br[lo] is v and br[hi] is f:
            return runext("minf", init, k, l)
        if br[lo] is f and br[hi] is v:
            return runext("maxf", init, k, l)
        return None

    def selection(self, v, init, s, k):
        """running arg-min / arg-max"""
        t = self.split_test(s, v)
        if t is None:
            return None
        a, br = t
        lv = [x for x in set(br.values()) if x is not v and x is not BOT]
        if len(lv) != 1:
            return None
        g = lv[0]
        if v in freevars(g):
            return None
        p = a.args[0]
        j = fresh("k", "uint")
        # (a) the best key so far is carried along as a running extremum
        ext = [x for m, _ in poly_items(p) for x, e in m if x.op in ("minf", "maxf") and x.args[1] is k]
        if len(ext) == 1 and v not in freevars(p):
            x = ext[0]
            if not same_upto_init(x, v):
                return None
            c = dict(poly_items(p)).get(((x, 1),))
            if c is None:
                return None
            f = sub(x, div(p, num(c)))
            if f is not open1(x.args[2], k):
                return None
            lo, hi = ("-", "+") if c > 0 else ("+", "-")      # best < f, best > f
            if x.op == "maxf":
                lo, hi = hi, lo
            if br[lo] is not v or br[hi] is not g:
                return None
            tie = "first" if br["0"] is v else "last"
            kl, vl = x.args[2], lam(j, subst(g, {k: j}))
            i0 = x.args[0]
            n = k
            if i0 is open1(kl, num(-1)) and init is open1(vl, num(-1)):
                i = fresh("k", "uint")
                return argf(x.op[:3], tie, add(k, ONE), lam(i, open1(kl, sub(i, ONE))), lam(i, open1(vl, sub(i, ONE))), shape(g))
            worst = i0.op == "app" and i0.args[0] in (("max_value", "infinity") if x.op == "minf" else ("min_value", "neg_infinity"))
            same = i0 is open1(kl, ZERO) and init is open1(vl, ZERO)
            if worst or same:
                return cond(int_cmp("ge", n, ONE), argf(x.op[:3], tie, n, kl, vl, shape(g)), init)
            return None
        return None

    def lexselection(self, v, init, s, k):
        """running arg-min / arg-max whose key is recomputed from the best element; several keys
        compared one after the other make a lexicographic key"""
        lv = [x for x in leaves(s) if x is not v and x is not BOT]
        if len(lv) != 1 or v in freevars(lv[0]):
            return None
        g = lv[0]
        keys, cur = [], s
        while cur.op == "ite":
            for a in sorted(support(cur)):
                if a.op != "sign":
                    return None
                lo, hi = restrict_atom(cur, a, "-"), restrict_atom(cur, a, "+")
                if (lo is v and hi is g) or (lo is g and hi is v):
                    break
            else:
                return None
            p = a.args[0]
            kv, kk = {}, {}
            for m, c in poly_items(p):
                hv = any(v in freevars(x) for x, _ in m)
                hk = any(k in freevars(x) for x, _ in m)
                if hv and hk:
                    return None
                if hv:
                    kv[m] = c
                elif hk:
                    kk[m] = c
            if not kv or not kk:
                return None
            A, Bk = mkpoly(kv), mkpoly(kk)
            rest = sub(sub(p, A), Bk)
            if add(add(subst(A, {v: g}), Bk), rest) is not ZERO:
                return None
            keys.append(A if lo is v else neg(A))
            cur = restrict_atom(cur, a, "0")
        if (cur is not v and cur is not g) or not keys:
            return None
        tie = "first" if cur is v else "last"
        # v kept when its key is smaller: a minimum; written as a maximum when the key's sign says so
        kind = "min"
        if poly_items(keys[0])[0][1] < 0:
            kind, keys = "max", [neg(A) for A in keys]
        key = lambda e: tup(*[subst(A, {v: e}) for A in keys]) if len(keys) > 1 else subst(keys[0], {v: e})
        j, i = fresh("k", "uint"), fresh("k", "uint")
        vl = lam(j, subst(g, {k: j}))
        if init is open1(vl, num(-1)):
            f = open1(vl, sub(i, ONE))
            return argf(kind, tie, add(k, ONE), lam(i, key(f)), lam(i, f), shape(g))
        if init is open1(vl, ZERO):
            return cond(int_cmp("ge", k, ONE), argf(kind, tie, k, lam(i, key(open1(vl, i))), vl, shape(g)), init)
        return None

    def elementwise(self, v, j, x, init, uv, k):
        cur = at(v, j)
        if cur.op == "ite" or init.op == "ite":
            return None
        hole = fresh("φ", shape(init) or elem_shape(shape(v)))
        x = subst(x, {cur: hole})
        if freevars(x) & uv:
            return None
        return self.closed(hole, init, x, {hole}, k)

    def linear(self, p, k):
        kc, rest = 0, {}
        for m, c in poly_items(p):
            if any(k in freevars(a) for a, _ in m):
                if m == ((k, 1),):
                    kc = c
                else:
                    return None, None
            else:
                rest[m] = c
        return kc, mkpoly(rest)

    def closed(self, v, init, s, uv, k):
        """value of v after k iterations, or None.  uv: all unsolved variables (incl. v)"""
        r = self.closed1(v, init, s, uv, k)
        return r if r is not None else self.lasthit(v, init, s, uv, k)

    def lasthit(self, v, init, s, uv, k):
        """a variable only ever overwritten with values that do not depend on it"""
        if s.op != "ite" or any(freevars(a) & uv for a in support(s)):
            return None
        lv = [x for x in leaves(s) if x is not BOT]
        if not any(x is v for x in lv) or any(x is not v and (freevars(x) & uv or (shape(x) is None and x.op not in ("con", "list", "seq"))) for x in lv):
            return None
        g = _choose(s, lambda x: boolean(x is not v))
        val = _choose(s, lambda x: BOT if x is v else x)
        j = fresh("k", "uint")
        E = exists(k, lam(j, subst(g, {k: j})))
        last = sub(sub(k, ONE), first(k, lam(j, subst(g, {k: sub(sub(k, ONE), j)}))))
        return cond(E, restrict(subst(val, {k: last}), subst(g, {k: last})), init)

    def grouped(self, v, init, s, uv, k):
        """elements gathered into a map by a key -> groupby(n, key, value of a group's first element, step)"""
        lv = [x for x in leaves(s) if x is not BOT]
        if init.op != "con" or init.args[1] != "emptymap" or not lv:
            return None
        inner = set(support(s)).union(*[support(x.args[2]) for x in lv if x.op == "mupd"])
        has = [a for a in inner if a.op == "pred" and a.args[0] == "mhas" and a.args[1] is v]
        if any(a.op != "pred" or a.args[0] != "mhas" for a in support(s)) or len(has) > 1:
            return None
        keys = {x.args[1] for x in lv if x.op == "mupd" and x.args[0] is v} | {a.args[2] for a in has}
        if len(keys) != 1 or any(x.op != "mupd" or x.args[0] is not v for x in lv):
            return None
        key = keys.pop()
        if freevars(key) & uv:
            return None
        hole = fresh("g")
        j = fresh("k", "uint")

        def value(present):
            t = s
            for a in has:
                t = restrict_atom(t, a, present)
            if t.op != "mupd":
                return None
            t = t.args[2]
            for a in has:
                t = restrict_atom(t, a, present)
            old = {y for y in subterms(t) if y.op == "mget" and y.args[0] is v and y.args[1] is key}
            return subst(t, {y: hole if present else y.args[2] for y in old})
        a, b = value(False), value(True)
        if a is None or b is None or freevars(a) & uv or freevars(b) & uv:
            return None
        return raw("groupby", k, lam(j, subst(key, {k: j})), lam(j, subst(a, {k: j})), mlam([j, hole], (subst(b, {k: j}),)))

    def closed1(self, v, init, s, uv, k):
        g = self.grouped(v, init, s, uv, k)
        if g is not None:
            return g
        # a test that does not change from one iteration to the next splits the recurrence
        for a in sorted(support(s) | support(init)):
            if not (freevars(a) & (uv | {k})):
                brs = {}
                for o in outcomes(a):
                    i2, s2 = restrict_atom(init, a, o), restrict_atom(s, a, o)
                    r = BOT if s2 is BOT and i2 is BOT else self.closed(v, i2, s2, uv, k)
                    if r is None:
                        return None
                    brs[o] = r
                return ite(a, brs)
        shp = v.args[1]
        fv = freevars(s) & uv
        others = fv - {v}
        if init.op == "con" and init.args[2] and fv == {v}:
            return self.fieldwise(v, s, init, uv, k)
        if init.op == "con" and not init.args[2] and fv == {v}:
            r = self.peeled(v, init, s, uv, k)
            if r is not None:
                return r
        if not others:
            r = self.extremal(v, init, s, k)
            if r is not None:
                return r
            r = self.selection(v, init, s, k) or self.lexselection(v, init, s, k)
            if r is not None:
                return r
        if shp in ("num", "uint", "int") or (shp is None and init.op == "poly"):
            if others:
                return None
            d = sub(s, v) if v in fv else None
            if d is not None and not (freevars(d) & uv):
                if k not in freevars(d) and d.op != "ite":
                    return add(init, mul(k, d))
                j = fresh("k", "uint")
                return add(init, sumi(k, lam(j, subst(d, {k: j}))))
        if fv == set():
            if s is init:
                return init
            e = subst(s, {k: sub(k, ONE)})
            return cond(int_cmp("ge", k, ONE), e, init)
        if others:
            return None
        if shp == "bool" or init in (TRUE, FALSE):
            t, f = cof_any(s, v, True), cof_any(s, v, False)
            if freevars(t) & uv or freevars(f) & uv:
                return None
            j = fresh("k", "uint")
            if f is FALSE:
                # acc && p
                return AND(init, forall(k, lam(j, subst(t, {k: j}))))
            if t is TRUE:
                return OR(init, exists(k, lam(j, subst(f, {k: j}))))
            if t is NOT(f):
                odd = int_cmp("ge", rem(sumi(k, lam(j, subst(cond(f, ONE, ZERO), {k: j}))), num(2)), ONE)
                return cond(init, NOT(odd), odd)
            return None
        if init.op == "con" and not init.args[2]:
            ats = [a for a in support(s) if a.op == "discr" and a.args[0] is v]
            if len(ats) == 1:
                a = ats[0]
                c0 = init.args[1]
                if c0 not in a.args[1]:
                    return None
                for o in a.args[1]:
                    if o == c0:
                        continue
                    r = restrict_atom(s, a, o)
                    if not (r is v or r is BOT or (r.op == "con" and r.args[1] == o and not r.args[2])):
                        return None
                e = subst(restrict_atom(s, a, c0), {v: init})
                if freevars(e) & uv:
                    return None
                j = fresh("k", "uint")
                hit = match(e, a.args[1], {o: boolean(o != c0) for o in a.args[1]})
                l = lam(j, subst(hit, {k: j}))
                E = exists(k, l)
                F = first(k, l)
                val = restrict(subst(e, {k: F}), subst(hit, {k: F}))
                return cond(E, val, init)
            return None
        # element-wise recurrence over a fixed-length sequence
        ni = length(init) if init.op != "ite" else None
        ci = const_val(ni) if ni is not None and ni.op != "ite" else None
        if ci is not None and 1 <= ci <= 4:
            def explode(x):
                y = x
                while y.op == "upd":
                    y = y.args[0]
                return mklist(*[at(x, num(i)) for i in range(int(ci))]) if y is v and x is not v else x
            s2 = _choose(s, explode)
            if s2 is not s:
                return self.closed(v, init, s2, uv, k)
        lv = [x for x in leaves(s) if x is not BOT]
        if init.op != "ite" and lv and all(x is v or x.op in ("seq", "list") or ci is not None and x.op == "at" and length(x) is ni for x in lv) and any(x is not v for x in lv):
            n = length(init)
            if n.op != "ite" and not (freevars(n) & (uv | {k})) and all(x is v or length(x) is n for x in lv):
                c = const_val(n)
                if c is not None and c <= 4:
                    els = []
                    for i in range(int(c)):
                        r = self.elementwise(v, num(i), at(s, num(i)), at(init, num(i)), uv, k)
                        if r is None:
                            return None
                        els.append(r)
                    return mklist(*els)
                j = fresh("j", "uint")
                r = self.elementwise(v, j, at(s, j), at(init, j), uv, k)
                if r is not None:
                    return mkseq(n, lam(j, r))
                return None
        # growing sequence
        lv = [x for x in leaves(s) if x is not BOT]
        if all(x is v or (x.op == "cat" and x.args[0] is v and not any(freevars(y) & uv for y in x.args[1:])) for x in lv):
            if any((a.op != "discr" or True) and (freevars(a) & uv) for a in support(s)):
                return None
            grow = [x for x in lv if x is not v]
            if all(len(x.args) == 2 and x.args[1].op == "list" and len(x.args[1].args) == 1 for x in grow):
                j = fresh("k", "uint")
                g = _choose(s, lambda x: boolean(x is not v))
                val = _choose(s, lambda x: BOT if x is v else x.args[1].args[0])
                val = subst(val, {k: j})
                if g is TRUE:
                    return cat(init, mkseq(k, lam(j, val)))
                return cat(init, raw("filt", k, lam(j, subst(g, {k: j})), lam(j, val)))
        # element-wise update at the running index
        if all(x is v or (x.op == "upd" and x.args[0] is v) for x in lv):
            idx = None
            for x in lv:
                if x is not v:
                    if idx is not None and idx is not x.args[1]:
                        return None
                    idx = x.args[1]
            if idx is None or idx.op == "ite":
                return None
            kc, rest = self.linear(idx, k)
            if kc not in (1, -1) or (freevars(idx) & uv):
                return None
            hole = fresh("h", elem_shape(shape(init)) or elem_shape(shp))
            cur = at(v, idx)
            if cur.op == "ite":
                return None
            val = _choose(s, lambda x: cur if x is v else x.args[2])
            val = subst(val, {cur: hole})
            if freevars(val) & uv:
                return None
            j = fresh("j", "uint")
            back = sub(j, rest) if kc == 1 else sub(rest, j)
            body = subst(val, {k: back})
            if kc == 1:
                return updseq(init, rest, k, lam(j, subst(body, {hole: at(init, j)})))
            return updseq(init, add(sub(rest, k), ONE), k, lam(j, subst(body, {hole: at(init, j)})))
        return None


def cof_any(s, v, val):
    """cofactor of s on the boolean variable v"""
    return restrict_atom(s, v, val)


def subterms(t, seen=None):
    if seen is None:
        seen = {}
    if t in seen:
        return seen
    seen[t] = True
    for a in t.args:
        _sub_into(a, seen)
    return seen


def _sub_into(a, seen):
    if isinstance(a, T):
        subterms(a, seen)
    elif isinstance(a, tuple):
        for x in a:
            _sub_into(x, seen)


def updseq(s, a, n, l):
    """s with elements a..a+n replaced by l(index)"""
    if n is ZERO:
        return s
    if a is ZERO and n is length(s):
        return mkseq(n, l)
    return app_raw("updseq", s, a, n, l)


SMART["updseq"] = updseq
LIFTED.add("updseq")


def seq_eq_shape(a, b, shp):
    j = fresh("v", "uint")
    if isinstance(shp[2], tuple):
        return forall(shp[1], lam(j, seq_eq_shape(at(a, j), at(b, j), shp[2])))
    if shp[2] in ("int", "uint"):
        return forall(shp[1], lam(j, int_cmp("eq", at(a, j), at(b, j))))
    return forall(shp[1], lam(j, real_cmp("eq", at(a, j), at(b, j))))


PI = raw("sym", "pi", "num")


def fladd(a, b):
    """a sum whose rounding is kept in view"""
    def f(x, y):
        cs = [all(m in ((), ((PI, 1),)) for m, _ in poly_items(z)) for z in (x, y)]
        if all(cs) or const_val(x) == 0 or const_val(y) == 0:
            return add(x, y)
        return app("fladd", "num", x, y)
    return lift("fladd", f, a, b)


def rem(a, b):
    def leaf(x, y):
        cx, cy = const_val(x), const_val(y)
        if cx is not None and cy:
            return num(int(cx) % int(cy)) if cx.denominator == 1 and cy.denominator == 1 and cx >= 0 else raw("rem", x, y)
        return raw("rem", x, y)
    return lift("rem", leaf, a, b)


def idiv(a, b):
    def leaf(x, y):
        cx, cy = const_val(x), const_val(y)
        if cx is not None and cy and cx >= 0:
            return num(int(cx) // int(cy))
        if cy == 1:
            return x
        if x is y:
            return ONE
        return raw("idiv", x, y)
    return lift("idiv", leaf, a, b)


SMART["rem"] = rem
SMART["idiv"] = idiv


def _boolish(x):
    ls = [y for y in leaves(x) if y is not BOT]
    return bool(ls) and all(y in (TRUE, FALSE) for y in ls)


def same_upto_init(x, v):
    return v not in freevars(x)


class Frame:
    def __init__(self, i, body, key):
        self.id, self.body, self.key = i, body, key

    def cell(self, l):
        return ("L", self.id, l)


class Call:
    """one call site as seen by a model"""

    def __init__(self, eng, callee, sn, args, atys, dty, c):
        self.e, self.callee, self.sn, self.args, self.atys, self.dty, self.c = eng, callee, sn, args, atys, dty, c

    def kind(self, i):
        if self.atys[i] is None:
            return "other"
        return self.e.t.kind(self.atys[i])

    def shape(self):
        return self.e.t.shape(self.dty) if self.dty is not None else None

    def val(self, st, i):
        return self.e.read_ref(st, self.args[i])


class Cfg:
    def __init__(self, body):
        bl = body["blocks"]
        n = len(bl)
        self.succ = [self.succs(b["t"]) for b in bl]
        # DFS
        order, state, back = [], {}, []
        stack = [(0, iter(self.succ[0]))]
        state[0] = 1
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                if s not in state:
                    state[s] = 1
                    stack.append((s, iter(self.succ[s])))
                    adv = True
                    break
                elif state[s] == 1:
                    back.append((b, s))
            if not adv:
                state[b] = 2
                order.append(b)
                stack.pop()
        self.order = order[::-1]
        pred = [[] for _ in range(n)]
        for b in self.order:
            for s in self.succ[b]:
                pred[s].append(b)
        self.loops = {}
        for src, h in back:
            nodes = {h}
            todo = [src]
            while todo:
                x = todo.pop()
                if x in nodes:
                    continue
                nodes.add(x)
                todo.extend(pred[x])
            self.loops.setdefault(h, set()).update(nodes)
        self.liveness(body)

    @staticmethod
    def succs(t):
        k = t[0]
        if k in ("goto", "drop"):
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[5]]
        return []

    def liveness(self, body):
        bl = body["blocks"]
        always = set()

        def use_place(p, u):
            u.add(p[0])
            for e in p[1:]:
                if e[0] == "i":
                    u.add(e[1])

        def use_op(o, u):
            if "cp" in o:
                use_place(o["cp"], u)
            elif "mv" in o:
                use_place(o["mv"], u)

        use, deff = [], []
        for b in bl:
            u, d = set(), set()

            def U(x):
                for y in x:
                    if y not in d:
                        u.add(y)
            for s in b["s"]:
                if s[0] != "=":
                    continue
                t = set()
                r = s[2]
                if r[0] in ("ref", "reborrow"):
                    use_place(r[2], t)
                    if r[1] and len([e for e in r[2][1:] if e[0] == "*"]) == 0:
                        always.add(r[2][0])
                elif r[0] == "discr":
                    use_place(r[1], t)
                elif r[0] == "agg":
                    for o in r[2]:
                        use_op(o, t)
                elif r[0] == "bin":
                    use_op(r[2], t)
                    use_op(r[3], t)
                else:
                    for o in r[1:]:
                        if isinstance(o, dict):
                            use_op(o, t)
                if len(s[1]) > 1:
                    use_place(s[1], t)
                U(t)
                if len(s[1]) == 1:
                    d.add(s[1][0])
            t = set()
            k = b["t"]
            if k[0] == "switch":
                use_op(k[1], t)
            elif k[0] == "call":
                for o in k[2]:
                    use_op(o, t)
                if "dyn" in k[1]:
                    use_op(k[1]["dyn"], t)
                if len(k[3]) > 1:
                    use_place(k[3], t)
            elif k[0] == "assert":
                use_op(k[1], t)
                for o in k[4]:
                    use_op(o, t)
            elif k[0] == "ret":
                t.add(0)
            U(t)
            if k[0] == "call" and len(k[3]) == 1:
                d.add(k[3][0])
            use.append(u)
            deff.append(d)
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for b in reversed(self.order):
                o = set()
                for s in self.succ[b]:
                    o |= live[s]
                nl = use[b] | (o - deff[b])
                if nl != live[b]:
                    live[b] = nl
                    ch = True
        self.live_in = [l | always for l in live]


def sym_params(eng, body, names=None, lens=None, by_ref=()):
    """symbolic arguments for a root body -> (args, state, {param index: cell})"""
    st = St()
    args, cells = [], {}
    for i in range(1, body["argc"] + 1):
        nm = body["names"].get(str(i), "arg%d" % i)
        nm = "p%d" % i if names is None else names[i - 1]
        ti = body["locals"][i]
        t = eng.t.r[ti]
        shp = eng.t.shape(ti)
        if lens and i in lens:
            shp = ("vec", lens[i], shp[1])
        s = raw("sym", nm, shp)
        v = as_bool(s) if shp == "bool" else s
        if t["k"] == "ref" and t["m"] or i in by_ref:
            cell = ("P", i)
            st.c[cell] = v
            cells[i] = cell
            v = raw("mref", cell, ())
        args.append(v)
    return args, st, cells


class Result:
    pass


def analyse(root, models, opts=None):
    eng = Engine(root, models, opts)
    body = root["bodies"][root["key"]]
    args, st, cells = sym_params(eng, body, (opts or {}).get("names"), (opts or {}).get("lens"), (opts or {}).get("by_ref", ()))
    r = Result()
    r.eng, r.args, r.root = eng, args, root
    r.ret, r.out, r.err = None, {}, None
    r.start = {i: st.c[c] for i, c in cells.items()}
    try:
        v, s = eng.exec_body(body, args, st, root["key"])
        if v is not None:
            r.ret = v
            r.out = {i: s.c[c] for i, c in cells.items()}
    except Unmodelled as ex:
        r.err = "%s at %s" % (ex, eng.where[1])
    r.panics = eng.panics
    return r
