"""Meaning of the library functions the analysed code calls (std, nalgebra, num-traits, simba, rand, log).

Each model takes (call, state) and returns (value, state), None when the call never returns, or
NotImplemented to fall back to inlining / an opaque result.  Iterators without side effects are
plain sequences; adaptor closures with side effects are kept as stages and run by the consumer."""
from terms import *
from terms import _choose
from engine import Unmodelled, rem, idiv, updseq, PI, SMART, LIFTED, fladd

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def O(v):
    return con("Ordering", v)


ORD = ("Less", "Equal", "Greater")


# ---------------------------------------------------------------- helpers
def is_nan(x):
    return _choose(sign(x), lambda g: boolean(g.args[0] == "u")) if True else None


def lam1(f, shp="uint"):
    v = fresh("k", shp)
    return lam(v, f(v))


def build(n, f):
    return mkseq(n, lam1(f))


def elementwise(f, *ss):
    n = length(ss[0])
    return build(n, lambda k: f(*[at(s, k) for s in ss]))


def is_seqlike(v):
    return v.op in ("seq", "list", "cat", "upd", "updseq", "filt", "sorted", "groupvals") or isinstance(shape(v), tuple)


# ---------------------------------------------------------------- iterators
def it_seq(s, pos=ZERO, end=None):
    return con("it", "seq", s, pos, end if end is not None else seqlen(s))


def seqlen(s):
    if s.op == "seq" and s.args[0] is INF:
        return INF
    return length(s)


def as_iter(e, v):
    """iterator value of something iterable"""
    def leaf(x):
        if x is BOT:
            return BOT
        if x.op == "con" and x.args[0] == "it":
            return x
        if x.op == "con" and x.args[0] == "Range":
            a, b = x.args[2]
            n = nat(sub(b, a))
            return it_seq(build(n, lambda k: add(a, k)))
        if x.op == "con" and x.args[0] == "RangeInclusive":
            a, b = x.args[2][:2]
            n = nat(add(sub(b, a), ONE))
            return it_seq(build(n, lambda k: add(a, k)))
        if x.op == "con" and x.args[0] == "RangeFrom":
            a = x.args[2][0]
            v = fresh("k", "uint")
            return it_seq(raw("seq", INF, lam(v, add(a, v))))
        if x.op == "con" and x.args[0] == "Option":
            return it_seq(mklist(*x.args[2]))
        return it_seq(x)
    if v.op == "ite" and any(x.op == "con" and x.args[0] == "Option" for x in leaves(v)):
        # at most one element
        g = match(v, ("None", "Some"), {"None": FALSE, "Some": TRUE})
        j = fresh("k", "uint")
        return it_seq(raw("filt", ONE, lam(j, g), lam(j, fld(v, "Some", 0))))
    r = _choose(v, leaf)
    if r.op == "ite":
        ls = leaves(r)
        if len(ls) <= 4 and all(x.op == "con" and x.args[0] == "it" and x.args[1] == "seq" and x.args[2][1] is ZERO
                                and x.args[2][2] is not INF and x.args[2][0].op != "filt" for x in ls):
            sq = _choose(r, lambda x: x.args[2][0])
            n = _choose(r, lambda x: x.args[2][2])
            return it_seq(build(n, lambda k: at(sq, k)))
    return r


def one_leaf(v):
    ls = [x for x in leaves(v) if x is not BOT]
    if len(ls) != 1:
        raise Unmodelled("gated iterator")
    return ls[0]


def pure_seq(e, it):
    """remaining elements of an iterator as a sequence, or None when it has effectful stages"""
    def leaf(x):
        if x is BOT:
            return BOT
        if x.op == "con" and x.args[0] == "it" and x.args[1] == "seq":
            s, a, b = x.args[2]
            if b is INF:
                if a is ZERO:
                    return s
                v = fresh("k", "uint")
                return raw("seq", INF, lam(v, at(s, add(a, v))))
            if s.op in ("cat", "filt") and a is ZERO and b is length(s):
                return s
            return subseq(s, a, nat(sub(b, a))) if not (a is ZERO and b is length(s)) else s
        raise _Impure()
    try:
        return _choose(it, leaf)
    except _Impure:
        return None


class _Impure(Exception):
    pass


def seq_arg(c, st, i=0):
    it = as_iter(c.e, c.val(st, i))
    return it, pure_seq(c.e, it)


def spent(c, st, i=0):
    a = c.args[i]
    if a.op == "mref":
        c.e.write_ref(st, a, con("it", "spent"))


def changed(st, st2):
    return [k for k in st.c if st2.c.get(k) is not st.c[k]]


def eval_pure(c, st, f, args, shp, guard):
    """value of f(args) if evaluating it changes no memory, else None"""
    e = c.e
    mark, ev = len(e.panics), len(e.events)
    st2 = st.copy()
    e.paths.append(AND(c.c, guard))
    try:
        r = e.call_value(st2, f, args, shp)
    finally:
        e.paths.pop()
    if r is None or len(e.events) != ev or [k for k in changed(st, r[1])]:
        del e.panics[mark:]
        del e.events[ev:]
        return None
    return r[0]


def gen_elem(s, j):
    """(guard, value) of the j-th underlying element"""
    if s.op == "filt":
        return open1(s.args[1], j), open1(s.args[2], j)
    return TRUE, at(s, j)


def src_len(s):
    return s.args[0] if s.op in ("filt", "seq") else length(s)


def is_filt(s):
    return s.op == "filt"


def stage(it, kind, f):
    return con("it", "stage", it, raw("str", kind), f)


def over(s, f):
    """apply f(leaf sequence) for a gated sequence"""
    return _choose(s, f)


def bound(n, j):
    return TRUE if n is INF else int_cmp("lt", j, n)


def closure_cell(e, st, f):
    if f.op == "con" and f.args[0] == "closure":
        return e.mref(e.newcell(st, f, "F"))
    return f


def mk_filt(n, g, v):
    """elements v(k) for the k<n with g(k)"""
    h, shs, (gb,) = g.args
    if gb is TRUE:
        return mkseq(n, v)
    if gb is FALSE:
        return raw("list")
    return raw("filt", n, g, v)


SMART["filt"] = mk_filt


@model("Iterator::map")
def m_map(c, st):
    it, s = seq_arg(c, st)
    f = c.args[1]
    if s is not None:
        r = try_map(c, st, s, f)
        if r is not None:
            return it_seq_g(r), st
    return stage(it, "map", f), st


def it_seq_g(s):
    return _choose(s, lambda x: it_seq(x))


def try_map(c, st, s, f):
    def leaf(x):
        if x.op == "cat":
            parts = [leaf(p) for p in x.args]
            return cat(*parts)
        if x.op == "list":
            vals = []
            for a in x.args:
                v = eval_pure(c, st, f, [a], None, TRUE)
                if v is None:
                    raise _Impure()
                vals.append(v)
            return mklist(*vals)
        j = fresh("k", "uint")
        n = src_len(x)
        g, v = gen_elem(x, j)
        r = eval_pure(c, st, f, [v], None, AND(bound(n, j), g))
        if r is None:
            raise _Impure()
        if n is not INF:
            r = restrict(r, bound(n, j))
        if is_filt(x):
            return mk_filt(n, lam(j, g), lam(j, restrict(r, g)))
        if n is INF:
            return raw("seq", INF, lam(j, r))
        return mkseq(n, lam(j, r))
    try:
        return _choose(s, leaf)
    except _Impure:
        return None


@model("Iterator::filter")
def m_filter(c, st):
    it, s = seq_arg(c, st)
    f = c.args[1]
    if s is not None:
        def leaf(x):
            if x.op == "cat":
                return cat(*[leaf(p) for p in x.args])
            j = fresh("k", "uint")
            n = src_len(x)
            g, v = gen_elem(x, j)
            r = eval_pure(c, st, f, [v], "bool", AND(bound(n, j), g))
            if r is None:
                raise _Impure()
            return mk_filt(n, lam(j, AND(g, r)), lam(j, v))
        try:
            return it_seq_g(_choose(s, leaf)), st
        except _Impure:
            pass
    return stage(it, "filter", f), st


@model("Iterator::filter_map")
def m_filter_map(c, st):
    it, s = seq_arg(c, st)
    f = c.args[1]
    if s is not None:
        def leaf(x):
            if x.op == "cat":
                return cat(*[leaf(p) for p in x.args])
            j = fresh("k", "uint")
            n = src_len(x)
            g, v = gen_elem(x, j)
            r = eval_pure(c, st, f, [v], None, AND(bound(n, j), g))
            if r is None:
                raise _Impure()
            g2 = AND(g, is_some(r))
            return mk_filt(n, lam(j, g2), lam(j, restrict(fld(r, "Some", 0), g2)))
        try:
            return it_seq_g(_choose(s, leaf)), st
        except _Impure:
            pass
    return stage(it, "filter_map", f), st


@model("Iterator::inspect")
def m_inspect(c, st):
    it, s = seq_arg(c, st)
    return stage(it, "inspect", c.args[1]), st


@model("Iterator::take_while", "Iterator::skip_while", "Iterator::map_while")
def m_take_while(c, st):
    it, s = seq_arg(c, st)
    return stage(it, c.sn.split("::")[1], c.args[1]), st


@model("Iterator::scan")
def m_scan(c, st):
    it, s = seq_arg(c, st)
    return stage(it, "scan", tup(c.args[1], c.args[2])), st


def whole(y, j, n):
    """the slices of one sequence, one after the other, put together again"""
    if y.op == "list" and len(y.args) == 1 and y.args[0].op == "at" and y.args[0].args[1] is j and j not in freevars(y.args[0].args[0]):
        return subseq(y.args[0].args[0], ZERO, n)
    if y.op != "seq" or y.args[0].op == "ite":
        return None
    w = y.args[0]
    v = fresh("v", "uint")
    x = open1(y.args[1], v)
    if x.op != "at" or j in freevars(x.args[0]) or v in freevars(x.args[0]):
        return None
    src, p = x.args
    step = subst(sub(p, v), {j: ONE})
    if p is not add(v, mul(j, step)) or j in freevars(step):
        return None
    if w is step:
        return subseq(src, ZERO, mul(n, step))
    from engine import idiv
    L = length(src)
    if n is idiv(add(L, sub(step, ONE)), step) and w is imin2(step, sub(L, mul(j, step))):
        return src
    return None


@model("Iterator::flat_map", "Iterator::flatten")
def m_flat(c, st):
    it, s = seq_arg(c, st)
    if s is None:
        raise Unmodelled("flat_map")
    if c.sn.endswith("flat_map"):
        s = try_map(c, st, s, c.args[1])
        if s is None:
            raise Unmodelled("flat_map with effects")

    def leaf(x):
        j = fresh("k", "uint")
        n = src_len(x)
        g, v = gen_elem(x, j)
        ls = [y for y in leaves(v) if y is not BOT]
        if all(y.op == "con" and y.args[0] == "Option" for y in ls):
            g2 = AND(g, is_some(v))
            return mk_filt(n, lam(j, g2), lam(j, restrict(fld(v, "Some", 0), g2)))
        cn = const_val(n)
        if cn is not None and not is_filt(x):
            parts = []
            for q in range(int(cn)):
                y = pure_seq(c.e, as_iter(c.e, at(x, num(q))))
                if y is None:
                    raise Unmodelled("flatten")
                parts.append(y)
            return cat(*parts)
        if not is_filt(x):
            y = pure_seq(c.e, as_iter(c.e, at(x, j)))
            if y is not None and n.op != "ite":
                z = whole(y, j, n)
                if z is not None:
                    return z
                return raw("flat", mkseq(n, lam(j, y)))
        return raw("flat", x)
    return it_seq_g(_choose(s, leaf)), st


def is_some(v):
    return match(v, ("None", "Some"), {"None": FALSE, "Some": TRUE})


@model("Iterator::zip", "zip::zip", "iter::zip")
def m_zip(c, st):
    _, a = seq_arg(c, st, 0)
    _, b = seq_arg(c, st, 1)
    if a is None or b is None:
        raise Unmodelled("zip over effectful iterator")

    def go(x, y):
        n = imin2(seqlen(x), seqlen(y))
        if n is INF:
            v = fresh("k", "uint")
            return it_seq(raw("seq", INF, lam(v, tup(at(x, v), at(y, v)))))
        return it_seq_g(build(n, lambda k: tup(at(x, k), at(y, k))))
    return lift(None, go, a, b), st


def imin2(a, b):
    if a is INF or b is INF:
        return b if a is INF else a
    return lift("imin", imin, a, b)


@model("Iterator::enumerate")
def m_enumerate(c, st):
    it, s = seq_arg(c, st)
    if s is None:
        raise Unmodelled("enumerate over effectful iterator")
    return _choose(s, lambda x: it_seq(raw("seq", INF, lam1(lambda k: tup(k, at(x, k))))) if seqlen(x) is INF
                   else it_seq_g(build(seqlen(x), lambda k: tup(k, at(x, k))))), st


@model("Iterator::rev")
def m_rev(c, st):
    it, s = seq_arg(c, st)
    if s is None:
        raise Unmodelled("rev over effectful iterator")

    def leaf(x):
        if x.op == "cat":
            return cat(*[leaf(p) for p in reversed(x.args)])
        if x.op == "list":
            return mklist(*reversed(x.args))
        if x.op == "filt":
            n, g, v = x.args
            j = fresh("k", "uint")
            q = sub(sub(n, ONE), j)
            return mk_filt(n, lam(j, open1(g, q)), lam(j, open1(v, q)))
        n = length(x)
        return build(n, lambda k: at(x, sub(sub(n, ONE), k)))
    return it_seq_g(_choose(s, leaf)), st


@model("Iterator::chain")
def m_chain(c, st):
    _, a = seq_arg(c, st, 0)
    _, b = seq_arg(c, st, 1)
    if a is None or b is None:
        raise Unmodelled("chain over effectful iterator")
    return it_seq_g(lift(None, lambda x, y: cat(x, y), a, b)), st


@model("Iterator::take", "Iterator::skip")
def m_take(c, st):
    it, s = seq_arg(c, st)
    n = c.val(st, 1)
    if s is None:
        if c.sn.endswith("take"):
            return con("it", "stage", it, raw("str", "take"), n), st
        raise Unmodelled("skip over effectful iterator")

    def take(x, m):
        L = seqlen(x)
        if c.sn.endswith("take"):
            return subseq_inf(x, ZERO, imin2(L, m))
        if L is INF:
            v = fresh("k", "uint")
            return raw("seq", INF, lam(v, at(x, add(v, m))))
        return subseq(x, m, nat(sub(L, m)))
    return it_seq_g(lift(None, take, s, n)), st


def subseq_inf(x, a, n):
    if seqlen(x) is INF:
        return build(n, lambda k: at(x, add(a, k)))
    return subseq(x, a, n)


@model("Iterator::step_by")
def m_step(c, st):
    it, s = seq_arg(c, st)
    k = c.val(st, 1)
    cv = const_val(k) if k.op != "ite" else None
    if s is None or s.op == "ite" or cv is None:
        raise Unmodelled("step_by")
    if cv == 1:
        return it_seq(s), st
    L = seqlen(s)
    n = INF if L is INF else idiv(add(L, num(cv - 1)), k)
    return it_seq_g(build(n, lambda j: at(s, mul(j, k)))), st


@model("Iterator::cycle")
def m_cycle(c, st):
    it, s = seq_arg(c, st)
    if s is None:
        raise Unmodelled("cycle")

    def leaf(x):
        n = length(x)
        v = fresh("k", "uint")
        return it_seq(raw("seq", INF, lam(v, at(x, rem(v, n)))))
    return _choose(s, leaf), st


@model("repeat::repeat")
def m_repeat_it(c, st):
    v = fresh("k", "uint")
    return it_seq(raw("seq", INF, lam(v, c.args[0]))), st


@model("repeat_with::repeat_with")
def m_repeat_with(c, st):
    v = fresh("k", "uint")
    return stage(it_seq(raw("seq", INF, lam(v, tup()))), "thunk", c.args[0]), st


@model("repeat_n::repeat_n")
def m_repeat_n(c, st):
    return it_seq_g(build(c.args[1], lambda k: c.args[0])), st


@model("once::once")
def m_once(c, st):
    return it_seq(mklist(c.args[0])), st


@model("empty::empty")
def m_emptyit(c, st):
    return it_seq(raw("list")), st


@model("Iterator::copied", "Iterator::cloned", "Iterator::by_ref", "Iterator::fuse", "Iterator::peekable")
def m_same(c, st):
    if c.args[0].op == "mref":
        return c.args[0], st
    return as_iter(c.e, c.args[0]), st


@model("IntoIterator::into_iter")
def m_into_iter(c, st):
    a = c.args[0]
    e = c.e
    ty = e.t.r[e.t.strip(c.atys[0])]
    if ty["k"] == "adt" and ty["d"].split("::")[-1] in ("HashMap", "BTreeMap"):
        return it_seq(map_items(c.val(st, 0))), st
    if a.op == "mref" or (a.op == "ite" and any(x.op == "mref" for x in leaves(a))):
        v = e.read_ref(st, a)
        if any(x.op == "con" and x.args[0] == "it" for x in leaves(v)):
            return a, st
        return iter_mut(e, st, a), st
    if is_option(e, c.atys[0]):
        return option_iter(e, a), st
    return as_iter(e, a), st


def is_option(e, ti):
    t = e.t.r[e.t.strip(ti)] if ti is not None else None
    return t is not None and t["k"] == "adt" and t["d"].split("::")[-1] == "Option"


def option_iter(e, v):
    """at most one element"""
    if v.op in ("con", "ite"):
        return as_iter(e, v)
    g = match(v, ("None", "Some"), {"None": FALSE, "Some": TRUE})
    j = fresh("k", "uint")
    return it_seq(raw("filt", ONE, lam(j, g), lam(j, fld(v, "Some", 0))))


def iter_mut(e, st, a):
    n = length(e.read_ref(st, a))

    def one(x):
        if x.op != "mref":
            raise Unmodelled("iter_mut")
        v = fresh("k", "uint")
        return raw("seq", n, lam(v, raw("mref", x.args[0], x.args[1] + (raw("pi", v),))))
    return _choose(a, lambda x: it_seq(one(x), ZERO, n))


@model("slice::iter", "Matrix::iter", "OPoint::iter", "VecDeque::iter", "Vec::iter", "Option::iter", "slice::into_iter", "array::iter")
def m_iter(c, st):
    v = c.val(st, 0)
    if c.kind(0) == "matrix":
        return it_seq_g(flat_matrix(v)), st
    if is_option(c.e, c.atys[0]):
        return option_iter(c.e, v), st
    return as_iter(c.e, v), st


def flat_matrix(v):
    n = length(v)
    cn = const_val(n)
    if cn is not None:
        return cat(*[at(v, num(q)) for q in range(int(cn))])
    return raw("flat", v)


@model("slice::iter_mut", "Matrix::iter_mut", "OPoint::iter_mut", "VecDeque::iter_mut")
def m_iter_mut(c, st):
    a = c.args[0]
    if c.kind(0) == "matrix":
        t = c.e.t
        if not is_column_view(t, c.atys[0]):
            raise Unmodelled("iter_mut over a matrix")
    return iter_mut(c.e, st, a), st


def is_column_view(t, ti):
    r = t.r[t.strip(ti)]
    return t.dim(r["a"][2]["t"]) is ONE


@model("slice::windows")
def m_windows(c, st):
    s, w = c.val(st, 0), c.args[1]
    n = nat(add(sub(length(s), w), ONE))
    return it_seq_g(build(n, lambda k: subseq(s, k, w))), st


@model("slice::chunks", "slice::chunks_exact")
def m_chunks(c, st):
    from engine import idiv
    s, w = c.val(st, 0), c.args[1]
    if const_val(w) is None or const_val(w) < 1:
        c.e.panic("chunk size", NOT(int_cmp("ge", w, ONE)))
    L = length(s)

    def pieces(w):
        if c.sn.endswith("exact"):
            return build(idiv(L, w), lambda k: subseq(s, mul(k, w), w))
        return build(idiv(add(L, sub(w, ONE)), w), lambda k: subseq(s, mul(k, w), imin2(w, sub(L, mul(k, w)))))
    return it_seq_g(_choose(w, pieces)), st


@model("array::windows", "slice::array_windows")
def m_awindows(c, st):
    raise Unmodelled("array_windows")


@model("array::map", "slice::map")
def m_array_map(c, st):
    s = c.args[0]
    r = try_map(c, st, s, c.args[1])
    if r is not None:
        return r, st
    return array_loop(c, st, length(s), lambda k: [at(s, k)], c.args[1])


@model("array::from_fn", "iter::from_fn")
def m_from_fn(c, st):
    if c.dty is None:
        return NotImplemented
    e = c.e
    n = e.t.shape(c.dty)[1]
    f = c.args[0]
    j = fresh("k", "uint")
    v = eval_pure(c, st, f, [j], None, int_cmp("lt", j, n))
    if v is not None:
        return mkseq(n, lam(j, v)), st
    return array_loop(c, st, n, lambda k: [k], f)


def array_loop(c, st, n, argf, f):
    e = c.e
    st = st.copy()
    acc = e.newcell(st, raw("list"), "A")
    f = closure_cell(e, st, f)

    def step(e, s, x, cond_):
        r = e.call_value(s, f, argf(x), None)
        if r is None:
            return []
        v, s = r
        s.c[acc] = cat(s.c[acc], mklist(v))
        return [(None, TRUE, s)]
    exits = drive(c, st, it_seq(build(n, lambda k: k)), step)
    return finish(c, exits, lambda lab, s: s.c[acc])


# ---------------------------------------------------------------- driving a consumer
def stages_of(it):
    st = []
    while it.op == "con" and it.args[0] == "it" and it.args[1] == "stage":
        inner, kind, f = it.args[2]
        st.append((kind.args[0], f))
        it = inner
    return it, st[::-1]


def drive(c, st, it, step):
    """run step(e, state, element, cond) -> [(label|None, cond, state)] for every element.
    -> exits [(label, cond, state)], label 'done' when exhausted"""
    e = c.e
    it = one_leaf(it) if it.op == "ite" and all(x.op == "con" and x.args[1] == "stage" for x in leaves(it)) else it
    if it.op == "ite":
        # gated iterator: run each alternative
        res = []
        for o, x in it.args[1]:
            if x is BOT:
                continue
            g = ite(it.args[0], {oo: boolean(oo == o) for oo in outcomes(it.args[0])})
            e.paths.append(g)
            try:
                for lab, cc, s in drive(c, st.copy(), x, step):
                    res.append((lab, AND(g, cc), s))
            finally:
                e.paths.pop()
        return res
    it, stg = stages_of(it)
    s = pure_seq(e, it)
    if s is None:
        raise Unmodelled("iterator " + str(it.args[:2]))
    if s.op == "ite":
        res = []
        for o, x in s.args[1]:
            if x is BOT:
                continue
            g = ite(s.args[0], {oo: boolean(oo == o) for oo in outcomes(s.args[0])})
            itx = it_seq_g(x)
            for kind, f in stg:
                itx = stage(itx, kind, f)
            e.paths.append(g)
            try:
                for lab, cc, ss in drive(c, st.copy(), itx, step):
                    res.append((lab, AND(g, cc), ss))
            finally:
                e.paths.pop()
        return res
    st = st.copy()
    stg2 = []
    for kind, f in stg:
        if kind == "take":
            stg2.append((kind, e.newcell(st, f, "N")))
        elif kind == "scan":
            stg2.append((kind, (e.newcell(st, fld(f, "", 0), "S"), closure_cell(e, st, fld(f, "", 1)))))
        elif kind == "skip_while":
            stg2.append((kind, (e.newcell(st, TRUE, "S"), closure_cell(e, st, f))))
        else:
            stg2.append((kind, closure_cell(e, st, f)))

    def apply(s0, elem, c0):
        """element through the stages, then the consumer; -> [(label|None, cond, state)]"""
        cur = [(c0, elem, s0)]
        res = []
        for kind, f in stg2:
            nxt = []
            for cc, x, ss in cur:
                if cc is FALSE:
                    continue
                if kind == "take":
                    left = ss.c[f]
                    stop = int_cmp("le", left, ZERO)
                    res.append(("done", AND(cc, stop), ss.copy()))
                    ss = ss.copy()
                    ss.c[f] = sub(left, ONE)
                    nxt.append((AND(cc, NOT(stop)), x, ss))
                    continue
                more = []
                if kind == "scan":
                    more, f_ = [e.mref(f[0])], f[1]
                elif kind == "skip_while":
                    f_ = f[1]
                else:
                    f_ = f
                e.paths.append(cc)
                try:
                    r = e.call_value(ss.copy(), f_, [] if kind == "thunk" else more + [x], "bool" if kind in ("filter", "take_while", "skip_while") else None)
                finally:
                    e.paths.pop()
                if r is None:
                    continue
                v, ss = r
                if kind in ("map", "thunk"):
                    nxt.append((cc, v, ss))
                elif kind == "inspect":
                    nxt.append((cc, x, ss))
                elif kind in ("map_while", "scan"):
                    g = is_some(v)
                    nxt.append((AND(cc, g), fld(v, "Some", 0), ss))
                    res.append(("done", AND(cc, NOT(g)), ss))
                elif kind == "skip_while":
                    skip = AND(ss.c[f[0]], v)
                    s3 = ss.copy()
                    s3.c[f[0]] = FALSE
                    nxt.append((AND(cc, NOT(skip)), x, s3))
                    res.append((None, AND(cc, skip), ss))
                elif kind == "take_while":
                    nxt.append((AND(cc, v), x, ss))
                    res.append(("done", AND(cc, NOT(v)), ss))
                elif kind == "filter":
                    nxt.append((AND(cc, v), x, ss))
                    res.append((None, AND(cc, NOT(v)), ss))
                elif kind == "filter_map":
                    g = is_some(v)
                    nxt.append((AND(cc, g), fld(v, "Some", 0), ss))
                    res.append((None, AND(cc, NOT(g)), ss))
            cur = nxt
        for cc, x, ss in cur:
            if cc is FALSE:
                continue
            e.paths.append(cc)
            try:
                out = step(e, ss.copy(), restrict(x, cc), cc)
            finally:
                e.paths.pop()
            for lab, c2, s2 in out:
                res.append((lab, AND(cc, c2), s2))
        return [(l, cc, s2) for l, cc, s2 in res if cc is not FALSE]

    pieces = list(s.args) if s.op == "cat" else [s]
    exits = []
    cur = [(TRUE, st)]
    from engine import merge
    for p in pieces:
        if not cur:
            break
        c0, s0 = merge(cur)
        cur = []
        if p.op == "list" and len(p.args) <= 4:
            states = [(c0, s0)]
            for x in p.args:
                if not states:
                    break
                cc, ss = merge(states)
                states = []
                for lab, c2, s2 in apply(ss, x, cc):
                    if lab is None:
                        states.append((c2, s2))
                    else:
                        exits.append((lab, c2, s2))
            cur = states
            continue
        n = src_len(p)
        s0 = s0.copy()
        K = e.newcell(s0, ZERO, "K")

        def body(h, p=p, n=n, K=K):
            k = h.c[K]
            go = TRUE if n is INF else int_cmp("lt", k, n)
            ex, conts = [], []
            if n is not INF:
                ex.append((("done",), NOT(go), h.copy()))
            g, v = gen_elem(p, k)
            h2 = h.copy()
            h2.c[K] = add(k, ONE)
            if g is not TRUE:
                conts.append((AND(go, NOT(g)), h2.copy()))
            for lab, cc, ss in apply(h2, restrict(v, AND(go, g)), AND(go, g)):
                if lab is None:
                    conts.append((cc, ss))
                else:
                    ex.append(((lab,), cc, ss))
            return [x for x in conts if x[0] is not FALSE], [x for x in ex if x[1] is not FALSE]
        e.paths.append(c0)
        try:
            outs = e.run_loop(s0, body)
        finally:
            e.paths.pop()
        for lab, cc, ss in outs:
            if lab == ("done",):
                cur.append((AND(c0, cc), ss))
            else:
                exits.append((lab[0], AND(c0, cc), ss))
    for cc, ss in cur:
        exits.append(("done", cc, ss))
    return exits


def finish(c, exits, val):
    """merge exits into one (value, state)"""
    from engine import merge, mux
    if not exits:
        return None
    vals = [(cc, val(lab, s)) for lab, cc, s in exits]
    inc = [(cc, s) for lab, cc, s in exits]
    if len(inc) == 1:
        return vals[0][1], inc[0][1]
    _, st = merge(inc)
    return mux(vals), st


@model("Iterator::fold")
def m_fold(c, st):
    e = c.e
    it, _ = seq_arg(c, st)
    st = st.copy()
    acc = e.newcell(st, c.args[1], "A")
    f = closure_cell(e, st, c.args[2])
    shp = e.t.shape(c.dty) if c.dty is not None else None

    def step(e, s, x, cc):
        r = e.call_value(s, f, [s.c[acc], x], shp)
        if r is None:
            return []
        v, s = r
        s.c[acc] = v
        return [(None, TRUE, s)]
    return finish(c, drive(c, st, it, step), lambda lab, s: s.c[acc])


@model("Iterator::for_each")
def m_for_each(c, st):
    e = c.e
    it, _ = seq_arg(c, st)
    st = st.copy()
    f = closure_cell(e, st, c.args[1])

    def step(e, s, x, cc):
        r = e.call_value(s, f, [x], None)
        return [] if r is None else [(None, TRUE, r[1])]
    return finish(c, drive(c, st, it, step), lambda lab, s: UNIT)


@model("Iterator::any", "Iterator::all")
def m_any(c, st):
    e = c.e
    it, s = seq_arg(c, st)
    want = c.sn.endswith("any")
    if s is not None:
        # closed form when the predicate has no effects
        def leaf(x):
            if x.op == "cat":
                return OR(*[leaf(p) for p in x.args])
            j = fresh("k", "uint")
            n = src_len(x)
            if n is INF:
                raise _Impure()
            g, v = gen_elem(x, j)
            gd = AND(int_cmp("lt", j, n), g)
            r = eval_pure(c, st, c.args[1], [v], "bool", gd)
            if r is None:
                raise _Impure()
            hit = r if want else NOT(r)
            return exists(n, lam(j, AND(g, restrict(hit, int_cmp("lt", j, n)))))
        try:
            E = _choose(s, leaf)
            spent(c, st)
            return (E if want else NOT(E)), st
        except _Impure:
            pass
    st = st.copy()
    f = closure_cell(e, st, c.args[1])

    def step(e, s, x, cc):
        r = e.call_value(s, f, [x], "bool")
        if r is None:
            return []
        v, s = r
        hit = v if want else NOT(v)
        return [("hit", hit, s.copy()), (None, NOT(hit), s)]
    r = finish(c, drive(c, st, it, step), lambda lab, s: boolean((lab == "hit") == want))
    if r:
        spent(c, r[1])
    return r


@model("Iterator::find", "Iterator::find_map", "Iterator::position", "Iterator::rposition")
def m_find(c, st):
    e = c.e
    which = c.sn.split("::")[1]
    if which == "rposition":
        raise Unmodelled("rposition")
    it, _ = seq_arg(c, st)
    st = st.copy()
    f = closure_cell(e, st, c.args[1])
    P = e.newcell(st, ZERO, "P")
    R = e.newcell(st, NONE(), "R")

    def step(e, s, x, cc):
        r = e.call_value(s, f, [x], "bool" if which != "find_map" else None)
        if r is None:
            return []
        v, s = r
        hit = v if which != "find_map" else is_some(v)
        s2 = s.copy()
        s2.c[R] = SOME(x) if which == "find" else SOME(fld(v, "Some", 0)) if which == "find_map" else SOME(s.c[P])
        s.c[P] = add(s.c[P], ONE)
        return [("hit", hit, s2), (None, NOT(hit), s)]
    r = finish(c, drive(c, st, it, step), lambda lab, s: s.c[R] if lab == "hit" else NONE())
    if r:
        spent(c, r[1])
    return r


@model("Iterator::sum", "Iterator::product")
def m_sum(c, st):
    e = c.e
    it, s = seq_arg(c, st)
    if c.dty is not None and e.t.kind(c.dty) not in ("int", "real"):
        raise Unmodelled("sum into " + e.t.r[c.dty]["s"])
    st = st.copy()
    is_sum = c.sn.endswith("sum")
    acc = e.newcell(st, ZERO if is_sum else ONE, "A")

    def step(e, s, x, cc):
        s.c[acc] = (add if is_sum else mul)(s.c[acc], x)
        return [(None, TRUE, s)]
    r = finish(c, drive(c, st, it, step), lambda lab, s: s.c[acc])
    from engine import BITS
    ty = e.t.r[e.t.strip(c.dty)]["s"] if c.dty is not None else None
    if ty in BITS and is_sum:
        top = 2 ** (BITS[ty] - (ty[0] == "i"))
        e.panic("overflowSum", int_cmp("ge", r[0], num(top)), (r[0],))
    return r


@model("Iterator::count")
def m_count(c, st):
    it, s = seq_arg(c, st)
    e = c.e
    if s is not None and all(x.op != "filt" for x in leaves(s)):
        return length(s), st
    st = st.copy()
    acc = e.newcell(st, ZERO, "A")

    def step(e, s, x, cc):
        s.c[acc] = add(s.c[acc], ONE)
        return [(None, TRUE, s)]
    return finish(c, drive(c, st, it, step), lambda lab, s: s.c[acc])


def extremum(c, st, keep_new, s):
    """running extremum: keep_new(e, state, best, x) -> (bool, state)"""
    e = c.e

    def step(s, B, y):
        k, s = keep_new(e, s, s.c[B], y)
        s.c[B] = cond(k, y, s.c[B])
        return s
    return gated(e, st, s, lambda st, x: from_first(c, st, x, step))


def from_first(c, st, x, step):
    """fold over the elements after the first, starting from the first; None when empty"""
    e = c.e
    n = length(x)
    some = int_cmp("ge", n, ONE)
    if some is FALSE:
        return NONE(), st
    s0 = st.copy()
    B = e.newcell(s0, at(x, ZERO), "B")
    m = fresh("m", "uint")
    real = {m: sub(n, ONE)}
    mark = len(e.panics)

    def stp(e, s, y, cc):
        s = step(s, B, y)
        return [(None, TRUE, s)] if s is not None else []
    e.paths.append(some)
    try:
        r = finish(c, drive(c, s0, it_seq(subseq(x, ONE, m)), stp), lambda lab, s: s.c[B])
    finally:
        e.paths.pop()
    for p in e.panics[mark:]:
        p.cond = subst(p.cond, real)
    if r is None:
        return None
    v, s1 = r
    for k in s1.c:
        s1.c[k] = subst(s1.c[k], real)
    return cond(some, _choose(subst(v, real), SOME), NONE()), s1


def gated(e, st, s, f):
    """f(sequence) -> (value, state) on every alternative of a gated sequence"""
    if s.op != "ite":
        return f(st, s)
    from engine import merge, mux
    vals, inc = [], []
    for o, x in s.args[1]:
        if x is BOT:
            continue
        g = ite(s.args[0], {oo: boolean(oo == o) for oo in outcomes(s.args[0])})
        e.paths.append(g)
        try:
            r = gated(e, st.copy(), x, f)
        finally:
            e.paths.pop()
        if r is not None:
            vals.append((g, r[0]))
            inc.append((g, r[1]))
    if not vals:
        return None
    if len(vals) == 1:
        return vals[0][1], inc[0][1]
    _, st2 = merge(inc)
    return mux(vals), st2


@model("Iterator::max_by", "Iterator::min_by", "Iterator::max", "Iterator::min", "Iterator::max_by_key", "Iterator::min_by_key")
def m_extremum(c, st):
    e = c.e
    it, s = seq_arg(c, st)
    if s is None:
        raise Unmodelled(c.sn)
    which = c.sn.split("::")[1]
    f = c.args[1] if len(c.args) > 1 else None

    def keep(e, s, best, x):
        if which.endswith("_by"):
            r = e.call_value(s, f, [best, x], None)
            if r is None:
                raise Unmodelled("comparator never returns")
            o, s = r
        elif which.endswith("_key"):
            a, s = e.call_value(s, f, [best], "int")
            b, s = e.call_value(s, f, [x], "int")
            o = e.ordering(a, b, "int")
        else:
            o = e.ordering(best, x, "int")
        gt = match(o, ORD, {"Less": FALSE, "Equal": FALSE, "Greater": TRUE})
        return (NOT(gt) if which.startswith("max") else gt), s
    return extremum(c, st, keep, s)


@model("Iterator::reduce")
def m_reduce(c, st):
    e = c.e
    it, s = seq_arg(c, st)
    if s is None:
        raise Unmodelled("reduce")

    def go(st, x):
        st = st.copy()
        f = closure_cell(e, st, c.args[1])

        def step(s1, B, y):
            r = e.call_value(s1, f, [s1.c[B], y], None)
            if r is None:
                return None
            v, s1 = r
            s1.c[B] = v
            return s1
        return from_first(c, st, x, step)
    return gated(e, st, s, go)


def try_parts(e, v, ty=None):
    """(continue?, output, residual) of a Try value"""
    ls = [x for x in leaves(v) if x is not BOT]
    for x in ls:
        if x.op == "con":
            ty = x.args[0]
    if ty == "Option":
        g = match(v, ("None", "Some"), {"None": FALSE, "Some": TRUE})
        return g, fld(v, "Some", 0), NONE(), SOME
    if ty == "Result":
        g = match(v, ("Ok", "Err"), {"Ok": TRUE, "Err": FALSE})
        r = _choose(fld(v, "Err", 0), lambda x: con("Result", "Err", x))
        return g, fld(v, "Ok", 0), r, lambda x: con("Result", "Ok", x)
    if ty == "ControlFlow":
        g = match(v, ("Continue", "Break"), {"Continue": TRUE, "Break": FALSE})
        r = _choose(fld(v, "Break", 0), lambda x: con("ControlFlow", "Break", x))
        return g, fld(v, "Continue", 0), r, lambda x: con("ControlFlow", "Continue", x)
    raise Unmodelled("try type")


@model("Iterator::try_fold", "Iterator::try_for_each")
def m_try_fold(c, st):
    e = c.e
    it, _ = seq_arg(c, st)
    st = st.copy()
    folding = c.sn.endswith("try_fold")
    acc = e.newcell(st, c.args[1] if folding else UNIT, "A")
    R = e.newcell(st, BOT, "R")
    f = closure_cell(e, st, c.args[2 if folding else 1])
    wrap = []

    def step(e, s, x, cc):
        r = e.call_value(s, f, [s.c[acc], x] if folding else [x], None)
        if r is None:
            return []
        v, s = r
        ok, out, res, w = try_parts(e, v)
        wrap.append(w)
        s2 = s.copy()
        s2.c[R] = restrict(res, NOT(ok))
        s.c[acc] = restrict(out, ok)
        return [("brk", NOT(ok), s2), (None, ok, s)]
    exits = drive(c, st, it, step)
    if not wrap:
        w = None
        ti = e.t.strip(c.dty)
        last = e.t.r[ti]["d"].split("::")[-1]
        w = {"Option": SOME, "Result": lambda x: con("Result", "Ok", x)}.get(last)
        if w is None:
            raise Unmodelled("try_fold type")
        wrap.append(w)
    r = finish(c, exits, lambda lab, s: s.c[R] if lab == "brk" else _choose(s.c[acc], wrap[0]))
    if r:
        spent(c, r[1])
    return r


@model("Iterator::last")
def m_last_it(c, st):
    it, s = seq_arg(c, st)
    if s is None:
        raise Unmodelled("last")
    n = length(s)
    return cond(int_cmp("ge", n, ONE), _choose(at(s, sub(n, ONE)), SOME), NONE()), st


@model("Iterator::nth")
def m_nth(c, st):
    it, s = seq_arg(c, st)
    if s is None or s.op == "ite":
        raise Unmodelled("nth")
    k = c.args[1]
    x = one_leaf(it)
    _, pos, end = x.args[2]
    L = seqlen(s)
    g = TRUE if L is INF else int_cmp("lt", k, L)
    if c.args[0].op == "mref":
        c.e.write_ref(st, c.args[0], con("it", "seq", x.args[2][0], add(pos, add(k, ONE)), end))
    return cond(g, _choose(at(s, k), SOME), NONE()), st


@model("Iterator::next", "DoubleEndedIterator::next_back")
def m_next(c, st):
    e = c.e
    a = c.args[0]
    back = c.sn.endswith("next_back")
    if a.op != "mref":
        raise Unmodelled("next on opaque iterator")
    v = e.read_ref(st, a)
    st = st.copy()
    if any(x.op == "mref" for x in leaves(v)):
        a = v
        v = e.read_ref(st, a)
    v0 = v
    v = _choose(v, lambda x: x if (x.op == "con" and x.args[0] in ("it",)) else as_iter(e, x))

    def leaf(x):
        if x.op != "con" or x.args[0] != "it" or x.args[1] not in ("seq", "filtit"):
            if x.op == "con" and x.args[1] == "stage":
                raise _Stage()
            raise Unmodelled("next on " + str(x.args[:2]))
        s, pos, end = x.args[2]
        g = TRUE if end is INF else int_cmp("lt", pos, end)
        if back:
            i = sub(end, ONE)
            nx = con("it", "seq", s, pos, cond(g, i, end))
        else:
            i = pos
            nx = con("it", "seq", s, cond(g, add(pos, ONE), pos), end)
        return tup(cond(g, _choose(at(s, i), SOME), NONE()), nx)
    try:
        ls = [x for x in leaves(v) if x is not BOT]
        if len(ls) == 1 and ls[0].op == "con" and ls[0].args[1] in ("seq", "filtit") and (ls[0].args[2][0].op == "filt") and not back:
            return next_filt(c, st, a, ls[0])
        r = _choose(v, leaf)
        e.write_ref(st, a, fld(r, "", 1))
        return fld(r, "", 0), st
    except _Stage:
        pass
    # effectful stages
    x = one_leaf(v)
    base, stg = stages_of(x)
    r = leaf(base)
    cur, nb = fld(r, "", 0), fld(r, "", 1)
    got = is_some(cur)
    val = fld(cur, "Some", 0)
    newstg = []
    for kind, f in stg:
        if kind not in ("map", "inspect", "take_while", "map_while") or kind in ("take_while", "map_while") and (base.args[1] != "seq" or base.args[2][2] is INF or back):
            raise Unmodelled("next over effectful " + kind)
        cell = e.newcell(st, f, "F")
        s2 = st.copy()
        e.paths.append(got)
        try:
            q = e.call_value(s2, e.mref(cell), [val], "bool" if kind == "take_while" else None)
        finally:
            e.paths.pop()
        if q is None:
            return None
        v2, s2 = q
        from engine import merge
        _, st = merge([(got, s2), (NOT(got), st)])
        if kind == "map":
            val = v2
        if kind in ("take_while", "map_while"):
            # a rejected element ends the iteration for good
            on = v2 if kind == "take_while" else is_some(v2)
            if kind == "map_while":
                val = fld(v2, "Some", 0)
            over_ = AND(got, NOT(on))
            s_, p_, e_ = nb.args[2]
            nb = con("it", "seq", s_, cond(over_, e_, p_), e_)
            got = AND(got, on)
        newstg.append((kind, st.c[cell]))
        del st.c[cell]
    itv = nb
    for kind, f in newstg:
        itv = stage(itv, kind, f)
    e.write_ref(st, a, itv)
    return cond(got, _choose(val, SOME), NONE()), st


class _Stage(Exception):
    pass


def next_filt(c, st, a, x):
    """one step over a filtered sequence: rejected elements jump back to the loop header"""
    e = c.e
    s, pos, end = x.args[2]
    n, g, v = s.args
    # first call: restart on the underlying index
    if end is length(s) and x.args[1] == "seq" and pos is ZERO:
        end2 = n
    elif x.args[1] == "filtit":
        end2 = end
    else:
        raise Unmodelled("partly consumed filtered iterator")
    go = int_cmp("lt", pos, end2)
    gk = open1(g, pos)
    nxt = con("it", "filtit", s, add(pos, ONE), end2)
    skip_c = AND(go, NOT(gk))
    s_skip = st.copy()
    e.write_ref(s_skip, a, nxt)
    keep = OR(NOT(go), gk)
    e.write_ref(st, a, con("it", "filtit", s, cond(go, add(pos, ONE), pos), end2))
    e.pending_skip = (skip_c, s_skip, keep)
    val = cond(go, _choose(open1(v, pos), SOME), NONE())
    return restrict(val, keep), st


@model("ExactSizeIterator::len")
def m_itlen(c, st):
    it, s = seq_arg(c, st)
    if s is None:
        raise Unmodelled("len of effectful iterator")
    return length(s), st


@model("Iterator::collect", "FromIterator::from_iter", "Iterator::to_vec")
def m_collect(c, st):
    e = c.e
    it, s = seq_arg(c, st)
    if c.dty is None:
        raise Unmodelled("collect into unknown type")
    ti = e.t.strip(c.dty)
    t = e.t.r[ti]
    last = t["d"].split("::")[-1] if t["k"] == "adt" else t["k"]
    if last in ("Vec", "VecDeque", "slice"):
        if s is not None:
            return s, st
        st = st.copy()
        acc = e.newcell(st, raw("list"), "A")

        def step(e, s, x, cc):
            s.c[acc] = cat(s.c[acc], mklist(x))
            return [(None, TRUE, s)]
        return finish(c, drive(c, st, it, step), lambda lab, s: s.c[acc])
    if last in ("Option", "Result"):
        st = st.copy()
        acc = e.newcell(st, raw("list"), "A")
        R = e.newcell(st, BOT, "R")

        def step(e, s, x, cc):
            ok, out, res, w = try_parts(e, x, last)
            s2 = s.copy()
            s2.c[R] = restrict(res, NOT(ok))
            s.c[acc] = cat(s.c[acc], mklist(restrict(out, ok)))
            return [("brk", NOT(ok), s2), (None, ok, s)]
        wrap = SOME if last == "Option" else (lambda x: con("Result", "Ok", x))
        return finish(c, drive(c, st, it, step), lambda lab, s: s.c[R] if lab == "brk" else _choose(s.c[acc], wrap))
    raise Unmodelled("collect into " + t["s"])


@model("Extend::extend", "Vec::extend_from_slice", "Vec::append")
def m_extend(c, st):
    e = c.e
    a = c.args[0]
    if c.sn.endswith("append"):
        b = c.args[1]
        s = e.read_ref(st, b)
        e.write_ref(st, b, raw("list"))
    else:
        it, s = seq_arg(c, st, 1)
    if s is None:
        st = st.copy()

        def step(e, s1, x, cc):
            e.write_ref(s1, a, cat(e.read_ref(s1, a), mklist(x)))
            return [(None, TRUE, s1)]
        return finish(c, drive(c, st, it, step), lambda lab, s1: UNIT)
    st = st.copy()
    e.write_ref(st, a, lift(None, lambda x, y: cat(x, y), e.read_ref(st, a), s))
    return UNIT, st


@model("Iterator::unzip")
def m_unzip(c, st):
    it, s = seq_arg(c, st)
    if s is None:
        raise Unmodelled("unzip")
    n = length(s)
    return tup(build(n, lambda k: fld(at(s, k), "", 0)), build(n, lambda k: fld(at(s, k), "", 1))), st


@model("Iterator::partition", "Iterator::dedup")
def m_unsup(c, st):
    raise Unmodelled(c.sn)


@model("Iterator::size_hint")
def m_size_hint(c, st):
    raise Unmodelled(c.sn)


# ---------------------------------------------------------------- slices, vectors
@model("slice::len", "Vec::len", "VecDeque::len", "Matrix::len", "OPoint::len")
def m_len(c, st):
    v = c.val(st, 0)
    if c.kind(0) == "matrix":
        return mul(length(v), length(at(v, ZERO))), st
    return length(v), st


@model("slice::is_empty", "Vec::is_empty", "VecDeque::is_empty", "ExactSizeIterator::is_empty")
def m_is_empty(c, st):
    return int_cmp("eq", length(c.val(st, 0)), ZERO), st


@model("Vec::new", "VecDeque::new", "Vec::with_capacity", "VecDeque::with_capacity", "Vec::default")
def m_vecnew(c, st):
    return raw("list"), st


@model("Vec::push", "VecDeque::push_back")
def m_push(c, st):
    e = c.e
    st = st.copy()
    x = c.args[1]
    e.write_ref(st, c.args[0], _choose(e.read_ref(st, c.args[0]), lambda s: cat(s, mklist(x))))
    return UNIT, st


@model("VecDeque::push_front")
def m_push_front(c, st):
    e = c.e
    st = st.copy()
    e.write_ref(st, c.args[0], _choose(e.read_ref(st, c.args[0]), lambda s: cat(mklist(c.args[1]), s)))
    return UNIT, st


@model("Vec::pop", "VecDeque::pop_back")
def m_pop(c, st):
    e = c.e
    st = st.copy()
    s = e.read_ref(st, c.args[0])
    n = length(s)
    some = int_cmp("ge", n, ONE)
    e.write_ref(st, c.args[0], cond(some, drop_last(s), s))
    return cond(some, _choose(at(s, sub(n, ONE)), SOME), NONE()), st


def drop_last(s):
    def leaf(x):
        if x.op == "cat" and x.args[-1].op == "list":
            l = x.args[-1].args
            return cat(*(x.args[:-1] + ((raw("list", *l[:-1]),) if len(l) > 1 else ())))
        if x.op == "list" and x.args:
            return raw("list", *x.args[:-1])
        return subseq(x, ZERO, sub(length(x), ONE))
    return _choose(s, leaf)


@model("VecDeque::pop_front")
def m_pop_front(c, st):
    e = c.e
    st = st.copy()
    s = e.read_ref(st, c.args[0])
    n = length(s)
    some = int_cmp("ge", n, ONE)
    e.write_ref(st, c.args[0], cond(some, subseq(s, ONE, sub(n, ONE)), s))
    return cond(some, _choose(at(s, ZERO), SOME), NONE()), st


@model("Vec::truncate", "VecDeque::truncate")
def m_truncate(c, st):
    e = c.e
    st = st.copy()
    s = e.read_ref(st, c.args[0])
    k = c.args[1]
    n = length(s)
    e.write_ref(st, c.args[0], cond(int_cmp("lt", k, n), subseq(s, ZERO, k), s))
    return UNIT, st


@model("Vec::clear", "VecDeque::clear")
def m_clear(c, st):
    st = st.copy()
    c.e.write_ref(st, c.args[0], raw("list"))
    return UNIT, st


@model("slice::reverse")
def m_reverse(c, st):
    e = c.e
    st = st.copy()
    s = e.read_ref(st, c.args[0])
    n = length(s)
    e.write_ref(st, c.args[0], build(n, lambda k: at(s, sub(sub(n, ONE), k))))
    return UNIT, st


@model("slice::swap", "Vec::swap")
def m_swap(c, st):
    e = c.e
    st = st.copy()
    s = e.read_ref(st, c.args[0])
    i, j = c.args[1], c.args[2]
    for q in (i, j):
        e.assertion("bounds", c.c, int_cmp("lt", q, length(s)), (q, length(s)))
    a, b = at(s, i), at(s, j)
    e.write_ref(st, c.args[0], upd(upd(s, i, b), j, a))
    return UNIT, st


@model("mem::swap")
def m_memswap(c, st):
    e = c.e
    st = st.copy()
    a, b = e.read_ref(st, c.args[0]), e.read_ref(st, c.args[1])
    e.write_ref(st, c.args[0], b)
    e.write_ref(st, c.args[1], a)
    return UNIT, st


@model("mem::replace", "Option::replace_")
def m_memreplace(c, st):
    e = c.e
    st = st.copy()
    a = e.read_ref(st, c.args[0])
    e.write_ref(st, c.args[0], c.args[1])
    return a, st


@model("mem::take")
def m_memtake(c, st):
    e = c.e
    st = st.copy()
    a = e.read_ref(st, c.args[0])
    e.write_ref(st, c.args[0], default(c, c.atys[0]))
    return a, st


@model("Option::take")
def m_opttake(c, st):
    e = c.e
    st = st.copy()
    a = e.read_ref(st, c.args[0])
    e.write_ref(st, c.args[0], NONE())
    return a, st


@model("slice::first", "slice::last", "VecDeque::front", "VecDeque::back")
def m_first(c, st):
    s = c.val(st, 0)
    n = length(s)
    i = ZERO if c.sn.split("::")[1] in ("first", "front") else sub(n, ONE)
    return cond(int_cmp("ge", n, ONE), _choose(at(s, i), SOME), NONE()), st


@model("slice::last_mut", "slice::first_mut")
def m_last_mut(c, st):
    e = c.e
    s = c.val(st, 0)
    n = length(s)
    i = ZERO if "first" in c.sn else sub(n, ONE)
    r = e.extend_ref(c.args[0], (raw("pi", i),))
    return cond(int_cmp("ge", n, ONE), _choose(r, SOME), NONE()), st


@model("slice::split_first", "slice::split_last")
def m_split_first(c, st):
    s = c.val(st, 0)
    n = length(s)
    m = sub(n, ONE)
    if c.sn.endswith("first"):
        t = tup(at(s, ZERO), subseq(s, ONE, m))
    else:
        t = tup(at(s, m), subseq(s, ZERO, m))
    return cond(int_cmp("ge", n, ONE), SOME(t), NONE()), st


@model("slice::split_at")
def m_split_at(c, st):
    s, k = c.val(st, 0), c.args[1]
    n = length(s)
    c.e.assertion("bounds", c.c, int_cmp("le", k, n), (k, n))
    return tup(subseq(s, ZERO, k), subseq(s, k, sub(n, k))), st


@model("slice::get", "VecDeque::get", "Vec::get")
def m_get(c, st):
    s, k = c.val(st, 0), c.args[1]
    if c.kind(1) != "int":
        raise Unmodelled("get with a range")
    return cond(int_cmp("lt", k, length(s)), _choose(at(s, k), SOME), NONE()), st


@model("slice::get_mut")
def m_get_mut(c, st):
    k = c.args[1]
    if c.kind(1) != "int":
        raise Unmodelled("get_mut with a range")
    s = c.val(st, 0)
    r = c.e.extend_ref(c.args[0], (raw("pi", k),))
    return cond(int_cmp("lt", k, length(s)), _choose(r, SOME), NONE()), st


def range_bounds(r, n):
    r = one_leaf(r)
    if r.op != "con":
        raise Unmodelled("opaque range index")
    k, f = r.args[0], r.args[2]
    if k == "Range":
        return f[0], f[1]
    if k == "RangeFrom":
        return f[0], n
    if k == "RangeTo":
        return ZERO, f[0]
    if k == "RangeInclusive":
        return f[0], add(f[1], ONE)
    if k == "RangeToInclusive":
        return ZERO, add(f[0], ONE)
    if k == "RangeFull":
        return ZERO, n
    raise Unmodelled("range index " + k)


@model("Index::index", "SliceIndex::index", "Vec::index", "slice::index")
def m_index(c, st):
    e = c.e
    s, i = c.val(st, 0), c.val(st, 1)
    ks, ki = c.kind(0), c.kind(1)
    if c.sn == "SliceIndex::index":
        s, i, ks, ki = i, s, ki, ks
    if ks == "other" and any(x.op == "con" and x.args[1] == "emptymap" for x in leaves(s)):
        raise Unmodelled("map index")
    if ks == "matrix":
        if ki != "tuple":
            raise Unmodelled("linear matrix index")
        r_, c_ = fld(i, "", 0, "uint"), fld(i, "", 1, "uint")
        e.assertion("bounds", c.c, int_cmp("lt", c_, length(s)), (c_, length(s)))
        e.assertion("bounds", c.c, int_cmp("lt", r_, length(at(s, ZERO))), (r_, length(at(s, ZERO))))
        return at(at(s, c_), r_), st
    n = length(s)
    if ki == "tuple":
        i = fld(i, "", 0, "uint")
        ki = "int"
    if ki == "int":
        e.assertion("bounds", c.c, int_cmp("lt", i, n), (i, n))
        return at(s, i), st
    a, b = range_bounds(i, n)
    e.assertion("bounds", c.c, AND(int_cmp("le", a, b), int_cmp("le", b, n)), (a, b, n))
    return subseq(s, a, sub(b, a)), st


@model("IndexMut::index_mut", "SliceIndex::index_mut")
def m_index_mut(c, st):
    e = c.e
    r, i, kr, ki = c.args[0], c.val(st, 1), c.kind(0), c.kind(1)
    if c.sn == "SliceIndex::index_mut":
        r, i, kr, ki = c.args[1], c.val(st, 0), c.kind(1), c.kind(0)
    s = e.read_ref(st, r)
    if kr == "matrix":
        if ki != "tuple":
            raise Unmodelled("linear matrix index")
        r_, c_ = fld(i, "", 0, "uint"), fld(i, "", 1, "uint")
        return e.extend_ref(r, (raw("pi", c_), raw("pi", r_))), st
    if ki == "tuple":
        i = fld(i, "", 0, "uint")
        ki = "int"
    n = length(s)
    if ki == "int":
        e.assertion("bounds", c.c, int_cmp("lt", i, n), (i, n))
        return e.extend_ref(r, (raw("pi", i),)), st
    a, b = range_bounds(i, n)
    e.assertion("bounds", c.c, AND(int_cmp("le", a, b), int_cmp("le", b, n)), (a, b, n))
    return e.extend_ref(r, (raw("psub", a, sub(b, a)),)), st


@model("slice::contains", "VecDeque::contains")
def m_contains(c, st):
    e = c.e
    s, x = c.val(st, 0), c.val(st, 1)
    n = length(s)
    return exists(n, lam1(lambda k: e.equal(at(s, k), x, c.atys[1]))), st


@model("slice::copy_from_slice", "slice::clone_from_slice")
def m_copy_from(c, st):
    e = c.e
    st = st.copy()
    e.assertion("copy length", c.c, int_cmp("eq", length(c.val(st, 0)), length(c.val(st, 1))), ())
    e.write_ref(st, c.args[0], c.val(st, 1))
    return UNIT, st


@model("slice::fill")
def m_fill(c, st):
    st = st.copy()
    n = length(c.val(st, 0))
    c.e.write_ref(st, c.args[0], build(n, lambda k: c.args[1]))
    return UNIT, st


@model("vec::from_elem")
def m_from_elem(c, st):
    return build(c.args[1], lambda k: c.args[0]), st


@model("Vec::insert", "VecDeque::insert")
def m_vec_insert(c, st):
    e = c.e
    st = st.copy()
    s = e.read_ref(st, c.args[0])
    i, n = c.args[1], length(s)
    e.assertion("bounds", c.c, int_cmp("le", i, n), (i, n))
    e.write_ref(st, c.args[0], cat(subseq(s, ZERO, i), mklist(c.args[2]), subseq(s, i, sub(n, i))))
    return UNIT, st


@model("Vec::remove")
def m_vec_remove(c, st):
    e = c.e
    st = st.copy()
    s = e.read_ref(st, c.args[0])
    i, n = c.args[1], length(s)
    e.assertion("bounds", c.c, int_cmp("lt", i, n), (i, n))
    e.write_ref(st, c.args[0], cat(subseq(s, ZERO, i), subseq(s, add(i, ONE), sub(sub(n, i), ONE))))
    return at(s, i), st


@model("Vec::retain")
def m_vec_retain(c, st):
    e = c.e
    st = st.copy()
    s = e.read_ref(st, c.args[0])

    def leaf(x):
        j = fresh("k", "uint")
        g, v = gen_elem(x, j)
        p = eval_pure(c, st, c.args[1], [v], "bool", g)
        if p is None:
            raise Unmodelled("retain")
        g2 = AND(g, p)
        return mk_filt(src_len(x), lam(j, g2), lam(j, v))
    e.write_ref(st, c.args[0], _choose(s, leaf))
    return UNIT, st


@model("Vec::dedup", "Vec::dedup_by", "Vec::dedup_by_key")
def m_vec_dedup(c, st):
    e = c.e
    st = st.copy()
    s = e.read_ref(st, c.args[0])
    e.write_ref(st, c.args[0], _choose(s, lambda x: app("dedup", shape(x), x)))
    return UNIT, st


@model("slice::rotate_left", "slice::rotate_right")
def m_rotate(c, st):
    e = c.e
    st = st.copy()
    s = e.read_ref(st, c.args[0])
    n, m = length(s), c.args[1]
    if c.sn.endswith("right"):
        m = sub(n, m)
    e.write_ref(st, c.args[0], cat(subseq(s, m, sub(n, m)), subseq(s, ZERO, m)))
    return UNIT, st


@model("Vec::swap_remove", "Vec::drain", "Vec::resize", "Vec::split_off",
       "VecDeque::drain", "VecDeque::extend", "slice::sort", "slice::sort_unstable", "slice::sort_by_key",
       "slice::select_nth_unstable_by", "slice::concat", "VecDeque::make_contiguous")
def m_vec_unsup(c, st):
    raise Unmodelled(c.sn)


@model("slice::sort_by", "slice::sort_unstable_by")
def m_sort_by(c, st):
    e = c.e
    st = st.copy()
    s = e.read_ref(st, c.args[0])
    es = elem_shape(shape(s))
    a, b = fresh("a", es), fresh("b", es)
    o = eval_pure(c, st, c.args[1], [a, b], None, raw_true_pred("sortcmp", a, b))
    if o is None:
        raise Unmodelled("comparator with effects")
    e.sorts.append((e.where, s, a, b, o))
    e.write_ref(st, c.args[0], _choose(s, lambda x: raw("sorted", x, mlam([a, b], (o,)))))
    return UNIT, st


def raw_true_pred(name, *args):
    return TRUE


# ---------------------------------------------------------------- identity-like
def ident(c, st):
    if c.args[0].op == "mref" and c.dty is not None and c.e.t.r[c.dty]["k"] == "ref" and c.e.t.r[c.dty]["m"]:
        return c.args[0], st
    return c.val(st, 0), st


for n in ("Clone::clone", "ToOwned::to_owned", "slice::to_vec", "Vec::as_slice", "Vec::as_mut_slice", "AsRef::as_ref", "Borrow::borrow", "slice::into_vec", "Vec::into_boxed_slice",
          "Box::new", "Box::as_ref", "slice::as_ref", "Vec::into_vec", "VecDeque::as_slices_", "BorrowMut::borrow_mut", "AsMut::as_mut", "array::as_slice", "Deref::deref",
          "DerefMut::deref_mut", "Box::pin_", "hint::black_box", "convert::identity", "ToVec::to_vec", "Unit::into_inner", "Vec::leak", "array::each_ref", "boxed::box_new",
          "slice::as_slice", "Matrix::clone_owned", "Matrix::into_owned", "OPoint::coords_", "Point::coords_", "Unsize::unsize", "Box::into_inner", "slice::iter_", "NonZero::get", "box_new_uninit::x", "exchange_malloc::x", "box_assume_init_into_vec_unsafe::x"):
    M[n] = ident


@model("From::from", "Into::into")
def m_from(c, st):
    e = c.e
    b = e.bodies.get(c.callee.get("key"))
    if b is not None and not (c.dty is not None and "crate::" not in b["path"] and c.kind(0) in ("array", "slice") and e.t.kind(c.dty) in ("array", "slice")):
        return NotImplemented
    v = c.val(st, 0)
    if c.dty is None:
        return v, st
    ks, kd = c.kind(0), e.t.kind(c.dty)
    seqk = ("point", "vector", "array", "slice", "other", "matrix")
    td = e.t.r[e.t.strip(c.dty)]
    if kd == "real" and ks in ("int", "real", "bool") or kd == "int" and ks in ("int", "bool"):
        return (cond(v, ONE, ZERO) if ks == "bool" else v), st
    if td["k"] == "adt" and td["d"].endswith("::Option"):
        return SOME(v), st
    if ks in ("point", "vector", "array", "slice") and (kd in ("point", "vector", "array", "slice") or td.get("d", "").endswith("::Translation")):
        return v, st
    if e.t.r[e.t.strip(c.atys[0])]["s"] == td["s"]:
        return v, st
    if td.get("d", "").endswith("::Translation"):
        return v, st
    raise Unmodelled("conversion %s -> %s" % (e.t.r[e.t.strip(c.atys[0])]["s"], td["s"]))


@model("TryFrom::try_from", "TryInto::try_into", "FromStr::from_str")
def m_try_from(c, st):
    raise Unmodelled(c.sn)


def default(c, ti):
    e = c.e
    ti = e.t.strip(ti)
    t = e.t.r[ti]
    k = e.t.kind(ti)
    if k in ("int", "real"):
        return ZERO
    if k == "bool":
        return FALSE
    if k == "slice":
        return raw("list")
    if k in ("point", "vector", "array", "matrix"):
        return zeros(e.t.shape(ti))
    if t["k"] == "tuple":
        return tup(*[default(c, f) for f in t["f"]]) if t["f"] else UNIT
    if t["k"] == "adt" and t["d"].endswith("::Option"):
        return NONE()
    if t["k"] == "adt" and t["d"].split("::")[-1] in ("HashMap", "BTreeMap"):
        return con("map", "emptymap")
    raise Unmodelled("default of " + t["s"])


def zeros(shp, x=ZERO):
    if isinstance(shp, tuple):
        return build(shp[1], lambda k: zeros(shp[2], x))
    return x


@model("Default::default")
def m_default(c, st):
    own = c.callee.get("key") in c.e.bodies
    try:
        if c.dty is None:
            raise Unmodelled("default")
        return default(c, c.dty), st
    except Unmodelled:
        if own:
            return NotImplemented
        raise


@model("OPoint::origin", "Matrix::zeros", "Matrix::repeat_")
def m_zeros(c, st):
    return zeros(c.e.t.shape(c.dty)), st


@model("Matrix::repeat", "Matrix::from_element")
def m_repeat_m(c, st):
    return zeros(c.e.t.shape(c.dty), c.args[0]), st


# ---------------------------------------------------------------- maps
@model("HashMap::new", "BTreeMap::new", "HashMap::with_capacity", "HashMap::default")
def m_mapnew(c, st):
    return con("map", "emptymap"), st


@model("HashMap::entry", "BTreeMap::entry")
def m_entry(c, st):
    return con("Entry", "", c.args[0], c.args[1]), st


@model("Entry::or_default", "Entry::or_insert_with", "Entry::or_insert")
def m_or_default(c, st):
    e = c.e
    en = one_leaf(c.args[0])
    m, k = en.args[2]
    if c.sn.endswith("or_default"):
        d = default(c, c.dty)
    elif c.sn.endswith("or_insert"):
        d = c.args[1]
    else:
        d = eval_pure(c, st, c.args[1], [], None, TRUE)
        if d is None:
            raise Unmodelled("or_insert_with")
    st = st.copy()
    mv = e.read_ref(st, m)
    e.write_ref(st, m, map_upd(mv, k, map_get(mv, k, d)))
    return e.extend_ref(m, (raw("pk", k, d),)), st


def group_seq(op, v):
    return _choose(v, lambda m: raw(op, m) if m.op != "con" else raw("list"))


@model("HashMap::into_values", "HashMap::values", "BTreeMap::into_values", "BTreeMap::values")
def m_into_values(c, st):
    return _choose(group_seq("groupvals", c.val(st, 0)), it_seq), st


@model("HashMap::into_keys", "HashMap::keys", "BTreeMap::into_keys", "BTreeMap::keys")
def m_into_keys(c, st):
    return _choose(group_seq("groupkeys", c.val(st, 0)), it_seq), st


def map_items(v):
    ks, vs = group_seq("groupkeys", v), group_seq("groupvals", v)
    return build(length(vs), lambda k: tup(at(ks, k), at(vs, k)))


@model("HashMap::iter", "BTreeMap::iter", "HashMap::drain")
def m_mapiter(c, st):
    r = it_seq(map_items(c.val(st, 0)))
    if c.sn.endswith("drain"):
        c.e.write_ref(st, c.args[0], con("map", "emptymap"))
    return r, st


@model("HashMap::len", "BTreeMap::len")
def m_maplen(c, st):
    return length(group_seq("groupvals", c.val(st, 0))), st


@model("HashMap::is_empty", "BTreeMap::is_empty")
def m_mapempty(c, st):
    return int_cmp("eq", length(group_seq("groupvals", c.val(st, 0))), ZERO), st


@model("HashMap::insert", "BTreeMap::insert")
def m_mapinsert(c, st):
    st = st.copy()
    m, k, v = c.val(st, 0), c.args[1], c.args[2]
    c.e.write_ref(st, c.args[0], map_upd(m, k, v))
    return cond(map_has(m, k), _choose(map_get(m, k, BOT), SOME), NONE()), st


@model("HashMap::contains_key", "BTreeMap::contains_key")
def m_mapcontains(c, st):
    return map_has(c.val(st, 0), c.val(st, 1)), st


@model("HashMap::get", "BTreeMap::get")
def m_mapget(c, st):
    m, k = c.val(st, 0), c.val(st, 1)
    return cond(map_has(m, k), _choose(map_get(m, k, BOT), SOME), NONE()), st


@model("HashMap::get_mut", "BTreeMap::get_mut")
def m_mapgetmut(c, st):
    m, k = c.val(st, 0), c.val(st, 1)
    return cond(map_has(m, k), _choose(c.e.extend_ref(c.args[0], (raw("pk", k, BOT),)), SOME), NONE()), st


@model("Entry::and_modify")
def m_andmodify(c, st):
    en = one_leaf(c.args[0])
    m, k = en.args[2]
    mv = c.e.read_ref(st, m)
    has = map_has(mv, k)
    if has is FALSE:
        return en, st
    r = c.e.call_value(st.copy(), c.args[1], [c.e.extend_ref(m, (raw("pk", k, BOT),))], None)
    if r is None:
        raise Unmodelled("and_modify that never returns")
    s2 = r[1]
    out = st.copy()
    for cell in s2.c:
        if cell not in st.c or s2.c[cell] is not st.c[cell]:
            out.c[cell] = cond(has, s2.c[cell], st.c[cell]) if cell in st.c else s2.c[cell]
    return en, out


@model("HashMap::remove", "HashMap::values_mut", "HashMap::iter_mut", "BTreeMap::remove", "BTreeMap::values_mut", "BTreeMap::iter_mut", "HashMap::retain")
def m_map_unsup(c, st):
    raise Unmodelled(c.sn)


# ---------------------------------------------------------------- numbers
@model("Zero::zero")
def m_zero(c, st):
    if c.dty is not None and isinstance(c.e.t.shape(c.dty), tuple):
        return zeros(c.e.t.shape(c.dty)), st
    return ZERO, st


@model("One::one")
def m_one(c, st):
    if c.dty is not None and c.e.t.kind(c.dty) not in ("real", "int"):
        raise Unmodelled("one")
    return ONE, st


@model("Zero::is_zero")
def m_is_zero(c, st):
    v = c.val(st, 0)
    k = c.kind(0)
    if k == "int":
        return int_cmp("eq", v, ZERO), st
    if k == "real":
        return real_cmp("eq", v, ZERO), st
    raise Unmodelled("is_zero")


@model("One::is_one")
def m_is_one(c, st):
    v = c.val(st, 0)
    return (int_cmp if c.kind(0) == "int" else real_cmp)("eq", v, ONE), st


@model("IsNan::is_nan", "Float::is_nan", "f32::is_nan", "f64::is_nan", "num::is_nan", "Real::is_nan")
def m_is_nan(c, st):
    if c.callee.get("key") in c.e.bodies:
        return NotImplemented
    return is_nan(c.val(st, 0)), st


@model("f32::is_finite", "f64::is_finite", "Float::is_finite", "ComplexField::is_finite", "f32::is_infinite", "f64::is_infinite", "Float::is_infinite")
def m_is_finite(c, st):
    return as_bool(raw("app", c.sn.split("::")[1], "bool", c.val(st, 0))) if c.val(st, 0).op != "ite" else app(c.sn.split("::")[1], "bool", c.val(st, 0)), st


def m_const(f):
    def g(c, st):
        return f(), st
    return g


for nm, v in (("two_pi", lambda: mul(num(2), PI)), ("pi", lambda: PI), ("frac_pi_2", lambda: mul(num(1) / 1 if False else num("1/2"), PI)), ("PI", lambda: PI), ("TAU", lambda: mul(num(2), PI)),
              ("frac_pi_4", lambda: mul(num("1/4"), PI))):
    for tr in ("RealField", "FloatConst"):
        M[tr + "::" + nm] = m_const(v)


@model("Bounded::max_value", "Float::max_value", "Bounded::min_value", "RealField::max_value", "RealField::min_value", "Float::infinity", "Float::neg_infinity", "Float::nan", "Float::epsilon",
       "AbsDiffEq::default_epsilon", "Float::min_positive_value", "Real::max_value", "Real::min_value", "Real::epsilon", "RelativeEq::default_max_relative")
def m_named(c, st):
    n = c.sn.split("::")[1]
    if n == "nan":
        return raw("nan"), st
    return raw("app", {"default_epsilon": "epsilon", "infinity": "max_value", "neg_infinity": "min_value"}.get(n, n), "num"), st


@model("AsPrimitive::as_", "NumCast::from", "ToPrimitive::to_f64", "SupersetOf::from_subset", "SimdValue::splat", "nalgebra::convert", "subset::convert")
def m_as(c, st):
    e = c.e
    v = c.val(st, 0)
    ga = [x["t"] for x in c.callee.get("args", ()) if "t" in x]
    if c.sn.startswith("NumCast") and len(ga) == 2:
        ts, td = e.t.r[e.t.strip(ga[1])], e.t.r[e.t.strip(ga[0])]
        if td["k"] in ("param", "float") and ts["k"] in ("int", "uint", "float"):
            return SOME(do_cast(v, ts, td)), st
    if c.sn.startswith("NumCast") or c.sn.startswith("ToPrimitive"):
        raise Unmodelled(c.sn)
    if c.sn == "AsPrimitive::as_" and len(ga) == 2:
        src, dst = ga
    else:
        src, dst = c.atys[0], c.dty
    if src is None or dst is None:
        raise Unmodelled("conversion between unknown types")
    ts, td = e.t.r[e.t.strip(src)], e.t.r[e.t.strip(dst)]
    return do_cast(v, ts, td), st


def do_cast(v, ts, td):
    ks, kd = ts["k"], td["k"]
    if ts["s"] == td["s"]:
        return v
    if ks in ("int", "uint") and kd in ("param", "float", "int", "uint"):
        from engine import wrapped
        return wrapped(v, ts["s"], td["s"])
    shp = {"int": "int", "uint": "uint"}.get(kd, "num")

    def leaf(x):
        if kd in ("param", "float") and const_val(x) is not None:
            return x
        return app("cast", shp, raw("str", td["s"]), x)
    return _choose(v, leaf)


def binary(op):
    def m(c, st):
        e = c.e
        a, b = c.val(st, 0), c.val(st, 1)
        return arith(c, op, a, b, c.kind(0), c.kind(1)), st
    return m


def arith(c, op, a, b, ka, kb):
    seqk = ("point", "vector", "array")
    f = {"add": add, "sub": sub, "mul": mul, "div": div}.get(op)
    num_ = ("int", "real")
    if ka in num_ and kb in num_:
        if op == "rem":
            return rem(a, b) if ka == "int" else frem(a, b)
        if op == "div" and ka == "int":
            return idiv(a, b)
        if MODE.get("fl") and "real" in (ka, kb) and op in ("add", "sub"):
            return fladd(a, b if op == "add" else neg(b))
        return f(a, b)
    if op in ("add", "sub") and ka in ("point", "vector") and kb in ("point", "vector"):
        return elementwise(f, a, b)
    if op in ("add", "sub") and ka == "matrix" and kb == "matrix":
        return elementwise(lambda x, y: elementwise(f, x, y), a, b)
    if op in ("mul", "div") and ka in ("point", "vector") and kb in num_:
        return elementwise(lambda x: f(x, b), a)
    if op in ("mul", "div") and ka == "matrix" and kb in num_:
        return elementwise(lambda x: elementwise(lambda y: f(y, b), x), a)
    if op == "mul" and ka in num_ and kb in ("point", "vector"):
        return elementwise(lambda x: f(a, x), b)
    if op == "mul" and ka == "matrix" and kb in ("vector", "point"):
        return matvec(a, b)
    if op == "mul" and ka in ("matrix", "vector") and kb == "matrix":
        A = a if ka == "matrix" else mklist(a)
        return build(length(b), lambda j: matvec(A, at(b, j)))
    s = [c.e.t.r[c.e.t.strip(i)] for i in c.atys[:2]]
    names = [x.get("d", x["k"]).split("::")[-1] for x in s]
    if op == "mul" and names[0] == "Isometry" and kb == "point":
        return transform_point(a, b)
    if op == "mul" and names[0] == "Isometry" and names[1] == "Isometry":
        return app("iso_mul", None, a, b)
    if op == "mul" and kb in ("point", "vector"):
        return rotate(a, b)
    if op == "mul" and names[0] == names[1] and names[0] in ("Unit", "Rotation"):
        return app("rot_mul", None, a, b)
    raise Unmodelled("%s of %s and %s" % (op, names[0], names[1]))


def matvec(A, v):
    """A is a sequence of columns"""
    n = length(A)
    return build(length(at(A, ZERO)), lambda r: sumi(n, lam1(lambda k: mul(at(at(A, k), r), at(v, k)))))


def frem(a, b):
    return lift("frem", lambda x, y: app("frem", "num", x, y), a, b)


for tr, op in (("Add::add", "add"), ("Sub::sub", "sub"), ("Mul::mul", "mul"), ("Div::div", "div"), ("Rem::rem", "rem")):
    M[tr] = binary(op)


def assign(op):
    def m(c, st):
        e = c.e
        st = st.copy()
        a, b = c.val(st, 0), c.val(st, 1)
        e.write_ref(st, c.args[0], arith(c, op, a, b, c.kind(0), c.kind(1)))
        return UNIT, st
    return m


for tr, op in (("AddAssign::add_assign", "add"), ("SubAssign::sub_assign", "sub"), ("MulAssign::mul_assign", "mul"), ("DivAssign::div_assign", "div"), ("RemAssign::rem_assign", "rem")):
    M[tr] = assign(op)


@model("Neg::neg")
def m_neg(c, st):
    v = c.val(st, 0)
    k = c.kind(0)
    if k in ("int", "real"):
        return neg(v), st
    if k in ("point", "vector"):
        return elementwise(neg, v), st
    raise Unmodelled("neg")


@model("Not::not")
def m_not(c, st):
    if c.kind(0) == "bool":
        return NOT(c.val(st, 0)), st
    raise Unmodelled("not")


def cmpm(o):
    def m(c, st):
        e = c.e
        if c.callee.get("key") in e.bodies and c.kind(0) not in ("int", "real", "bool"):
            return NotImplemented
        a, b = c.val(st, 0), c.val(st, 1)
        ti = c.atys[0]
        if "Level" in str(c.callee.get("rpath")) or "Level" in e.t.r[e.t.strip(ti)]["s"]:
            return FALSE, st
        return e.compare(o, a, b, ti), st
    return m


for o in ("lt", "le", "gt", "ge"):
    M["PartialOrd::" + o] = cmpm(o)
for o in ("eq", "ne"):
    M["PartialEq::" + o] = cmpm(o)


@model("PartialOrd::partial_cmp")
def m_partial_cmp(c, st):
    e = c.e
    if "log::Level" in str(c.callee.get("rpath")):
        return SOME(O("Greater")), st
    if c.callee.get("key") in e.bodies:
        return NotImplemented
    k = c.kind(0)
    if k in ("int", "real"):
        return e.partial_ordering(c.val(st, 0), c.val(st, 1), k), st
    raise Unmodelled("partial_cmp of " + e.t.r[e.t.strip(c.atys[0])]["s"])


@model("Ord::cmp")
def m_cmp(c, st):
    e = c.e
    if c.callee.get("key") in e.bodies:
        return NotImplemented
    k = c.kind(0)
    if k in ("int", "real"):
        return e.ordering(c.val(st, 0), c.val(st, 1), k), st
    raise Unmodelled("cmp")


@model("f32::total_cmp", "f64::total_cmp", "Float::total_cmp")
def m_total_cmp(c, st):
    raise Unmodelled("total_cmp")


def pick(cnd, a, b, nanv):
    """cnd: sign outcomes choosing a"""
    return _choose(sign(sub(a, b)), lambda g: nanv if g.args[0] == "u" else (a if g.args[0] in cnd else b))


def rmin(a, b):
    return lift("rmin", lambda x, y: pick("-0", x, y, app("nanmin", "num", x, y)), a, b)


def rmax(a, b):
    return lift("rmax", lambda x, y: pick("+0", x, y, app("nanmax", "num", x, y)), a, b)


@model("RealField::min", "Float::min", "f32::min", "f64::min", "Real::min", "Ord::min")
def m_min(c, st):
    a, b = c.val(st, 0), c.val(st, 1)
    if c.kind(0) == "int":
        return cond(int_cmp("le", a, b), a, b), st
    return rmin(a, b), st


@model("RealField::max", "Float::max", "f32::max", "f64::max", "Real::max", "Ord::max")
def m_max(c, st):
    a, b = c.val(st, 0), c.val(st, 1)
    if c.kind(0) == "int":
        return cond(int_cmp("ge", a, b), a, b), st
    return rmax(a, b), st


@model("RealField::clamp", "num_traits::clamp", "f32::clamp", "f64::clamp", "Float::clamp", "Ord::clamp", "Real::clamp")
def m_clamp(c, st):
    v, a, b = [c.val(st, i) for i in range(3)]
    if c.kind(0) == "int":
        return cond(int_cmp("lt", v, a), a, cond(int_cmp("gt", v, b), b, v)), st
    return cond(real_cmp("lt", v, a), a, cond(real_cmp("gt", v, b), b, v)), st


def rabs(x):
    return lift("rabs", lambda y: _choose(sign(y), lambda g: neg(y) if g.args[0] == "-" else y), x)


@model("ComplexField::abs", "Float::abs", "f32::abs", "f64::abs", "Signed::abs", "Real::abs", "RealField::abs")
def m_abs(c, st):
    v = c.val(st, 0)
    if c.kind(0) == "int":
        return cond(int_cmp("lt", v, ZERO), neg(v), v), st
    return rabs(v), st


@model("usize::abs_diff", "isize::abs_diff")
def m_abs_diff(c, st):
    a, b = c.args[:2]
    return cond(int_cmp("lt", a, b), sub(b, a), sub(a, b)), st


PURE = ("sin", "cos", "tan", "asin", "acos", "atan", "sqrt", "floor", "ceil", "round", "trunc", "fract", "exp", "ln", "log", "signum", "cbrt", "sinh", "cosh", "tanh")
TRAITS = ("Float", "ComplexField", "RealField", "Real", "f32", "f64", "FloatCore")


def mk_pure(n):
    def m(c, st):
        return lift(("pure", n), lambda x: pure1(n, x), c.val(st, 0)), st
    return m


def pure1(n, x):
    cv = const_val(x)
    if cv is not None:
        if cv == 0 and n in ("sin", "tan", "sqrt", "floor", "atan", "asin"):
            return ZERO
        if cv == 1 and n == "sqrt":
            return ONE
        if n == "floor":
            import math
            return num(math.floor(cv))
    return app(n, "num", x)


for n in PURE:
    for tr in TRAITS:
        M[tr + "::" + n] = mk_pure(n)


def mk_pure2(n):
    def m(c, st):
        return app(n, "num", c.val(st, 0), c.val(st, 1)), st
    return m


for n in ("atan2", "powf", "hypot", "rem_euclid", "copysign", "div_euclid"):
    for tr in TRAITS:
        M[tr + "::" + n] = mk_pure2(n)


@model(*[t + "::to_radians" for t in TRAITS])
def m_rad(c, st):
    return mul(c.val(st, 0), mul(PI, num("1/180"))), st


@model(*[t + "::to_degrees" for t in TRAITS])
def m_deg(c, st):
    return mul(c.val(st, 0), mul(num(180), inv(PI))), st


@model(*[t + "::sin_cos" for t in TRAITS])
def m_sincos(c, st):
    v = c.val(st, 0)
    return tup(app("sin", "num", v), app("cos", "num", v)), st


@model(*[t + "::mul_add" for t in TRAITS])
def m_mul_add(c, st):
    return add(mul(c.val(st, 0), c.val(st, 1)), c.val(st, 2)), st


@model(*[t + "::recip" for t in TRAITS])
def m_recip(c, st):
    return inv(c.val(st, 0)), st


@model("Float::powi", "ComplexField::powi", "f32::powi", "f64::powi", "Real::powi", "num_traits::pow", "pow::pow", "usize::pow", "Pow::pow")
def m_powi(c, st):
    v, n = c.val(st, 0), c.val(st, 1)
    cn = const_val(n) if n.op != "ite" else None
    if cn is None or cn.denominator != 1 or not 0 <= cn <= 8:
        return app("powi", "num", v, n), st
    r = ONE
    for _ in range(int(cn)):
        r = mul(r, v)
    return r, st


@model("usize::saturating_sub", "u32::saturating_sub", "u64::saturating_sub")
def m_satsub(c, st):
    return nat(sub(c.args[0], c.args[1])), st


@model("usize::saturating_add", "usize::wrapping_add", "usize::wrapping_mul", "usize::saturating_mul")
def m_satadd(c, st):
    return (mul if "mul" in c.sn else add)(c.args[0], c.args[1]), st


@model("usize::checked_sub")
def m_chksub(c, st):
    d = sub(c.args[0], c.args[1])
    return cond(int_cmp("ge", d, ZERO), SOME(d), NONE()), st


@model("usize::is_multiple_of")
def m_multiple(c, st):
    return int_cmp("eq", rem(c.args[0], c.args[1]), ZERO), st


@model("usize::rem_euclid")
def m_rem_eu(c, st):
    return rem(c.args[0], c.args[1]), st


# ---------------------------------------------------------------- nalgebra
@model("OPoint::map", "Matrix::map")
def m_pmap(c, st):
    s = c.val(st, 0)
    if c.kind(0) == "matrix":
        raise Unmodelled("matrix map")
    r = try_map(c, st, s, c.args[1])
    if r is not None:
        return r, st
    return array_loop(c, st, length(s), lambda k: [at(s, k)], c.args[1])


@model("Matrix::zip_map")
def m_zipmap(c, st):
    s, t = c.val(st, 0), c.val(st, 1)
    j = fresh("k", "uint")
    v = eval_pure(c, st, c.args[2], [at(s, j), at(t, j)], None, int_cmp("lt", j, length(s)))
    if v is None or c.kind(0) == "matrix":
        raise Unmodelled("zip_map")
    return mkseq(length(s), lam(j, v)), st


@model("Matrix::from_data", "Matrix::from_array_storage", "Matrix::from_data_generic_unchecked_")
def m_from_data(c, st):
    return c.e.from_data(c.args[0], c.dty), st


@model("Matrix::from_fn")
def m_mat_from_fn(c, st):
    e = c.e
    shp = e.t.shape(c.dty)
    i, j = fresh("k", "uint"), fresh("k", "uint")
    if isinstance(shp[2], tuple):
        v = eval_pure(c, st, c.args[0], [i, j], None, AND(int_cmp("lt", j, shp[1]), int_cmp("lt", i, shp[2][1])))
        if v is None:
            raise Unmodelled("from_fn with effects")
        return mkseq(shp[1], lam(j, mkseq(shp[2][1], lam(i, v)))), st
    v = eval_pure(c, st, c.args[0], [i, ZERO], None, int_cmp("lt", i, shp[1]))
    if v is None:
        raise Unmodelled("from_fn with effects")
    return mkseq(shp[1], lam(i, v)), st


@model("OPoint::from_slice_", "OPoint::new", "Matrix::new")
def m_new(c, st):
    if c.dty is not None and c.e.t.kind(c.dty) in ("point", "vector"):
        return mklist(*c.args), st
    raise Unmodelled(c.sn)


@model("Matrix::transpose")
def m_transpose(c, st):
    v = c.val(st, 0)
    if c.kind(0) == "vector":
        return build(length(v), lambda j: mklist(at(v, j))), st
    if c.e.t.kind(c.dty) == "vector":
        return build(length(v), lambda j: at(at(v, j), ZERO)), st
    return build(length(at(v, ZERO)), lambda j: build(length(v), lambda i: at(at(v, i), j))), st


@model("Matrix::tr_mul")
def m_trmul(c, st):
    raise Unmodelled("tr_mul")


@model("Matrix::dot")
def m_dot(c, st):
    a, b = c.val(st, 0), c.val(st, 1)
    return sumi(length(a), lam1(lambda k: mul(at(a, k), at(b, k)))), st


@model("Matrix::norm_squared")
def m_normsq(c, st):
    a = c.val(st, 0)
    return sumi(length(a), lam1(lambda k: mul(at(a, k), at(a, k)))), st


@model("Matrix::norm", "Matrix::magnitude")
def m_norm(c, st):
    a = c.val(st, 0)
    return app("sqrt", "num", sumi(length(a), lam1(lambda k: mul(at(a, k), at(a, k))))), st


@model("nalgebra::distance_squared", "point::distance_squared", "edition::distance_squared", "helper::distance_squared", "base::distance_squared")
def m_dist2(c, st):
    if c.callee.get("key") in c.e.bodies:
        return NotImplemented
    a, b = c.val(st, 0), c.val(st, 1)
    return sumi(length(a), lam1(lambda k: mul(sub(at(a, k), at(b, k)), sub(at(a, k), at(b, k))))), st


@model("Matrix::neg_mut")
def m_neg_mut(c, st):
    st = st.copy()
    k = c.kind(0)
    c.e.write_ref(st, c.args[0], elementwise(neg if k == "vector" else lambda x: elementwise(neg, x), c.val(st, 0)))
    return UNIT, st


@model("Matrix::scale_mut")
def m_scale_mut(c, st):
    st = st.copy()
    k, b = c.kind(0), c.args[1]
    f = lambda y: mul(y, b)
    c.e.write_ref(st, c.args[0], elementwise(f if k == "vector" else lambda x: elementwise(f, x), c.val(st, 0)))
    return UNIT, st


@model("Matrix::set_column")
def m_set_column(c, st):
    st = st.copy()
    i, s = c.args[1], c.val(st, 0)
    c.e.assertion("bounds", c.c, int_cmp("lt", i, length(s)), (i, length(s)))
    c.e.write_ref(st, c.e.extend_ref(c.args[0], (raw("pi", i),)), c.val(st, 2))
    return UNIT, st


@model("Matrix::from_diagonal")
def m_from_diagonal(c, st):
    v = c.val(st, 0)
    n = length(v)
    return build(n, lambda j: build(n, lambda i: cond(int_cmp("eq", i, j), at(v, i), ZERO))), st


@model("Matrix::column_mut", "Matrix::column", "Matrix::row", "Matrix::row_mut")
def m_column(c, st):
    e = c.e
    i = c.args[1]
    if "row" in c.sn:
        raise Unmodelled(c.sn)
    if c.sn.endswith("_mut"):
        s = c.val(st, 0)
        e.assertion("bounds", c.c, int_cmp("lt", i, length(s)), (i, length(s)))
        return e.extend_ref(c.args[0], (raw("pi", i),)), st
    s = c.val(st, 0)
    e.assertion("bounds", c.c, int_cmp("lt", i, length(s)), (i, length(s)))
    return at(s, i), st


@model("Matrix::svd", "Matrix::try_svd", "Matrix::svd_unordered")
def m_svd(c, st):
    e = c.e
    v = c.val(st, 0)
    nm = c.sn.split("::")[1]
    if nm == "try_svd":
        raise Unmodelled("try_svd")
    shp = e.t.shape(c.atys[0])
    args = (v,)
    wu, wv = c.args[1], c.args[2]
    U = app(nm + ".u", shp, v)
    V = app(nm + ".v_t", shp, v)
    S = app(nm + ".s", ("vec", shp[1], "num"), v)
    return con("SVD", "", cond(wu, SOME(U), NONE()), cond(wv, SOME(V), NONE()), S), st


@model("Matrix::determinant")
def m_det(c, st):
    return lift("det", det, c.val(st, 0)), st


def det(v):
    n = const_val(length(v))
    if n in (1, 2, 3):
        m = [[at(at(v, num(j)), num(i)) for j in range(int(n))] for i in range(int(n))]
        return expand(m)
    return app("det", "num", v)


def expand(m):
    if len(m) == 1:
        return m[0][0]
    s = ZERO
    for j in range(len(m)):
        t = mul(m[0][j], expand([r[:j] + r[j + 1:] for r in m[1:]]))
        s = add(s, t) if j % 2 == 0 else sub(s, t)
    return s


@model("Isometry::from_parts")
def m_from_parts(c, st):
    return con("Isometry", "", c.args[1], c.args[0]), st


@model("Isometry::identity")
def m_iso_id(c, st):
    return raw("app", "iso_identity", None), st


def rotate(r, p):
    return lift("rotate", lambda a, b: app("rotate", shape(b), a, b), r, p)


def transform_point(iso, p):
    """rotation, then translation"""
    def leaf(a, b):
        n = length(b)
        r = rotate(fld(a, "", 0), b)
        t = fld(a, "", 1, ("vec", n, elem_shape(shape(b)) or "num"))
        return elementwise(lambda x, y: add(x, y), r, t)
    return lift("transform_point", leaf, iso, p)


@model("Isometry::transform_point", "AbstractRotation::transform_point_")
def m_tp(c, st):
    return transform_point(c.val(st, 0), c.val(st, 1)), st


@model("AbstractRotation::transform_point", "AbstractRotation::transform_vector", "Unit::transform_point", "Unit::transform_vector", "Rotation::transform_point", "Rotation::transform_vector")
def m_rotate(c, st):
    return rotate(c.val(st, 0), c.val(st, 1)), st


@model("Isometry::transform_vector")
def m_iso_tv(c, st):
    return rotate(fld(c.val(st, 0), "", 0), c.val(st, 1)), st


@model("Translation::transform_point")
def m_translate(c, st):
    return elementwise(lambda x, y: add(x, y), c.val(st, 1), c.val(st, 0)), st


@model("Translation::inverse_transform_point")
def m_itranslate(c, st):
    return elementwise(lambda x, y: sub(x, y), c.val(st, 1), c.val(st, 0)), st


@model("Isometry::inverse_transform_point", "Isometry::inverse", "Isometry::inv_mul", "AbstractRotation::inverse_transform_point", "Unit::inverse_transform_point", "AbstractRotation::inverse", "AbstractRotation::inverse_transform_vector")
def m_inv_rot(c, st):
    return app(c.sn.split("::")[-1], shape(c.val(st, 1)) if len(c.args) > 1 else None, *[c.val(st, i) for i in range(len(c.args))]), st


@model("Unit::from_matrix", "Rotation::from_matrix", "Unit::from_rotation_matrix", "Rotation::from_matrix_unchecked")
def m_from_matrix(c, st):
    nm = "rot_" + c.sn.split("::")[1]
    if c.sn.startswith("Rotation"):
        nm = "Rotation_" + c.sn.split("::")[1]
    return app(nm, None, c.val(st, 0)), st




# ---------------------------------------------------------------- ranges
@model("RangeInclusive::new")
def m_ri(c, st):
    return con("RangeInclusive", "", c.args[0], c.args[1]), st


@model("RangeInclusive::start")
def m_ri_s(c, st):
    return fld(c.val(st, 0), "", 0, "num"), st


@model("RangeInclusive::end")
def m_ri_e(c, st):
    return fld(c.val(st, 0), "", 1, "num"), st


@model("RangeInclusive::into_inner")
def m_ri_in(c, st):
    v = c.val(st, 0)
    return tup(fld(v, "", 0, "num"), fld(v, "", 1, "num")), st


@model("RangeInclusive::contains", "Range::contains")
def m_ri_c(c, st):
    v, x = c.val(st, 0), c.val(st, 1)
    a, b = fld(v, "", 0, "num"), fld(v, "", 1, "num")
    cmp = int_cmp if c.kind(1) == "int" else real_cmp
    return AND(cmp("le", a, x), cmp("le" if c.sn.startswith("RangeI") else "lt", x, b)), st


@model("RangeInclusive::is_empty")
def m_ri_empty(c, st):
    v = c.val(st, 0)
    return NOT(real_cmp("le", fld(v, "", 0, "num"), fld(v, "", 1, "num"))), st


# ---------------------------------------------------------------- randomness, logging, panics
@model("SeedableRng::seed_from_u64")
def m_seed(c, st):
    return app("rng", None, raw("str", rng_type(c)), c.args[0]), st


def rng_type(c):
    return c.e.t.r[c.e.t.strip(c.dty)]["s"] if c.dty is not None else "?"


@model("Rng::gen_range")
def m_gen_range(c, st):
    e = c.e
    st = st.copy()
    r = e.read_ref(st, c.args[0])
    rg = c.args[1]
    v = app("draw", "num", r, rg)
    e.write_ref(st, c.args[0], app("rng_next", None, r, rg))
    return v, st


@model("log::max_level")
def m_maxlevel(c, st):
    return con("LevelFilter", "Off"), st


@model("__private_api::log", "__private_api::loc", "Arguments::new", "Argument::new_display", "Arguments::new_const", "Argument::new_debug", "Arguments::from_str", "Arguments::new_v1",
       "Location::caller", "__private_api::enabled", "Arguments::from_str_nonconst")
def m_log(c, st):
    return UNIT, st


@model("option::unwrap_failed", "option::expect_failed", "result::unwrap_failed", "panicking::panic", "panicking::panic_fmt", "panicking::panic_explicit", "panicking::unreachable_display",
       "panicking::panic_bounds_check", "panicking::assert_failed", "panicking::panic_display", "panicking::panic_str_2015", "process::abort", "panicking::panic_nounwind")
def m_panic(c, st):
    c.e.panic(c.sn.split("::")[-1], c.c)
    return None


@model("precondition_check::x", "NonNull::new_unchecked::precondition_check", "new_unchecked::precondition_check", "from_raw_parts_in::precondition_check", "mem::drop", "mem::forget",
       "Vec::reserve", "Vec::shrink_to_fit", "VecDeque::reserve", "HashMap::reserve", "Vec::reserve_exact", "HashMap::shrink_to_fit", "drop::drop", "intrinsics::cold_path", "hint::cold_path",
       "hint::assert_unchecked", "intrinsics::assert_inhabited")
def m_nop(c, st):
    return UNIT, st


@model("usize::BITS")
def m_bits(c, st):
    return num(64), st
