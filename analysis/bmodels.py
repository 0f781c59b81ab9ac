"""Models of `bytes::Bytes`, `Buf` and byte slices over symbolic buffer views.

A view is (allocation, start, end) with linear bounds.  Words read from an allocation are atoms
keyed by allocation and offset; offsets are canonicalised modulo the equalities the state knows,
so two readers that reach the same position read the same atom."""
from lin import Lin
from engine import (Undecided, SStr, BV, Sym, Adt, Tup, UNIT, Seq, Ref, It, View, OPTION, RESULT, NONE, some, ok, err, bind)
import models
from models import M, R, deref, place, range_bounds, copy_view

U32 = 2**32 - 1
BYTES = ("adt", "bytes::bytes::Bytes", ())
VEC8 = "alloc::vec::Vec"


def canon(eng, st, a, off):
    """canonical representative of an offset into allocation a"""
    off = Lin.of(off)
    known = st.facts.get(("offs", a), ())
    for k in known:
        if k == off:
            return k
    for k in known:
        d = k - off
        if d.m and eng.entails_eq(st, d):
            return k
    st.facts[("offs", a)] = known + (off,)
    return off


def u32_at(eng, st, a, off):
    at = ("u32", a, canon(eng, st, a, off))
    eng.atom_rng[at] = (0, U32)
    return Lin.atom(at)


def link(eng, st, a, off):
    """relate the signed and unsigned readings of one word"""
    u, i = ("u32", a, off), ("i32", a, off)
    if st.facts.get(("link", a, off)):
        return
    st.facts[("link", a, off)] = True
    n = ("neg", a, off)
    eng.atom_rng[u] = (0, U32)
    eng.atom_rng[i] = (-2**31, 2**31 - 1)
    eng.atom_rng[n] = (0, 1)
    st.eq.append(Lin(0, {i: 1, u: -1, n: 2**32}))


def i32_at(eng, st, a, off):
    off = canon(eng, st, a, off)
    at = ("i32", a, off)
    eng.atom_rng[at] = (-2**31, 2**31 - 1)
    link(eng, st, a, off)
    return Lin.atom(at)


def u8_at(eng, st, a, off):
    at = ("u8", a, canon(eng, st, a, off))
    eng.atom_rng[at] = (0, 255)
    return Lin.atom(at)


def u16_at(eng, st, a, off):
    return u8_at(eng, st, a, off).scale(256) + u8_at(eng, st, a, Lin.of(off) + 1)


def u64_at(eng, st, a, off):
    return u32_at(eng, st, a, off).scale(2**32) + u32_at(eng, st, a, Lin.of(off) + 4)


def i64_at(eng, st, a, off):
    return i32_at(eng, st, a, off).scale(2**32) + u32_at(eng, st, a, Lin.of(off) + 4)


def f32_of(w):
    return Sym(("f32", Lin.of(w)), ("float", "f32"))


def f64_of(w):
    return Sym(("f64", Lin.of(w)), ("float", "f64"))


READ = {
    "u8": (1, u8_at), "u16": (2, u16_at), "u32": (4, u32_at), "i32": (4, i32_at), "u64": (8, u64_at), "i64": (8, i64_at),
    "f32": (4, lambda eng, st, a, o: f32_of(u32_at(eng, st, a, o))), "f64": (8, lambda eng, st, a, o: f64_of(u64_at(eng, st, a, o))),
}


def i8_at(eng, st, a, off):
    raise Undecided("i8 read")


def viewof(eng, st, r):
    """(place or None, View)"""
    v = r
    p = None
    while isinstance(v, Ref):
        p = v
        v = eng.rd(st, v)
    if isinstance(v, Adt) and v.n == "rc":
        v = v.f[0]
    if not isinstance(v, View):
        raise Undecided("buffer expected, got %r" % (v,))
    return p, v


def guard(eng, st, cond_lin, good, bad):
    """branch on cond_lin >= 0"""
    res = []
    for s, b in eng.branch(st, eng.ge0(Lin.of(cond_lin))):
        res.extend(good(s) if b else bad(s))
    return res


def panic(msg, cx):
    return lambda s: [(s, "panic", (msg,) + cx.loc())]


def old(name):
    return M.get(name)


def m(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def over(*names):
    """model for byte views that falls back to the existing model for other receivers"""
    def d(f):
        for n in names:
            prev = M.get(n)

            def g(eng, st, a, cx, prev=prev, n=n):
                v = a[0] if a else None
                while isinstance(v, Ref):
                    v = eng.rd(st, v)
                if isinstance(v, View):
                    r = f(eng, st, a, cx)
                    if r is not None:
                        return r
                if prev is None:
                    raise Undecided("%s on %r" % (n, v))
                return prev(eng, st, a, cx)
            M[n] = g
        return f
    return d


# ---------------------------------------------------------------- Buf
@over("Buf::remaining")
def b_remaining(eng, st, a, cx):
    return R(st, viewof(eng, st, a[0])[1].len().norm())


@over("Buf::has_remaining")
def b_has(eng, st, a, cx):
    return R(st, eng.ge0(viewof(eng, st, a[0])[1].len() - 1))


@over("Buf::chunk", "Bytes::as_slice_")
def b_chunk(eng, st, a, cx):
    return R(st, viewof(eng, st, a[0])[1])


@over("Buf::advance")
def b_advance(eng, st, a, cx):
    p, v = viewof(eng, st, a[0])
    n = Lin.of(a[1])

    def good(s):
        eng.wr(s, p, View(v.a, v.o + n, v.e))
        return R(s, UNIT)
    return guard(eng, st, v.len() - n, good, panic("advance past the end of the buffer", cx))


def getter(kind, n, f, tr):
    def g(eng, st, a, cx):
        p, v = viewof(eng, st, a[0])

        def good(s):
            x = f(eng, s, v.a, v.o)
            eng.wr(s, p, View(v.a, v.o + n, v.e))
            return R(s, ok(x if isinstance(x, Sym) else x.norm()) if tr else (x if isinstance(x, Sym) else x.norm()))

        def bad(s):
            if tr:
                return R(s, err(Sym(("trygeterr", n), ("adt", "bytes::TryGetError", ()))))
            return panic("get_%s past the end of the buffer" % kind, cx)(s)
        return guard(eng, st, v.len() - n, good, bad)
    return g


for _k, (_n, _f) in READ.items():
    over("Buf::get_" + _k)(getter(_k, _n, _f, False))
    over("Buf::try_get_" + _k)(getter(_k, _n, _f, True))


def le(n):
    def f(eng, st, a, off):
        r = Lin(0)
        for i in range(n):
            r = r + u8_at(eng, st, a, Lin.of(off) + i).scale(256**i)
        return r
    return f


for _k, _n in (("u16_le", 2), ("u32_le", 4), ("u64_le", 8), ("u32_ne", 4), ("u64_ne", 8)):
    over("Buf::get_" + _k)(getter(_k, _n, le(_n), False))


def le_signed(n):
    def f(eng, st, a, off):
        raise Undecided("little-endian signed read")
    return f


for _k, _n in (("i32_le", 4), ("i64_le", 8), ("i16", 2), ("i16_le", 2), ("i8", 1)):
    over("Buf::get_" + _k)(getter(_k, _n, le_signed(_n), False))


def lef(n):
    # a float read with the wrong byte order: a different term from every big-endian float
    def f(eng, st, a, off):
        return Sym(("f_le", n, a, canon(eng, st, a, off)), ("float", "f%d" % (8 * n)))
    return f


over("Buf::get_f32_le")(getter("f32_le", 4, lef(4), False))
over("Buf::get_f64_le")(getter("f64_le", 8, lef(8), False))


@over("Buf::get_uint", "Buf::get_int")
def b_getuint(eng, st, a, cx):
    p, v = viewof(eng, st, a[0])
    n = a[1]
    sg = "int" == cx.d["name"][4:]
    tab = {(4, False): u32_at, (8, False): u64_at, (4, True): i32_at, (8, True): i64_at, (1, False): u8_at, (2, False): u16_at}
    if not isinstance(n, int) or (n, sg) not in tab:
        raise Undecided("get_uint")

    def good(s):
        x = tab[(n, sg)](eng, s, v.a, v.o)
        eng.wr(s, p, View(v.a, v.o + n, v.e))
        return R(s, x.norm())
    return guard(eng, st, v.len() - n, good, panic("get_uint past the end of the buffer", cx))


def sub(eng, st, v, o, e):
    return View(v.a, canon(eng, st, v.a, o), canon(eng, st, v.a, e))


@over("Buf::copy_to_bytes", "Bytes::split_to")
def b_split_to(eng, st, a, cx):
    p, v = viewof(eng, st, a[0])
    n = Lin.of(a[1])

    def good(s):
        eng.wr(s, p, View(v.a, v.o + n, v.e))
        return R(s, sub(eng, s, v, v.o, v.o + n))
    return guard(eng, st, v.len() - n, good, panic("%s past the end of the buffer" % cx.d["name"], cx))


@over("Bytes::split_off")
def b_split_off(eng, st, a, cx):
    p, v = viewof(eng, st, a[0])
    n = Lin.of(a[1])

    def good(s):
        eng.wr(s, p, View(v.a, v.o, v.o + n))
        return R(s, sub(eng, s, v, v.o + n, v.e))
    return guard(eng, st, v.len() - n, good, panic("split_off past the end of the buffer", cx))


def do_slice(eng, st, v, r, cx):
    lo, hi = range_bounds(r)
    lo = Lin.of(lo)
    hi = v.len() if hi is None else Lin.of(hi)

    def good(s):
        def good2(s):
            return R(s, sub(eng, s, v, v.o + lo, v.o + hi))
        return guard(eng, s, hi - lo, good2, panic("slice start past its end", cx))
    return guard(eng, st, v.len() - hi, good, panic("slice past the end of the buffer", cx))


@over("Bytes::slice")
def b_slice(eng, st, a, cx):
    p, v = viewof(eng, st, a[0])
    return do_slice(eng, st, v, deref(eng, st, a[1]), cx)


@over("Bytes::truncate")
def b_truncate(eng, st, a, cx):
    p, v = viewof(eng, st, a[0])
    n = Lin.of(a[1])

    def good(s):
        eng.wr(s, p, View(v.a, v.o, v.o + n))
        return R(s, UNIT)
    return guard(eng, st, v.len() - n, good, lambda s: R(s, UNIT))


@over("Bytes::clear")
def b_clear(eng, st, a, cx):
    p, v = viewof(eng, st, a[0])
    eng.wr(st, p, View(v.a, v.o, v.o))
    return R(st, UNIT)


@m("Bytes::new")
def b_new(eng, st, a, cx):
    return R(st, View("empty", 0, 0))


@m("Bytes::from_static")
def b_static(eng, st, a, cx):
    v = deref(eng, st, a[0])
    n = Lin.of(eng.length(st, v))
    return R(st, View(("static", repr(v)), 0, n))


@over("Bytes::copy_from_slice")
def b_copy(eng, st, a, cx):
    p, v = viewof(eng, st, a[0])
    return copy_view(eng, st, v, cx)


@over("Bytes::slice_ref")
def b_slice_ref(eng, st, a, cx):
    p, v = viewof(eng, st, a[0])
    q, w = viewof(eng, st, a[1])
    if w.a != v.a:
        return [(st, "panic", ("slice_ref of a foreign slice",) + cx.loc())]
    return R(st, w)


@over("Bytes::to_vec", "slice::to_vec", "Bytes::to_owned_")
def b_to_vec(eng, st, a, cx):
    return copy_view(eng, st, viewof(eng, st, a[0])[1], cx)


@over("Index::index")
def b_index(eng, st, a, cx):
    p, v = viewof(eng, st, a[0])
    i = deref(eng, st, a[1])
    if isinstance(i, Adt):
        return do_slice(eng, st, v, i, cx)
    i = Lin.of(i)

    def good(s):
        return R(s, Ref(eng.temp(s, u8_at(eng, s, v.a, v.o + i))))
    return guard(eng, st, v.len() - i - 1, good, panic("byte index out of bounds", cx))


@over("slice::get", "Vec::get")
def b_get(eng, st, a, cx):
    p, v = viewof(eng, st, a[0])
    i = deref(eng, st, a[1])
    if isinstance(i, Adt):
        lo, hi = range_bounds(i)
        lo = Lin.of(lo)
        hi = v.len() if hi is None else Lin.of(hi)
        return guard(eng, st, v.len() - hi,
                     lambda s: guard(eng, s, hi - lo, lambda s: R(s, some(sub(eng, s, v, v.o + lo, v.o + hi))), lambda s: R(s, NONE)),
                     lambda s: R(s, NONE))
    i = Lin.of(i)
    return guard(eng, st, v.len() - i - 1, lambda s: R(s, some(Ref(eng.temp(s, u8_at(eng, s, v.a, v.o + i))))), lambda s: R(s, NONE))


@over("slice::split_at")
def b_split_at(eng, st, a, cx):
    p, v = viewof(eng, st, a[0])
    n = Lin.of(a[1])
    return guard(eng, st, v.len() - n, lambda s: R(s, Tup((sub(eng, s, v, v.o, v.o + n), sub(eng, s, v, v.o + n, v.e)))), panic("split_at past the end", cx))


@over("slice::first", "slice::last")
def b_first(eng, st, a, cx):
    p, v = viewof(eng, st, a[0])
    i = v.o if cx.d["name"] == "first" else v.e - 1
    return guard(eng, st, v.len() - 1, lambda s: R(s, some(Ref(eng.temp(s, u8_at(eng, s, v.a, i))))), lambda s: R(s, NONE))


def to_array(eng, st, a, cx):
    """&[u8] -> [u8; N]"""
    p, v = viewof(eng, st, a[0])
    t = cx.d["args"]
    n = None
    for x in t:
        while x[0] == "ref":
            x = x[2]
        if x[0] == "array":
            n = x[2][1] if isinstance(x[2], tuple) else x[2]
    if not isinstance(n, int):
        return None
    def good(s):
        return R(s, ok(Seq(tuple(("one", u8_at(eng, s, v.a, v.o + i)) for i in range(n)))))
    res = []
    for s, b in eng.branch(st, BV(("eq0", v.len() - n)) if v.len().m else v.len().c == n):
        res.extend(good(s) if b else R(s, err(Sym(("tryfromslice",), ("adt", "core::array::TryFromSliceError", ())))))
    return res


over("TryInto::try_into", "TryFrom::try_from")(to_array)


@over("Buf::copy_to_slice", "Buf::try_copy_to_slice")
def b_copy_to_slice(eng, st, a, cx):
    p, v = viewof(eng, st, a[0])
    q = place(eng, st, a[1])
    d = eng.rd(st, q)
    if isinstance(d, View):
        dn = d.len()

        def good_view(s):
            eng.wr(s, q, View(("copy", v.a, v.o, v.o + dn), 0, dn))
            eng.wr(s, p, View(v.a, v.o + dn, v.e))
            return R(s, ok(UNIT) if cx.d["name"].startswith("try") else UNIT)
        return guard(eng, st, v.len() - dn, good_view, (lambda s: R(s, err(Sym(("trygeterr", 0), ("adt", "bytes::TryGetError", ()))))) if cx.d["name"].startswith("try") else panic("copy_to_slice past the end", cx))
    if not isinstance(d, Seq):
        raise Undecided("copy_to_slice")
    n = len(d.s)
    tr = cx.d["name"].startswith("try")

    def good(s):
        eng.wr(s, q, Seq(tuple(("one", u8_at(eng, s, v.a, v.o + i)) for i in range(n))))
        eng.wr(s, p, View(v.a, v.o + n, v.e))
        return R(s, ok(UNIT) if tr else UNIT)
    return guard(eng, st, v.len() - n, good, (lambda s: R(s, err(Sym(("trygeterr", n), ("adt", "bytes::TryGetError", ()))))) if tr else panic("copy_to_slice past the end", cx))


@over("slice::copy_from_slice", "slice::clone_from_slice")
def b_cfs(eng, st, a, cx):
    return None


_prev_cfs = M["slice::copy_from_slice"]


def b_cfs2(eng, st, a, cx):
    q = place(eng, st, a[0])
    d = eng.rd(st, q)
    s = deref(eng, st, a[1])
    if isinstance(d, Seq) and all(x[0] == "one" for x in d.s):
        n = len(d.s)
        if isinstance(s, View):
            def good(t):
                eng.wr(t, q, Seq(tuple(("one", u8_at(eng, t, s.a, s.o + i)) for i in range(n))))
                return R(t, UNIT)
            res = []
            for t, b in eng.branch(st, BV(("eq0", s.len() - n)) if s.len().m else s.len().c == n):
                res.extend(good(t) if b else panic("copy_from_slice length mismatch", cx)(t))
            return res
        if isinstance(s, Seq) and len(s.s) == n:
            eng.wr(st, q, s)
            return R(st, UNIT)
    return _prev_cfs(eng, st, a, cx)


M["slice::copy_from_slice"] = M["slice::clone_from_slice"] = b_cfs2


def single(l):
    l = Lin.of(l)
    if len(l.m) == 1 and l.c == 0:
        (a, k), = l.m.items()
        if k == 1:
            return a
    return None


def from_bytes(order):
    def f(eng, st, a, cx):
        v = deref(eng, st, a[0])
        t = cx.d["norm"]
        ret = cx.ret(eng)
        if isinstance(v, Sym) and isinstance(v.t, tuple) and v.t[0] == "tobytes" and v.t[1] == order:
            return R(st, v.t[2])
        if not isinstance(v, Seq) or not all(x[0] == "one" for x in v.s):
            raise Undecided("from_bytes")
        bs = [x[1] for x in v.s]
        if order != "be":
            bs = bs[::-1]
        n = len(bs)
        if ret is None:
            raise Undecided("from_bytes")
        if all(isinstance(b, int) for b in bs):
            x = int.from_bytes(bytes(bs), "big", signed=ret[0] == "int" and ret[1][0] == "i")
            return R(st, x if ret[0] == "int" else (f32_of(x) if n == 4 else f64_of(x)))
        at = [single(b) for b in bs]
        if n >= 4 and all(x is not None and x[0] == "u8" and x[1] == at[0][1] and (x[2] - at[0][2]) == i for i, x in enumerate(at)):
            al, off = at[0][1], at[0][2]
            tab = {("int", "u32"): u32_at, ("int", "i32"): i32_at, ("int", "u64"): u64_at, ("int", "i64"): i64_at}
            if ret in tab:
                return R(st, tab[ret](eng, st, al, off).norm())
            if ret == ("float", "f32"):
                return R(st, f32_of(u32_at(eng, st, al, off)))
            if ret == ("float", "f64"):
                return R(st, f64_of(u64_at(eng, st, al, off)))
        if ret[0] == "int" and ret[1][0] == "u":
            r = Lin(0)
            for b in bs:
                r = r.scale(256) + Lin.of(b)
            return R(st, r.norm())
        raise Undecided("from_%s_bytes" % order)
    return f


for _o in ("be", "le", "ne"):
    M["int::from_%s_bytes" % _o] = from_bytes("be" if _o == "be" else "le")
    M["float::from_%s_bytes" % _o] = from_bytes("be" if _o == "be" else "le")
    M["f32::from_%s_bytes" % _o] = M["f64::from_%s_bytes" % _o] = from_bytes("be" if _o == "be" else "le")


@m("float::from_bits", "f32::from_bits", "f64::from_bits")
def m_from_bits(eng, st, a, cx):
    ret = cx.ret(eng)
    return R(st, f32_of(a[0]) if ret == ("float", "f32") else f64_of(a[0]))


@m("float::to_bits", "f32::to_bits", "f64::to_bits")
def m_to_bits(eng, st, a, cx):
    v = deref(eng, st, a[0])
    if isinstance(v, Sym) and isinstance(v.t, tuple) and v.t[0] in ("f32", "f64"):
        return R(st, v.t[1].norm())
    raise Undecided("to_bits")


@m("int::to_be", "int::from_be", "int::swap_bytes")
def m_to_be(eng, st, a, cx):
    raise Undecided("byte swap")
