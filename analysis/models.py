"""Models of the std items the analysed code uses.  A model is f(engine, state, args, ctx) and
returns outcomes.  Models are keyed by normalised path ('Option::map') or 'Trait::method'."""
import re
from lin import Lin
from engine import (Undecided, Need, SStr, mkstr, pieces, cat, sterm, Char, BV, bnot, Sym, Adt, Tup, UNIT, Seq, Ref, Clo, Fn, Args,
                    It, View, Poison, OPTION, RESULT, CF, BOX, NONE, some, ok, err, INT, bind, V)
from thir import tstr

M = {}
FMT = "fmt::Formatter"


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def R(st, v):
    return [(st, "v", v)]


# symbolic names are private-use code points: one code point is one unknown identifier
NAME0, NAME1 = 0xE000, 0xF000          # names
LOWER = 0x100000                        # lower-cased name
UPPER = 0x108000


def is_name_char(c):
    o = ord(c)
    return NAME0 <= o < NAME1 or o >= LOWER


def has_name(s):
    return isinstance(s, str) and any(is_name_char(c) for c in s)


def deref(eng, st, v):
    while isinstance(v, Ref):
        v = eng.rd(st, v)
    return v


def unbox(eng, st, v):
    while True:
        if isinstance(v, Ref):
            v = eng.rd(st, v)
        elif isinstance(v, Adt) and v.n in (BOX, "rc"):
            v = v.f[0]
        else:
            return v


def place(eng, st, v):
    """innermost Ref of a chain of references"""
    while isinstance(v, Ref):
        n = eng.rd(st, v)
        if isinstance(n, Ref):
            v = n
        elif isinstance(n, Adt) and n.n == BOX:
            v = Ref(v.c, v.p + (("f", 0, 0),))
        else:
            return v
    return Ref(eng.temp(st, v))


def known(st, v):
    """the instance a path has chosen for a string of unknown content"""
    if isinstance(v, SStr) and len(v.p) == 1:
        return st.facts.get(("instance", v.p[0]), v)
    return v


def unknown(v, why):
    return Need(v.p[0], why) if isinstance(v, SStr) and len(v.p) == 1 and isinstance(v.p[0], tuple) else Undecided(why)


def string(eng, st, v):
    v = unbox(eng, st, v)
    if isinstance(v, (str, SStr)):
        return known(st, v)
    if isinstance(v, Adt) and v.n == "cow":
        return string(eng, st, v.f[0])
    if isinstance(v, Adt) and len(v.f) == 1:
        return string(eng, st, v.f[0])
    raise Undecided("string expected, got %r" % (v,))


def cstr(eng, st, v):
    s = string(eng, st, v)
    if not isinstance(s, str):
        raise unknown(s, "symbolic string")
    return s


# ---------------------------------------------------------------- equality / ordering
def equal(eng, st, a, b):
    """True/False/BV"""
    a, b = known(st, unbox(eng, st, a)), known(st, unbox(eng, st, b))
    if a is b:
        return True
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Undecided("comparison of unknown value")
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, (bool, BV)) and isinstance(b, (bool, BV)):
        if a == b:
            return True
        if isinstance(a, bool):
            return b if a else bnot(b)
        if isinstance(b, bool):
            return a if b else bnot(a)
        raise Undecided("boolean comparison")
    if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
        l = Lin.of(a) - Lin.of(b)
        return BV(("eq0", l)) if l.m else l.c == 0
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        if a == b:
            return True
        if isinstance(a, str) and isinstance(b, str):
            eng.note("streq", a, b)
            return False
        if isinstance(a, SStr) and isinstance(b, SStr):
            return BV(("p", "streq", sterm(a), sterm(b)))
        x, l = (a, b) if isinstance(a, SStr) else (b, a)
        return BV(("sin", sterm(x), frozenset([l])))
    if isinstance(a, Char) and isinstance(b, Char):
        if isinstance(a.c, str) and isinstance(b.c, str):
            return a.c == b.c
        return BV(("p", "chareq", a.c, b.c))
    if isinstance(a, Adt) and isinstance(b, Adt):
        if a.v != b.v:
            return False
        return eq_all(eng, st, a.f, b.f)
    if isinstance(a, Tup) and isinstance(b, Tup):
        return eq_all(eng, st, a.f, b.f)
    if isinstance(a, Seq) and isinstance(b, Seq):
        if all(s[0] == "one" for s in a.s + b.s):
            if len(a.s) != len(b.s):
                return False
            return eq_all(eng, st, [s[1] for s in a.s], [s[1] for s in b.s])
    if isinstance(a, View) and isinstance(b, View) and a == b:
        return True
    if isinstance(a, Sym) and isinstance(b, Sym) and a == b:
        return True
    if isinstance(a, Sym) and isinstance(b, Adt):
        a, b = b, a
    if isinstance(a, Adt) and isinstance(b, Sym):
        if not a.f:
            return BV(("isv", b.t, a.v, b.ty))
    return BV(("p", "eq", getattr(a, "t", a), getattr(b, "t", b)))


def eq_all(eng, st, xs, ys):
    if len(xs) != len(ys):
        return False
    r = True
    for x, y in zip(xs, ys):
        c = equal(eng, st, x, y)
        if c is False:
            return False
        if c is not True:
            r = c if r is True else BV(("and", r.t, c.t))
    return r


@model("PartialEq::eq", "derived:PartialEq::eq")
def m_eq(eng, st, a, cx):
    return R(st, equal(eng, st, a[0], a[1]))


@model("PartialEq::ne")
def m_ne(eng, st, a, cx):
    # a local `eq` decides `ne`
    if cx and cx.d.get("trait"):
        d = dict(cx.d)
        im = eng.find_impl("std::cmp::PartialEq", d["args"][0], "eq", d["args"][1:])
        if im and isinstance(im[0], str) and im[0] in eng.P.bodies and not im[2].get("derived"):
            return bind(eng.run_body(eng.P.bodies[im[0]], a, dict(im[1]), st), lambda st, v: R(st, bnot(v)))
    r = equal(eng, st, a[0], a[1])
    return R(st, bnot(r))


def okey(eng, st, v):
    """python sort key of a concrete value"""
    v = unbox(eng, st, v)
    if isinstance(v, bool) or isinstance(v, int):
        return int(v)
    if isinstance(v, str):
        return v
    if isinstance(v, Char) and isinstance(v.c, str):
        return v.c
    if isinstance(v, Tup):
        return tuple(okey(eng, st, x) for x in v.f)
    if isinstance(v, Adt):
        return (v.v,) + tuple(okey(eng, st, x) for x in v.f)
    if isinstance(v, Seq) and all(s[0] == "one" for s in v.s):
        return tuple(okey(eng, st, s[1]) for s in v.s)
    raise Undecided("ordering of %r" % (v,))


def keyof(eng, st, v):
    """hashable canonical key"""
    v = unbox(eng, st, v)
    if isinstance(v, Tup):
        return ("tup",) + tuple(keyof(eng, st, x) for x in v.f)
    if isinstance(v, Adt):
        return ("adt", v.n, v.v) + tuple(keyof(eng, st, x) for x in v.f)
    if isinstance(v, Seq):
        return ("seq",) + tuple(keyof(eng, st, s[1]) for s in v.s)
    if isinstance(v, (SStr, Sym, Lin, Poison, BV)):
        raise Undecided("symbolic map key %r" % (v,))
    return v


ORDERING = "core::cmp::Ordering"


def ordering(i):
    return Adt(ORDERING, i + 1, ())


@model("Ord::cmp")
def m_cmp(eng, st, a, cx):
    x, y = unbox(eng, st, a[0]), unbox(eng, st, a[1])
    if isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)) and (isinstance(x, Lin) or isinstance(y, Lin)):
        res = []
        for s, b in eng.branch(st, eng.cmp_lt(x, y)):
            if b:
                res.append((s, "v", ordering(-1)))
            else:
                for s2, b2 in eng.branch(s, eng.cmp_lt(y, x)):
                    res.append((s2, "v", ordering(1 if b2 else 0)))
        return res
    p, q = okey(eng, st, x), okey(eng, st, y)
    if has_name(p) or has_name(q):
        eng.note("strord", p, q)
    return R(st, ordering(-1 if p < q else 1 if p > q else 0))


@model("PartialOrd::partial_cmp")
def m_pcmp(eng, st, a, cx):
    return bind(m_cmp(eng, st, a, cx), lambda st, v: R(st, some(v)))


def _rel(op):
    def f(eng, st, a, cx):
        x, y = unbox(eng, st, a[0]), unbox(eng, st, a[1])
        if isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)):
            X, Y = Lin.of(x), Lin.of(y)
            l = {"lt": Y - X - 1, "le": Y - X, "gt": X - Y - 1, "ge": X - Y}[op]
            return R(st, eng.ge0(l))
        p, q = okey(eng, st, x), okey(eng, st, y)
        return R(st, {"lt": p < q, "le": p <= q, "gt": p > q, "ge": p >= q}[op])
    return f


for _o in ("lt", "le", "gt", "ge"):
    M["PartialOrd::" + _o] = _rel(_o)


def _minmax(name, pick_first_if_lt):
    def f(eng, st, a, cx):
        x, y = deref(eng, st, a[0]), deref(eng, st, a[1])
        if isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)):
            res = []
            for s, b in eng.branch(st, eng.ge0(Lin.of(y) - Lin.of(x))):
                res.append((s, "v", (x if pick_first_if_lt else y) if b else (y if pick_first_if_lt else x)))
            return res
        p, q = okey(eng, st, x), okey(eng, st, y)
        return R(st, a[0] if (p <= q) == pick_first_if_lt else a[1])
    return f


M["Ord::min"] = M["cmp::min"] = _minmax("min", True)
M["Ord::max"] = M["cmp::max"] = _minmax("max", False)


@model("Ord::clamp")
def m_clamp(eng, st, a, cx):
    return bind(M["Ord::max"](eng, st, (a[0], a[1]), cx), lambda st, v: M["Ord::min"](eng, st, (v, a[2]), cx))


# ---------------------------------------------------------------- Try / From / Into
@model("Try::branch")
def m_branch(eng, st, a, cx):
    v = a[0]
    t = cx.d["args"][0]
    res = []
    for s, vi in eng.split(st, v):
        isopt = t[0] == "adt" and t[1] == OPTION
        good = 1 if isopt else 0
        fs = eng.fields(s, v, vi)
        if vi == good:
            res.append((s, "v", Adt(CF, 0, (fs[0],))))
        else:
            res.append((s, "v", Adt(CF, 1, (NONE if isopt else err(fs[0]),))))
    return res


@model("Try::from_output")
def m_from_output(eng, st, a, cx):
    t = cx.d["args"][0]
    return R(st, some(a[0]) if t[1] == OPTION else ok(a[0]))


@model("FromResidual::from_residual")
def m_resid(eng, st, a, cx):
    t = cx.d["args"][0]
    v = a[0]
    if t[0] == "adt" and t[1] == OPTION:
        return R(st, NONE)
    if t[0] == "adt" and t[1] == RESULT:
        src = cx.d["args"][1][2][1]
        dst = t[2][1]
        if isinstance(v, Adt) and v.n == OPTION:
            raise Undecided("option residual")
        e = v.f[0]
        return bind(convert(eng, st, e, src, dst), lambda st, x: R(st, err(x)))
    raise Undecided("residual of %s" % tstr(t))


def convert(eng, st, v, src, dst):
    """From::from"""
    if src == dst:
        return R(st, v)
    im = eng.find_impl("std::convert::From", dst, "from", (src,))
    if im and isinstance(im[0], str) and im[0] in eng.P.bodies:
        return eng.run_body(eng.P.bodies[im[0]], (v,), dict(im[1]), st)
    if dst[0] == "adt" and dst[1] == BOX:
        if dst[2][0][0] == "dyn":
            return R(st, Adt(BOX, 0, (v,)))
        return R(st, Adt(BOX, 0, (v,)))
    if dst[0] == "adt" and dst[1] == "alloc::string::String":
        return R(st, string(eng, st, v))
    if dst[0] == "adt" and dst[1] == OPTION:
        return R(st, some(v))
    if dst[0] == "int" and src[0] in ("int", "bool", "char"):
        return eng.cast(st, v, src, dst)
    if dst[0] == "adt" and dst[1] == "alloc::vec::Vec":
        x = deref(eng, st, v)
        if isinstance(x, View):
            return R(st, View(("copy", x.a, x.o, x.e, eng.fresh("c")), 0, x.len()))
        if isinstance(x, (Seq,)):
            return R(st, x)
        if isinstance(x, str):
            return R(st, Seq(tuple(("one", b) for b in x.encode())))
    if dst[0] == "adt" and dst[1] == "bytes::bytes::Bytes":
        x = deref(eng, st, v)
        if isinstance(x, View):
            return R(st, x)
    if dst[0] == "adt" and dst[1] in ("alloc::borrow::Cow", "alloc::rc::Rc", "alloc::sync::Arc"):
        return R(st, Adt("rc", 0, (v,)))
    if src[0] == "ref" and dst[0] == "ref":
        return R(st, v)
    if src[0] == "never":
        return []
    # errors from foreign types wrapped into an opaque value
    raise Undecided("From<%s> for %s" % (tstr(src), tstr(dst)))


@model("From::from")
def m_from(eng, st, a, cx):
    return convert(eng, st, a[0], cx.d["args"][1], cx.d["args"][0])


@model("Into::into")
def m_into(eng, st, a, cx):
    return convert(eng, st, a[0], cx.d["args"][0], cx.d["args"][1])


@model("TryFrom::try_from")
def m_tryfrom(eng, st, a, cx):
    dst, src = cx.d["args"][0], cx.d["args"][1]
    return try_convert(eng, st, a[0], src, dst)


@model("TryInto::try_into")
def m_tryinto(eng, st, a, cx):
    src, dst = cx.d["args"][0], cx.d["args"][1]
    im = eng.find_impl("std::convert::TryFrom", dst, "try_from", (src,))
    if im and isinstance(im[0], str) and im[0] in eng.P.bodies:
        return eng.run_body(eng.P.bodies[im[0]], a, dict(im[1]), st)
    return try_convert(eng, st, a[0], src, dst)


def try_convert(eng, st, v, src, dst):
    if src[0] == "int" and dst[0] == "int":
        lo, hi = INT[dst[1]]
        res = []
        for s, b in eng.branch(st, eng.ge0(Lin.of(v) - lo)):
            if not b:
                res.append((s, "v", err(Sym(("tryfromint",), ("other", "TryFromIntError")))))
                continue
            for s2, b2 in eng.branch(s, eng.ge0(Lin(hi) - Lin.of(v))):
                res.append((s2, "v", ok(v) if b2 else err(Sym(("tryfromint",), ("other", "TryFromIntError")))))
        return res
    # blanket TryFrom for Into
    im = eng.find_impl("std::convert::From", dst, "from", (src,))
    if im and isinstance(im[0], str) and im[0] in eng.P.bodies:
        return bind(eng.run_body(eng.P.bodies[im[0]], (v,), dict(im[1]), st), lambda st, x: R(st, ok(x)))
    if dst[0] == "array":
        x = deref(eng, st, v)
        if isinstance(x, Seq):
            n = dst[2][1]
            if isinstance(n, int) and all(s[0] == "one" for s in x.s):
                return R(st, ok(x) if len(x.s) == n else err(x))
    raise Undecided("TryFrom<%s> for %s" % (tstr(src), tstr(dst)))


# ---------------------------------------------------------------- Clone / Borrow / Deref
@model("Clone::clone", "derived:Clone::clone", "ToOwned::to_owned", "Borrow::borrow", "slice::to_vec", "Option::cloned_", "Cow::into_owned")
def m_clone(eng, st, a, cx):
    t = cx.d["args"][0] if cx and cx.d["args"] else None
    v = a[0]
    if isinstance(v, Ref):
        x = eng.rd(st, v)
        if t is not None and t[0] == "ref":
            return R(st, x)
        while isinstance(x, Ref):
            x = eng.rd(st, x)
        if isinstance(x, View) and cx is not None and (cx.d.get("name") == "to_owned" or cx.d["norm"] == "slice::to_vec" or (t and t[0] == "adt" and t[1] == "alloc::vec::Vec")):
            return copy_view(eng, st, x, cx)
        return R(st, x)
    if isinstance(v, View) and cx is not None and (cx.d.get("name") == "to_owned" or cx.d["norm"] == "slice::to_vec"):
        return copy_view(eng, st, v, cx)
    return R(st, v)


def copy_view(eng, st, x, cx):
    st.ev += (("alloc", "copy", x.len(), cx.loc() if cx else None),)
    return R(st, View(("copy", x.a, x.o, x.e), 0, x.len()))


@model("Clone::clone_from")
def m_clone_from(eng, st, a, cx):
    eng.wr(st, place(eng, st, a[0]), deref(eng, st, a[1]))
    return R(st, UNIT)


@model("Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "AsMut::as_mut", "BorrowMut::borrow_mut", "Box::as_ref", "Vec::as_slice", "Vec::as_mut_slice",
       "String::as_str", "str::as_str", "Cow::as_ref", "array::as_slice", "Box::as_mut", "Vec::leak", "Box::leak", "String::as_mut_str")
def m_deref(eng, st, a, cx):
    v = a[0]
    if isinstance(v, Ref):
        p = place(eng, st, v)
        x = eng.rd(st, p)
        if isinstance(x, (str, SStr)):
            return R(st, x)
        if isinstance(x, View):
            return R(st, x)
        if isinstance(x, Adt) and x.n == "rc":
            return R(st, Ref(p.c, p.p + (("f", 0, 0),)))
        return R(st, p)
    return R(st, v)


@model("Box::new", "Rc::new", "Arc::new", "hint::must_use", "convert::identity", "Cow::Borrowed", "Cow::Owned", "mem::take_", "hint::black_box", "Box::from", "Pin::new")
def m_box(eng, st, a, cx):
    n = cx.d["norm"]
    if n.startswith("Box"):
        st.ev += (("alloc", "box", 1, cx.loc()),)
        return R(st, Adt(BOX, 0, (a[0],)))
    if n.startswith(("Rc", "Arc")):
        return R(st, Adt("rc", 0, (a[0],)))
    return R(st, a[0])


@model("Box::new_uninit")
def m_newuninit(eng, st, a, cx):
    return R(st, Adt(BOX, 0, (Poison("uninit"),)))


@model("intrinsics::write_box_via_move")
def m_writebox(eng, st, a, cx):
    return R(st, Adt(BOX, 0, (a[1],)))


@model("boxed::box_assume_init_into_vec_unsafe")
def m_boxvec(eng, st, a, cx):
    v = a[0].f[0]
    if isinstance(v, Seq):
        return R(st, v)
    raise Undecided("vec!")


@model("Default::default")
def m_default(eng, st, a, cx):
    return R(st, default(eng, cx.d["args"][0]))


def default(eng, t):
    k = t[0]
    if k == "int":
        return 0
    if k == "bool":
        return False
    if k == "tuple":
        return Tup(tuple(default(eng, x) for x in t[1]))
    if k == "ref" and t[2][0] == "str":
        return ""
    if k == "adt":
        if t[1] == "alloc::string::String":
            return ""
        if t[1] == "alloc::vec::Vec":
            return Seq(())
        if t[1] == OPTION:
            return NONE
        if t[1] in MAPS:
            return MapV(MAPS[t[1]], ())
    raise Undecided("default of %s" % tstr(t))


@model("mem::replace")
def m_replace(eng, st, a, cx):
    p = place(eng, st, a[0]) if isinstance(a[0], Ref) else None
    r = a[0]
    old = eng.rd(st, r)
    eng.wr(st, r, a[1])
    return R(st, old)


@model("mem::take")
def m_take(eng, st, a, cx):
    old = eng.rd(st, a[0])
    eng.wr(st, a[0], default(eng, cx.d["args"][0]))
    return R(st, old)


@model("mem::swap")
def m_swap(eng, st, a, cx):
    x, y = eng.rd(st, a[0]), eng.rd(st, a[1])
    eng.wr(st, a[0], y)
    eng.wr(st, a[1], x)
    return R(st, UNIT)


@model("mem::drop", "Drop::drop", "mem::forget")
def m_drop(eng, st, a, cx):
    return R(st, UNIT)


@model("mem::size_of", "mem::size_of_val", "mem::align_of")
def m_sizeof(eng, st, a, cx):
    t = cx.d["args"][0]
    sz = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "usize": 8, "isize": 8, "u128": 16, "i128": 16, "f32": 4, "f64": 8}
    if t[0] in ("int", "float"):
        return R(st, sz[t[1]])
    if t[0] == "bool":
        return R(st, 1)
    if t[0] == "char":
        return R(st, 4)
    if t[0] == "tuple" and not t[1]:
        return R(st, 0)
    if t[0] == "array" and t[1][0] == "int" and isinstance(t[2][1], int):
        return R(st, sz[t[1][1]] * t[2][1])
    at = ("sizeof", tstr(t))
    eng.atom_rng[at] = (0, 2**20)
    return R(st, Lin.atom(at))


# ---------------------------------------------------------------- panics
def pan(msg):
    def f(eng, st, a, cx):
        return [(st, "panic", (msg,) + cx.loc())]
    return f


for _n in ("rt::begin_panic", "rt::panic_fmt", "panicking::panic_fmt", "panicking::panic", "panicking::panic_display", "panicking::panic_explicit",
           "panicking::unreachable_display", "panicking::unreachable_default_msg", "panicking::assert_failed", "intrinsics::unreachable", "panicking::begin_panic",
           "panicking::panic_str_2015", "panicking::panic_nounwind", "panicking::panic_str", "rt::panic_display", "panicking::todo", "panicking::unimplemented",
           "panic::panic_any", "panicking::panic_2021", "process::abort", "hint::unreachable_unchecked", "panicking::assert_matches_failed"):
    M[_n] = pan(_n)


@model("process::exit")
def m_exit(eng, st, a, cx):
    return [(st, "exit", a[0])]


# ---------------------------------------------------------------- Option / Result
def tag(eng, st, v):
    """(state, variant, payload tuple) for an Option/Result value or reference to one"""
    r = None
    x = v
    while isinstance(x, Ref):
        r = x
        x = eng.rd(st, x)
    return r, x


def parts(eng, st, v):
    return [(s, vi, eng.fields(s, v, vi)) for s, vi in eng.split(st, v)]


def opt(names, fsome, fnone):
    @model(*names)
    def f(eng, st, a, cx):
        res = []
        for s, vi, fs in parts(eng, st, a[0]):
            if vi == 1:
                res.extend(fsome(eng, s, fs[0], a, cx))
            else:
                res.extend(fnone(eng, s, a, cx))
        return res
    return f


def resm(names, fok, ferr):
    @model(*names)
    def f(eng, st, a, cx):
        res = []
        for s, vi, fs in parts(eng, st, a[0]):
            if vi == 0:
                res.extend(fok(eng, s, fs[0], a, cx))
            else:
                res.extend(ferr(eng, s, fs[0], a, cx))
        return res
    return f


def call(eng, st, f, args, cx=None):
    return eng.call_value(f, tuple(args), st)


N_ = lambda e, s, a, c: R(s, NONE)
opt(["Option::map"], lambda e, s, x, a, c: bind(call(e, s, a[1], (x,)), lambda s, v: R(s, some(v))), N_)
opt(["Option::and_then"], lambda e, s, x, a, c: call(e, s, a[1], (x,)), N_)
opt(["Option::and"], lambda e, s, x, a, c: R(s, a[1]), N_)
opt(["Option::or"], lambda e, s, x, a, c: R(s, some(x)), lambda e, s, a, c: R(s, a[1]))
opt(["Option::or_else"], lambda e, s, x, a, c: R(s, some(x)), lambda e, s, a, c: call(e, s, a[1], ()))
opt(["Option::ok_or"], lambda e, s, x, a, c: R(s, ok(x)), lambda e, s, a, c: R(s, err(a[1])))
opt(["Option::ok_or_else"], lambda e, s, x, a, c: R(s, ok(x)), lambda e, s, a, c: bind(call(e, s, a[1], ()), lambda s, v: R(s, err(v))))
opt(["Option::unwrap_or"], lambda e, s, x, a, c: R(s, x), lambda e, s, a, c: R(s, a[1]))
opt(["Option::unwrap_or_else"], lambda e, s, x, a, c: R(s, x), lambda e, s, a, c: call(e, s, a[1], ()))
opt(["Option::unwrap_or_default"], lambda e, s, x, a, c: R(s, x), lambda e, s, a, c: R(s, default(e, c.d["args"][0])))
opt(["Option::map_or"], lambda e, s, x, a, c: call(e, s, a[2], (x,)), lambda e, s, a, c: R(s, a[1]))
opt(["Option::map_or_else"], lambda e, s, x, a, c: call(e, s, a[2], (x,)), lambda e, s, a, c: call(e, s, a[1], ()))
opt(["Option::is_some_and"], lambda e, s, x, a, c: call(e, s, a[1], (x,)), lambda e, s, a, c: R(s, False))
opt(["Option::is_none_or"], lambda e, s, x, a, c: call(e, s, a[1], (x,)), lambda e, s, a, c: R(s, True))
opt(["Option::unwrap", "Option::expect"], lambda e, s, x, a, c: R(s, x), lambda e, s, a, c: [(s, "panic", ("Option::unwrap on None",) + c.loc())])
opt(["Option::unwrap_unchecked"], lambda e, s, x, a, c: R(s, x), lambda e, s, a, c: [(s, "panic", ("unwrap_unchecked on None",) + c.loc())])
opt(["Option::cloned", "Option::copied"], lambda e, s, x, a, c: R(s, some(deref(e, s, x))), N_)
opt(["Option::flatten"], lambda e, s, x, a, c: R(s, x), N_)
opt(["Option::filter"], lambda e, s, x, a, c: bind(call(e, s, a[1], (Ref(e.temp(s, x)),)), lambda s, v: [(s2, "v", some(x) if b else NONE) for s2, b in e.branch(s, v)]), N_)
opt(["Option::zip"], lambda e, s, x, a, c: [(s2, "v", some(Tup((x, fs[0]))) if vi == 1 else NONE) for s2, vi, fs in parts(e, s, a[1])], N_)
opt(["Option::xor"], lambda e, s, x, a, c: [(s2, "v", NONE if vi == 1 else some(x)) for s2, vi, fs in parts(e, s, a[1])], lambda e, s, a, c: R(s, a[1]))
opt(["Option::inspect"], lambda e, s, x, a, c: bind(call(e, s, a[1], (Ref(e.temp(s, x)),)), lambda s, v: R(s, some(x))), N_)


@model("Option::transpose")
def m_transpose(eng, st, a, cx):
    res = []
    for s, vi, fs in parts(eng, st, a[0]):
        if vi == 0:
            res.append((s, "v", ok(NONE)))
        else:
            for s2, v2, f2 in parts(eng, s, fs[0]):
                res.append((s2, "v", ok(some(f2[0])) if v2 == 0 else err(f2[0])))
    return res


def isvar(n, want):
    @model(n)
    def f(eng, st, a, cx):
        x = deref(eng, st, a[0])
        return [(s, "v", vi == want) for s, vi in eng.split(st, x)]


isvar("Option::is_some", 1)
isvar("Option::is_none", 0)
isvar("Result::is_ok", 0)
isvar("Result::is_err", 1)


@model("Option::as_ref", "Option::as_mut", "Option::as_deref", "Option::as_deref_mut", "Result::as_ref", "Result::as_deref")
def m_asref(eng, st, a, cx):
    p = place(eng, st, a[0])
    x = eng.rd(st, p)
    isres = cx.d["norm"].startswith("Result")
    res = []
    for s, vi in eng.split(st, x):
        if not isres and vi == 0:
            res.append((s, "v", NONE))
            continue
        r = Ref(p.c, p.p + (("f", vi, 0),))
        if "deref" in cx.d["norm"]:
            y = eng.rd(s, r)
            if isinstance(y, (str, SStr)):
                r = y
            elif isinstance(y, Adt) and y.n == BOX:
                r = Ref(r.c, r.p + (("f", 0, 0),))
        n = OPTION if not isres else RESULT
        res.append((s, "v", Adt(n, vi, (r,))))
    return res


@model("Option::take")
def m_opttake(eng, st, a, cx):
    v = eng.rd(st, a[0])
    eng.wr(st, a[0], NONE)
    return R(st, v)


@model("Option::replace", "Option::insert")
def m_optreplace(eng, st, a, cx):
    v = eng.rd(st, a[0])
    eng.wr(st, a[0], some(a[1]))
    if cx.d["norm"].endswith("insert"):
        return R(st, Ref(a[0].c, a[0].p + (("f", 1, 0),)))
    return R(st, v)


@model("Option::get_or_insert_with", "Option::get_or_insert")
def m_goi(eng, st, a, cx):
    r = a[0]
    res = []
    for s, vi in eng.split(st, eng.rd(st, r)):
        if vi == 1:
            res.append((s, "v", Ref(r.c, r.p + (("f", 1, 0),))))
        elif cx.d["norm"].endswith("with"):
            def g(s, v):
                eng.wr(s, r, some(v))
                return R(s, Ref(r.c, r.p + (("f", 1, 0),)))
            res.extend(bind(call(eng, s, a[1], ()), g))
        else:
            eng.wr(s, r, some(a[1]))
            res.append((s, "v", Ref(r.c, r.p + (("f", 1, 0),))))
    return res


@model("Option::iter", "Option::into_iter", "Option::iter_mut")
def m_optiter(eng, st, a, cx):
    return into_iter(eng, st, a[0])


resm(["Result::map"], lambda e, s, x, a, c: bind(call(e, s, a[1], (x,)), lambda s, v: R(s, ok(v))), lambda e, s, x, a, c: R(s, err(x)))
resm(["Result::map_err"], lambda e, s, x, a, c: R(s, ok(x)), lambda e, s, x, a, c: bind(call(e, s, a[1], (x,)), lambda s, v: R(s, err(v))))
resm(["Result::and_then"], lambda e, s, x, a, c: call(e, s, a[1], (x,)), lambda e, s, x, a, c: R(s, err(x)))
resm(["Result::and"], lambda e, s, x, a, c: R(s, a[1]), lambda e, s, x, a, c: R(s, err(x)))
resm(["Result::or_else"], lambda e, s, x, a, c: R(s, ok(x)), lambda e, s, x, a, c: call(e, s, a[1], (x,)))
resm(["Result::or"], lambda e, s, x, a, c: R(s, ok(x)), lambda e, s, x, a, c: R(s, a[1]))
resm(["Result::unwrap_or"], lambda e, s, x, a, c: R(s, x), lambda e, s, x, a, c: R(s, a[1]))
resm(["Result::unwrap_or_else"], lambda e, s, x, a, c: R(s, x), lambda e, s, x, a, c: call(e, s, a[1], (x,)))
resm(["Result::unwrap_or_default"], lambda e, s, x, a, c: R(s, x), lambda e, s, x, a, c: R(s, default(e, c.d["args"][0])))
resm(["Result::map_or"], lambda e, s, x, a, c: call(e, s, a[2], (x,)), lambda e, s, x, a, c: R(s, a[1]))
resm(["Result::map_or_else"], lambda e, s, x, a, c: call(e, s, a[2], (x,)), lambda e, s, x, a, c: call(e, s, a[1], (x,)))
resm(["Result::ok"], lambda e, s, x, a, c: R(s, some(x)), lambda e, s, x, a, c: R(s, NONE))
resm(["Result::err"], lambda e, s, x, a, c: R(s, NONE), lambda e, s, x, a, c: R(s, some(x)))
resm(["Result::unwrap", "Result::expect"], lambda e, s, x, a, c: R(s, x), lambda e, s, x, a, c: [(s, "panic", ("Result::unwrap on Err",) + c.loc())])
resm(["Result::unwrap_err", "Result::expect_err"], lambda e, s, x, a, c: [(s, "panic", ("Result::unwrap_err on Ok",) + c.loc())], lambda e, s, x, a, c: R(s, x))
resm(["Result::is_ok_and"], lambda e, s, x, a, c: call(e, s, a[1], (x,)), lambda e, s, x, a, c: R(s, False))
resm(["Result::is_err_and"], lambda e, s, x, a, c: R(s, False), lambda e, s, x, a, c: call(e, s, a[1], (x,)))


@model("bool::then")
def m_then(eng, st, a, cx):
    res = []
    for s, b in eng.branch(st, a[0]):
        res.extend(bind(call(eng, s, a[1], ()), lambda s, v: R(s, some(v))) if b else R(s, NONE))
    return res


@model("bool::then_some")
def m_then_some(eng, st, a, cx):
    return [(s, "v", some(a[1]) if b else NONE) for s, b in eng.branch(st, a[0])]


@model("Fn::call", "FnMut::call_mut", "FnOnce::call_once")
def m_fncall(eng, st, a, cx):
    args = a[1].f if isinstance(a[1], Tup) else (a[1],)
    return eng.call_value(a[0], args, st)


# ---------------------------------------------------------------- integers
def int_ty(cx, a=None):
    """integer type of an inherent int method, from the path of the callee"""
    m = re.search(r"<impl (\w+)>", cx.d["path"])
    if m and m.group(1) in INT:
        return ("int", m.group(1))
    m = re.search(r"num::(\w+)::", cx.d["path"])
    if m and m.group(1) in INT:
        return ("int", m.group(1))
    if cx.site and cx.site[0] is not None:
        fr, e = cx.site
        return eng_arg_ty(fr, e, cx)
    return None


def eng_arg_ty(fr, e, cx):
    from thir import subst
    t = subst(fr.body.crate.types[e["a"][0]["ty"]], fr.sub)
    while t[0] == "ref":
        t = t[2]
    return t


def in_range(eng, st, l, t):
    """partition on lo <= l <= hi"""
    lo, hi = INT[t[1]]
    l = Lin.of(l)
    res = []
    for s, b in eng.branch(st, eng.ge0(l - lo)):
        if not b:
            res.append((s, -1))
            continue
        for s2, b2 in eng.branch(s, eng.ge0(Lin(hi) - l)):
            res.append((s2, 0 if b2 else 1))
    return res


def arith(eng, st, op, x, y):
    x, y = deref(eng, st, x), deref(eng, st, y)
    A, B = Lin.of(x), Lin.of(y)
    if op == "add":
        return A + B
    if op == "sub":
        return A - B
    if op == "mul":
        if not A.m:
            return B.scale(A.c)
        if not B.m:
            return A.scale(B.c)
        return Lin.atom(("mul", A, B))
    raise Undecided(op)


def _ck(op):
    def f(eng, st, a, cx):
        t = int_ty(cx)
        l = arith(eng, st, op, a[0], a[1])
        return [(s, "v", some(l.norm()) if r == 0 else NONE) for s, r in in_range(eng, st, l, t)]
    return f


def _sat(op):
    def f(eng, st, a, cx):
        t = int_ty(cx)
        l = arith(eng, st, op, a[0], a[1])
        return [(s, "v", l.norm() if r == 0 else INT[t[1]][0 if r < 0 else 1]) for s, r in in_range(eng, st, l, t)]
    return f


def _wrapop(op):
    def f(eng, st, a, cx):
        t = int_ty(cx)
        l = arith(eng, st, op, a[0], a[1])
        return eng.cast(st, l.norm(), ("int", "i128"), t)
    return f


for _o in ("add", "sub", "mul"):
    M["int::checked_" + _o] = _ck(_o)
    M["int::saturating_" + _o] = _sat(_o)
    M["int::wrapping_" + _o] = _wrapop(_o)


def _arith_trait(op):
    def f(eng, st, a, cx):
        t = cx.d["args"][0]
        while t[0] == "ref":
            t = t[2]
        x, y = deref(eng, st, a[0]), deref(eng, st, a[1])
        if isinstance(x, (str, SStr)) and op == "Add":
            return R(st, cat(x, string(eng, st, y)))
        fr, e = cx.site if cx.site else (None, None)
        return eng.binop(fr, e, st, op, x, y, t)
    return f


for _o in ("Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr", "BitXor", "Shl", "Shr"):
    M["%s::%s" % (_o, _o.lower())] = _arith_trait(_o)


def _assign_trait(op):
    def f(eng, st, a, cx):
        t = cx.d["args"][0]
        r = place(eng, st, a[0])
        x = eng.rd(st, r)
        y = deref(eng, st, a[1])
        if isinstance(x, (str, SStr)):
            eng.wr(st, r, cat(x, string(eng, st, y)))
            return R(st, UNIT)
        fr, e = cx.site if cx.site else (None, None)
        return bind(eng.binop(fr, e, st, op, x, y, t), lambda st, v: (eng.wr(st, r, v), R(st, UNIT))[1])
    return f


for _o in ("Add", "Sub", "Mul", "Div", "Rem"):
    M["%sAssign::%s_assign" % (_o, _o.lower())] = _assign_trait(_o)


@model("Not::not")
def m_not(eng, st, a, cx):
    return R(st, bnot(deref(eng, st, a[0])))


@model("int::div_ceil", "int::next_multiple_of", "int::is_multiple_of", "int::rem_euclid", "int::div_euclid", "int::checked_next_multiple_of")
def m_divceil(eng, st, a, cx):
    n = Lin.of(deref(eng, st, a[0]))
    k = deref(eng, st, a[1])
    if not isinstance(k, int) or k <= 0 or k > 16 or not eng.entails_ge(st, n):
        raise Undecided("div_ceil")
    op = cx.d["norm"].split("::")[1]
    t = int_ty(cx)
    res = []
    for s, r, q in eng.residue(st, n, k):
        q = Lin.of(q)
        if op == "div_ceil":
            res.append((s, "v", (q + (1 if r else 0)).norm()))
        elif op == "is_multiple_of":
            res.append((s, "v", r == 0))
        elif op == "rem_euclid":
            res.append((s, "v", r))
        elif op == "div_euclid":
            res.append((s, "v", q.norm()))
        else:
            v = n + (k - r if r else 0)
            for s2, w in in_range(eng, s, v, t):
                if op.startswith("checked"):
                    res.append((s2, "v", some(v.norm()) if w == 0 else NONE))
                else:
                    res.append((s2, "v", v.norm()) if w == 0 else (s2, "panic", ("overflow in next_multiple_of",) + cx.loc()))
    return res


@model("int::wrapping_neg", "int::wrapping_rem")
def m_wrapneg(eng, st, a, cx):
    t = int_ty(cx)
    op = cx.d["norm"].split("::")[1]
    x = Lin.of(deref(eng, st, a[0]))
    if op == "wrapping_rem":
        return eng.binop(None, None, st, "Rem", x.norm(), a[1], t)
    lo, hi = INT[t[1]]
    # 2^n - x, x != 0
    res = []
    for s, b in eng.branch(st, BV(("eq0", x)) if x.m else x.c == 0):
        res.append((s, "v", 0 if b else (Lin(hi - lo + 1) - x).norm() if lo == 0 else None))
        if res[-1][2] is None:
            raise Undecided("wrapping_neg")
    return res


@model("int::pow", "int::checked_pow")
def m_pow(eng, st, a, cx):
    x, y = deref(eng, st, a[0]), deref(eng, st, a[1])
    if not isinstance(x, int) or not isinstance(y, int):
        raise Undecided("pow")
    t = int_ty(cx)
    v = x ** y
    lo, hi = INT[t[1]]
    good = lo <= v <= hi
    if "checked" in cx.d["norm"]:
        return R(st, some(v) if good else NONE)
    return R(st, v) if good else [(st, "panic", ("pow overflow",) + cx.loc())]


@model("int::min_value", "int::max_value")
def m_minv(eng, st, a, cx):
    t = int_ty(cx)
    return R(st, INT[t[1]][0 if "min" in cx.d["norm"] else 1])


@model("int::abs", "int::unsigned_abs", "int::abs_diff")
def m_abs(eng, st, a, cx):
    x = Lin.of(deref(eng, st, a[0]))
    if cx.d["norm"].endswith("abs_diff"):
        x = x - Lin.of(deref(eng, st, a[1]))
    res = []
    for s, b in eng.branch(st, eng.ge0(x)):
        if b:
            res.append((s, "v", x.norm()))
        elif cx.d["norm"].endswith("::abs"):
            res.extend(eng.range_check(cx.site[0] if cx.site else None, cx.site[1] if cx.site else None, s, -x, int_ty(cx), "Neg"))
        else:
            res.append((s, "v", (-x).norm()))
    return res


@model("int::is_positive", "int::is_negative", "int::signum", "int::leading_zeros", "int::count_ones")
def m_intmisc(eng, st, a, cx):
    x = deref(eng, st, a[0])
    if not isinstance(x, int):
        raise Undecided("int op")
    n = cx.d["norm"].split("::")[1]
    lo, hi = INT[int_ty(cx)[1]]
    w = (hi - lo).bit_length()
    u = x % (hi - lo + 1)
    return R(st, {"is_positive": x > 0, "is_negative": x < 0, "signum": (x > 0) - (x < 0), "leading_zeros": w - u.bit_length(), "count_ones": bin(u).count("1")}[n])


@model("int::from_be_bytes", "int::from_le_bytes", "int::from_ne_bytes")
def m_frombe(eng, st, a, cx):
    x = deref(eng, st, a[0])
    h = eng.hooks.get("from_bytes")
    if h:
        r = h(eng, st, x, cx, int_ty(cx))
        if r is not None:
            return r
    raise Undecided("from_be_bytes")


def parse_int(s, t, radix=10):
    """Rust integer parsing of a concrete string: int or None"""
    lo, hi = INT[t]
    digs = "0123456789abcdefghijklmnopqrstuvwxyz"[:radix]
    b = s
    neg = False
    if b[:1] == "+":
        b = b[1:]
    elif b[:1] == "-" and lo < 0:
        neg = True
        b = b[1:]
    if not b or any(c.lower() not in digs or not c.isascii() for c in b):
        return None
    v = int(b, radix) * (-1 if neg else 1)
    return v if lo <= v <= hi else None


@model("str::parse", "FromStr::from_str")
def m_parse(eng, st, a, cx):
    if cx.d.get("trait"):
        t = cx.d["args"][0]
    else:
        t = cx.d["args"][0]
    s = string(eng, st, a[0])
    if t[0] == "int":
        if isinstance(s, str):
            if has_name(s):
                eng.note("parse", s, t[1])
            v = parse_int(s, t[1])
            return R(st, ok(v) if v is not None else err(Sym(("parseint", s), ("other", "ParseIntError"))))
        at = ("parse", t[1], sterm(s))
        eng.atom_rng[at] = INT[t[1]]
        return [(x, "v", ok(Lin.atom(at)) if b else err(Sym(("parseint", sterm(s)), ("other", "ParseIntError")))) for x, b in eng.branch(st, BV(("p", "parses", t[1], sterm(s))))]
    if t[0] == "adt" and t[1] == "alloc::string::String":
        return R(st, ok(s))
    if t[0] == "adt":
        im = eng.find_impl("std::str::FromStr", t, "from_str")
        if im and im[0] in eng.P.bodies:
            return eng.run_body(eng.P.bodies[im[0]], a, dict(im[1]), st)
    if t[0] == "float":
        raise Undecided("float parse")
    raise Undecided("parse to %s" % tstr(t))


@model("int::from_str_radix")
def m_radix(eng, st, a, cx):
    t = int_ty2(cx)
    s = cstr(eng, st, a[0])
    r = deref(eng, st, a[1])
    if has_name(s):
        eng.note("parse", s, t[1])
    v = parse_int(s, t[1], r)
    return R(st, ok(v) if v is not None else err(Sym(("parseint", s), ("other", "ParseIntError"))))


def int_ty2(cx):
    m = re.search(r"<impl (\w+)>", cx.d["path"])
    if m and m.group(1) in INT:
        return ("int", m.group(1))
    fr, e = cx.site
    from thir import subst
    t = subst(fr.body.crate.types[e["ty"]], fr.sub)
    if t[0] == "adt" and t[1] == RESULT:
        return t[2][0]
    raise Undecided("int type")


# ---------------------------------------------------------------- strings
def S1(*names):
    """model of a pure function of concrete strings"""
    def d(f):
        @model(*names)
        def g(eng, st, a, cx):
            xs = []
            for x in a:
                v = known(st, unbox(eng, st, x))
                if isinstance(v, SStr) or isinstance(v, Lin):
                    raise unknown(v, "symbolic string in %s" % cx.d["norm"])
                xs.append(v)
            for v in xs:
                if isinstance(v, str) and has_name(v):
                    eng.note(cx.d["norm"], *[y for y in xs if isinstance(y, (str, int, Char))])
                    break
            return R(st, f(eng, st, cx, *xs))
        return f
    return d


def pat_fn(eng, st, p):
    """string pattern -> list of literal strings (matches any)"""
    if isinstance(p, Char):
        return [p.c]
    if isinstance(p, str):
        return [p]
    if isinstance(p, Seq):
        return [deref(eng, st, s[1]).c for s in p.s]
    return None


def char_pred(eng, st, p):
    """python predicate for a char pattern (closure / fn / chars)"""
    lits = pat_fn(eng, st, p)
    if lits is not None:
        if all(len(x) == 1 for x in lits):
            return lambda c: c in lits
        return None

    def f(c):
        outs = eng.call_value(p, (Char(c),), st.fork())
        if len(outs) != 1 or outs[0][1] != "v" or not isinstance(outs[0][2], bool):
            raise Undecided("char predicate")
        return outs[0][2]
    return f


RUST_WS = " \t\n\r\x0b\x0c\x85\u2028\u2029\u00a0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u202f\u205f\u3000"
S1("str::trim")(lambda e, s, c, x: x.strip(RUST_WS))
S1("str::trim_start", "str::trim_left")(lambda e, s, c, x: x.lstrip(RUST_WS))
S1("str::trim_end", "str::trim_right")(lambda e, s, c, x: x.rstrip(RUST_WS))


def _trimm(e, s, c, x, p):
    n = c.d["norm"]
    lits = pat_fn(e, s, p)
    if lits is not None and len(lits) == 1 and len(lits[0]) > 1:
        l = lits[0]
        if not n.endswith("end_matches"):
            while l and x.startswith(l):
                x = x[len(l):]
        if not n.endswith("start_matches"):
            while l and x.endswith(l):
                x = x[:-len(l)]
        return x
    f = char_pred(e, s, p)
    if not n.endswith("end_matches"):
        while x and f(x[0]):
            x = x[1:]
    if not n.endswith("start_matches"):
        while x and f(x[-1]):
            x = x[:-1]
    return x


S1("str::trim_start_matches", "str::trim_end_matches", "str::trim_matches")(_trimm)


def _edge(name):
    """trimming of a text whose ends are known"""
    plain = M[name]

    def f(eng, st, a, cx):
        v = known(st, unbox(eng, st, a[0]))
        if not isinstance(v, SStr) or not v.p:
            return plain(eng, st, a, cx)
        lits = pat_fn(eng, st, known(st, unbox(eng, st, a[1]))) if len(a) > 1 else [" "]
        need = max(map(len, lits)) if lits else 1
        ps = list(v.p)
        for i, other in ((0, "end"), (-1, "start")):
            if name.endswith(other + "_matches") or name.endswith("trim_" + other) or name.endswith({"end": "right", "start": "left"}[other]):
                continue
            if not isinstance(ps[i], str):
                return plain(eng, st, a, cx)
            # the other end of the piece stays as it is
            guard = "\0\0"
            outs = plain(eng, st, (guard + ps[i] if i else ps[i] + guard,) + tuple(a[1:]), cx)
            x = outs[0][2]
            if len(outs) != 1 or not isinstance(x, str) or not (x.startswith(guard) if i else x.endswith(guard)) or len(x) < 2 + need:
                return plain(eng, st, a, cx)
            ps[i] = x[2:] if i else x[:-2]
        return R(st, mkstr(tuple(ps)))
    M[name] = f


for _o in ("trim", "trim_start", "trim_end", "trim_left", "trim_right", "trim_matches", "trim_start_matches", "trim_end_matches"):
    _edge("str::" + _o)


def _starts(e, s, c, x, p):
    lits = pat_fn(e, s, p)
    if lits is not None:
        return any(x.startswith(l) for l in lits)
    return bool(x) and char_pred(e, s, p)(x[0])


def _ends(e, s, c, x, p):
    lits = pat_fn(e, s, p)
    if lits is not None:
        return any(x.endswith(l) for l in lits)
    return bool(x) and char_pred(e, s, p)(x[-1])


S1("str::starts_with")(_starts)
S1("str::ends_with")(_ends)


def _contains(e, s, c, x, p):
    lits = pat_fn(e, s, p)
    if lits is not None:
        return any(l in x for l in lits)
    f = char_pred(e, s, p)
    return any(f(ch) for ch in x)


S1("str::contains")(_contains)
S1("str::strip_prefix")(lambda e, s, c, x, p: next((some(x[len(l):]) for l in pat_fn(e, s, p) if x.startswith(l)), NONE))
S1("str::strip_suffix")(lambda e, s, c, x, p: next((some(x[:len(x) - len(l)]) for l in pat_fn(e, s, p) if x.endswith(l)), NONE))


def casemap(x, up):
    out = []
    for ch in x:
        if is_name_char(ch):
            o = ord(ch)
            if NAME0 <= o < NAME1:
                o = (UPPER if up else LOWER) + (o - NAME0)
            out.append(chr(o))
        else:
            out.append(ch.upper() if up else ch.lower())
    return "".join(out)


S1("str::to_lowercase", "str::to_ascii_lowercase", "String::to_lowercase")(lambda e, s, c, x: casemap(x, False))
S1("str::to_uppercase", "str::to_ascii_uppercase")(lambda e, s, c, x: casemap(x, True))


def _eqic(e, s, c, x, y):
    return casemap(x, False) == casemap(y, False)


S1("str::eq_ignore_ascii_case")(_eqic)


def _repl(e, s, c, x, p, y, *n):
    lits = pat_fn(e, s, p)
    if lits is None:
        f = char_pred(e, s, p)
        return "".join(y if f(ch) else ch for ch in x)
    if n:
        return x.replace(lits[0], y, n[0])
    for l in lits:
        x = x.replace(l, y)
    return x


S1("str::replace", "str::replacen")(_repl)
S1("str::repeat")(lambda e, s, c, x, n: x * n)


def seq(xs):
    return Seq(tuple(("one", x) for x in xs))


def lit_it(xs):
    return It(tuple((("one", x), ()) for x in xs))


def _split(e, s, c, x, p, *rest):
    n = c.d["norm"]
    if n == "str::split_whitespace":
        return lit_it([y for y in re.split("[%s]+" % re.escape(RUST_WS), x) if y])
    lits = pat_fn(e, s, p)
    if lits is None:
        f = char_pred(e, s, p)
        out = [""]
        for ch in x:
            if f(ch):
                out.append("")
            else:
                out[-1] += ch
    else:
        if len(lits) == 1:
            out = x.split(lits[0]) if lits[0] else None
            if out is None:
                raise Undecided("split by empty")
        else:
            out = re.split("|".join(re.escape(l) for l in lits), x)
    if n == "str::rsplit":
        out = out[::-1]
    if n == "str::split_terminator" and out and out[-1] == "":
        out = out[:-1]
    return lit_it(out)


S1("str::split", "str::rsplit", "str::split_terminator")(_split)
S1("str::split_whitespace", "str::split_ascii_whitespace")(lambda e, s, c, x: lit_it([y for y in re.split("[%s]+" % re.escape(RUST_WS), x) if y]))


def _splitn(e, s, c, n, x=None, p=None):
    if isinstance(n, str):
        n, x = x, n
    l = pat_fn(e, s, p)
    if l is None or len(l) != 1:
        raise Undecided("splitn")
    if c.d["norm"].startswith("str::r"):
        return lit_it(x.rsplit(l[0], n - 1)[::-1])
    return lit_it(x.split(l[0], n - 1))


S1("str::splitn", "str::rsplitn")(_splitn)


def _once(e, s, c, x, p):
    l = pat_fn(e, s, p)
    if l is None or len(l) != 1:
        raise Undecided("split_once")
    a, m, b = x.partition(l[0]) if "rsplit" not in c.d["norm"] else x.rpartition(l[0])
    return some(Tup((a, b))) if m else NONE


S1("str::split_once", "str::rsplit_once")(_once)


def _lines(e, s, c, x):
    out = x.split("\n")
    if out and out[-1] == "":
        out.pop()
    return lit_it([y[:-1] if y.endswith("\r") else y for y in out])


S1("str::lines")(_lines)
S1("str::chars")(lambda e, s, c, x: lit_it([Char(ch) for ch in x]))


def _blen(x):
    return len(x.encode("utf8", "surrogatepass"))


def _charidx(e, s, c, x):
    out, n = [], 0
    for ch in x:
        out.append(Tup((n, Char(ch))))
        n += _blen(ch)
    return lit_it(out)


S1("str::char_indices")(_charidx)


@model("str::bytes", "str::as_bytes", "String::as_bytes", "String::into_bytes", "str::into_bytes")
def m_bytes(eng, st, a, cx):
    x = string(eng, st, a[0])
    if isinstance(x, SStr):
        if len(x.p) == 1 and isinstance(x.p[0], tuple) and x.p[0][0] == "utf8":
            return R(st, View(*x.p[0][1:4]))
        raise unknown(x, "bytes of symbolic string")
    if has_name(x):
        raise Undecided("bytes of a name")
    b = list(x.encode())
    if cx.d["norm"].endswith("::bytes"):
        return R(st, lit_it(b))
    if cx.d["norm"].endswith("into_bytes"):
        return R(st, seq(b))
    return R(st, Ref(eng.temp(st, seq(b))))


@model("str::len", "String::len")
def m_strlen(eng, st, a, cx):
    x = string(eng, st, a[0])
    if isinstance(x, str):
        if has_name(x):
            eng.note("len", x)
            n = 0
            l = Lin(0)
            for ch in x:
                l = l + (Lin.atom(("len", ch)) if is_name_char(ch) else _blen(ch))
                if is_name_char(ch):
                    eng.atom_rng[("len", ch)] = (1, 2**40)
            return R(st, l.norm())
        return R(st, _blen(x))
    if len(x.p) == 1 and isinstance(x.p[0], tuple) and x.p[0][0] == "utf8":
        p = x.p[0]
        return R(st, (Lin.of(p[3]) - Lin.of(p[2])).norm())
    at = ("len", sterm(x))
    eng.atom_rng[at] = (0, 2**62)
    return R(st, Lin.atom(at))


@model("str::is_empty", "String::is_empty")
def m_strempty(eng, st, a, cx):
    x = string(eng, st, a[0])
    if isinstance(x, str):
        return R(st, x == "")
    if any(isinstance(p, str) for p in x.p):
        return R(st, False)
    return bind(m_strlen(eng, st, a, cx), lambda st, n: R(st, BV(("eq0", Lin.of(n)))))


@model("ToString::to_string", "str::to_string", "str::to_owned", "String::from", "str::into_string", "String::into_boxed_str", "str::into_boxed_str", "Box::into_string")
def m_tostring(eng, st, a, cx):
    if cx.d.get("trait"):
        t = cx.d["args"][0]
    else:
        t = ("str",)
    return bind(display(eng, st, a[0], t), lambda st, s: R(st, s))


@model("String::new", "Vec::new", "HashMap::new", "HashSet::new", "BTreeMap::new", "BTreeSet::new", "VecDeque::new", "HashSet::with_capacity", "HashMap::with_capacity")
def m_new(eng, st, a, cx):
    n = cx.d["norm"].split("::")[0]
    if n == "String":
        return R(st, "")
    if n in ("Vec", "VecDeque"):
        return R(st, Seq(()))
    return R(st, MapV("hash" if n.startswith("Hash") else "btree", ()))


@model("BytesMut::with_capacity", "BytesMut::zeroed", "Vec::try_reserve_exact", "Box::new_uninit_slice")
def m_foreign_cap(eng, st, a, cx):
    st.ev += (("alloc", cx.d["norm"].split("::")[-1], a[-1], cx.loc(), None),)
    raise Undecided(cx.d["norm"])


@model("Vec::with_capacity", "VecDeque::with_capacity")
def m_withcap(eng, st, a, cx):
    st.ev += (("alloc", "with_capacity", a[0], cx.loc(), tstr(cx.d["args"][0]) if cx.d["args"] else None),)
    n = Lin.of(a[0])
    if n.m:
        # capacity overflow panics above isize::MAX bytes
        h = eng.hooks.get("alloc")
        if h:
            r = h(eng, st, n, cx)
            if r is not None:
                return r
    return R(st, Seq(()))


@model("String::with_capacity")
def m_strcap(eng, st, a, cx):
    st.ev += (("alloc", "with_capacity", a[0], cx.loc(), "str"),)
    return R(st, "")


@model("Vec::reserve", "Vec::reserve_exact", "Vec::try_reserve", "String::reserve", "Vec::shrink_to_fit", "String::shrink_to_fit")
def m_reserve(eng, st, a, cx):
    if len(a) > 1:
        st.ev += (("alloc", "reserve", a[1], cx.loc(), tstr(cx.d["args"][0]) if cx.d["args"] else None),)
    return R(st, ok(UNIT) if "try" in cx.d["norm"] else UNIT)


@model("String::push_str")
def m_push_str(eng, st, a, cx):
    r = place(eng, st, a[0])
    eng.wr(st, r, cat(eng.rd(st, r), string(eng, st, a[1])))
    return R(st, UNIT)


@model("String::push")
def m_push_char(eng, st, a, cx):
    r = place(eng, st, a[0])
    c = deref(eng, st, a[1])
    eng.wr(st, r, cat(eng.rd(st, r), c.c if isinstance(c.c, str) else SStr((c.c,))))
    return R(st, UNIT)


@model("String::insert_str", "String::insert")
def m_insert_str(eng, st, a, cx):
    r = place(eng, st, a[0])
    x = cstr(eng, st, eng.rd(st, r))
    y = deref(eng, st, a[2])
    y = y.c if isinstance(y, Char) else string(eng, st, y)
    if a[1] == 0:
        eng.wr(st, r, cat(y, x))
        return R(st, UNIT)
    raise Undecided("insert_str")


@model("String::clear", "Vec::clear", "HashSet::clear", "HashMap::clear", "BTreeMap::clear")
def m_clear(eng, st, a, cx):
    r = place(eng, st, a[0])
    v = eng.rd(st, r)
    eng.wr(st, r, "" if isinstance(v, (str, SStr)) else Seq(()) if isinstance(v, Seq) else MapV(v.kind, ()))
    return R(st, UNIT)


@model("String::pop")
def m_strpop(eng, st, a, cx):
    r = place(eng, st, a[0])
    x = cstr(eng, st, eng.rd(st, r))
    if not x:
        return R(st, NONE)
    if is_name_char(x[-1]):
        raise Undecided("pop of a name's last character")
    eng.wr(st, r, x[:-1])
    return R(st, some(Char(x[-1])))


@model("String::truncate")
def m_strtrunc(eng, st, a, cx):
    r = place(eng, st, a[0])
    x = cstr(eng, st, eng.rd(st, r))
    n = a[1]
    b = byte_index(eng, x, n)
    if b is None:
        raise Undecided("truncate")
    eng.wr(st, r, x[:b])
    return R(st, UNIT)


def byte_index(eng, x, n):
    """python index of byte offset n in x (n may contain name-length atoms)"""
    l = Lin(0)
    n = Lin.of(n)
    for i in range(len(x) + 1):
        if l == n:
            return i
        if i < len(x):
            ch = x[i]
            l = l + (Lin.atom(("len", ch)) if is_name_char(ch) else _blen(ch))
    return None


def _find(e, s, c, x, p):
    lits = pat_fn(e, s, p)
    if lits is None or len(lits) != 1:
        f = char_pred(e, s, p)
        i = next((k for k in range(len(x)) if f(x[k])), -1)
    else:
        i = x.find(lits[0]) if "rfind" not in c.d["norm"] else x.rfind(lits[0])
    if i < 0:
        return NONE
    l = Lin(0)
    for ch in x[:i]:
        l = l + (Lin.atom(("len", ch)) if is_name_char(ch) else _blen(ch))
    return some(l.norm())


S1("str::find", "str::rfind")(_find)


@model("str::split_at")
def m_split_at(eng, st, a, cx):
    x = cstr(eng, st, a[0])
    b = byte_index(eng, x, a[1])
    if b is None:
        raise Undecided("split_at")
    return R(st, Tup((x[:b], x[b:])))


@model("str::from_utf8", "String::from_utf8", "converts::from_utf8")
def m_utf8(eng, st, a, cx):
    v = deref(eng, st, a[0])
    if isinstance(v, View):
        al, o, e = v.a, v.o, v.e
        while isinstance(al, tuple) and al[0] == "copy":
            al, o, e = al[1], Lin.of(al[2]) + o, Lin.of(al[2]) + e
        t = ("utf8", al, o, e)
        res = []
        for s, b in eng.branch(st, BV(("p",) + t)):
            if b:
                res.append((s, "v", ok(SStr((t,)))))
            else:
                # the empty text is well formed
                eng.add_ge(s, Lin.of(e) - o - 1)
                if eng.infeas(s):
                    continue
                res.append((s, "v", err(Sym(("utf8err",) + t[1:], ("adt", "alloc::string::FromUtf8Error", ())))))
        return res
    if isinstance(v, Seq) and all(s[0] == "one" and isinstance(s[1], int) for s in v.s):
        try:
            return R(st, ok(bytes(s[1] for s in v.s).decode()))
        except UnicodeDecodeError:
            return R(st, err(Sym(("utf8err",), ("other", "Utf8Error"))))
    raise Undecided("from_utf8 of %r" % (v,))


@model("String::from_utf8_lossy", "String::from_utf8_unchecked", "str::from_utf8_unchecked")
def m_utf8l(eng, st, a, cx):
    v = deref(eng, st, a[0])
    if isinstance(v, View):
        while isinstance(v.a, tuple) and v.a[0] == "copy":
            v = View(v.a[1], Lin.of(v.a[2]) + v.o, Lin.of(v.a[2]) + v.e)
        return R(st, SStr((("lossy" if "lossy" in cx.d["norm"] else "unchecked", v.a, v.o, v.e),)))
    raise Undecided("from_utf8_lossy")


# chars
def C1(name, f, default_for_name):
    @model("char::" + name, "int::" + name)
    def g(eng, st, a, cx):
        c = deref(eng, st, a[0])
        if isinstance(c, int):
            return R(st, f(chr(c)))
        if isinstance(c, Char) and isinstance(c.c, str):
            if is_name_char(c.c):
                eng.note("char::" + name, c.c)
                return R(st, default_for_name)
            return R(st, f(c.c))
        raise Undecided("char::" + name)


C1("is_numeric", lambda c: c.isnumeric(), False)
C1("is_ascii_digit", lambda c: c in "0123456789", False)
C1("is_alphabetic", lambda c: c.isalpha(), True)
C1("is_ascii_alphabetic", lambda c: c.isascii() and c.isalpha(), True)
C1("is_alphanumeric", lambda c: c.isalnum(), True)
C1("is_ascii_alphanumeric", lambda c: c.isascii() and c.isalnum(), True)
C1("is_whitespace", lambda c: c in RUST_WS, False)
C1("is_ascii_whitespace", lambda c: c in " \t\n\r\x0c", False)
C1("is_ascii_punctuation", lambda c: c.isascii() and not c.isalnum() and c > " " and c != "\x7f", False)
C1("is_ascii", lambda c: c.isascii(), True)
C1("is_control", lambda c: ord(c) < 32 or 127 <= ord(c) < 160, False)


@model("char::is_uppercase", "char::is_lowercase", "char::is_ascii_uppercase", "char::is_ascii_lowercase")
def m_isupper(eng, st, a, cx):
    c = deref(eng, st, a[0])
    if not isinstance(c.c, str) or is_name_char(c.c):
        raise Undecided("case of a name")
    return R(st, c.c.isupper() if "upper" in cx.d["norm"] else c.c.islower())


@model("char::is_digit", "char::to_digit")
def m_isdigit(eng, st, a, cx):
    c = deref(eng, st, a[0])
    if not isinstance(c.c, str):
        raise Undecided("is_digit")
    if is_name_char(c.c):
        eng.note("char::is_digit", c.c)
    d = "0123456789abcdefghijklmnopqrstuvwxyz"[:a[1]].find(c.c.lower()) if not is_name_char(c.c) else -1
    if cx.d["norm"].endswith("to_digit"):
        return R(st, some(d) if d >= 0 else NONE)
    return R(st, d >= 0)


@model("char::to_ascii_lowercase", "char::to_ascii_uppercase")
def m_charcase(eng, st, a, cx):
    c = deref(eng, st, a[0])
    return R(st, Char(casemap(c.c, "upper" in cx.d["norm"])))


@model("char::to_lowercase", "char::to_uppercase")
def m_charcase2(eng, st, a, cx):
    c = deref(eng, st, a[0])
    return R(st, lit_it([Char(x) for x in casemap(c.c, "upper" in cx.d["norm"])]))


# ---------------------------------------------------------------- formatting
def arguments(tpl, args):
    """decode the compiled format template"""
    out = []
    i = 0
    nxt = 0
    while True:
        b = tpl[i]
        i += 1
        if b == 0:
            break
        if b < 128:
            out.append(bytes(tpl[i:i + b]).decode())
            i += b
        elif b == 128:
            n = tpl[i] | tpl[i + 1] << 8
            i += 2
            out.append(bytes(tpl[i:i + n]).decode())
            i += n
        else:
            special = False
            if b & 1:
                fl = tpl[i:i + 4]
                i += 4
                special = tuple(fl)
            if b & 2:
                special = (special, "w", tpl[i] | tpl[i + 1] << 8)
                i += 2
            if b & 4:
                special = (special, "p", tpl[i] | tpl[i + 1] << 8)
                i += 2
            if b & 8:
                nxt = tpl[i] | tpl[i + 1] << 8
                i += 2
            a = args[nxt]
            nxt += 1
            out.append(("arg", a, special))
    return out


@model("Arguments::new", "rt::Arguments::new", "Arguments::new_const", "Arguments::new_v1")
def m_arguments(eng, st, a, cx):
    tpl = deref(eng, st, a[0])
    tpl = [s[1] for s in tpl.s]
    args = deref(eng, st, a[1])
    args = [s[1] for s in args.s]
    return R(st, Args(arguments(tpl, args)))


@model("Arguments::from_str", "Arguments::from_str_nonconst")
def m_args_str(eng, st, a, cx):
    return R(st, Args([string(eng, st, a[0])]))


class FArg(V):
    __slots__ = ("k", "v", "t")

    def __init__(self, k, v, t):
        self.k, self.v, self.t = k, v, t


def _argm(k):
    def f(eng, st, a, cx):
        return R(st, FArg(k, a[0], cx.d["args"][0]))
    return f


for _k in ("display", "debug", "lower_hex", "upper_hex", "octal", "binary", "lower_exp"):
    M["Argument::new_" + _k] = _argm(_k)


@model("Argument::from_usize")
def m_argusize(eng, st, a, cx):
    return R(st, FArg("usize", a[0], ("int", "usize")))


DISPLAY = "std::fmt::Display"


def display(eng, st, v, t, kind="display"):
    """outcomes with the string value of v formatted with {}"""
    while t[0] == "ref" or (t[0] == "adt" and t[1] == BOX):
        if isinstance(v, Ref):
            v = eng.rd(st, v)
        elif isinstance(v, Adt) and v.n == BOX:
            v = v.f[0]
        t = t[2] if t[0] == "ref" else t[2][0]
    if isinstance(v, Ref) and not (t[0] == "adt"):
        v = deref(eng, st, v)
    if t[0] == "adt" and not isinstance(v, Ref):
        v = Ref(eng.temp(st, v))
    if t[0] == "param":
        x = deref(eng, st, v)
        if isinstance(x, (str, SStr)):
            return R(st, x)
    if t[0] == "adt":
        im = eng.find_impl(DISPLAY, t, "fmt")
        if im and isinstance(im[0], str) and im[0] in eng.P.bodies:
            buf = eng.temp(st, "")
            fm = eng.temp(st, Adt(FMT, 0, (Ref(buf),)))

            def done(st, r):
                res = []
                for s, vi in eng.split(st, r):
                    if vi == 0:
                        res.append((s, "v", s.heap[buf]))
                    else:
                        res.append((s, "panic", ("Display returned an error", None, None, None)))
                return res
            return bind(eng.run_body(eng.P.bodies[im[0]], (v, Ref(fm)), dict(im[1]), st), done)
    x = deref(eng, st, v)
    if isinstance(x, Adt) and x.n in (BOX, "rc") and len(x.f) == 1:
        return display(eng, st, x.f[0], ("param", "?"))
    if isinstance(x, (str, SStr)):
        return R(st, x)
    if isinstance(x, bool):
        return R(st, "true" if x else "false")
    if isinstance(x, BV):
        return [(s, "v", "true" if b else "false") for s, b in eng.branch(st, x)]
    if isinstance(x, int):
        return R(st, str(x))
    if isinstance(x, Lin):
        return R(st, SStr((("itoa", x),)))
    if isinstance(x, Char):
        return R(st, x.c if isinstance(x.c, str) else SStr((x.c,)))
    if isinstance(x, Args):
        return render(eng, st, x)
    if isinstance(x, (Sym, Adt)):
        return R(st, SStr((("text", kind, getattr(x, "t", repr(x))),)))
    raise Undecided("display of %r" % (x,))


def debug(eng, st, v, t):
    x = unbox(eng, st, v)
    if isinstance(x, str):
        return R(st, '"%s"' % x.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n"))
    if isinstance(x, bool):
        return R(st, "true" if x else "false")
    if isinstance(x, int):
        return R(st, str(x))
    return R(st, SStr((("debug", tstr(t)),)))


def render(eng, st, args):
    outs = R(st, "")
    for p in args.p:
        def f(st, acc, p=p):
            if isinstance(p, (str, SStr)):
                return R(st, cat(acc, p))
            _, a, special = p
            if special and a.k != "debug":
                return bind(display(eng, st, a.v, a.t), lambda st, s: R(st, cat(acc, padded(s, special, a.k))))
            if a.k == "debug":
                return bind(debug(eng, st, a.v, a.t), lambda st, s: R(st, cat(acc, s)))
            if a.k in ("lower_hex", "upper_hex", "octal", "binary"):
                x = deref(eng, st, a.v)
                if not isinstance(x, int):
                    raise Undecided("radix formatting")
                if x < 0:
                    x += 2 ** (int(a.t[1][1:]) if a.t[0] == "int" else 64)
                return R(st, cat(acc, format(x, {"lower_hex": "x", "upper_hex": "X", "octal": "o", "binary": "b"}[a.k])))
            return bind(display(eng, st, a.v, a.t), lambda st, s: R(st, cat(acc, s)))
        outs = bind(outs, f)
    return outs


def padded(s, special, k):
    raise Undecided("formatted padding")


@model("fmt::format")
def m_format(eng, st, a, cx):
    return render(eng, st, a[0])


def target(eng, st, w):
    """resolve a writer argument: ('str', Ref) | ('impl', Ref, type) | ('io', value)"""
    r = w
    while True:
        if not isinstance(r, Ref):
            return ("io", r)
        v = eng.rd(st, r)
        if isinstance(v, Ref):
            r = v
            continue
        if isinstance(v, Adt) and v.n == FMT:
            r = v.f[0]
            continue
        if isinstance(v, Adt) and v.n == BOX:
            r = Ref(r.c, r.p + (("f", 0, 0),))
            continue
        if isinstance(v, (str, SStr)):
            return ("str", r)
        if isinstance(v, Seq):
            return ("seq", r)
        if isinstance(v, Adt) and v.n in eng.P.adts and eng.P.adts[v.n].get("local"):
            return ("impl", r, v)
        return ("io", v, r)


def write(eng, st, w, s, cx):
    t = target(eng, st, w)
    if t[0] == "str":
        eng.wr(st, t[1], cat(eng.rd(st, t[1]), s))
        return R(st, ok(UNIT))
    if t[0] == "impl":
        ty = ("adt", t[2].n, ())
        for tr in ("std::fmt::Write", "std::io::Write"):
            for im in eng.P.impls:
                if im.get("trait") != tr or not (im["self"][0] == "adt" and im["self"][1] == t[2].n):
                    continue
                b = im["items"].get("write_str") or im["items"].get("write")
                if isinstance(b, str) and b in eng.P.bodies:
                    return eng.run_body(eng.P.bodies[b], (t[1], s), {}, st)
    if t[0] == "seq":
        v = eng.rd(st, t[1])
        if isinstance(s, str):
            eng.wr(st, t[1], Seq(v.s + (("bytes", s),)))
            return R(st, ok(UNIT))
    h = eng.hooks.get("io_write")
    if h:
        r = h(eng, st, t, s, cx)
        if r is not None:
            return r
    raise Undecided("write to %r" % (t,))


@model("Write::write_fmt", "Formatter::write_fmt", "fmt::write")
def m_write_fmt(eng, st, a, cx):
    return bind(render(eng, st, deref(eng, st, a[1])), lambda st, s: write(eng, st, a[0], s, cx))


@model("Write::write_str", "Formatter::write_str", "Formatter::pad", "Write::write_all")
def m_write_str(eng, st, a, cx):
    x = deref(eng, st, a[1])
    if isinstance(x, Seq):
        x = bytes(s[1] for s in x.s).decode()
    return write(eng, st, a[0], string(eng, st, x), cx)


@model("Write::write_char", "Formatter::write_char")
def m_write_char(eng, st, a, cx):
    c = deref(eng, st, a[1])
    return write(eng, st, a[0], c.c if isinstance(c.c, str) else SStr((c.c,)), cx)


@model("Display::fmt")
def m_display_fmt(eng, st, a, cx):
    return bind(display(eng, st, a[0], ("ref", False, cx.d["args"][0])), lambda st, s: write(eng, st, a[1], s, cx))


@model("Debug::fmt", "derived:Debug::fmt")
def m_debug_fmt(eng, st, a, cx):
    return bind(debug(eng, st, a[0], cx.d["args"][0]), lambda st, s: write(eng, st, a[1], s, cx))


@model("Formatter::alternate", "Formatter::sign_plus")
def m_fmtalt(eng, st, a, cx):
    return R(st, False)


@model("Write::by_ref", "Write::flush")
def m_flush(eng, st, a, cx):
    if cx.d.get("name") == "flush":
        h = eng.hooks.get("io_flush")
        if h:
            h(eng, st, a, cx)
        return R(st, ok(UNIT))
    return R(st, a[0])


# ---------------------------------------------------------------- maps and sets
class MapV(V):
    __slots__ = ("kind", "e")

    def __init__(self, kind, e):
        self.kind = kind
        self.e = tuple(e)      # (key value, value) ; sets: value UNIT

    def __eq__(self, o):
        return isinstance(o, MapV) and self.kind == o.kind and self.e == o.e

    def __hash__(self):
        return hash((self.kind, self.e))

    def __repr__(self):
        return "map%r" % (self.e,)


MAPS = {"alloc::collections::btree::map::BTreeMap": "btree", "alloc::collections::btree::set::BTreeSet": "btree",
        "std::collections::hash::map::HashMap": "hash", "std::collections::hash::set::HashSet": "hash"}


def mget(eng, st, m, k):
    kk = keyof(eng, st, k)
    for i, (a, b) in enumerate(m.e):
        if keyof(eng, st, a) == kk:
            return i
    return None


def minsert(eng, st, m, k, v):
    i = mget(eng, st, m, k)
    e = list(m.e)
    if i is not None:
        old = e[i][1]
        e[i] = (e[i][0], v)
        return MapV(m.kind, e), some(old)
    e.append((k, v))
    if m.kind == "btree":
        e.sort(key=lambda x: okey(eng, st, x[0]))
    elif eng.hooks.get("hash_order"):
        e = eng.hooks["hash_order"](eng, st, e)
    return MapV(m.kind, e), NONE


def mapof(eng, st, r):
    p = place(eng, st, r)
    m = eng.rd(st, p)
    if not isinstance(m, MapV):
        h = eng.hooks.get("symmap")
        if h:
            return p, h(eng, st, p, m)
        raise Undecided("map operation on %r" % (m,))
    return p, m


def maps(*ms):
    return [k + "::" + m for m in ms for k in ("BTreeMap", "HashMap", "BTreeSet", "HashSet")]


@model(*maps("insert"))
def m_minsert(eng, st, a, cx):
    p, m = mapof(eng, st, a[0])
    isset = "Set" in cx.d["norm"]
    if isset and mget(eng, st, m, a[1]) is not None:
        return R(st, False)
    m2, old = minsert(eng, st, m, a[1], UNIT if isset else a[2])
    eng.wr(st, p, m2)
    return R(st, True if isset else old)


@model(*maps("get", "get_mut", "get_key_value"))
def m_mget(eng, st, a, cx):
    p, m = mapof(eng, st, a[0])
    i = mget(eng, st, m, a[1])
    if i is None:
        return R(st, NONE)
    if "Set" in cx.d["norm"]:
        return R(st, some(kref(eng, st, p, i)))
    v = Ref(p.c, p.p + (("mv", i),))
    if cx.d["norm"].endswith("key_value"):
        return R(st, some(Tup((kref(eng, st, p, i), v))))
    return R(st, some(v))


def kref(eng, st, p, i):
    return Ref(p.c, p.p + (("mk", i),))


@model(*maps("contains_key", "contains"))
def m_mcontains(eng, st, a, cx):
    p, m = mapof(eng, st, a[0])
    return R(st, mget(eng, st, m, a[1]) is not None)


@model(*maps("remove", "take", "remove_entry"))
def m_mremove(eng, st, a, cx):
    p, m = mapof(eng, st, a[0])
    i = mget(eng, st, m, a[1])
    if i is None:
        return R(st, False if "Set::remove" in cx.d["norm"] else NONE)
    k, v = m.e[i]
    eng.wr(st, p, MapV(m.kind, m.e[:i] + m.e[i + 1:]))
    if cx.d["norm"].endswith("Set::remove"):
        return R(st, True)
    if "entry" in cx.d["norm"]:
        return R(st, some(Tup((k, v))))
    return R(st, some(v if "Map" in cx.d["norm"] else k))


@model(*maps("len"))
def m_mlen(eng, st, a, cx):
    p, m = mapof(eng, st, a[0])
    return R(st, len(m.e))


@model(*maps("is_empty"))
def m_mempty(eng, st, a, cx):
    p, m = mapof(eng, st, a[0])
    return R(st, len(m.e) == 0)


def hash_iter(eng, st, m, cx):
    if m.kind == "hash":
        st.ev += (("hash-iter",) + ((cx.loc(),) if cx else ()),)
        h = eng.hooks.get("hash_iter")
        if h:
            h(eng, st, m, cx)


@model(*maps("iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "range"))
def m_miter(eng, st, a, cx):
    p, m = mapof(eng, st, a[0])
    hash_iter(eng, st, m, cx)
    n = cx.d["norm"].split("::")[1]
    isset = "Set" in cx.d["norm"]
    out = []
    for i, (k, v) in enumerate(m.e):
        kr, vr = kref(eng, st, p, i), Ref(p.c, p.p + (("mv", i),))
        if n in ("into_keys", "into_values", "drain"):
            kr, vr = k, v
        if isset or n in ("keys", "into_keys"):
            out.append(kr)
        elif n in ("values", "values_mut", "into_values"):
            out.append(vr)
        elif n == "range":
            raise Undecided("range")
        else:
            out.append(Tup((kr, vr)))
    return R(st, lit_it(out))


@model(*maps("first_key_value", "last_key_value", "first", "last", "pop_first", "pop_last"))
def m_mfirst(eng, st, a, cx):
    p, m = mapof(eng, st, a[0])
    if not m.e:
        return R(st, NONE)
    i = 0 if "first" in cx.d["norm"] else len(m.e) - 1
    k, v = m.e[i]
    isset = "Set" in cx.d["norm"]
    if "pop" in cx.d["norm"]:
        eng.wr(st, p, MapV(m.kind, m.e[:i] + m.e[i + 1:]))
        return R(st, some(k if isset else Tup((k, v))))
    return R(st, some(kref(eng, st, p, i) if isset else Tup((kref(eng, st, p, i), Ref(p.c, p.p + (("mv", i),))))))


@model(*maps("retain"))
def m_mretain(eng, st, a, cx):
    p, m = mapof(eng, st, a[0])
    outs = R(st, ())
    for i, (k, v) in enumerate(m.e):
        def f(st, acc, k=k, v=v, i=i):
            args = (Ref(eng.temp(st, k)),) + (() if "Set" in cx.d["norm"] else (Ref(eng.temp(st, v)),))
            return bind(call(eng, st, a[1], args), lambda st, b: [(s, "v", acc + (((k, v),) if t else ())) for s, t in eng.branch(st, b)])
        outs = bind(outs, f)
    return bind(outs, lambda st, e: (eng.wr(st, p, MapV(m.kind, e)), R(st, UNIT))[1])


@model("HashSet::union", "BTreeSet::union", "HashSet::intersection", "BTreeSet::intersection", "HashSet::difference", "BTreeSet::difference")
def m_setop(eng, st, a, cx):
    _, x = mapof(eng, st, a[0])
    _, y = mapof(eng, st, a[1])
    hash_iter(eng, st, x, cx)
    n = cx.d["norm"].split("::")[1]
    ks = [k for k, _ in x.e]
    if n == "union":
        ks += [k for k, _ in y.e if mget(eng, st, x, k) is None]
        if x.kind == "btree":
            ks.sort(key=lambda k: okey(eng, st, k))
    elif n == "intersection":
        ks = [k for k in ks if mget(eng, st, y, k) is not None]
    else:
        ks = [k for k in ks if mget(eng, st, y, k) is None]
    return R(st, lit_it([Ref(eng.temp(st, k)) for k in ks]))


@model("HashSet::is_subset", "BTreeSet::is_subset", "HashSet::is_superset", "BTreeSet::is_superset")
def m_subset(eng, st, a, cx):
    _, x = mapof(eng, st, a[0])
    _, y = mapof(eng, st, a[1])
    if "superset" in cx.d["norm"]:
        x, y = y, x
    return R(st, all(mget(eng, st, y, k) is not None for k, _ in x.e))


@model("BTreeMap::entry", "HashMap::entry")
def m_entry(eng, st, a, cx):
    p, m = mapof(eng, st, a[0])
    i = mget(eng, st, m, a[1])
    return R(st, Adt("map::Entry", 1 if i is None else 0, (Adt("map::E", 0, (p, a[1])),)))


def entry_place(eng, st, en):
    p, k = en.f[0].f
    m = eng.rd(st, p)
    i = mget(eng, st, m, k)
    return p, k, m, i


@model("Entry::or_insert", "Entry::or_insert_with", "Entry::or_default", "Entry::or_insert_with_key")
def m_orinsert(eng, st, a, cx):
    p, k, m, i = entry_place(eng, st, a[0])
    if i is not None:
        return R(st, Ref(p.c, p.p + (("mv", i),)))

    def put(st, v):
        m2, _ = minsert(eng, st, eng.rd(st, p), k, v)
        eng.wr(st, p, m2)
        return R(st, Ref(p.c, p.p + (("mv", mget(eng, st, m2, k)),)))
    n = cx.d["norm"].split("::")[1]
    if n == "or_insert":
        return put(st, a[1])
    if n == "or_default":
        return put(st, default(eng, cx.d["args"][-2] if len(cx.d["args"]) >= 2 else cx.d["args"][-1]))
    return bind(call(eng, st, a[1], () if n == "or_insert_with" else (Ref(eng.temp(st, k)),)), put)


@model("Entry::and_modify")
def m_andmodify(eng, st, a, cx):
    p, k, m, i = entry_place(eng, st, a[0])
    if i is None:
        return R(st, a[0])
    return bind(call(eng, st, a[1], (Ref(p.c, p.p + (("mv", i),)),)), lambda st, _: R(st, a[0]))


@model("Entry::key", "VacantEntry::key", "OccupiedEntry::key")
def m_ekey(eng, st, a, cx):
    x = deref(eng, st, a[0])
    return R(st, Ref(eng.temp(st, (x.f[0] if x.n == "map::Entry" else x).f[1])))


@model("VacantEntry::insert", "OccupiedEntry::insert")
def m_vinsert(eng, st, a, cx):
    p, k = a[0].f
    m2, old = minsert(eng, st, eng.rd(st, p), k, a[1])
    eng.wr(st, p, m2)
    if cx.d["norm"].startswith("Occ"):
        return R(st, old.f[0])
    return R(st, Ref(p.c, p.p + (("mv", mget(eng, st, m2, k)),)))


@model("OccupiedEntry::get", "OccupiedEntry::into_mut", "OccupiedEntry::get_mut")
def m_oget(eng, st, a, cx):
    x = deref(eng, st, a[0])
    p, k = x.f
    return R(st, Ref(p.c, p.p + (("mv", mget(eng, st, eng.rd(st, p), k)),)))


# ---------------------------------------------------------------- Vec / slice
def seqof(eng, st, r):
    p = place(eng, st, r)
    v = eng.rd(st, p)
    if isinstance(v, (Seq, View)):
        return p, v
    raise Undecided("sequence expected, got %r" % (v,))


def concrete(v):
    if isinstance(v, Seq) and all(s[0] == "one" for s in v.s):
        return [s[1] for s in v.s]
    raise Undecided("symbolic sequence")


@model("Vec::push", "VecDeque::push_back")
def m_push(eng, st, a, cx):
    p, v = seqof(eng, st, a[0])
    if isinstance(v, View):
        raise Undecided("push to byte vector")
    eng.wr(st, p, Seq(v.s + (("one", a[1]),)))
    st.ev += (("alloc", "push", 1, cx.loc()),) if eng.hooks.get("trace_alloc") else ()
    return R(st, UNIT)


@model("Vec::pop", "VecDeque::pop_back")
def m_pop(eng, st, a, cx):
    p, v = seqof(eng, st, a[0])
    if not v.s:
        return R(st, NONE)
    if v.s[-1][0] != "one":
        raise Undecided("pop from symbolic")
    eng.wr(st, p, Seq(v.s[:-1]))
    return R(st, some(v.s[-1][1]))


@model("VecDeque::pop_front")
def m_popf(eng, st, a, cx):
    p, v = seqof(eng, st, a[0])
    if not v.s:
        return R(st, NONE)
    xs = concrete(v)
    eng.wr(st, p, seq(xs[1:]))
    return R(st, some(xs[0]))


@model("VecDeque::push_front")
def m_pushf(eng, st, a, cx):
    p, v = seqof(eng, st, a[0])
    eng.wr(st, p, Seq((("one", a[1]),) + v.s))
    return R(st, UNIT)


@model("Vec::remove", "Vec::swap_remove")
def m_remove(eng, st, a, cx):
    p, v = seqof(eng, st, a[0])
    xs = concrete(v)
    i = a[1]
    if not isinstance(i, int):
        raise Undecided("symbolic index")
    if i >= len(xs):
        return [(st, "panic", ("Vec::remove out of bounds",) + cx.loc())]
    x = xs[i]
    if "swap" in cx.d["norm"]:
        xs[i] = xs[-1]
        xs.pop()
    else:
        xs = xs[:i] + xs[i + 1:]
    eng.wr(st, p, seq(xs))
    return R(st, x)


@model("Vec::insert")
def m_vecinsert(eng, st, a, cx):
    p, v = seqof(eng, st, a[0])
    xs = concrete(v)
    i = a[1]
    if i > len(xs):
        return [(st, "panic", ("Vec::insert out of bounds",) + cx.loc())]
    eng.wr(st, p, seq(xs[:i] + [a[2]] + xs[i:]))
    return R(st, UNIT)


@model("Vec::truncate")
def m_trunc(eng, st, a, cx):
    p, v = seqof(eng, st, a[0])
    if isinstance(v, View):
        raise Undecided("truncate")
    xs = concrete(v)
    eng.wr(st, p, seq(xs[:a[1]]))
    return R(st, UNIT)


@model("Vec::extend_from_slice", "Vec::append")
def m_extend(eng, st, a, cx):
    p, v = seqof(eng, st, a[0])
    p2, w = seqof(eng, st, a[1])
    eng.wr(st, p, Seq(v.s + w.s))
    if cx.d["norm"].endswith("append"):
        eng.wr(st, p2, Seq(()))
    return R(st, UNIT)


@model("Extend::extend")
def m_extend2(eng, st, a, cx):
    p = place(eng, st, a[0])

    def go(st, it):
        def body(st, x):
            v = eng.rd(st, p)
            if isinstance(v, Seq):
                if isinstance(x, Ref) and cx.d["args"] and cx.d["args"][0][0] == "adt" and cx.d["args"][0][2] and cx.d["args"][0][2][0][0] != "ref":
                    x = deref(eng, st, x)
                eng.wr(st, p, Seq(v.s + (("one", x),)))
            elif isinstance(v, MapV):
                if isinstance(x, Tup) and len(x.f) == 2 and "Map" in tstr(cx.d["args"][0]):
                    m2, _ = minsert(eng, st, v, x.f[0], x.f[1])
                else:
                    m2 = v if mget(eng, st, v, x) is not None else minsert(eng, st, v, x, UNIT)[0]
                eng.wr(st, p, m2)
            elif isinstance(v, (str, SStr)):
                y = deref(eng, st, x)
                eng.wr(st, p, cat(v, y.c if isinstance(y, Char) else string(eng, st, y)))
            else:
                raise Undecided("extend")
            return R(st, UNIT)
        return eng.consume(st, it, body)
    return bind(into_iter(eng, st, a[1]), go)


@model("Vec::len", "slice::len", "array::len", "VecDeque::len", "Bytes::len")
def m_len(eng, st, a, cx):
    return R(st, eng.length(st, deref(eng, st, a[0])))


@model("Vec::is_empty", "slice::is_empty", "VecDeque::is_empty", "Bytes::is_empty")
def m_isempty(eng, st, a, cx):
    n = Lin.of(eng.length(st, deref(eng, st, a[0])))
    return R(st, BV(("eq0", n)) if n.m else n.c == 0)


@model("Vec::capacity", "String::capacity")
def m_cap(eng, st, a, cx):
    raise Undecided("capacity")


@model("slice::first", "slice::last", "VecDeque::front", "VecDeque::back", "slice::first_mut", "slice::last_mut")
def m_first(eng, st, a, cx):
    p, v = seqof(eng, st, a[0])
    n = Lin.of(eng.length(st, v))
    i = 0 if "first" in cx.d["norm"] or "front" in cx.d["norm"] else -1
    res = []
    for s, b in eng.branch(st, eng.ge0(n - 1)):
        res.append((s, "v", some(Ref(p.c, p.p + (("i", i),))) if b else NONE))
    return res


@model("slice::get", "Vec::get", "VecDeque::get", "slice::get_mut", "str::get")
def m_get(eng, st, a, cx):
    if cx.d["norm"] == "str::get":
        x = cstr(eng, st, a[0])
        lo, hi = range_bounds(a[1])
        lo = byte_index(eng, x, lo)
        hi = len(x) if hi is None else byte_index(eng, x, hi)
        return R(st, NONE if lo is None or hi is None or hi < lo else some(x[lo:hi]))
    p, v = seqof(eng, st, a[0])
    i = a[1]
    if isinstance(v, View):
        raise Undecided("byte get")
    if isinstance(i, Adt):
        lo, hi = range_bounds(i)
        xs = concrete(v)
        hi = len(xs) if hi is None else hi
        if not (isinstance(lo, int) and isinstance(hi, int)):
            raise Undecided("slice get")
        if lo > hi or hi > len(xs):
            return R(st, NONE)
        return R(st, some(Ref(eng.temp(st, seq(xs[lo:hi])))))
    n = eng.length(st, v)
    res = []
    for s, b in eng.branch(st, eng.cmp_lt(i, n)):
        if b:
            res.extend(bind(eng.idx_ref(s, p, i), lambda s, r: R(s, some(r))))
        else:
            res.append((s, "v", NONE))
    return res


def range_bounds(r):
    """(lo, hi exclusive or None) of a Range* value"""
    n = r.n.split("::")[-1]
    if n == "Range":
        return r.f[0], r.f[1]
    if n == "RangeFrom":
        return r.f[0], None
    if n == "RangeTo":
        return 0, r.f[0]
    if n == "RangeFull":
        return 0, None
    if n == "RangeInclusive":
        return r.f[0], (Lin.of(r.f[1]) + 1).norm()
    if n == "RangeToInclusive":
        return 0, (Lin.of(r.f[0]) + 1).norm()
    raise Undecided("range %r" % (r,))


@model("Range::contains", "RangeInclusive::contains", "RangeFrom::contains", "RangeTo::contains", "RangeToInclusive::contains", "RangeBounds::contains")
def m_rcontains(eng, st, a, cx):
    r = deref(eng, st, a[0])
    x = unbox(eng, st, a[1])
    n = r.n.split("::")[-1]
    lo = None if n.startswith("RangeTo") else r.f[0]
    hi = r.f[0] if n.startswith("RangeTo") else None if n == "RangeFrom" else r.f[1]
    incl = n.endswith("Inclusive")
    if isinstance(x, Char) and is_name_char(x.c):
        ends = [c.c for c in (lo, hi) if c is not None]
        if len(ends) < 2 or any(not isinstance(c, str) or c.isalpha() or c == "_" or ord(c) > 127 for c in ends):
            raise Undecided("range of characters over a symbolic name")
        eng.note(cx.d["norm"], x, *ends)
        return R(st, False)
    lo, hi = unbox(eng, st, lo), unbox(eng, st, hi)
    if isinstance(x, (int, Lin)):
        res = []
        for s, b in eng.branch(st, eng.ge0(Lin.of(x) - Lin.of(lo))) if lo is not None else [(st, True)]:
            if b and hi is not None:
                res.extend((s2, "v", c) for s2, c in eng.branch(s, eng.ge0(Lin.of(hi) - Lin.of(x) - (0 if incl else 1))))
            else:
                res.append((s, "v", b))
        return res
    p = okey(eng, st, x)
    good = lo is None or okey(eng, st, lo) <= p
    if hi is not None:
        q = okey(eng, st, hi)
        good = good and (p <= q if incl else p < q)
    return R(st, good)


@model("RangeInclusive::new")
def m_rincl(eng, st, a, cx):
    return R(st, Adt("core::ops::range::RangeInclusive", 0, (a[0], a[1], False)))


@model("Index::index", "IndexMut::index_mut")
def m_index(eng, st, a, cx):
    p = place(eng, st, a[0])
    v = eng.rd(st, p)
    i = deref(eng, st, a[1])
    if isinstance(v, MapV):
        k = mget(eng, st, v, i)
        if k is None:
            return [(st, "panic", ("map index: key not found",) + cx.loc())]
        return R(st, Ref(p.c, p.p + (("mv", k),)))
    if isinstance(v, (str, SStr)):
        x = cstr(eng, st, v)
        lo, hi = range_bounds(i)
        lo2 = byte_index(eng, x, lo)
        hi2 = len(x) if hi is None else byte_index(eng, x, hi)
        if has_name(x):
            eng.note("str-index", x)
        if lo2 is None or hi2 is None:
            if any(is_name_char(c) for c in x) or not isinstance(lo, int) or not (hi is None or isinstance(hi, int)):
                raise Undecided("string index inside a name")
            return [(st, "panic", ("string index out of bounds",) + cx.loc())]
        if hi2 < lo2:
            return [(st, "panic", ("string index out of bounds",) + cx.loc())]
        return R(st, x[lo2:hi2])
    if isinstance(v, View):
        h = eng.hooks.get("view_index")
        if h:
            r = h(eng, st, v, i, cx)
            if r is not None:
                return r
        raise Undecided("byte index")
    if isinstance(i, Adt):
        lo, hi = range_bounds(i)
        xs = concrete(v)
        hi = len(xs) if hi is None else hi
        if lo > hi or hi > len(xs):
            return [(st, "panic", ("slice index out of bounds",) + cx.loc())]
        return R(st, Ref(eng.temp(st, seq(xs[lo:hi]))))
    n = eng.length(st, v)
    res = []
    for s, b in eng.branch(st, eng.cmp_lt(i, n)):
        if b:
            res.extend(eng.idx_ref(s, p, i))
        else:
            res.append((s, "panic", ("index out of bounds",) + cx.loc()))
    return res


@model("slice::join", "slice::concat", "Join::join", "Concat::concat")
def m_join(eng, st, a, cx):
    _, v = seqof(eng, st, a[0])
    xs = [unbox(eng, st, x) for x in concrete(v)]
    sep = string(eng, st, a[1]) if len(a) > 1 else ""
    if xs and isinstance(xs[0], Seq):
        return R(st, Seq(sum((x.s for x in xs), ())))
    out = ""
    for i, x in enumerate(xs):
        out = cat(out, sep) if i else out
        out = cat(out, string(eng, st, x))
    return R(st, out)


@model("slice::contains", "Vec::contains")
def m_scontains(eng, st, a, cx):
    _, v = seqof(eng, st, a[0])
    outs = R(st, False)
    for x in concrete(v):
        def f(st, acc, x=x):
            if acc is True:
                return R(st, True)
            return [(s, "v", b) for s, b in eng.branch(st, equal(eng, st, x, a[1]))]
        outs = bind(outs, f)
    return outs


@model("slice::starts_with", "slice::ends_with")
def m_sstarts(eng, st, a, cx):
    _, v = seqof(eng, st, a[0])
    _, w = seqof(eng, st, a[1])
    xs, ys = concrete(v), concrete(w)
    if len(ys) > len(xs):
        return R(st, False)
    xs = xs[:len(ys)] if "starts" in cx.d["norm"] else xs[len(xs) - len(ys):]
    return R(st, eq_all(eng, st, xs, ys))


def _sort(eng, st, a, cx):
    p, v = seqof(eng, st, a[0])
    xs = concrete(v)
    n = cx.d["norm"].split("::")[1]
    if n in ("sort", "sort_unstable"):
        eng.wr(st, p, seq(sorted(xs, key=lambda x: okey(eng, st, x))))
        return R(st, UNIT)
    if n in ("sort_by_key", "sort_unstable_by_key", "sort_by_cached_key"):
        ks = []
        for x in xs:
            o = call(eng, st, a[1], (Ref(eng.temp(st, x)),))
            if len(o) != 1 or o[0][1] != "v":
                raise Undecided("sort key")
            ks.append(okey(eng, o[0][0], o[0][2]))
        eng.wr(st, p, seq([x for _, x in sorted(zip(ks, xs), key=lambda t: t[0])]))
        return R(st, UNIT)
    import functools

    def cmp(x, y):
        o = call(eng, st, a[1], (Ref(eng.temp(st, x)), Ref(eng.temp(st, y))))
        if len(o) != 1 or o[0][1] != "v":
            raise Undecided("sort comparator")
        return o[0][2].v - 1
    eng.wr(st, p, seq(sorted(xs, key=functools.cmp_to_key(cmp))))
    return R(st, UNIT)


for _n in ("sort", "sort_unstable", "sort_by", "sort_by_key", "sort_unstable_by", "sort_unstable_by_key", "sort_by_cached_key"):
    M["slice::" + _n] = _sort


@model("Vec::dedup")
def m_dedup(eng, st, a, cx):
    p, v = seqof(eng, st, a[0])
    out = []
    for x in concrete(v):
        if out and equal(eng, st, out[-1], x) is True:
            continue
        out.append(x)
    eng.wr(st, p, seq(out))
    return R(st, UNIT)


@model("slice::reverse")
def m_reverse(eng, st, a, cx):
    p, v = seqof(eng, st, a[0])
    eng.wr(st, p, seq(concrete(v)[::-1]))
    return R(st, UNIT)


@model("Vec::retain")
def m_retain(eng, st, a, cx):
    p, v = seqof(eng, st, a[0])
    outs = R(st, ())
    for x in concrete(v):
        outs = bind(outs, lambda st, acc, x=x: bind(call(eng, st, a[1], (Ref(eng.temp(st, x)),)), lambda st, b: [(s, "v", acc + ((x,) if t else ())) for s, t in eng.branch(st, b)]))
    return bind(outs, lambda st, xs: (eng.wr(st, p, seq(xs)), R(st, UNIT))[1])


@model("slice::split_first", "slice::split_last")
def m_splitfirst(eng, st, a, cx):
    p, v = seqof(eng, st, a[0])
    xs = concrete(v)
    if not xs:
        return R(st, NONE)
    if "first" in cx.d["norm"]:
        return R(st, some(Tup((Ref(p.c, p.p + (("i", 0),)), Ref(eng.temp(st, seq(xs[1:])))))))
    return R(st, some(Tup((Ref(p.c, p.p + (("i", len(xs) - 1),)), Ref(eng.temp(st, seq(xs[:-1])))))))


@model("slice::split_at")
def m_sliceat(eng, st, a, cx):
    p, v = seqof(eng, st, a[0])
    xs = concrete(v)
    if a[1] > len(xs):
        return [(st, "panic", ("split_at out of bounds",) + cx.loc())]
    return R(st, Tup((Ref(eng.temp(st, seq(xs[:a[1]]))), Ref(eng.temp(st, seq(xs[a[1]:]))))))


@model("Vec::split_off")
def m_splitoff(eng, st, a, cx):
    p, v = seqof(eng, st, a[0])
    xs = concrete(v)
    if a[1] > len(xs):
        return [(st, "panic", ("split_off out of bounds",) + cx.loc())]
    eng.wr(st, p, seq(xs[:a[1]]))
    return R(st, seq(xs[a[1]:]))


@model("Vec::drain")
def m_drain(eng, st, a, cx):
    p, v = seqof(eng, st, a[0])
    xs = concrete(v)
    lo, hi = range_bounds(a[1])
    hi = len(xs) if hi is None else hi
    if lo > hi or hi > len(xs):
        return [(st, "panic", ("drain out of bounds",) + cx.loc())]
    eng.wr(st, p, seq(xs[:lo] + xs[hi:]))
    return R(st, lit_it(xs[lo:hi]))


@model("slice::windows", "slice::chunks")
def m_windows(eng, st, a, cx):
    p, v = seqof(eng, st, a[0])
    xs = concrete(v)
    n = a[1]
    if "windows" in cx.d["norm"]:
        ch = [xs[i:i + n] for i in range(len(xs) - n + 1)]
    else:
        ch = [xs[i:i + n] for i in range(0, len(xs), n)]
    return R(st, lit_it([Ref(eng.temp(st, seq(c))) for c in ch]))


@model("vec::from_elem")
def m_fromelem(eng, st, a, cx):
    if isinstance(a[1], int):
        return R(st, seq([a[0]] * a[1]))
    st.ev += (("alloc", "from_elem", a[1], cx.loc(), None),)
    if cx.d["args"] and cx.d["args"][0] == ("int", "u8"):
        return R(st, View(("filled", eng.fresh("z")), 0, Lin.of(a[1])))
    raise Undecided("vec![x; n]")


@model("Vec::resize", "Vec::resize_with")
def m_resize(eng, st, a, cx):
    st.ev += (("alloc", "resize", a[1], cx.loc(), None),)
    raise Undecided("Vec::resize")


@model("slice::iter", "slice::iter_mut", "Vec::iter", "VecDeque::iter", "array::iter")
def m_iter(eng, st, a, cx):
    v = a[0]
    if not isinstance(v, Ref):
        return into_iter(eng, st, v)
    p = place(eng, st, v)
    x = eng.rd(st, p)
    return R(st, ref_iter(eng, st, p, x))


def ref_iter(eng, st, p, x):
    if isinstance(x, View):
        return It(((("many", ("bytes", x.a, x.o, x.e), ("int", "u8")), ()),))
    if not isinstance(x, Seq):
        raise Undecided("iter over %r" % (x,))
    out = []
    allone = all(s[0] == "one" for s in x.s)
    for i, s in enumerate(x.s):
        if s[0] == "one":
            out.append((("one", Ref(p.c, p.p + (("i", i),)) if allone else Ref(eng.temp(st, s[1]))), ()))
        else:
            out.append((("many", s[1], ("ref", False, s[2])), ()))
    return It(out)


# ---------------------------------------------------------------- iterators
class PairsV(V):
    """pest Pairs: a tuple of tokens"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = tuple(t)

    def __eq__(self, o):
        return isinstance(o, PairsV) and self.t == o.t

    def __hash__(self):
        return hash(self.t)


def into_iter(eng, st, v):
    if isinstance(v, It):
        return R(st, v)
    if isinstance(v, Ref):
        x = eng.rd(st, v)
        p = v
        while isinstance(x, Ref):
            p = x
            x = eng.rd(st, x)
        if isinstance(x, It):
            return R(st, p)
        if isinstance(x, (Seq, View)):
            return R(st, ref_iter(eng, st, p, x))
        if isinstance(x, MapV):
            hash_iter(eng, st, x, None)
            out = []
            for i, (k, w) in enumerate(x.e):
                kr = kref(eng, st, p, i)
                out.append(kr if w is UNIT else Tup((kr, Ref(p.c, p.p + (("mv", i),)))))
            return R(st, lit_it(out))
        if isinstance(x, Adt) and x.n in (OPTION, RESULT) or isinstance(x, Sym) and x.ty[0] == "adt" and x.ty[1] in (OPTION, RESULT):
            n = x.n if isinstance(x, Adt) else x.ty[1]
            good = 1 if n == OPTION else 0
            return [(s, "v", lit_it([Ref(p.c, p.p + (("f", good, 0),))] if vi == good else [])) for s, vi in eng.split(st, x)]
        if isinstance(x, PairsV):
            return R(st, p)
        if isinstance(x, Adt) and x.n == BOX:
            return into_iter(eng, st, Ref(p.c, p.p + (("f", 0, 0),)))
        if isinstance(x, Adt):
            return R(st, p)
        raise Undecided("into_iter of %r" % (x,))
    if isinstance(v, Seq):
        return R(st, It(tuple((s, ()) for s in v.s)))
    if isinstance(v, View):
        return R(st, It(((("many", ("bytes", v.a, v.o, v.e), ("int", "u8")), ()),)))
    if isinstance(v, MapV):
        hash_iter(eng, st, v, None)
        return R(st, lit_it([k if w is UNIT else Tup((k, w)) for k, w in v.e]))
    if isinstance(v, Adt):
        n = v.n.split("::")[-1]
        if v.n in (OPTION, RESULT):
            good = 1 if v.n == OPTION else 0
            return R(st, lit_it([v.f[0]] if v.v == good else []))
        if n in ("Range", "RangeInclusive"):
            lo, hi = range_bounds(v)
            if isinstance(lo, Char):
                raise Undecided("char range")
            l, h = Lin.of(lo), Lin.of(hi)
            if not l.m and not h.m:
                if h.c - l.c > 5000:
                    return R(st, It(((("many", ("range", l.c, h.c), ("int", "usize")), ()),)))
                return R(st, lit_it(list(range(l.c, max(l.c, h.c)))))
            # symbolic bounds: empty when hi <= lo
            res = []
            for s, b in eng.branch(st, eng.ge0(h - l)):
                res.append((s, "v", It(((("many", ("range", l, h), ("int", "usize")), ()),) if b else ())))
            return res
        if v.n == BOX:
            return into_iter(eng, st, v.f[0])
        return R(st, v)
    if isinstance(v, Sym) and v.ty[0] == "adt" and v.ty[1] in (OPTION, RESULT):
        good = 1 if v.ty[1] == OPTION else 0
        return [(s, "v", lit_it([eng.fields(s, v, good)[0]] if vi == good else [])) for s, vi in eng.split(st, v)]
    if isinstance(v, PairsV):
        return R(st, lit_it([Adt("pest::Pair", 0, (t,)) for t in v.t]))
    raise Undecided("into_iter of %r" % (v,))


@model("IntoIterator::into_iter")
def m_into_iter(eng, st, a, cx):
    return into_iter(eng, st, a[0])


def as_it(eng, st, v):
    """(It, cell ref or None) for an iterator receiver"""
    r = None
    while isinstance(v, Ref):
        r = v
        v = eng.rd(st, v)
    if isinstance(v, PairsV):
        v = lit_it([Adt("pest::Pair", 0, (t,)) for t in v.t])
    if isinstance(v, It):
        return v, r
    if isinstance(v, Adt) and v.n.split("::")[-1] in ("Range", "RangeInclusive", "RangeFrom"):
        o = into_iter(eng, st, v)
        if len(o) == 1 and isinstance(o[0][2], It):
            return o[0][2], r
    raise Undecided("iterator %r" % (v,))


def stage(kind):
    def f(eng, st, a, cx):
        it, r = as_it(eng, st, a[0])
        sg = (kind,) + tuple(a[1:2] if kind != "flat" else ())
        if kind == "enum":
            sg = ("enum", eng.temp(st, 0))
        if kind == "flat":
            sg = ("flat", a[1] if len(a) > 1 else None)
        return R(st, It(tuple((s, g + (sg,)) for s, g in it.s)))
    return f


for _n, _k in (("map", "map"), ("filter", "filter"), ("filter_map", "filter_map"), ("cloned", "cloned"), ("copied", "copied"), ("enumerate", "enum"),
               ("take_while", "take_while"), ("inspect", "inspect"), ("flat_map", "flat"), ("flatten", "flat"), ("map_while", "map_while")):
    M["Iterator::" + _n] = stage(_k)


@model("Iterator::by_ref", "Iterator::fuse", "Iterator::peekable", "Iterator::into_iter")
def m_byref(eng, st, a, cx):
    return R(st, a[0])


def pure_len(it):
    return all(s[0] == "one" and all(g[0] in ("map", "cloned", "copied", "enum", "inspect") for g in gs) for s, gs in it.s)


def force(eng, st, it):
    """all elements of a concrete iterator: outcomes with python tuples"""
    c = eng.temp(st, ())

    def body(st, x):
        st.heap[c] = st.heap[c] + (x,)
        return R(st, UNIT)
    if any(s[0] != "one" for s, _ in it.s) and eng.hooks.get("unroll_k") is None:
        raise Undecided("forcing a symbolic iterator")
    return [(s, "v" if k == "stop" else k, s.heap[c] if k in ("v", "stop") else v) for s, k, v in eng.consume(st, it, body)]


@model("Iterator::skip")
def m_skip(eng, st, a, cx):
    it, r = as_it(eng, st, a[0])
    n = deref(eng, st, a[1])
    if not isinstance(n, int):
        raise Undecided("symbolic skip")
    if not any(g[0] not in ("map", "cloned", "copied") for _, gs in it.s for g in gs):
        segs = list(it.s)
        while n and segs:
            s, g = segs[0]
            if s[0] == "one":
                segs.pop(0)
                n -= 1
            else:
                if len(segs) > 1:
                    raise Undecided("skip")
                L = eng.manylen(s[1])
                res = []
                for st2, b in eng.branch(st, eng.ge0(Lin.of(L) - n)):
                    res.append((st2, "v", It(((("many", ("skip", s[1], n), s[2]), g),)) if b else It(())))
                return res
        return R(st, It(segs))
    return bind(force(eng, st, it), lambda st, xs: R(st, lit_it(xs[n:])))


@model("Iterator::take")
def m_ittake(eng, st, a, cx):
    it, r = as_it(eng, st, a[0])
    n = deref(eng, st, a[1])
    if not isinstance(n, int):
        if len(it.s) == 1 and it.s[0][0][0] == "many" and isinstance(it.s[0][0][1], tuple) and it.s[0][0][1][0] == "range" and eng.hooks.get("unroll_k") is not None:
            (kind, (rg, lo, hi), ety), stages = it.s[0]
            if hi is None:
                return R(st, It(((("many", ("range", lo, (Lin.of(lo) + Lin.of(n)).norm()), ety), stages),)))
            res = []
            for s, b in eng.branch(st, eng.ge0(Lin.of(hi) - Lin.of(lo) - Lin.of(n))):
                res.append((s, "v", It(((("many", ("range", lo, (Lin.of(lo) + Lin.of(n)).norm() if b else hi), ety), stages),))))
            return res
        raise Undecided("symbolic take")
    if pure_len(it):
        res = It(it.s[:n])
        if r is not None:
            eng.wr(st, r, It(it.s[n:]))
        return R(st, res)
    return bind(force(eng, st, it), lambda st, xs: R(st, lit_it(xs[:n])))


@model("Iterator::step_by")
def m_stepby(eng, st, a, cx):
    it, r = as_it(eng, st, a[0])
    return bind(force(eng, st, it), lambda st, xs: R(st, lit_it(xs[::a[1]])))


@model("Iterator::rev", "Pairs::rev")
def m_rev(eng, st, a, cx):
    it, r = as_it(eng, st, a[0])
    if pure_len(it) and not any(g[0] == "enum" for _, gs in it.s for g in gs):
        return R(st, It(it.s[::-1]))
    return bind(force(eng, st, it), lambda st, xs: R(st, lit_it(xs[::-1])))


@model("DoubleEndedIterator::next_back")
def m_nextback(eng, st, a, cx):
    it, r = as_it(eng, st, a[0])

    def f(st, xs):
        if not xs:
            return R(st, NONE)
        eng.wr(st, r, lit_it(xs[:-1]))
        return R(st, some(xs[-1]))
    return bind(force(eng, st, it), f)


@model("Iterator::chain")
def m_chain(eng, st, a, cx):
    it, r = as_it(eng, st, a[0])

    def f(st, v):
        it2, _ = as_it(eng, st, v)
        return R(st, It(it.s + it2.s))
    return bind(into_iter(eng, st, a[1]), f)


@model("Iterator::zip", "iter::zip")
def m_zip(eng, st, a, cx):
    def g(st, v0):
        it, r = as_it(eng, st, v0)

        def f(st, v):
            it2, _ = as_it(eng, st, v)
            # unbounded ranges
            return bind(force(eng, st, it), lambda st, xs: bind(force(eng, st, it2), lambda st, ys: R(st, lit_it([Tup(t) for t in zip(xs, ys)]))))
        v = a[1]
        if isinstance(v, Adt) and v.n.endswith("RangeFrom"):
            return bind(force(eng, st, it), lambda st, xs: R(st, lit_it([Tup((v.f[0] + i, x)) if False else Tup((x, v.f[0] + i)) for i, x in enumerate(xs)])))
        return bind(into_iter(eng, st, v), f)
    v = a[0]
    if isinstance(v, Adt) and v.n.endswith("RangeFrom"):
        def h(st, w):
            it2, _ = as_it(eng, st, w)
            return bind(force(eng, st, it2), lambda st, xs: R(st, lit_it([Tup((v.f[0] + i, x)) for i, x in enumerate(xs)])))
        return bind(into_iter(eng, st, a[1]), h)
    return bind(into_iter(eng, st, v), g)


@model("Iterator::next", "Pairs::next", "Peekable::next")
def m_next(eng, st, a, cx):
    it, r = as_it(eng, st, a[0])
    if r is None:
        raise Undecided("next on temporary")
    return next_(eng, st, it, r)


def next_(eng, st, it, r):
    segs = list(it.s)
    if not segs:
        eng.wr(st, r, It(()))
        return R(st, NONE)
    seg, stages = segs[0]
    if seg[0] != "one":
        h = eng.hooks.get("next_many")
        if h:
            x = h(eng, st, it, r)
            if x is not None:
                return x
        if eng.hooks.get("unroll_k") is not None and r is not None:
            _, lst, ety = seg
            ln = Lin.of(eng.manylen(lst))
            base, k = (lst[1], lst[2]) if isinstance(lst, tuple) and lst[0] == "skip" else (lst, 0)
            res = []
            for s, b in eng.branch(st, eng.ge0(ln - 1)):
                if b:
                    if k > eng.hooks["unroll_k"] + 3 and ln.m:
                        res.append((s, "cut", k))
                        continue
                    x = eng.elem_at(s, lst, 0, ety)
                    it2 = It([(("one", x), stages), (("many", ("skip", base, k + 1), ety), stages)] + segs[1:])
                else:
                    it2 = It(segs[1:])
                eng.wr(s, r, it2)
                res.extend(next_(eng, s, it2, r))
            return res
        raise Undecided("next on symbolic iterator")
    if any(g[0] == "flat" for g in stages):
        def ff(st, xs):
            eng.wr(st, r, lit_it(xs))
            return next_(eng, st, eng.rd(st, r), r)
        return bind(force(eng, st, it), ff)
    c = eng.temp(st, None)

    def body(st, x):
        st.heap[c] = (x,)
        return [(st, "got", UNIT)]
    rest = It(segs[1:])
    res = []
    for s, k, v in eng.staged(st, seg[1], stages, 0, body):
        if k == "got":
            eng.wr(s, r, rest)
            res.append((s, "v", some(s.heap[c][0])))
        elif k == "stop":
            eng.wr(s, r, It(()))
            res.append((s, "v", NONE))
        elif k == "v":
            eng.wr(s, r, rest)
            res.extend(next_(eng, s, rest, r))
        else:
            res.append((s, k, v))
    return res


@model("Peekable::peek", "Pairs::peek")
def m_peek(eng, st, a, cx):
    it, r = as_it(eng, st, a[0])

    def f(st, xs):
        eng.wr(st, r, lit_it(xs))
        if cx.d["norm"].startswith("Pairs"):
            return R(st, some(xs[0]) if xs else NONE)
        return R(st, some(Ref(eng.temp(st, xs[0]))) if xs else NONE)
    return bind(force(eng, st, it), f)


@model("Peekable::next_if")
def m_nextif(eng, st, a, cx):
    it, r = as_it(eng, st, a[0])

    def f(st, xs):
        eng.wr(st, r, lit_it(xs))
        if not xs:
            return R(st, NONE)
        res = []
        for s, k, b in call(eng, st, a[1], (Ref(eng.temp(st, xs[0])),)):
            if k != "v":
                res.append((s, k, b))
                continue
            for s2, t in eng.branch(s, b):
                if t:
                    eng.wr(s2, r, lit_it(xs[1:]))
                res.append((s2, "v", some(xs[0]) if t else NONE))
        return res
    return bind(force(eng, st, it), f)


@model("Iterator::nth")
def m_nth(eng, st, a, cx):
    it, r = as_it(eng, st, a[0])

    def f(st, xs):
        n = a[1]
        if r is not None:
            eng.wr(st, r, lit_it(xs[n + 1:]))
        return R(st, some(xs[n]) if n < len(xs) else NONE)
    return bind(force(eng, st, it), f)


@model("Iterator::last")
def m_last(eng, st, a, cx):
    it, r = as_it(eng, st, a[0])
    return bind(force(eng, st, it), lambda st, xs: R(st, some(xs[-1]) if xs else NONE))


@model("Iterator::count", "ExactSizeIterator::len", "Pairs::len", "Pairs::count")
def m_count(eng, st, a, cx):
    it, r = as_it(eng, st, a[0])
    if len(it.s) == 1 and it.s[0][0][0] == "many" and all(g[0] in ("map", "cloned", "copied") for g in it.s[0][1]):
        return R(st, eng.manylen(it.s[0][0][1]))
    return bind(force(eng, st, it), lambda st, xs: R(st, len(xs)))


@model("Iterator::size_hint")
def m_sizehint(eng, st, a, cx):
    raise Undecided("size_hint")


def loop_with(eng, st, it, r, init, body, fin):
    """consume with an accumulator cell"""
    c = eng.temp(st, init)
    outs = eng.consume(st, it, lambda st, x: body(st, x, c), r)
    return [(s, "v", fin(s, s.heap[c])) if k in ("v", "stop") else (s, k, v) for s, k, v in outs]


@model("Iterator::for_each")
def m_foreach(eng, st, a, cx):
    it, r = as_it(eng, st, a[0])
    return [(s, "v", UNIT) if k in ("v", "stop") else (s, k, v) for s, k, v in eng.consume(st, it, lambda st, x: call(eng, st, a[1], (x,)), r)]


def _anyall(stop_on, final):
    def f(eng, st, a, cx):
        it, r = as_it(eng, st, a[0])
        acc = eng.temp(st, final)

        def body(st, x):
            res = []
            for s, k, v in call(eng, st, a[1], (x,)):
                if k != "v":
                    res.append((s, k, v))
                    continue
                for s2, b in eng.branch(s, v):
                    if b == stop_on:
                        s2.heap[acc] = not final
                        res.append((s2, "stop", UNIT))
                    else:
                        res.append((s2, "v", UNIT))
            return res
        return [(s, "v", s.heap[acc]) if k in ("v", "stop") else (s, k, v) for s, k, v in eng.consume(st, it, body, r if it_partial(it) else None)]
    return f


def it_partial(it):
    return False


M["Iterator::any"] = _anyall(True, False)
M["Iterator::all"] = _anyall(False, True)


@model("Iterator::find", "Iterator::find_map", "Iterator::position", "Iterator::rposition")
def m_find(eng, st, a, cx):
    it, r = as_it(eng, st, a[0])
    acc = eng.temp(st, NONE)
    idx = eng.temp(st, 0)
    n = cx.d["name"]

    def body(st, x):
        res = []
        arg = Ref(eng.temp(st, x)) if n == "find" else x
        for s, k, v in call(eng, st, a[1], (arg,)):
            if k != "v":
                res.append((s, k, v))
                continue
            if n == "find_map":
                for s2, vi, fs in parts(eng, s, v):
                    if vi == 1:
                        s2.heap[acc] = some(fs[0])
                        res.append((s2, "stop", UNIT))
                    else:
                        res.append((s2, "v", UNIT))
                continue
            for s2, b in eng.branch(s, v):
                if b:
                    s2.heap[acc] = some(x if n == "find" else s2.heap[idx])
                    res.append((s2, "stop", UNIT))
                else:
                    s2.heap[idx] = (Lin.of(s2.heap[idx]) + 1).norm()
                    res.append((s2, "v", UNIT))
        return res
    if n == "rposition":
        raise Undecided("rposition")
    return [(s, "v", s.heap[acc]) if k in ("v", "stop") else (s, k, v) for s, k, v in eng.consume(st, it, body)]


@model("Iterator::fold")
def m_fold(eng, st, a, cx):
    it, r = as_it(eng, st, a[0])

    def body(st, x, c):
        return bind(call(eng, st, a[2], (st.heap[c], x)), lambda st, v: (st.heap.__setitem__(c, v), R(st, UNIT))[1])
    return loop_with(eng, st, it, r, a[1], body, lambda s, v: v)


@model("Iterator::reduce")
def m_reduce(eng, st, a, cx):
    it, r = as_it(eng, st, a[0])

    def f(st, xs):
        if not xs:
            return R(st, NONE)
        outs = R(st, xs[0])
        for x in xs[1:]:
            outs = bind(outs, lambda st, acc, x=x: call(eng, st, a[1], (acc, x)))
        return bind(outs, lambda st, v: R(st, some(v)))
    return bind(force(eng, st, it), f)


@model("Iterator::try_for_each", "Iterator::try_fold")
def m_tryfold(eng, st, a, cx):
    it, r = as_it(eng, st, a[0])
    isf = cx.d["name"] == "try_fold"
    acc = eng.temp(st, a[1] if isf else UNIT)
    out = eng.temp(st, None)

    def body(st, x):
        args = (st.heap[acc], x) if isf else (x,)

        def g(st, v):
            res = []
            for s, vi, fs in parts(eng, st, v):
                n = v.n if isinstance(v, Adt) else v.ty[1]
                good = 1 if n == OPTION else 0
                if n == CF:
                    good = 0
                if vi == good:
                    s.heap[acc] = fs[0] if fs else UNIT
                    res.append((s, "v", UNIT))
                else:
                    s.heap[out] = Adt(n, vi, fs)
                    res.append((s, "stop", UNIT))
            return res
        return bind(call(eng, st, a[2] if isf else a[1], args), g)
    t = cx.ret(eng)
    n = t[1] if t and t[0] == "adt" else RESULT
    res = []
    for s, k, v in eng.consume(st, it, body):
        if k == "stop":
            res.append((s, "v", s.heap[out]))
        elif k == "v":
            res.append((s, "v", Adt(n, 1 if n == OPTION else 0, (s.heap[acc],))))
        else:
            res.append((s, k, v))
    return res


@model("Iterator::sum", "Iterator::product")
def m_sum(eng, st, a, cx):
    it, r = as_it(eng, st, a[0])
    t = cx.ret(eng)
    if t is None or t[0] != "int":
        raise Undecided("sum to %s" % (t,))
    op = "Add" if cx.d["name"] == "sum" else "Mul"

    def body(st, x, c):
        fr, e = cx.site
        return bind(eng.binop(fr, e, st, op, st.heap[c], deref(eng, st, x), t), lambda st, v: (st.heap.__setitem__(c, v), R(st, UNIT))[1])
    return loop_with(eng, st, it, r, 0 if op == "Add" else 1, body, lambda s, v: v)


@model("Iterator::min", "Iterator::max", "Iterator::min_by_key", "Iterator::max_by_key")
def m_itmin(eng, st, a, cx):
    it, r = as_it(eng, st, a[0])

    def f(st, xs):
        if not xs:
            return R(st, NONE)
        ks = []
        for x in xs:
            if "key" in cx.d["name"]:
                o = call(eng, st, a[1], (Ref(eng.temp(st, x)),))
                if len(o) != 1 or o[0][1] != "v":
                    raise Undecided("key")
                ks.append(okey(eng, o[0][0], o[0][2]))
            else:
                ks.append(okey(eng, st, x))
        best = 0
        for i in range(1, len(xs)):
            if "min" in cx.d["name"] and ks[i] < ks[best] or "max" in cx.d["name"] and ks[i] >= ks[best]:
                best = i
        return R(st, some(xs[best]))
    return bind(force(eng, st, it), f)


@model("Iterator::partition")
def m_partition(eng, st, a, cx):
    it, r = as_it(eng, st, a[0])

    def f(st, xs):
        outs = R(st, ((), ()))
        for x in xs:
            outs = bind(outs, lambda st, acc, x=x: bind(call(eng, st, a[1], (Ref(eng.temp(st, x)),)), lambda st, b: [(s, "v", (acc[0] + (x,), acc[1]) if t else (acc[0], acc[1] + (x,))) for s, t in eng.branch(st, b)]))
        return bind(outs, lambda st, p: R(st, Tup((seq(p[0]), seq(p[1])))))
    return bind(force(eng, st, it), f)


@model("Iterator::skip_while")
def m_skipwhile(eng, st, a, cx):
    it, r = as_it(eng, st, a[0])

    def f(st, xs):
        def go(st, i):
            if i == len(xs):
                return R(st, lit_it([]))
            return bind(call(eng, st, a[1], (Ref(eng.temp(st, xs[i])),)), lambda st, b: sum((go(s, i + 1) if t else R(s, lit_it(xs[i:])) for s, t in eng.branch(st, b)), []))
        return go(st, 0)
    return bind(force(eng, st, it), f)


@model("Iterator::unzip")
def m_unzip(eng, st, a, cx):
    it, r = as_it(eng, st, a[0])
    return bind(force(eng, st, it), lambda st, xs: R(st, Tup((seq([x.f[0] for x in xs]), seq([x.f[1] for x in xs])))))


@model("iter::once", "iter::empty", "iter::repeat", "iter::from_fn", "iter::successors", "iter::repeat_n", "iter::repeat_with")
def m_once(eng, st, a, cx):
    n = cx.d["norm"].split("::")[1]
    if n in ("repeat", "repeat_with") or n == "repeat_n" and not isinstance(a[1], int):
        x = a[0]
        f = (lambda e, s, v: call(e, s, x, ())) if n == "repeat_with" else (lambda e, s, v: R(s, x))
        return R(st, It(((("many", ("range", 0, Lin.of(a[1]) if n == "repeat_n" else Lin(2**63 - 1)), ("int", "usize")), (("map", f),)),)))
    if n == "once":
        return R(st, lit_it([a[0]]))
    if n == "empty":
        return R(st, It(()))
    if n == "repeat_n" and isinstance(a[1], int):
        return R(st, lit_it([a[0]] * a[1]))
    if n == "successors":
        def go(st, cur, acc):
            if len(acc) > 200:
                raise Undecided("successors")
            res = []
            for s, vi, fs in parts(eng, st, cur):
                if vi == 0:
                    res.append((s, "v", lit_it(acc)))
                else:
                    res.extend(bind(call(eng, s, a[1], (Ref(eng.temp(s, fs[0])),)), lambda s, nx, x=fs[0]: go(s, nx, acc + [x])))
            return res
        return go(st, a[0], [])
    raise Undecided("iter::" + n)


@model("Iterator::collect", "FromIterator::from_iter")
def m_collect(eng, st, a, cx):
    if cx.d["name"] == "from_iter":
        t = cx.d["args"][0]
        return bind(into_iter(eng, st, a[0]), lambda st, v: collect(eng, st, v, t, cx))
    return collect(eng, st, a[0], cx.ret(eng), cx)


def collect(eng, st, v, t, cx):
    it, r = as_it(eng, st, v)
    if t is None or t[0] != "adt":
        raise Undecided("collect into %s" % (t,))
    n = t[1]
    # bytes copied out of a buffer
    if n == "alloc::vec::Vec" and len(it.s) == 1 and it.s[0][0][0] == "many" and isinstance(it.s[0][0][1], tuple) and it.s[0][0][1][0] == "bytes" and all(g[0] in ("cloned", "copied") for g in it.s[0][1]):
        _, al, o, e = it.s[0][0][1]
        st.ev += (("alloc", "collect", Lin.of(e) - Lin.of(o), cx.loc()),)
        return R(st, View(("copy", al, o, e), 0, Lin.of(e) - Lin.of(o)))
    if n == RESULT or n == OPTION:
        inner = t[2][0]
        bad = eng.temp(st, None)
        acc = eng.temp(st, ())
        good = 1 if n == OPTION else 0

        def body(st, x):
            res = []
            for s, vi, fs in parts(eng, st, x):
                if vi == good:
                    s.heap[acc] = s.heap[acc] + (fs[0],)
                    res.append((s, "v", UNIT))
                else:
                    s.heap[bad] = Adt(n, vi, fs)
                    res.append((s, "stop", UNIT))
            return res
        if any(s[0] != "one" for s, _ in it.s) and eng.hooks.get("unroll_k") is None:
            raise Undecided("collect of symbolic results")
        res = []
        for s, k, v2 in eng.consume(st, it, body):
            if k == "stop" and s.heap[bad] is not None:
                res.append((s, "v", s.heap[bad]))
            elif k in ("v", "stop"):
                res.extend(bind(collect(eng, s, lit_it(s.heap[acc]), inner, cx), lambda s, w: R(s, Adt(n, good, (w,)))))
            else:
                res.append((s, k, v2))
        return res
    if n in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque", BOX, "alloc::rc::Rc", "alloc::sync::Arc"):
        def body(st, x, c):
            st.heap[c] = Seq(st.heap[c].s + (("one", x),))
            return R(st, UNIT)
        return loop_with(eng, st, it, r, Seq(()), body, lambda s, w: w)
    if n == "alloc::string::String":
        def body(st, x, c):
            y = deref(eng, st, x)
            st.heap[c] = cat(st.heap[c], (y.c if isinstance(y.c, str) else SStr((y.c,))) if isinstance(y, Char) else string(eng, st, y))
            return R(st, UNIT)
        return loop_with(eng, st, it, r, "", body, lambda s, w: w)
    if n in MAPS:
        isset = n.endswith("Set")

        def body(st, x, c):
            m = st.heap[c]
            if isset:
                if mget(eng, st, m, x) is None:
                    st.heap[c] = minsert(eng, st, m, x, UNIT)[0]
            else:
                st.heap[c] = minsert(eng, st, m, x.f[0], x.f[1])[0]
            return R(st, UNIT)
        return loop_with(eng, st, it, r, MapV(MAPS[n], ()), body, lambda s, w: w)
    raise Undecided("collect into %s" % tstr(t))


# ---------------------------------------------------------------- cells
@model("Cell::new", "RefCell::new", "Mutex::new", "OnceCell::new")
def m_cellnew(eng, st, a, cx):
    return R(st, Adt("cell", 0, tuple(a)))


@model("Cell::get")
def m_cellget(eng, st, a, cx):
    return R(st, deref(eng, st, a[0]).f[0])


@model("Cell::set", "Cell::replace")
def m_cellset(eng, st, a, cx):
    p = place(eng, st, a[0])
    old = eng.rd(st, p).f[0]
    eng.wr(st, p, Adt("cell", 0, (a[1],)))
    return R(st, old if cx.d["norm"].endswith("replace") else UNIT)


@model("RefCell::borrow", "RefCell::borrow_mut")
def m_borrow(eng, st, a, cx):
    p = place(eng, st, a[0])
    return R(st, Ref(p.c, p.p + (("f", 0, 0),)))


@model("RefCell::into_inner", "Cell::into_inner")
def m_intoinner(eng, st, a, cx):
    return R(st, a[0].f[0])


# ---------------------------------------------------------------- pest
def tok(eng, st, v):
    v = deref(eng, st, v)
    return v.f[0]


@model("Pair::as_rule")
def m_as_rule(eng, st, a, cx):
    t = tok(eng, st, a[0])
    ty = cx.ret(eng)
    ad = eng.P.adts[ty[1]]
    for i, v in enumerate(ad["variants"]):
        if v["name"] == t.rule:
            return R(st, Adt(ty[1], i, ()))
    raise Undecided("rule %s" % t.rule)


@model("Pair::as_str", "Span::as_str")
def m_as_str(eng, st, a, cx):
    return R(st, tok(eng, st, a[0]).text())


@model("Pair::into_inner", "Pair::inner")
def m_into_inner(eng, st, a, cx):
    return R(st, PairsV(tok(eng, st, a[0]).children))


@model("Pairs::as_str")
def m_pairs_str(eng, st, a, cx):
    p = deref(eng, st, a[0])
    if isinstance(p, It):
        ts = [s[1].f[0] for s, _ in p.s]
    else:
        ts = p.t
    if not ts:
        return R(st, "")
    return R(st, ts[0].src[ts[0].start:ts[-1].end])


@model("Pairs::concat")
def m_pairs_concat(eng, st, a, cx):
    p = deref(eng, st, a[0])
    return R(st, "".join(t.text() for t in p.t))


@model("Pair::as_span")
def m_as_span(eng, st, a, cx):
    return R(st, Adt("pest::Span", 0, (tok(eng, st, a[0]),)))


@model("Pairs::single")
def m_single(eng, st, a, cx):
    return R(st, PairsV((tok(eng, st, a[0]),)))


@model("Pair::line_col", "Pair::get_input", "Span::start", "Span::end", "Span::start_pos", "Span::end_pos", "Span::lines")
def m_linecol(eng, st, a, cx):
    raise Undecided("source position inspected: " + cx.d["norm"])
