"""C10: the runtime readers and size helpers of the emitted module."""
import frontend
import probes
import models  # noqa: F401
from bmodels import BYTES, u32_at
from engine import Undecided, Sym, Adt, Seq, Ref, View, SStr, OPTION, BOX, NONE, some, BV, Tup
from gen import Lib
from lin import Lin
from module import Mod
from oracle import DEEPER, Oracle, Spec, lenient

E = ("adt", "probe::$E", ())
READERS = {
    "read_u32": ("int", "u32"), "read_u64": ("int", "u64"), "read_i32": ("int", "i32"), "read_i64": ("int", "i64"),
    "read_f32": ("int", "f32"), "read_f64": ("int", "f64"), "read_bool": ("bool",),
}


def header_module(lib=None):
    lib = lib or Lib()
    outs = lib.generate("")
    if [o.kind for o in outs] != ["ok"] or not isinstance(outs[0].value, str):
        raise Undecided("generate(\"\") does not return one text: %r" % ([(o.kind, o.value) for o in outs][:2],))
    P, err = frontend.module_program("probe", "#![allow(warnings)]\n" + outs[0].value)
    return lib, outs[0].value, P, err


def describe(st, n=14):
    from lin import fmt_atom
    out = []
    for t, b in st.pc[-n:]:
        out.append(("" if b else "not ") + (repr(t[1]) + ("==0" if t[0] == "eq0" else ">=0") if t[0] in ("ge", "eq0") else fmt_atom(t)))
    return "; ".join(out)


def long_counts(P, K, most=10):
    """numbers of elements to follow an array for: around each literal of the program, and a few others"""
    mined = [x for x in probes.numbers(P) if K < x <= 5000]
    return sorted(set(mined[-most:] + mined[:most]) | {13, 33, 65, 257, 1025})


def check_paths(ck, key, m, eng, outs, oracle, cell):
    """compare every path of a reader with the oracle; outs: (st, kind, value)"""
    for st, k, v in outs:
        if k == "cut":
            continue
        if k == "panic":
            ck.violation("%s: panic: %s" % (key, v[0]), "%s can panic (%s)\npath: %s" % (key, v[0], describe(st)))
            continue
        if k != "v":
            ck.undec(key, "%s %s" % (k, v))
            continue
        try:
            n = 0
            for s, tag, x, off in oracle(st):
                if eng.infeas(s):
                    continue
                n += 1
                for s2, vi in eng.split(s, v):
                    got = eng.fields(s2, v, vi)[0]
                    if tag == "cut":
                        w = m.beyond(s2, x, off, vi, got)
                        if w:
                            ck.violation("%s: %s a long array" % (key, w[0]), "%s returns %s for %s\npath: %s" % (key, "Ok(%r)" % (got,) if vi == 0 else "Err(%r)" % (got,), w[1], describe(s2)))
                        continue
                    if (vi == 0) != (tag == "ok"):
                        ck.violation("%s: %s instead of %s" % (key, "accepts" if vi == 0 else "rejects", x[0] if tag == "err" else "accepting"),
                                     "%s returns %s where the contract requires %s\npath: %s" % (key, "Ok(%r)" % (got,) if vi == 0 else "Err(%r)" % (got,), "Err(%s)" % (x[0],) if tag == "err" else "Ok", describe(s2)))
                        continue
                    if tag == "err":
                        for s3, mm in m.cmp_err(s2, got, x):
                            if mm is None or lenient(eng, m, s3, got):
                                ck.holds()
                            else:
                                ck.violation("%s: wrong error" % key, "%s: %s\npath: %s" % (key, mm, describe(s3)))
                        continue
                    for s3, mm in m.cmp(s2, got, x):
                        if mm is not None:
                            ck.violation("%s: wrong value" % key, "%s: %s\npath: %s" % (key, mm, describe(s3)))
                            continue
                        cur = eng.rd(s3, Ref(cell)) if cell is not None else None
                        if cur is not None:
                            if not isinstance(cur, View) or cur.a != "in":
                                ck.violation("%s: buffer replaced" % key, "%s leaves the caller with %r" % (key, cur))
                                continue
                            if not (eng.entails_eq(s3, cur.o - off) and eng.entails_eq(s3, cur.e - Lin.atom(("e0",)))):
                                ck.violation("%s: wrong cursor" % key, "%s leaves the buffer at %r..%r instead of %r..e0\npath: %s" % (key, cur.o, cur.e, off, describe(s3)))
                                continue
                        ck.holds()
            if n == 0:
                continue
        except Undecided as u:
            ck.undec(key, u)


def run(ck, K):
    lib, src, P, err = header_module()
    if P is None:
        ck.violation("header does not compile", err[-1500:])
        return lib
    m = Mod(P, ["E"], K)
    m.decls = {"$E"}
    m.free_size = {"$E"}
    base = m.prefix
    elem = ("adt", base + "$E", ())
    spec = Spec({}, [])
    impl = None
    for im in P.impls:
        if (im.get("trait") or "").split("::")[-1] == "DeserialiserExt" and im["self"] == BYTES:
            impl = im
    if impl is None:
        ck.violation("reader trait", "no impl of DeserialiserExt for Bytes in the generated module")
        return lib
    defaults = {b.id.split("::")[-1]: b.id for b in P.bodies.values() if b.kind == "AssocFn" and b.path.startswith("xdr::DeserialiserExt::")}
    done = 0

    def body(name):
        return impl["items"].get(name) if isinstance(impl["items"].get(name), str) else defaults.get(name)

    def go(name, args, T, sub=None, key=None, long=None, room=None):
        nonlocal done
        m.long, m.room = long, room
        try:
            go1(name, args, T, sub, key)
        finally:
            m.long = m.room = None

    def go1(name, args, T, sub=None, key=None):
        nonlocal done
        key = key or name
        done += 1
        b = body(name)
        if b is None:
            ck.violation("%s missing" % name, "the reader trait has no %s" % name)
            return
        eng = m.engine()
        eng.hooks["loop_extra"] = 0      # element sizes have free residues
        st, view = m.start(eng)
        cell = eng.temp(st, view)
        a, pre = args(eng, st)
        s2 = {"Self": BYTES}
        if P.bodies[b].generics and sub:
            for g in P.bodies[b].generics:
                if g != "Self":
                    s2[g] = sub
        if m.long is not None:
            eng.add_eq(st, u32_at(eng, st, "in", Lin.atom(("o0",))) - m.long)
        outs = m.run(b, (Ref(cell),) + a, st, eng, s2)
        orc = Oracle(m, eng, spec, K + DEEPER if m.long is None else m.long + 2)
        o, e = Lin.atom(("o0",)), Lin.atom(("e0",))
        check_paths(ck, key, orc, eng, outs, lambda s: orc_decode(orc, s, T, o, e, pre), cell)
        ck.sample(reader=key, paths=len(outs), kinds={k: sum(1 for x in outs if x[1] == k) for k in {x[1] for x in outs}})

    def orc_decode(orc, s, T, o, e, pre):
        return orc.decode(s, T(pre) if callable(T) else T, "in", o, e)

    noargs = lambda eng, st: ((), None)
    for name, T in READERS.items():
        go(name, noargs, T)

    def arg_n(eng, st):
        eng.atom_rng[("n",)] = (0, 2**64 - 1)
        n = Lin.atom(("n",))
        return (n,), n
    go("read_bytes", arg_n, lambda n: ("opaquef", n))

    def with_max(eng, st):
        eng.atom_rng[("max",)] = (0, 2**64 - 1)
        mx = Lin.atom(("max",))
        return (some(mx),), mx

    def no_max(eng, st):
        return (NONE,), None
    for nm, f in (("max", with_max), ("no max", no_max)):
        go("read_variable_bytes", f, lambda mx: ("opaque", mx), key="read_variable_bytes(%s)" % nm)
        go("read_string", f, lambda mx: ("string", mx), key="read_string(%s)" % nm)
        go("read_variable_array", f, lambda mx: ("var", ("named", "$E"), mx), sub=elem, key="read_variable_array(%s)" % nm)
    ck.floor("readers", done, 14)
    # ---- many elements: numbers of them around the literals of the runtime
    counts = long_counts(P, K)
    for n in counts:
        for nm, f in (("no max", no_max), ("max %d" % n, lambda eng, st, n=n: ((some(n),), Lin(n))), ("max %d" % (n - 1), lambda eng, st, n=n: ((some(n - 1),), Lin(n - 1)))):
            go("read_variable_array", f, lambda mx: ("var", ("named", "$E"), mx), sub=elem, key="read_variable_array(%s) of %d elements" % (nm, n), long=n)
        total = 4 + m.many_size(4, n)
        for nm, room in (("exactly there", total), ("truncated by a word", total - 4), ("without the last", total - 12)):
            go("read_variable_array", no_max, lambda mx: ("var", ("named", "$E"), mx), sub=elem, key="read_variable_array of %d elements, %s" % (n, nm), long=n, room=room)
    ck.info["element_counts"] = counts

    # ---- blanket WireSize impls
    sizes = 0
    cases = []
    V = "alloc::vec::Vec"
    G = ("adt", "alloc::alloc::Global", ())
    for t, T in ((("int", "u32"), ("int", "u32")), (("int", "i32"), ("int", "i32")), (("float", "f32"), ("int", "f32")), (("bool",), ("bool",)),
                 (("int", "u64"), ("int", "u64")), (("int", "i64"), ("int", "i64")), (("float", "f64"), ("int", "f64"))):
        cases.append((t, T, {}))
    cases.append((("adt", V, (elem, G)), ("var", ("named", "$E"), None), {}))
    cases.append((("slice", elem), ("fix", ("named", "$E"), None), {}))
    cases.append((("adt", OPTION, (elem,)), ("opt", ("named", "$E")), {}))
    cases.append((("adt", BOX, (elem, G)), ("named", "$E"), {}))
    cases.append((("adt", "alloc::string::String", ()), ("string", None), {}))
    from thir import unify, tstr
    for n in counts:
        cases.append((("adt", V, (elem, G)), ("var", ("named", "$E"), None), n))
        cases.append((("slice", elem), ("fix", ("named", "$E"), None), n))
    for t, T, many in cases:
        key = "wire_size of " + tstr(t).replace(base, "") + (" of %d elements" % many if many else "")
        m.long = many or None
        im = None
        sizes += 1
        for x in P.impls:
            s = {}
            if (x.get("trait") or "").split("::")[-1] == "WireSize" and unify(x["self"], t, s):
                im = (x, s)
                break
        if im is None:
            ck.violation(key + " missing", "no WireSize impl for " + tstr(t))
            continue
        eng = m.engine()
        eng.hooks["loop_extra"] = 0
        eng.hooks["len_max"] = 2**32 - 1
        st, _v = m.start(eng)
        if many:
            v = Seq(tuple(("one", Sym(("long", i), elem)) for i in range(many)))
        elif t[0] == "slice":
            v = Seq((("many", ("v",), elem),))
        else:
            v = eng.mk(st, ("v",), t)
        b = im[0]["items"].get("wire_size")
        sub = dict(im[1])
        outs = m.run(b, (Ref(eng.temp(st, v)),), st, eng, sub)
        orc = Oracle(m, eng, spec, K + DEEPER if not many else many + 2)
        for s, k, got in outs:
            if k == "cut":
                continue
            if k == "panic":
                ck.violation(key + ": panic", "%s can panic: %s\npath: %s" % (key, got[0], describe(s)))
                continue
            if k != "v":
                ck.undec(key, "%s %s" % (k, got))
                continue
            orc.open = []
            try:
                x = v.f[0] if isinstance(v, Adt) and v.n == BOX else v
                if t[0] in ("slice",) or t[0] == "adt" and t[1] == V:
                    # foreign elements may have any size: the total is padded
                    want = []
                    for s2, z in orc.list_size(s, ("fix", ("named", "$E"), None), v):
                        for s3, p in orc.pad(s2, z):
                            want.append((s3, z + p + (0 if t[0] == "slice" else 4)))
                else:
                    want = orc.size(s, T, x)
                for s2 in orc.uncounted(got):
                    ck.violation(key + ": elements not counted", "%s is %r for a sequence of more than %d elements\npath: %s" % (key, got, orc.K, describe(s2)))
                for s2, z in want:
                    if isinstance(got, (int, Lin)) and eng.entails_eq(s2, Lin.of(got) - z):
                        ck.holds()
                    else:
                        ck.violation(key + ": wrong size", "%s is %r instead of %r\npath: %s" % (key, got, z, describe(s2)))
            except Undecided as u:
                ck.undec(key, u)
    m.long = None
    ck.floor("size impls", sizes, 12)
    ck.info["bodies_analysed"] = sorted(m.visited)
    ck.info["call_sites"] = len(m.sites)
    return lib


def check(ck, prop, tier):
    K = 3 if tier == "quick" else 6
    ck.explain("Abstract interpretation of the emitted runtime (type-checked THIR of the text Generator::generate returns): every path of each "
               "DeserialiserExt reader on a view with symbolic start and end, symbolic payload length n and symbolic maximum (any usize) is compared with the RFC 4506 oracle: "
               "value, error and cursor; every panic site reached is an obligation. Sequences are partitioned into lengths 0..%d exactly; longer ones are followed for %d elements. "
               "WireSize impls are compared with the RFC size of a symbolic value." % (K, K),
               ["bytes::Buf/Bytes and std models (analysis/bmodels.py, models.py) are trusted", "arrays longer than %d elements: elements beyond the bound are not followed" % K])
    try:
        run(ck, K)
    except Undecided as u:
        ck.undec("set-up", u)
