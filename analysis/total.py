"""C14: Ast::new and Generator::generate are total - Ok or Err on every text, Err on every text the
grammar rejects.  Both are interpreted on families of texts enumerated from the grammar, from
declaration shapes inside and outside the supported subset, and by token-level mutation."""
import hashlib
import re

import front
import models
import peg
import spec as S
import texts
from engine import Undecided, State, Adt, Tup, Seq, Ref, Clo, Fn
from front import FRes, fold, layouts, tokens
from gen import Lib, STR
from par import pmap

_ctx = {}
HUGE = 2**26


# ------------------------------------------------------------------ termination
class NoFreeze(Exception):
    pass


def freeze(eng, st, v, depth=40):
    """a value with every reference followed"""
    if depth == 0:
        raise NoFreeze()
    if isinstance(v, Ref):
        return ("r", freeze(eng, st, eng.rd(st, v), depth - 1))
    if isinstance(v, Adt):
        return (v.n, v.v) + tuple(freeze(eng, st, x, depth - 1) for x in v.f)
    if isinstance(v, Tup):
        return ("t",) + tuple(freeze(eng, st, x, depth - 1) for x in v.f)
    if isinstance(v, Seq):
        return ("s",) + tuple((s[0],) + tuple(freeze(eng, st, x, depth - 1) if isinstance(x, (Ref, Adt, Tup, Seq)) else x for x in s[1:]) for s in v.s)
    if isinstance(v, (str, int, bool)) or v is None:
        return v
    if isinstance(v, Clo):
        raise NoFreeze()
    return (type(v).__name__, repr(v))


def recursion(eng, b, args, sub, st, closure):
    """a call with the arguments of a call that is still running does not end"""
    act = eng.active
    key = None
    if len(act) > 60 and not closure and b.kind in ("Fn", "AssocFn"):
        try:
            key = (b.id, tuple(freeze(eng, st, a) for a in args), repr(sorted(sub.items(), key=repr)))
        except (NoFreeze, Undecided):
            key = None
        if key is not None and any(a[0] == key for a in act):
            return [(st, "panic", ("recursion does not end (a call repeats the arguments of a call that is still running)", b.file, None, b.id))]
    act.append((key, b))
    return None


def loop_state(eng, st, there):
    """the state a loop can see: every cell there was before it"""
    try:
        return tuple(freeze(eng, st, st.heap.get(c)) for c in there), len(st.facts), len(st.pc)
    except (NoFreeze, Undecided, TypeError):
        return None


def engine(lib, big):
    eng = lib.engine()
    eng.max_depth = 1000
    eng.active = []
    eng.hooks["recursion"] = recursion
    eng.hooks["loop_state"] = loop_state
    eng.hooks["unroll"] = 3000

    def h(eng, st, F):
        n = F["len"]
        if not isinstance(n, int):
            n = n.norm() if hasattr(n, "norm") else n
        if isinstance(n, int) and n >= HUGE:
            fns = [b.path for _, b in eng.active if b.kind in ("Fn", "AssocFn")]
            big.append((n, fns[-1] if fns else "?"))
    eng.hooks["fold"] = h
    return eng


def run(lib, src, what, big):
    eng = engine(lib, big)
    st = State()
    try:
        if what == "Ast::new":
            b = lib.find("ast::Ast::new")
            outs = eng.call_body(b.id, (src,), st, {})
        else:
            im = eng.find_impl("std::default::Default", ("adt", lib.P_id("Generator"), ()), "default")
            outs = eng.call_body(im[0], (), st)
            if len(outs) != 1 or outs[0][1] != "v":
                raise Undecided("Generator::default")
            st, g = outs[0][0], outs[0][2]
            b = lib.find("Generator::generate")
            outs = eng.call_body(b.id, (Ref(eng.temp(st, g)), src), st, {b.generics[0]: STR} if b.generics else {})
    except Undecided as u:
        outs = [(st, "undec", str(u))]
    except RecursionError:
        outs = [(st, "undec", "recursion limit of the analysis")]
    lib.absorb(eng)
    return lib.wrap(outs)


# ------------------------------------------------------------------ texts
DECL = {
    "K": "const K = 3;", "H": "const H = 0x10;", "HU": "const HU = 0Xff;", "BADHEX": "const BADHEX = 0xZZ;", "BARE0X": "const BARE0X = 0x;", "BIG": "const BIG = 4294967296;", "MAXU": "const MAXU = 4294967295;",
    "HUGE": "const HUGE = 99999999999999999999999;", "HBIG": "const HBIG = 0x1ffffffff;", "NAMED": "const NAMED = K;", "WORD": "const WORD = hello;", "SELFC": "const SELFC = SELFC;", "OCT": "const OCT = 010;", "Z": "const Z = 0;",
    "E": "enum E { EA = 1, EB = 2 };", "EB1": "enum B1 { EB1 = TRUE };", "S1": "struct S1 { int x; };", "SE": "struct SE { };", "U1": "union U1 switch (int v) { case 1: int x; default: void; };",
    "TO": "typedef opaque TO<>;", "TOM": "typedef opaque TOM<8>;", "TF": "typedef opaque TF[4];", "TS": "typedef string TS<>;", "TI": "typedef int TI;", "TA": "typedef int TA[2];", "TV": "typedef int TV<>;", "TT": "typedef TI TT;",
    "TE": "typedef E TE;", "TC": "typedef TC TC;", "TC1": "typedef TC2 TC1;", "TC2": "typedef TC1 TC2;", "TUNK": "typedef nowhere TUNK;", "TKO": "typedef TO TKO;", "TSA": "typedef S1 TSA<3>;", "SR": "struct SR { SR *next; int v; };",
    "SD": "struct SD { SD inner; };", "SO": "struct SO { opaque x<>; };", "UO": "union UO switch (E v) { case EA: opaque x<>; case EB: void; };", "TEU": "typedef bool TB;", "TB": "typedef bool TB;",
}
DECL["EA"] = DECL["EB"] = DECL["E"]


def closed(*parts):
    """a text with the declarations its words name"""
    t = "\n".join(parts)
    out, seen = [], set()

    def add(x):
        for w in re.findall(r"\w+", x):
            d = DECL.get(w)
            if d and d not in seen and d != x:
                seen.add(d)
                add(d)
                out.append(d)
    add(t)
    return "\n".join(out + [t]) + "\n"


PRIM = ["int", "unsigned int", "unsigned", "hyper", "unsigned hyper", "float", "double", "bool", "string", "opaque", "uint32_t", "uint64_t", "int32_t", "int64_t", "u32", "i64"]
NAMEDT = ["S1", "SE", "SO", "E", "U1", "UO", "TO", "TOM", "TF", "TS", "TI", "TA", "TV", "TT", "TE", "TB", "TC", "TC1", "TUNK", "TKO", "TSA", "SR", "nowhere", "K", "void", "struct", "quadruple", "unsigned\tfoo", "1", "9a", "_"]
SIZES = ["0", "1", "3", "007", "4294967295", "4294967296", "18446744073709551616", "100000000000000000000", "K", "H", "HU", "BADHEX", "BARE0X", "BIG", "HBIG", "HUGE", "NAMED", "WORD", "SELFC", "OCT", "Z", "EA", "S1", "TI", "nowhere", "0x10", "0xZZ", "1_000",
         "TRUE", "300", "0x", "int", "max"]
CASES = ["1", "0", "2", "EA", "EB", "K", "H", "BADHEX", "TRUE", "FALSE", "nowhere", "4294967295", "4294967296", "99999999999999999999", "0x1", "007", "S1", "9a", "_", "default", "void", "true", "int"]
SWITCH = ["int", "unsigned int", "unsigned", "hyper", "unsigned hyper", "bool", "E", "TE", "TI", "TB", "TT", "S1", "U1", "TO", "TA", "TC", "TC1", "TUNK", "nowhere", "float", "string", "opaque", "double", "K", "uint32_t", "void"]
IDENTS = ["int", "unsigned", "hyper", "float", "double", "bool", "string", "opaque", "void", "struct", "union", "enum", "const", "typedef", "switch", "case", "default", "TRUE", "FALSE", "type", "self", "Self", "super", "crate", "_", "__", "_a", "a_", "9", "0",
          "9a", "0x1", "u32", "i32", "uint64_t", "Bytes", "Error", "Result", "Option", "Box", "Vec", "String", "T", "v", "d", "inner", "r", "x" * 300, "\u00e9", "a-b", "a.b", "Int", "intx", "int_", "opaque1", "strings", "EOF", "EOI", "SOI", "xdr", "Default", "a", "A"]


def contexts(decl, deep):
    """declarations with one data field `decl` (without ;)"""
    out = [("struct field", "struct zs { %s; };" % decl), ("union arm", "union zu switch (int v) { case 7: %s; };" % decl), ("default arm", "union zu switch (int v) { case 7: void; default: %s; };" % decl)]
    if "*" not in decl:
        out.append(("typedef", "typedef %s;" % decl))
    if deep:
        out += [("second field", "struct zs { int q; %s; opaque w<>; };" % decl), ("fallthrough arm", "union zu switch (int v) { case 6: case 7: %s; case 8: void; };" % decl), ("bool arm", "union zu switch (bool v) { case TRUE: %s; };" % decl),
                ("enum arm", "union zu switch (E v) { case EA: %s; };" % decl)]
    return out


def fields(deep):
    out = []
    for t in PRIM + NAMEDT:
        for star in ("", "*"):
            for br in (None, "<>", "[]"):
                sizes = [None] if br is None else SIZES + ([""] if br == "<>" else [])
                if br is not None and not deep:
                    k = int(hashlib.md5((t + star + br).encode()).hexdigest(), 16)
                    common = ["3", "K", "nowhere", "BADHEX", "4294967295"]
                    sizes = [common[k % 5]] + [SIZES[(k // 5 + j * 7) % len(SIZES)] for j in range(2)] + (["" if br == "<>" else "0"] if k % 2 else [])
                    if t in ("int", "opaque", "string", "S1", "TO"):
                        sizes = SIZES + ([""] if br == "<>" else [])
                for s in sizes:
                    d = "%s %szf%s" % (t, star, "" if br is None else br[0] + s + br[1])
                    cs = contexts(d, deep)
                    if not deep and br is not None:
                        k = int(hashlib.md5(d.encode()).hexdigest(), 16)
                        cs = [cs[k % len(cs)], cs[(k + 1) % len(cs)]]
                    for c, x in cs:
                        out.append(("data field: %s" % c, closed(x)))
    return out


def enums(deep):
    out = []
    for v in SIZES + CASES + ["-1", "-0", "+1", "2147483648", "0xffffffff", "0x80000000", "0x100000000", "1 2", "", "'a'", "\"s\"", "1.5"]:
        out.append(("enum value", closed("enum ze { A = %s };" % v)))
        out.append(("enum value", closed("enum ze { A = 1, B = %s, C = 3 };" % v)))
        if deep:
            out.append(("enum value, switched on", closed("enum ze { A = %s, B = 2 };" % v, "union zu switch (ze v) { case A: int x; case B: void; };")))
            out.append(("enum value as a size", closed("enum ze { A = %s };" % v, "struct zs { int x[A]; opaque y<A>; string z<A>; int w<A>; };")))
    for b in ["", "A = 1,", "A = 1 B = 2", ", A = 1", "A = 1,, B = 2", "A = 1, A = 2", "A", "A, B", "A = 1, B", "A = 1; B = 2;", "= 1", "A == 1", "A = 1, B = 1", "ze = 1", "A = B, B = A", "A = A", "A = 1, B = 2 C = 3", "A = 1 B = 2, C = 3", "A : 1", "A = 1, B = 2,"]:
        out.append(("enum body", closed("enum ze { %s };" % b)))
    for i in IDENTS:
        out.append(("enum identifiers", closed("enum %s { A = 1 };" % i)))
        out.append(("enum identifiers", closed("enum ze { %s = 1, B = 2 };" % i)))
        if deep:
            out.append(("enum identifiers", closed("enum ze { %s = 1, B = 2 };" % i, "union zu switch (ze v) { case %s: int x; case B: void; };" % i)))
            out.append(("enum identifiers", closed("enum %s { A = 1, B = 2 };" % i, "union zu switch (%s v) { case A: int x; case B: void; };" % i)))
    return out


def consts(deep):
    out = []
    for v in SIZES + CASES + ["-1", "+1", "", "1 2", "'a'", "\"s\"", "1.5", "0X1F", "0b1", "1u", "1L"]:
        out.append(("const value", closed("const zc = %s;" % v)))
        for use in ("struct zs { int a[zc]; };", "struct zs { opaque a<zc>; };", "typedef string zt<zc>;", "union zu switch (int v) { case zc: int a; default: void; };", "typedef opaque zt[zc];", "struct zs { int a<zc>; };") if deep else ("struct zs { int a[zc]; opaque b<zc>; };",):
            out.append(("const value, used", closed("const zc = %s;" % v, use)))
    for i in IDENTS:
        out.append(("const identifiers", closed("const %s = 1;" % i)))
        out.append(("const identifiers", closed("const %s = 1;" % i, "struct zs { int a[%s]; opaque b<%s>; };" % (i, i))))
        if deep:
            out.append(("const identifiers", closed("const %s = 1;" % i, "union zu switch (int v) { case %s: int a; };" % i)))
    dup = ["const zn = 1;", "enum zn { zm = 1 };", "enum ze { zn = 1 };", "struct zn { int a; };", "union zn switch (int v) { case 1: int a; };", "typedef int zn;", "typedef opaque zn<>;", "struct zq { zn a; };", "typedef zn zr;", "struct zn { zn *a; };"]
    for a in dup:
        for b in dup:
            out.append(("duplicate names", closed(a, b)))
    return out


def unions(deep):
    out = []
    arms = ["", "case 1: int a;", "case 1: void;", "case 1:", "default: void;", "default: int a;", "default: opaque a<>;", "default:", "case 1: case 2: int a;", "case 1: case 2:", "case 1: int a; case 2:", "case 1: int a; case 1: int b;", "case 1: int a; case 1: void;",
            "case 1: void; case 1: void;", "case 1: default: void;", "case 1: default: int a;", "default: case 1: void;", "default: void; default: void;", "default: void; default: int a;", "default: int a; default: void;", "default: int a; default: int b;",
            "default: void; case 1: int a;", "default: int a; case 1: void;", "case 1: int a; case 2: int a;", "case 1: S1 a; case 2: S1 a;", "case 1: int v;", "case 1: int zu;", "case 1: int a[2]; case 2: int b<>; case 3: int b<2>;", "case 1: int *a;", "case 1: string a; case 2: string b<>;",
            "case 1: opaque a;", "case 1: opaque a[3]; default: opaque b<>;", "case 1: string a[3];", "case 1 : int a ; default : void ;", "case 1: zu a;", "case 1: zu *a;", "case 1: void a;", "case 1: int;", "case : int a;", "case 1 int a;", "case 1: int a; int b;", "int a;", "void;",
            "case 1: struct { int a; } b;", "case 1: case 1: int a;", "case 1: case 2: case 3: void; default: int a;", "case 1: int a; case 2: void; case 3: void; case 4: opaque b<>; default: void;", "case EA: int a;", "case EA: int a; case 1: int b;", "case TRUE: int a; case FALSE: void;",
            "case TRUE: int a; case 1: int b;", "case K: int a;", "case K: int a; case 3: int b;", "case H: void;", "case nowhere: int a;", "case EA: void; case EB: void;", "case EA: int a; default: void;", "case 4294967295: int a;", "case 99999999999: int a;", "case 0x1: int a;", "case BADHEX: int a;"]
    for i, a in enumerate(arms):
        sws = SWITCH if deep else sorted({"int", "bool", "E", SWITCH[i % len(SWITCH)], SWITCH[(i * 5 + 3) % len(SWITCH)]})
        for s in sws:
            out.append(("union arms", closed("union zu switch (%s v) { %s };" % (s, a))))
    for s in SWITCH:
        for c in CASES if deep else CASES[::2]:
            out.append(("union labels", closed("union zu switch (%s v) { case %s: int a; };" % (s, c))))
            if deep:
                out.append(("union labels", closed("union zu switch (%s v) { case %s: void; default: opaque b<>; };" % (s, c))))
                out.append(("union labels", closed("union zu switch (%s v) { case %s: };" % (s, c))))
    for h in ["switch int v", "switch (int)", "switch ()", "switch (int v, int w)", "(int v)", "switch (int *v)", "switch (int v[2])", "switch (v int)", "switch (unsigned v)", "switch (int int)", "switch (int/* c */v)", "switch(int v)", "switch (int v )", "switch (unsigned\tint v)"]:
        out.append(("union head", closed("union zu %s { case 1: int a; default: void; };" % h)))
    for i in IDENTS:
        out.append(("union identifiers", closed("union %s switch (int v) { case 1: int a; };" % i)))
        out.append(("union identifiers", closed("union zu switch (int %s) { case 1: int a; default: void; };" % i)))
        out.append(("union identifiers", closed("union zu switch (int v) { case 1: int %s; default: %s b; };" % (i, i))))
        if deep:
            out.append(("union identifiers", closed("union zu switch (%s v) { case %s: int b; };" % (i, i))))
            out.append(("union identifiers", closed("union zu switch (E v) { case EA: %s b; case %s: void; };" % (i, i))))
    return out


def structs(deep):
    out = []
    for b in ["", ";", "int a; int a;", "int a", "int;", "a;", "int a, b;", "int a; ; int b;", "zs a;", "zs *a;", "zs a<>;", "zs a[2];", "int a[2][3];", "int *a; int *b;", "int **a;", "int * a;", "int* a;", "int *a[2];", "int *a<>;", "opaque a;", "opaque *a;", "string a;", "string *a<>;",
              "string a[4];", "opaque a[0];", "opaque a<0>;", "int a[0];", "int a<0>;", "void;", "void a;", "struct { int b; } a;", "struct S1 a;", "enum E a;", "union U1 a;", "enum { A = 1 } a;", "int a = 1;", "unsigned a; unsigned int b; unsigned hyper c;", "int a;;", "{ int a; }", "int a[];",
              "int a<;", "int a>;", "int a<>>;", "int a[<3>];", "int a[K];", "opaque a[K]; opaque b<K>; string c<K>;", "TO a; TF b; TS c; TOM d;", "TO a<>; TF b<>;", "TO a[2]; TS b[2];", "S1 *a; TO *b; E *c; U1 *d;", "TA a; TV b; TA c[2]; TV d<2>;"]:
        out.append(("struct body", closed("struct zs { %s };" % b)))
    for i in IDENTS:
        out.append(("struct identifiers", closed("struct %s { int a; };" % i)))
        out.append(("struct identifiers", closed("struct zs { int %s; };" % i)))
        out.append(("struct identifiers", closed("struct zs { %s a; opaque b<>; };" % i)))
        if deep:
            out.append(("struct identifiers", closed("struct zs { %s *a; %s b<>; %s c[2]; };" % (i, i, i))))
            out.append(("struct identifiers", closed("struct %s { opaque %s<>; };" % (i, i), "typedef %s zt<>;" % i)))
    return out


def typedefs(deep):
    out = []
    for b in ["int zt", "int zt[3]", "int zt<>", "int zt<3>", "int *zt", "zt zt", "zt zt<>", "zt zt[2]", "zt zt<2>", "opaque zt", "opaque zt<>", "opaque zt[2]", "string zt", "string zt<>", "string zt<4>", "string zt[4]", "void zt", "int", "int int", "nowhere zt", "nowhere zt<>", "int zt; typedef int zt",
              "struct S1 zt", "enum E zt", "enum { A = 1 } zt", "S1 *zt", "int zt[2][2]", "unsigned zt", "unsigned int zt<K>", "bool zt", "float zt", "bool zt[2]", "int opaque", "opaque opaque", "string string<>", "int u32", "opaque u64<>", "S1 int", "S1 bool", "int TRUE"]:
        out.append(("typedef", closed("typedef %s;" % b)))
        out.append(("typedef, used", closed("typedef %s;" % b, "struct zs { zt a; zt b<>; zt c[2]; zt *d; };", "union zu switch (zt v) { case 1: zt a; default: zt b<2>; };")))
    for i in IDENTS:
        out.append(("typedef identifiers", closed("typedef int %s;" % i)))
        out.append(("typedef identifiers", closed("typedef opaque %s<>;" % i, "struct zs { %s a; };" % i)))
        out.append(("typedef identifiers", closed("typedef %s zt;" % i)))
        if deep:
            out.append(("typedef identifiers", closed("typedef %s %s;" % (i, i), "struct zs { %s a; };" % i)))
            out.append(("typedef identifiers", closed("typedef %s zt<%s>;" % (i, i), "union zu switch (zt v) { case 1: zt a; };")))
    # cycles and chains
    uses = ["", "struct zs { ta a; };", "struct zs { ta a<>; ta b[2]; ta *c; };", "union zu switch (ta v) { case 1: int a; default: void; };", "union zu switch (int v) { case 1: ta a; default: ta b; };", "typedef ta tz<>;", "typedef ta tz[2];"]
    decs = [["typedef ta ta;"], ["typedef tb ta;", "typedef ta tb;"], ["typedef tb ta<>;", "typedef ta tb;"], ["typedef tb ta<>;", "typedef ta tb<>;"], ["typedef tb ta[2];", "typedef ta tb[2];"], ["typedef tb ta;", "typedef tc tb;", "typedef ta tc;"], ["typedef tb ta;", "typedef tc tb<>;", "typedef ta tc[2];"],
            ["typedef tb ta;", "typedef tc tb;", "typedef tb tc;"], ["typedef tb ta;"], ["typedef tb ta;", "typedef nowhere tb<>;"], ["struct ta { tb x; };", "struct tb { ta x; };"], ["struct ta { ta x; };"], ["struct ta { ta x<>; opaque y<>; };"], ["struct ta { tb *x; };", "typedef ta tb;"],
            ["union ta switch (ta v) { case 1: int a; };"], ["union ta switch (int v) { case 1: ta a; };"], ["union ta switch (tb v) { case 1: int a; };", "typedef ta tb;"], ["union ta switch (tb v) { case 1: ta a; };", "union tb switch (ta v) { case 1: tb a; };"],
            ["enum ta { tb = ta };"], ["enum ta { tb = tc, tc = tb };"], ["const ta = tb;", "const tb = ta;"], ["const ta = ta;"], ["enum ta { ta = 1 };"], ["struct ta { int ta; };"], ["typedef opaque ta<tb>;", "const tb = ta;"], ["typedef int ta[ta];"], ["const ta = 3;", "typedef int tb[ta];", "typedef tb tc<ta>;"]]
    chain = lambda n, last: ["typedef t%s t%s;" % ("abcdefghijklmnop"[i + 1], "abcdefghijklmnop"[i]) for i in range(n)] + [last.replace("tX", "t" + "abcdefghijklmnop"[n])]
    for n in (2, 5, 12):
        for last in ("typedef int tX;", "typedef opaque tX<>;", "typedef string tX;", "enum tX { A = 1 };", "struct tX { opaque a<>; };", "union tX switch (int v) { case 1: ta a; };", "typedef ta tX;", "typedef tb tX<>;", ""):
            decs.append(chain(n, last))
    for d in decs:
        for u in uses if deep else uses[:4]:
            out.append(("cycles and chains", closed(*(d + [u] if u else d))))
            if deep:
                out.append(("cycles and chains", closed(*([u] + d[::-1]))))
    return out


FILES = ["", " ", "\n", "\t\r\n", "//", "// c", "// c\n", "/**/", "/* c */", "/*", "/* c", "/* /* */", "/* /* */ */", "/*/", "*/", "//\r", "\ufeff", "\ufeffconst K = 1;", "\0", "const K = 1;\0", "\u00e9", "const \u00e9 = 1;", "// \u00e9\n", "/* \u00e9\u4e2d\U0001f600 */const K = 1;",
         "const K = 1; // trailing", "const K = 1; /* trailing", "const K = 1; garbage", "garbage", ";", "{}", "};", "const K = 1", "const K = 1;;", "const", "struct", "union", "enum", "typedef", "const K", "const K =", "struct s", "struct s {", "struct s { int", "struct s { int a", "struct s { int a;",
         "struct s { int a; }", "union u switch (int v) { case", "union u switch (int v) { case 1", "union u switch (int v) { case 1:", "union u switch (int v) { case 1: int", "enum e { A", "enum e { A =", "enum e { A = 1", "enum e { A = 1,", "typedef int", "typedef int t<", "typedef int t<3",
         "typedef int t[", "program P { version V { void N(void) = 0; } = 1; } = 2;", "%#include <x>\nconst K = 1;", "#include <x>\n", "const K = 1;\f", "const K = 1;\v", "const\u00a0K = 1;", "const K = 1;\u2028", "constK=1;", "const K=1;struct s{int a;};", "structs { int a; };", "typedefint t;",
         "struct s{unsigned int a;unsigned hyper b;};", "struct s { unsigned/**/int a; };", "struct s { unsigned // c\n int a; };", "struct s { unsigned /* a */ /* b */ hyper a; };", "struct s { int/**/a; };", "const K = /* c */ 3 /* d */; struct s { opaque a<K /* e */>; int b[3/**/]; };",
         "const K = 3//c\n; struct s { opaque a< 3 >; int b[ 3 ]; };", "union u switch (int v) { case 1/**/: int a; case/**/2: void; };", "\r\nconst K = 1;\r\n", "const K = 1;\nconst K = 1;", "enum e { A = 1 // c\n, B = 2 };", "struct s { int a /* x */ [ /* y */ 2 /* z */ ] /* w */ ; };",
         "x" * 2000, "const K = 1;" * 60, "/" * 500, "/*" * 300, "struct s {" + " int a;" * 80 + " };"]

PAIRS = ["const K = 0xZZ;", "const K = 99999999999;", "enum E { A = B };", "enum E { A = 1, B = 1 };", "struct S { };", "struct S { S x; };", "struct S { nowhere x; };", "struct S { int a[K]; };", "struct S { string a[3]; };", "struct S { int *a; };", "struct S { opaque a[K]; T b; };", "typedef T T;",
         "typedef S T;", "typedef T S;", "typedef E T<>;", "typedef opaque T<K>;", "typedef string T;", "typedef U T[2];", "union U switch (E v) { case A: S a; default: void; };", "union U switch (T v) { case 1: T a; };", "union U switch (int v) { };", "union U switch (bool v) { case TRUE: int *a; default: opaque b[2]; };",
         "union U switch (int v) { case K: int a[K]; case A: void; };", "union U switch (nowhere v) { default: void; };", "union U switch (U v) { case 1: U a; };", "struct int { int a; };", "typedef int opaque;", "enum bool { FALSE = 0, TRUE = 1 };"]


def pairs(deep):
    out = []
    for i, a in enumerate(PAIRS):
        for j, b in enumerate(PAIRS):
            if i != j and (deep or (i * 7 + j) % 3 == 0):
                out.append(("pairs of odd declarations", a + "\n" + b + "\n"))
    return out


# ------------------------------------------------------------------ texts derived from the grammar
LEX = ["zz", "zy", "int", "unsigned int", "unsigned hyper", "hyper", "float ", "double ", "opaque ", "string ", "int ", "hyper ", "unsigned int ", "bool", "void", "default", "case", "0", "1", "12", "007", "0x1f", "0xZZ", "4294967296", "9a", "_", "TRUE", "type", "struct", "K", "E", "EA", "S1", "TO", "c", "", "*", "a b", "1.5", "-1", "'a'", "\"s\"", "0b1"]


class Derive:
    """texts covering every alternative, option and repetition count of the grammar"""

    def __init__(self, g, cap):
        self.g = g
        self.cap = cap
        self.memo = {}
        self.busy = set()

    def rule(self, n):
        if n in self.memo:
            return self.memo[n]
        if n not in self.g.rules:
            return {"SOI": [""], "EOI": [""], "NEWLINE": ["\n"], "ANY": ["x"], "ASCII_DIGIT": ["0", "7"], "ASCII_ALPHANUMERIC": ["a", "Z", "3"]}.get(n, ["a", "0"])
        if n in self.busy:
            return []
        self.busy.add(n)
        mod, e = self.g.rules[n]
        if mod in ("@", "$") or n.startswith("comment") or n in ("WHITESPACE", "COMMENT"):
            r = []
            for t in LEX:
                try:
                    m = peg.Matcher(self.g, t).rule(n, 0, "atomic", 0)
                except peg.GrammarError:
                    m = None
                if m is not None and m[0] == len(t):
                    r.append(t)
            r = r or self.ex(e)
        else:
            r = self.ex(e)
        self.busy.discard(n)
        self.memo[n] = r = self.trim(r)
        return r

    def trim(self, r, cap=None):
        r = list(dict.fromkeys(r))
        cap = cap or self.cap
        if len(r) > cap:
            # an even choice, the first ones always
            k = cap // 2
            step = (len(r) - k) / float(cap - k)
            r = r[:k] + [r[k + int(i * step)] for i in range(cap - k)]
        return r

    def ex(self, e):
        k = e[0]
        if k in ("lit", "insens"):
            return [e[1]]
        if k == "range":
            return [e[1], e[2]]
        if k == "ref":
            return self.rule(e[1])
        if k == "alt":
            xs = [self.ex(x) for x in e[1]]
            r = []
            for i in range(max(map(len, xs), default=0)):
                r += [x[i] for x in xs if i < len(x)]
            return self.trim(r, self.cap * 2)
        if k == "opt":
            return [""] + self.ex(e[1])
        if k == "rep":
            x = self.ex(e[1])
            r = [""] + x
            for i in range(len(x)):
                r.append(x[i] + " " + x[(i * 3 + 1) % len(x)])
                r.append(x[(i * 5 + 2) % len(x)] + " " + x[i] + " " + x[(i * 7 + 3) % len(x)])
            return r
        if k in ("not", "and"):
            return [""]
        if k == "seq":
            xs = [self.ex(x) for x in e[1]]
            if any(not x for x in xs):
                return []
            base = [x[0] if x[0] or len(x) == 1 else x[0] for x in xs]
            r = [base]
            for i, x in enumerate(xs):
                for y in x[1:]:
                    r.append(base[:i] + [y] + base[i + 1:])
            n = max(map(len, xs))
            for s in range(n if sum(len(x) > 1 for x in xs) > 1 else 0):
                r.append([x[(s * (2 * i + 1) + i) % len(x)] for i, x in enumerate(xs)])
            return self.trim([" ".join(y for y in x if y) for x in r], self.cap * 3)
        return []


def derived(g, deep):
    d = Derive(g, 160 if deep else 48)
    out = []
    for n, (mod, e) in g.rules.items():
        if mod in ("@", "_") or n.startswith(("comment", "ident")):
            continue
        for t in d.rule(n):
            out.append(("derived from rule %s" % n, closed(t)))
    return out


# ------------------------------------------------------------------ mutations
VOCAB = [";", ",", "{", "}", "(", ")", "<", ">", "[", "]", "*", ":", "=", "int", "opaque", "string", "unsigned", "void", "case", "default", "struct", "union", "enum", "const", "typedef", "switch", "0", "0xZZ", "4294967296", "@a@", "TRUE", "//", "/*", "bool"]
BASES = ["const @k@ = 3; struct @s@ { int @a@[@k@]; opaque @b@<@k@>; string @c@<>; @s@ *@d@; };",
         "enum @e@ { @m@ = 1, @n@ = 0x2 }; union @u@ switch (@e@ @v@) { case @m@: int @a@; case @n@: void; };",
         "union @u@ switch (int @v@) { case 1: case 2: opaque @a@<>; case 3: void; default: @t@ @b@; }; typedef unsigned hyper @t@<4>;",
         "typedef @t@ @w@; typedef opaque @t@[8]; struct @s@ { @w@ @a@; @t@ @b@<>; unsigned int @c@; };",
         "union @u@ switch (bool @v@) { case TRUE: @s@ @a@; case FALSE: void; }; struct @s@ { @u@ *@a@; double @b@; };",
         "enum @e@ { @m@ = 1 }; typedef @e@ @t@; union @u@ switch (@t@ @v@) { case @m@: string @a@<8>; default: void; };",
         "struct @s@ { unsigned hyper @a@; float @b@; bool @c@[2]; @s2@ @d@<3>; }; struct @s2@ { };"]


def mutations(deep):
    out = []
    for bi, b in enumerate(BASES):
        ts = tokens(b)
        ms = []
        for i in range(len(ts)):
            ms.append(ts[:i] + ts[i + 1:])
            ms.append(ts[:i] + [ts[i], ts[i]] + ts[i + 1:])
            if i + 1 < len(ts):
                ms.append(ts[:i] + [ts[i + 1], ts[i]] + ts[i + 2:])
            for j, w in enumerate(VOCAB):
                if deep or (i * 5 + j + bi) % 4 == 0:
                    ms.append(ts[:i] + [w] + ts[i + 1:])
                if deep or (i * 3 + j + bi) % 9 == 0:
                    ms.append(ts[:i] + [w] + ts[i:])
            for j in range(i + 2, len(ts)):
                if ts[i] != ts[j] and (deep or (i * 11 + j) % 13 == 0):
                    x = list(ts)
                    x[i], x[j] = x[j], x[i]
                    ms.append(x)
            if i % 2 == 0:
                ms.append(ts[:i])
        for m in ms:
            out.append(("token mutation of base %d" % bi, " ".join(m) + "\n"))
        # one identifier becomes another
        ids = sorted({t for t in ts if t.startswith("@")})
        for a in ids:
            for c in ids:
                if a != c:
                    out.append(("identifiers coincide in base %d" % bi, " ".join(c if t == a else t for t in ts) + "\n"))
        if deep:
            for a in ids:
                for w in IDENTS[:40]:
                    out.append(("identifier of base %d replaced" % bi, " ".join(w if t == a else t for t in ts) + "\n"))
    return out


def texts_of(lib, deep):
    out = [("whole files", t) for t in FILES]
    out += structs(deep) + unions(deep) + enums(deep) + consts(deep) + typedefs(deep) + fields(deep) + pairs(deep) + derived(lib.g, deep) + mutations(deep)
    seen, r = set(), []
    for k, t in out:
        if t not in seen:
            seen.add(t)
            r.append((k, t))
    # the shapes the other checks use, alone
    for f in S.catalogue(deep):
        r.append(("catalogue", ("frag", f)))
    return r


def dimensions(t):
    """lengths of the fixed arrays of a text"""
    c = dict(re.findall(r"\bconst\s+(\w+)\s*=\s*(\w+)\s*;", t))
    out = set()
    for w in re.findall(r"\[\s*(\w+)\s*\]", t):
        for x in (w, c.get(w), c.get(c.get(w))):
            try:
                out.add(int(x, 0 if str(x)[:2] in ("0x", "0X") else 10))
            except (TypeError, ValueError):
                pass
    return out


# ------------------------------------------------------------------ one batch of texts
def work(batch):
    lib = Lib.fresh(_ctx["lib"])
    res = FRes()
    for fam, t in batch:
        if isinstance(t, tuple):
            nm = S.Names(t[1].lits)
            src = nm.sub("\n".join(t[1].items()) + "\n")
        else:
            nm = S.Names()
            src = nm.sub(t)
        try:
            acc = peg.Matcher(lib.g, src, lambda *a: None).parse(_ctx["rule"]) is not None
        except peg.GrammarError as e:
            if "terminate" in str(e) or "empty match" in str(e):
                res.undec.append((fam, "grammar: %s" % e))
                continue
            res.undec.append((fam, str(e)))
            continue
        res.count("texts_accepted" if acc else "texts_rejected")
        for what in ("Ast::new", "Generator::generate"):
            big = []
            outs = run(lib, src, what, big)
            good = True
            for o in outs:
                if o.kind == "panic":
                    good = False
                    v = o.value
                    fn = lib.P.bodies[v[3]].path if len(v) > 3 and v[3] in lib.P.bodies else str(v[1:])
                    res.bad.append(("%s: %s: %s" % (what, fn, str(v[0])[:90]), "%s\ntext (%s): %s" % ("%s %s" % (v[1] if len(v) > 1 else "", v[2] if len(v) > 2 else ""), fam, nm.render(src)[:900])))
                elif o.kind == "exit":
                    good = False
                    res.bad.append(("%s ends the process" % what, "text (%s): %s" % (fam, nm.render(src)[:900])))
                elif o.kind == "undec":
                    good = False
                    res.undec.append(("%s: %s" % (fam, what), "%s; text %s" % (str(o.value)[:150], nm.render(src)[:120])))
                elif not acc and o.kind == "ok":
                    good = False
                    res.bad.append(("%s accepts a text the grammar rejects" % what, "text (%s): %r" % (fam, nm.render(src)[:900])))
            if not outs:
                good = False
                res.undec.append(("%s: %s" % (fam, what), "no outcome"))
            if big and any(o.kind == "ok" for o in outs):
                good = False
                dims = dimensions(nm.render(src))
                for n, fn in sorted(set(big)):
                    of = "the length of a fixed array" if n in dims else "a number in the text"
                    res.bad.append(("%s: work and memory proportional to %s" % (what, of), "%d iterations in %s\ntext (%s): %s" % (n, fn, fam, nm.render(src)[:600])))
            if good:
                res.ok += 1
            res.count("outcomes_%s" % "_".join(sorted({o.kind for o in outs})))
            if acc and len(res.samples) < 1 and what != "Ast::new":
                res.samples.append({"family": fam, "text": nm.render(src)[-160:], "outcome": [o.kind for o in outs]})
    res.absorb(lib)
    return res


def start_rule(lib):
    """the grammar rule Ast::new parses with"""
    seen = []

    def hook(eng, d, args, st, site):
        if d.get("name") == "parse" and d.get("trait") == "pest::Parser":
            r = models.deref(eng, st, args[0])
            seen.append(eng.P.adts[r.n]["variants"][r.v]["name"])
        return old(eng, d, args, st, site)
    l = Lib.fresh(lib)
    eng = l.engine()
    old = eng.hooks["call"]
    eng.hooks["call"] = hook
    st = State()
    try:
        eng.call_body(l.find("ast::Ast::new").id, ("const K = 1;",), st, {})
    except Undecided:
        pass
    return seen[0] if len(seen) == 1 else None


def check(ck, prop, tier):
    deep = tier == "thorough"
    ck.explain(*texts.front(prop))
    lib = Lib()
    _ctx["lib"] = lib
    r = _ctx["rule"] = start_rule(lib)
    if r is None:
        ck.undec("grammar", "the rule Ast::new parses with was not found")
        return
    T = texts_of(lib, deep)
    n = 24
    jobs = [T[i::max(1, len(T) // n)] for i in range(max(1, len(T) // n))]
    rs = pmap(work, jobs)
    fold(ck, [j[0][0] for j in jobs], rs)
    ck.floor("texts", len(T), 4000)
    ck.floor("texts the grammar accepts", sum(r.n.get("texts_accepted", 0) for k, r in rs if k == "ok") or len(T), 1200)
    ck.floor("bodies analysed", ck.info["bodies_analysed"], 1)
