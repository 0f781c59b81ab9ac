"""Specifications aimed at what the analysed code compares: lengths around every number in it, names
around every literal it tests a name with, names of every style."""
import re

import naming
import spec as S
from spec import U32, I32, U64, OPQ, STRG, Enum, Struct, Union, Typedef

SIZES = (0, 11, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 8192, 32767, 32768, 65535, 65536, 65537, 100000, 999999,
         1000000, 16777216, 2147483647, 2147483648, 4294967294, 4294967295)
STYLES = (("snake_t", lambda n: n + "_t"), ("UPPER", lambda n: n.upper()), ("lower", lambda n: n.lower()), ("trailing digits", lambda n: n + "_64"),
          ("long", lambda n: n + "_" + "abcdefgh" * 9), ("double underscore", lambda n: n + "__x__Y"), ("Camel", lambda n: n + "FooBar"), ("generic looking", lambda n: n + "T"),
          ("s suffix", lambda n: n + "s"), ("opaque inside", lambda n: n + "_opaque_string_void_bool"), ("underscore after", lambda n: n + "_"))


def restyle(f, g, tag):
    """the fragment with every identifier renamed"""
    def b(x):
        return x if x is None or isinstance(x, int) or re.fullmatch(r"-?\d+|0x[0-9a-fA-F]+|TRUE|FALSE", str(x)) else g(x)

    def ty(T):
        if T is None or T == "void":
            return T
        k = T[0]
        if k == "named":
            return (k, g(T[1]))
        if k in ("opaque", "string", "opaquef"):
            return (k, b(T[1])) + tuple(T[2:])
        if k in ("fix", "var"):
            return (k, ty(T[1]), b(T[2]))
        if k == "opt":
            return (k, ty(T[1]))
        return T
    ds = []
    for d in f.decls:
        if d.kind == "enum":
            ds.append(Enum(g(d.name), [(g(m), b(v)) for m, v in d.members]))
        elif d.kind == "struct":
            ds.append(Struct(g(d.name), [(g(x), ty(T)) for x, T in d.fields]))
        elif d.kind == "typedef":
            ds.append(Typedef(g(d.name), ty(d.type)))
        else:
            u = Union(g(d.name), ty(d.switch_type), [([b(l) for l in ls], ty(T)) for ls, T in d.arms], ty(d.default), g(d.var), d.default_pos)
            if hasattr(d, "default_labels"):
                u.default_labels = [b(l) for l in d.default_labels]
            ds.append(u)
    consts = [(g(n), b(v)) for n, v in f.consts]
    old = set().union(*[set(re.findall(r"@(\w+)@", t)) for t in f.items()])
    if len({g(n) for n in old}) < len(old):
        return None
    ids = set()
    for t in S.Fragment("", ds, consts).items():
        ids |= set(re.findall(r"@(\w+)@", t))
    return S.Fragment("%s [names: %s]" % (f.key, tag), ds, consts, lits=ids, tests=None if f.tests is None else {g(n) for n in f.tests}, supported=f.supported)


def plain(frags):
    return [f for f in frags if f.supported and not f.lits and not f.long and "bare" not in f.key and not f.key.startswith(("group of", "void group of", "union of", "struct of", "array[17", "array[20", "array[40", "array[70", "recursion", "enum of", "switch over"))]


def styled(frags, deep=False, styles=STYLES, share=None):
    fs = plain(frags)
    out = []
    k = len(styles) if share is None else share
    for i, (tag, g) in enumerate(styles):
        out += [restyle(f, g, tag) for j, f in enumerate(fs) if deep or j % k == i % k]
    return [f for f in out if f is not None]


def sizes(P, extra=(), deep=False):
    for n in sorted(set(SIZES) | {x for x in extra if 0 <= x < 2**32}):
        p = P.fresh()
        tw = ("named", p + "W")
        ds = [Struct(p + "W", [("wx", I32)]), Struct(p + "S", [("fa", ("opaque", n)), ("fb", ("string", n))]), Struct(p + "R", [("fa", ("var", tw, n)), ("fb", U32)])]
        if n:
            ds += [Typedef(p + "T", ("opaque", n)), Typedef(p + "Q", ("var", tw, n))]
            if n < 2**31:
                ds += [Struct(p + "X", [("fa", ("opaquef", n)), ("fb", I32)])]
        P.add("lengths of %d" % n, ds, tests={d.name for d in ds[1:]})
        p = P.fresh()
        tw = ("named", p + "W")
        ds = [Struct(p + "W", [("wx", I32), ("wo", OPQ)]), Struct(p + "S", [("fa", ("opaque", p + "C")), ("fb", ("string", p + "C"))]), Struct(p + "R", [("fa", ("var", tw, p + "C")), ("fb", U32)])]
        P.add("lengths of %d by a constant" % n, ds, [(p + "C", str(n) if n % 2 else hex(n))], tests={d.name for d in ds[1:]})
        if 0 < n <= (130 if deep else 66):
            p = P.fresh()
            P.add("array[%d]" % n, [Struct(p + "S", [("fa", ("fix", I32, n)), ("fb", U64)])])


def many(P, n):
    """arrays of exactly n elements, all of which decode"""
    for lab, T, mx in (("struct", [("wx", I32)], None), ("opaque struct", [("wx", I32), ("wo", OPQ)], None), ("struct, maximum", [("wx", U64)], n)):
        p = P.fresh()
        P.add("%d elements of %s" % (n, lab), [Struct(p + "W", T), Struct(p + "S", [("fa", ("var", ("named", p + "W"), mx)), ("fb", U32)])], tests={p + "S"})
        P.out[-1].long = n
    p = P.fresh()
    P.add("%d elements, typedef" % n, [Struct(p + "W", [("wx", I32)]), Typedef(p + "T", ("var", ("named", p + "W"), None))], tests={p + "T"})
    P.out[-1].long = n
    if n <= 1100:
        p = P.fresh()
        P.add("size of array[%d]" % n, [Struct(p + "W", [("wx", I32), ("wo", OPQ)]), Struct(p + "S", [("fa", ("fix", ("named", p + "W"), n)), ("fb", U32)])], tests={p + "S"})
        P.out[-1].long = n
        P.out[-1].sizes_only = True


def labels(P, extra=()):
    for n in sorted(x for x in set(extra) if 0 <= x < 2**31):
        p = P.fresh()
        w = ("named", p + "W")
        P.add("label %d" % n, [Struct(p + "W", [("wx", U32)]), Enum(p + "E", [(p + "A", str(n)), (p + "B", str(n + 1 if n < 2**31 - 1 else 0))]), Union(p + "U", U32, [([str(n)], w), ([str(n + 1 if n < 2**31 - 1 else 0)], None)]),
                               Union(p + "V", I32, [([p + "C"], w)], "void"), Union(p + "X", ("named", p + "E"), [([p + "A"], w), ([p + "B"], None)])], [(p + "C", hex(n))], tests={p + "U", p + "V", p + "X", p + "E"})


def numbers(P):
    """the integer literals of the analysed program, what they shift or multiply to, and their neighbours"""
    res = set()
    for b in P.bodies.values():
        v, ops = set(), set()

        def walk(x):
            if isinstance(x, dict):
                if x.get("k") == "lit" and x.get("lk") == "int" and isinstance(x.get("v"), int):
                    v.add(abs(x["v"]))
                elif x.get("k") == "const" and isinstance(x.get("c"), int) and not isinstance(x.get("c"), bool):
                    v.add(abs(x["c"]))
                elif x.get("k") == "range":
                    v.update(abs(y) for y in (x.get("lo"), x.get("hi")) if isinstance(y, int))
                if x.get("op") in ("Shl", "Mul", "Sub", "Add") or x.get("name") == "pow":
                    ops.add(x.get("op") or "pow")
                for y in x.values():
                    walk(y)
            elif isinstance(x, (list, tuple)):
                for y in x:
                    walk(y)
        walk(b.e)
        if len(v) > 24:      # a table (derived code)
            continue
        if "Shl" in ops:
            v |= {x << y for x in v for y in v if x < 2**32 and y < 32}
        if "Mul" in ops:
            v |= {x * y for x in v for y in v}
        for x in v:
            res |= {x - 1, x, x + 1}
    return sorted(x for x in res if 0 <= x < 2**32)


SKIP = set("default void case switch union struct enum typedef const opaque string bool int unsigned float double hyper quadruple TRUE FALSE include u8".split()) | \
    {s[0] for s in S.SPELLINGS} | {"u32", "i32", "u64", "i64", "f32", "f64", "v"} | naming.RESERVED


def equal(P, w):
    """the identifier `w` in every role"""
    for lab, T in (("struct", None), ("opaque struct", None)):
        p = P.fresh()
        P.add("struct named %s (%s)" % (w, lab), [Struct(w, [("fa", OPQ if lab != "struct" else U32)]), Struct(p + "H", [("h", ("named", w)), ("o", ("opt", ("named", w))), ("l", ("var", ("named", w), None))]),
                                                  Union(p + "U", U32, [(["1"], ("named", w)), (["2"], None)])], lits={w})
    p = P.fresh()
    P.add("union named %s" % w, [Union(w, U32, [(["1"], ("named", p + "W")), (["2"], None)]), Struct(p + "W", [("wo", OPQ)]), Struct(p + "H", [("h", ("named", w)), ("o", ("opt", ("named", w)))])], lits={w})
    for lab, T in (("opaque", OPQ), ("u32", U32), ("string", STRG), ("array", ("var", U32, 3)), ("fixed opaque", ("opaquef", 6))):
        p = P.fresh()
        if lab == "array":
            T = ("var", ("named", p + "W"), 3)
        P.add("typedef named %s of %s" % (w, lab), [Typedef(w, T), Struct(p + "W", [("wx", U32)]), Struct(p + "H", [("h", ("named", w)), ("o", ("opt", ("named", w))), ("l", ("var", ("named", w), None))])], lits={w})
    p = P.fresh()
    P.add("enum named %s" % w, [Enum(w, [(p + "A", "1"), (p + "B", "2")]), Struct(p + "H", [("h", ("named", w))]), Struct(p + "W", [("wx", U32)]), Union(p + "U", ("named", w), [([p + "A"], ("named", p + "W")), ([p + "B"], None)])], lits={w})
    p = P.fresh()
    P.add("enum member named %s" % w, [Enum(p + "E", [(w, "1"), (p + "B", "2")]), Struct(p + "W", [("wx", U32)]), Union(p + "U", ("named", p + "E"), [([w], ("named", p + "W")), ([p + "B"], None)])], lits={w})
    p = P.fresh()
    P.add("constant named %s" % w, [Struct(p + "H", [("h", ("opaque", w)), ("s", ("string", w)), ("l", ("var", ("named", p + "W"), w))]), Struct(p + "W", [("wx", U32)]), Union(p + "U", U32, [([w], ("named", p + "W")), (["77"], None)])], [(w, "5")], lits={w})
    for lab, T in (("u32", U32), ("opaque", OPQ), ("string<n>", ("string", 9)), ("fixed opaque", ("opaquef", 5)), ("array", 0), ("optional", 1)):
        p = P.fresh()
        if T in (0, 1):
            T = ("opt" if T else "var", ("named", p + "W")) + (() if T else (None,))
        P.add("field named %s of %s" % (w, lab), [Struct(p + "S", [("fa", U32), (w, T), ("fc", U64)]), Struct(p + "W", [("wx", U32)])], lits={w}, tests={p + "S"})
    p = P.fresh()
    P.add("discriminant named %s" % w, [Union(p + "U", U32, [(["1"], ("named", p + "W")), (["2"], None)], None, var=w), Struct(p + "W", [("wx", U32)])], lits={w}, tests={p + "U"})


AFFIX = {"starts_with": 0, "strip_prefix": 0, "trim_start_matches": 0, "ends_with": 1, "strip_suffix": 1, "trim_end_matches": 1, "contains": 1, "find": 1, "rfind": 1, "split": 1, "replace": 1, "splitn": 1,
         "trim_matches": 1, "split_once": 1, "rsplit": 1, "matches": 1}


def from_notes(P, notes, frags):
    """fragments for the literals names were tested with"""
    words, pre, suf = set(), set(), set()
    for k in notes:
        if k[0] == "peg":
            continue
        det = [getattr(x, "c", x) for x in k[1:]]
        lits = [x for x in det if isinstance(x, str) and x and all(ord(c) < 0xE000 for c in x)]
        named = any(isinstance(x, str) and any(ord(c) >= 0xE000 for c in x) for x in det) or any(not isinstance(x, (str, int)) for x in det)
        m = k[0].split("::")[-1]
        for x in lits:
            if not named or not re.fullmatch(r"\w+", x, re.A) or x in SKIP or len(x) > 40:
                continue
            if k[0] == "streq":
                if not x[0].isdigit():
                    words.add(x)
            elif m in AFFIX:
                (suf if AFFIX[m] else pre).add(x)
    for w in sorted(words)[:12]:
        equal(P, w)
    st = []
    for x in sorted(pre)[:6]:
        if not x[0].isdigit():
            st.append(("prefix " + x, lambda n, x=x: x + n))
    for x in sorted(suf)[:6]:
        st.append(("suffix " + x, lambda n, x=x: n + x))
    for i, s in enumerate(st):
        P.out += styled(frags, styles=(s,), deep=True)[i % 2::2]
    return sorted(words), [t for t, _ in st]
