"""C12 (and what C11, C13, C14 share): fastxdr's Ast::new interpreted on specifications with symbolic
names, and what its public accessors answer compared with the declaration model."""
import os
import re
import itertools

import models
import spec as S
from engine import Undecided, Adt, Seq, Ref, Tup, Lin, SStr, BOX, OPTION, bind
from gen import Lib, STR
from par import pmap

I32MAX = 2**31 - 1
TOKEN = re.compile(r"@\w+@|[A-Za-z0-9_\ue000-\uefff]+|\S")


class FRes:
    """what one worker found"""

    def __init__(self):
        self.bad = []       # (key, detail)
        self.undec = []     # (key, why)
        self.ok = 0
        self.n = {}         # counters
        self.visited = set()
        self.sites = set()
        self.rules = set()
        self.calls = 0
        self.samples = []
        self.data = None

    def count(self, k, n=1):
        self.n[k] = self.n.get(k, 0) + n

    def absorb(self, lib):
        self.visited |= lib.visited
        self.sites |= lib.sites
        self.rules |= lib.rules
        self.calls += lib.ncalls


def fold(ck, jobs, results):
    """collect worker results in a Check"""
    vis, sites, rules = set(), set(), set()
    tot = {}
    out = []
    calls = crashed = 0
    for j, (k, r) in zip(jobs, results):
        if k != "ok":
            if crashed < 3:
                print("analysis crashed on %s: %s" % (str(j)[:100], r[-800:]))
            crashed += 1
            ck.undec("analysis of %s" % str(j)[:80], r[-250:])
            continue
        for key, det in r.bad:
            ck.violation(key, det)
        for key, why in r.undec:
            ck.undec(key, why)
        ck.holds(r.ok)
        for a, b in r.n.items():
            tot[a] = tot.get(a, 0) + b
        for s in r.samples:
            ck.sample(**s)
        vis |= r.visited
        sites |= r.sites
        rules |= r.rules
        calls += r.calls
        out.append(r)
    ck.info.update(tot)
    ck.info["bodies_analysed"] = len(vis)
    ck.info["call_sites"] = len(sites)
    ck.info["calls_interpreted"] = calls
    ck.info["grammar_rules_used"] = len(rules)
    return out


# ------------------------------------------------------------------ values -> plain data
class Plain:
    def __init__(self, eng, st, nm=None):
        self.eng = eng
        self.st = st
        self.nm = nm

    def __call__(self, v):
        eng, st = self.eng, self.st
        while isinstance(v, Ref):
            v = eng.rd(st, v)
        if isinstance(v, str):
            return self.nm.render(v) if self.nm else v
        if isinstance(v, (bool, int)):
            return v
        if isinstance(v, Lin) and not v.m:
            return v.c
        if isinstance(v, Tup):
            return tuple(self(x) for x in v.f)
        if isinstance(v, Seq):
            if any(s[0] != "one" for s in v.s):
                raise Undecided("sequence of unknown length")
            return [self(s[1]) for s in v.s]
        if isinstance(v, Adt):
            n = v.n.split("::")[-1]
            if v.n == OPTION:
                return None if v.v == 0 else ("Some", self(v.f[0]))
            if v.n == BOX or n in ("Rc", "Arc"):
                return self(v.f[0])
            a = eng.P.adts.get(v.n)
            if a is None:
                raise Undecided("value of %s" % v.n)
            va = a["variants"][v.v]
            return (n, va["name"], {f["name"]: self(x) for f, x in zip(va["fields"], v.f)})
        raise Undecided("value %r" % (v,))


class AstQ:
    """an Ast and its accessors"""

    def __init__(self, lib, src, nm):
        self.lib = lib
        self.nm = nm
        self.eng, outs = lib.ast(src)
        self.kind = None
        if len(outs) != 1:
            self.kind, self.value = "undec", "%d outcomes: %s" % (len(outs), [(o.kind, str(o.value)[:60]) for o in outs[:4]])
            return
        o = outs[0]
        self.kind, self.value, self.st, self.ev = o.kind, o.value, o.st, o.ev
        if o.kind == "ok":
            self.root = Ref(self.eng.temp(self.st, o.value))

    def call(self, suffix, *args):
        c = [b for p, b in self.lib.entry.items() if p == suffix or p.endswith("::" + suffix)]
        if len(c) != 1:
            raise Undecided("accessor %s not found" % suffix)
        b = c[0]
        outs = self.eng.call_body(b.id, args, self.st, {g: STR for g in b.generics})
        if len(outs) != 1 or outs[0][1] != "v":
            raise Undecided("%s: %s" % (suffix, [(k, str(v)[:80]) for _, k, v in outs][:3]))
        self.st = outs[0][0]
        return outs[0][2]

    def plain(self, v):
        return Plain(self.eng, self.st, self.nm)(v)

    def items(self, v):
        outs = bind(models.into_iter(self.eng, self.st, v), lambda s, it: models.force(self.eng, s, models.as_it(self.eng, s, it)[0]))
        if len(outs) != 1 or outs[0][1] != "v":
            raise Undecided("iterating an index: %s" % (outs[0][1:] if outs else outs,))
        self.st = outs[0][0]
        return [self.plain(x) for x in outs[0][2]]

    def types(self):
        return self.call("Ast::types", self.root)

    def constants(self):
        return self.call("Ast::constants", self.root)

    def generics(self):
        return self.call("Ast::generics", self.root)

    def sub(self, n):
        return self.nm.sub(re.sub(r"^(\w+)$", r"@\1@", n)) if self.nm else n

    def type(self, n):
        return self.plain(self.call("TypeIndex::get", self.types(), self.sub(n)))

    def target(self, n):
        return self.plain(self.call("TypeIndex::typedef_target", self.types(), self.sub(n)))

    def constant(self, n):
        return self.plain(self.call("ConstantIndex::get", self.constants(), self.sub(n)))

    def generic(self, n):
        r = self.call("GenericIndex::contains", self.generics(), self.sub(n))
        if not isinstance(r, bool):
            raise Undecided("contains: %r" % (r,))
        return r

    def all_types(self):
        return self.items(self.call("TypeIndex::iter", self.types()))

    def all_constants(self):
        return self.items(self.call("ConstantIndex::iter", self.constants()))


# ------------------------------------------------------------------ the declaration model as the documented AST
BASIC = {"u32": "U32", "i32": "I32", "u64": "U64", "i64": "I64", "f32": "F32", "f64": "F64"}


def size(x):
    v = S.number(x)
    if isinstance(v, int):
        return ("Known", v)
    return ("Constant", v)


def basic(T):
    k = T[0]
    if k == "int":
        return BASIC[T[1]]
    if k == "bool":
        return "Bool"
    if k in ("opaque", "opaquef"):
        return "Opaque"
    if k == "string":
        return "String"
    if k == "named":
        return ("Ident", T[1])
    return basic(T[1])


def array(T):
    """(kind, element, bound)"""
    k = T[0]
    if k in ("opaque", "string"):
        if len(T) > 2 and T[2] == "bare":
            return ("None", basic(T), None)
        return ("VariableSize", basic(T), None if T[1] is None else size(T[1]))
    if k == "opaquef":
        return ("FixedSize", basic(T), size(T[1]))
    if k == "fix":
        return ("FixedSize", basic(T), size(T[2]))
    if k == "var":
        return ("VariableSize", basic(T), None if T[2] is None else size(T[2]))
    return ("None", basic(T), None)


def expected(d):
    if d.kind == "enum":
        vs = []
        for m, v in d.members:
            n = S.number(v)
            vs.append((m, ("Numeric", n) if isinstance(n, int) else ("String", n)))
        return ("Enum", d.name, sorted(vs))
    if d.kind == "struct":
        return ("Struct", d.name, [(f, array(T), T[0] == "opt") for f, T in d.fields])
    if d.kind == "typedef":
        k, b, s = array(d.type)
        if b == "Opaque" and k == "VariableSize" and s is None:
            k = "None"
        return ("Typedef", d.name, b, k, s)
    voids, cases = [], []
    default = None
    for i, (ls, T) in enumerate(d.arms):
        if T is None:
            voids += [str(l) for l in ls]
        else:
            cases.append((sorted(str(l) for l in ls), "%s_a%d" % (d.name, i), array(T)))
    fall = [str(l) for l in getattr(d, "default_labels", ())]
    if d.default == "void":
        voids += fall + ["default"]
    elif d.default is not None:
        default = (sorted(fall + ["default"]), "%s_ad" % d.name, array(d.default))
    return ("Union", d.name, (d.var, basic(d.switch_type)), sorted(cases), default, sorted(voids))


def got_basic(v):
    return ("Ident", v[2]["0"]) if v[1] == "Ident" else v[1]


def got_size(v):
    return (v[1], v[2]["0"])


def got_array(v, el=got_basic):
    k = v[1]
    if k == "VariableSize":
        s = v[2]["1"]
        return (k, el(v[2]["0"]), None if s is None else got_size(s[1]))
    if k == "FixedSize":
        return (k, el(v[2]["0"]), got_size(v[2]["1"]))
    return (k, el(v[2]["0"]), None)


def hexname(s):
    """a size kept as hex text is the number"""
    if s is not None and s[0] == "Constant" and re.fullmatch(r"0x[0-9a-fA-F]+", s[1]):
        return ("Known", int(s[1], 16))
    return s


def actual(v):
    """AstType value -> the same form as `expected`"""
    t = v[2]["0"]
    f = t[2]
    if t[0] == "Enum":
        return ("Enum", f["name"], sorted((x[2]["name"], (x[2]["value"][1], x[2]["value"][2]["0"])) for x in f["variants"]))
    if t[0] == "Struct":
        return ("Struct", f["name"], [(x[2]["field_name"], got_array(x[2]["field_value"]), x[2]["is_optional"]) for x in f["fields"]])
    if t[0] == "Typedef":
        k, b, s = got_array(f["alias"])
        n = b[1] if isinstance(b, tuple) else b
        return ("Typedef", n, got_basic(f["target"]), k, hexname(s))
    if t[0] == "Union":
        def case(c):
            c = c[2]
            return (sorted(c["case_values"]), c["field_name"], got_array(c["field_value"]))
        sw = f["switch"][2]
        return ("Union", f["name"], (sw["var_name"], got_basic(sw["var_type"])), sorted(case(c) for c in f["cases"]),
                None if f["default"] is None else case(f["default"][1]), sorted(f["void_cases"]))
    raise Undecided("type %s" % t[0])


PARTS = {"Enum": ("kind", "name", "members"), "Struct": ("kind", "name", "fields"), "Typedef": ("kind", "name", "target", "array kind", "bound"),
         "Union": ("kind", "name", "discriminant", "arms", "default", "void labels")}


def differ(e, g):
    """[what differs]"""
    if e[0] != g[0]:
        return ["kind"]
    return [p for p, a, b in zip(PARTS[e[0]], e, g) if a != b]


def compare(res, q, decls, consts, where, tag=""):
    """every accessor of an Ast against the model; where(name) -> class key"""
    for d in decls:
        cls = where(d.name) + tag
        try:
            g = q.type(d.name)
            if g is None:
                res.bad.append(("%s: %s not in the type index" % (cls, d.kind), "Ast::types().get(%s) is None" % d.name))
                continue
            e, a = expected(d), actual(g[1])
            w = differ(e, a)
            if w:
                for x in w:
                    res.bad.append(("%s: %s: %s" % (cls, d.kind, x), "declared: %s\nin the Ast: %s\nspecification:\n%s" % (e, a, S.text(d))))
            else:
                res.ok += 1
            t = q.target(d.name)
            if (t is not None) != (d.kind == "typedef"):
                res.bad.append(("%s: %s: typedef_target" % (cls, d.kind), "typedef_target(%s) is %s" % (d.name, "None" if t is None else "Some")))
            else:
                res.ok += 1
        except Undecided as u:
            res.undec.append((cls, "%s: %s" % (d.name, u)))
    want = {}
    for n, v in consts:
        want[n] = ("ConstValue", S.number(v))
    for d in decls:
        if d.kind == "enum":
            for m, _ in d.members:
                want[m] = ("EnumValue", d.name, m)

    def const(c):
        if c[1] == "ConstValue":
            return ("ConstValue", S.number(c[2]["0"]))
        return ("EnumValue", c[2]["enum_name"], c[2]["variant"])
    for n, w in want.items():
        cls = where(n) + tag
        try:
            g = q.constant(n)
            if g is None:
                res.bad.append(("%s: constant not in the index" % cls, "Ast::constants().get(%s) is None, declared %s" % (n, w)))
            elif const(g[1]) != w:
                res.bad.append(("%s: wrong constant" % cls, "constants().get(%s) is %s, declared %s" % (n, const(g[1]), w)))
            else:
                res.ok += 1
        except Undecided as u:
            res.undec.append((cls, "%s: %s" % (n, u)))
    try:
        names = sorted(actual(x)[1] for x in q.all_types())
        if names != sorted(d.name for d in decls):
            extra = [n for n in names if n not in {d.name for d in decls}]
            miss = [d.name for d in decls if d.name not in names]
            res.bad.append(("type index%s: other declarations than declared" % tag, "iter() yields %d types, %d declared; invented %s, missing %s" % (len(names), len(decls), extra[:5], miss[:5])))
        else:
            res.ok += 1
        cs = q.all_constants()
        ns = sorted(c[0] for c in cs)
        if ns != sorted(want):
            res.bad.append(("constant index%s: other constants than declared" % tag, "iter() yields %s, declared %s" % ([n for n in ns if n not in want][:5], [n for n in want if n not in ns][:5])))
        elif any(const(c[1]) != want[c[0]] for c in cs):
            res.bad.append(("constant index%s: iter() and get() disagree" % tag, str(cs)[:400]))
        else:
            res.ok += 1
        for n in ("zz_absent", "zz_Other"):
            if q.type(n) is not None or q.constant(n) is not None or q.target(n) is not None:
                res.bad.append(("index%s: knows a name that is not declared" % tag, n))
            else:
                res.ok += 1
    except Undecided as u:
        res.undec.append(("indexes" + tag, str(u)))


# ------------------------------------------------------------------ layouts
def tokens(t):
    return TOKEN.findall(t)


def wordy(t):
    return bool(re.match(r"[@A-Za-z0-9_\ue000-\uefff]", t))


def join(toks, gap, lead="", tail=""):
    """gap(i, needed) -> separator before token i"""
    out = [lead]
    for i, t in enumerate(toks):
        if i:
            need = wordy(toks[i - 1]) and (wordy(t) or t == "*")
            out.append(gap(i, need))
        out.append(t)
    out.append(tail)
    return "".join(out)


CONTENT = ["c", "", "*", "**", "const zz_absent = 9;", "struct zz_absent { int y; };", "};", "case 1:", "default: void;", "/*", "//", " a // b ", "\"", "'", "\u00e9\u4e2d",
           "enum zz_Other { zz_absent = 4 };", "unsigned int", "typedef opaque zz_absent<>;", "0x", "/ * ", "a\nb", "\n\n", "\t", "EOF", "int zz"]


def layouts():
    """(name, function from tokens to text); every one inserts whitespace or whitespace-delimited comments between tokens"""
    L = []
    L.append(("compact", lambda t: join(t, lambda i, need: " " if need else "")))
    for n, w in (("newline", "\n"), ("tab", "\t"), ("CRLF", "\r\n"), ("CR", "\r"), ("spaces", "   "), ("mixed", " \t\r\n \n")):
        L.append((n, lambda t, w=w: join(t, lambda i, need: w, w, w)))
    L.append(("long comments", lambda t: join(t, lambda i, need: " /* c */ ", "/* lead */ ", " /* tail */")))
    L.append(("short comments", lambda t: join(t, lambda i, need: " // c\n", "// lead\n", "// tail\n")))
    L.append(("short comments, CRLF, no final newline", lambda t: join(t, lambda i, need: " // c\r\n", "//\r\n", " // tail")))
    L.append(("short comments, CR", lambda t: join(t, lambda i, need: " // c\r", "// lead\r", "\r// tail\r")))
    L.append(("long comments, CR and LF inside", lambda t: join(t, lambda i, need: " /*\r\n c \r */ ", "/*\r*/\r", "\r/*\n*/\r")))
    L.append(("short comments, line ends mixed", lambda t: join(t, lambda i, need: [" // a\n", " // b\r\n", " // c\r", "\r\r", "\n\r// d\n"][i % 5], "\r", "\n// e\r\n")))
    L.append(("comments, newlines", lambda t: join(t, lambda i, need: "\n/* c */\n", "\n", "\n")))
    L.append(("several comments", lambda t: join(t, lambda i, need: " /* a */ /* b */ // c\n /**/ ")))

    def adv(off):
        def f(t):
            def gap(i, need):
                c = CONTENT[(i * 7 + off) % len(CONTENT)]
                if (i + off) % 3 == 2 and "\n" not in c:
                    return " //%s\n " % c
                return " /*%s*/ " % c.replace("*/", "* /")
            return join(t, gap, "/*%s*/\n" % CONTENT[off % len(CONTENT)], "\n//%s" % CONTENT[(off + 4) % len(CONTENT)].replace("\n", " "))
        return f
    for off in range(6):
        L.append(("tricky comments %d" % off, adv(off)))
    return L


def permutations(n, deep):
    """(name, order) of n declarations"""
    r = list(range(n))
    if n <= 1:
        return []
    if n <= (4 if deep else 3):
        return [("order %s" % "".join(map(str, p)), list(p)) for p in itertools.permutations(r) if list(p) != r]
    out = [("reversed", r[::-1]), ("rotated", r[1:] + r[:1]), ("halves swapped", r[n // 2:] + r[:n // 2]), ("even before odd", r[::2] + r[1::2]),
           ("odd before even, reversed", (r[1::2] + r[::2])[::-1])]
    # a deterministic shuffle: multiples of a unit modulo n
    for m in ((7, 11, 13) if deep else (7,)):
        k = m
        while any(k % q == 0 and n % q == 0 for q in range(2, n + 1)):
            k += 1
        out.append(("stride %d" % m, [(i * k + 3) % n for i in range(n)]))
    return out


# ------------------------------------------------------------------ specifications beyond the catalogue
U32, I32, OPQ = S.U32, S.I32, S.OPQ


def lexical(words, deep):
    """fragments whose identifiers are the given words, one in every position"""
    out = []
    for w in words:
        a = [w + x for x in ("", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P")]
        ds = [S.Enum(a[1], [(a[2], "1"), (a[3], "0x2")]), S.Struct(a[4], [(a[0], U32), (a[5], ("named", a[1])), (a[6], ("opt", ("named", a[4]))), (a[7], ("var", U32, a[8])), (a[10], ("opaquef", a[8]))]),
              S.Union(a[9], ("named", a[1]), [([a[2]], ("named", a[4])), ([a[3]], None)], ("named", a[4]), var=a[11]),
              S.Typedef(a[12], ("named", a[4])), S.Typedef(a[13], ("opaque", a[8])), S.Typedef(a[14], ("var", ("named", a[9]), None)), S.Typedef(a[15], ("fix", ("named", a[12]), a[8]))]
        f = S.Fragment("identifiers like %s" % w, ds, [(a[8], "5")], lits=set(a) | {a[9] + "_a0", a[9] + "_a1", a[9] + "_ad"})
        out.append(f)
    return out


def words(g):
    """identifiers that begin or end like, or contain, a keyword of the grammar or a type name"""
    lits = set()

    def walk(e):
        if isinstance(e, tuple):
            if e and e[0] == "lit" and re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", e[1]):
                lits.add(e[1])
            for x in e:
                walk(x)
        elif isinstance(e, list):
            for x in e:
                walk(x)
    for mod, e in g.rules.values():
        walk(e)
    base = sorted(lits | {"bool", "u32", "i64", "uint32_t", "int64_t", "TRUE", "FALSE"})
    out = []
    for w in base:
        out += [w + "x", w + "_", w + "4", w.capitalize() + "q", w.upper() + "Q", "x" + w, "_" + w + "_"]
        if len(w) > 2:
            out.append(w[:-1] + "q")
    return lits, list(dict.fromkeys(out + ["x", "_", "_9", "Z" * 120, "type_t", "a_b_c", "ABC9"]))


def sized(deep):
    """wide and deep declarations"""
    F = []
    P = S.Pool()
    n = 120 if deep else 48
    p = P.fresh()
    F.append(S.Fragment("struct of %d fields" % n, [S.Struct(p + "S", [("f%d" % i, [U32, OPQ, ("opt", ("named", p + "S")), ("var", I32, i or None), ("opaquef", i + 1), S.STRG][i % 6]) for i in range(n)])]))
    p = P.fresh()
    F.append(S.Fragment("enum of %d members" % n, [S.Enum(p + "E", [("%sM%d" % (p, i), str(i * 37 % 1009)) for i in range(n)])]))
    p = P.fresh()
    F.append(S.Fragment("union of %d arms" % n, [S.Union(p + "U", U32, [([str(2 * i), str(2 * i + 1)] if i % 3 else [str(2 * i)], U32 if i % 2 else None) for i in range(n)], "void")]))
    p = P.fresh()
    F.append(S.Fragment("void group of %d labels" % n, [S.Union(p + "U", U32, [([str(i) for i in range(n)], None), ([str(900)], U32)])]))
    p = P.fresh()
    F.append(S.Fragment("data group of %d labels" % n, [S.Union(p + "U", U32, [([str(i) for i in range(n)], U32), ([str(900)], None)], I32)]))
    p = P.fresh()
    F.append(S.Fragment("%d constants" % n, [S.Typedef(p + "T", ("opaque", p + "K7"))], [("%sK%d" % (p, i), str(i) if i % 2 else hex(i)) for i in range(n)]))
    p = P.fresh()
    ds = []
    for i in range(n):
        ds.append([S.Struct("%sD%d" % (p, i), [("f", ("named", "%sD%d" % (p, i + 1)))]), S.Typedef("%sD%d" % (p, i), ("named", "%sD%d" % (p, i + 1))),
                   S.Union("%sD%d" % (p, i), U32, [(["1"], ("named", "%sD%d" % (p, i + 1)))])][i % 3])
    ds.append(S.Struct("%sD%d" % (p, n), [("f", OPQ)]))
    F.append(S.Fragment("chain of %d declarations" % n, ds))
    # values
    p = P.fresh()
    F.append(S.Fragment("enum values", [S.Enum(p + "E", [(p + "A", "0"), (p + "B", "2147483647"), (p + "C", "0x7fffffff"), (p + "D", "0x0"), (p + "F", "0xff"), (p + "G", "0xFF00"), (p + "H", "0x00000010"),
                                                         (p + "I", "10"), (p + "J", "0x1F"), (p + "K", "0xabcDEF"), (p + "L", "1000000")])]))
    p = P.fresh()
    F.append(S.Fragment("array bounds", [S.Struct(p + "S", [("f%d" % i, T) for i, T in enumerate([("opaque", 1), ("opaque", 4294967295), ("opaquef", 0), ("string", 255), ("var", U32, 0), ("fix", U32, 1),
                                                                                                     ("var", ("named", p + "S"), 4294967295), ("fix", U32, 65536), ("opaque", p + "B"), ("fix", I32, p + "B")])])], [(p + "B", "0x10")]))
    # every arm layout: runs of data/void arms and fall-through groups
    for i, shape in enumerate(itertools.product("dvDV", repeat=3)):
        p = P.fresh()
        arms = []
        k = 0
        for c in shape:
            m = 1 if c in "dv" else 2
            arms.append(([str(k + j) for j in range(m)], U32 if c in "dD" else None))
            k += m
        dv = [None, "void", I32][i % 3]
        F.append(S.Fragment("union arms %s, %s" % ("".join(shape), ["no default", "void default", "data default"][i % 3]), [S.Union(p + "U", U32, arms, dv, default_pos=(None, 0, 1, 2)[i % 4])]))
    for k, T in (("void", "void"), ("data", I32)):
        for lab in (["7"], ["7", "8"]):
            for first in (False, True):
                p = P.fresh()
                u = S.Union(p + "U", U32, [(["1"], U32), (["2"], None)], T, default_pos=0 if first else None)
                u.default_labels = lab
                F.append(S.Fragment("%d labels falling into a %s default%s" % (len(lab), k, ", first" if first else ""), [u]))
    for lab, T in S.SPELLINGS:
        p = P.fresh()
        F.append(S.Fragment("switch, arm and typedef spelled %s" % lab, [S.Union(p + "U", T, [(["1"], T), (["2"], None)], T), S.Typedef(p + "T", T), S.Struct(p + "S", [("f", ("var", T, None)), ("g", ("fix", T, 2)), ("h", ("opt", T))])]))
    for lab, T in S.PRIMS:
        p = P.fresh()
        F.append(S.Fragment("switch, arm and typedef of %s" % lab, [S.Union(p + "U", T if lab not in ("f32", "f64") else U32, [(["1"], T), (["2"], None)], T), S.Typedef(p + "T", T), S.Struct(p + "S", [("f", ("var", T, None)), ("g", ("fix", T, 2)), ("h", ("opt", T))]),
                                                                    S.Typedef(p + "V", ("var", T, 3)), S.Typedef(p + "W", ("fix", T, 3))]))
    p = P.fresh()
    F.append(S.Fragment("empty specification", []))
    p = P.fresh()
    F.append(S.Fragment("only constants", [], [(p + "A", "1"), (p + "B", "0xff"), (p + "C", "4294967295")]))
    p = P.fresh()
    F.append(S.Fragment("union of a single default", [S.Union(p + "U", U32, [], I32), S.Union(p + "V", U32, [], "void")]))
    return F


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


_ctx = {}


def where_of(frags):
    m = {}
    for f in frags:
        for n, _ in f.consts:
            m[n] = f.key
        for d in f.decls:
            m[d.name] = f.key
            if d.kind == "enum":
                for x, _ in d.members:
                    m[x] = f.key
    return lambda n: m.get(n, "?")


def one_ast(job):
    """job: (fragments, [(tag, layout index or None, order name or None)])"""
    frags, variants = job
    lib = Lib.fresh(_ctx["lib"])
    res = FRes()
    L = dict(layouts())
    nm = S.Names(set().union(*[f.lits for f in frags]) if frags else ())
    items = [x for f in frags for x in f.items()]
    decls = [d for f in frags for d in f.decls]
    consts = [c for f in frags for c in f.consts]
    where = where_of(frags)
    for lay, order in variants:
        xs = items if order is None else [items[i] for i in order[1]]
        toks = tokens(nm.sub("\n".join(xs)))
        src = nm.sub("\n".join(xs) + "\n") if lay is None else L[lay](toks)
        tag = "".join([" [%s]" % lay if lay else "", " [%s]" % order[0] if order else ""])
        res.count("specifications")
        q = AstQ(lib, src, nm)
        if q.kind == "ok":
            compare(res, q, decls, consts, where, tag)
            res.count("declarations_compared", len(decls) + len(consts))
            if not res.samples and decls:
                res.samples.append({"specification": nm.render(src)[:160], "layout": tag, "declarations": len(decls)})
        elif q.kind == "err":
            if len(frags) > 1:
                # which one?
                for f in frags:
                    r = one_ast(([f], [(lay, None)]))
                    for k, w in r.bad:
                        if k.startswith(f.key) and "rejected" in k:
                            res.bad.append((k, w))
                if not any("rejected" in k for k, _ in res.bad):
                    res.bad.append(("specification rejected%s" % tag, "Ast::new returns Err (%s) for %s ..." % (nm.render(str(q.value)), nm.render(src)[:300])))
            elif frags[0].supported is not False:
                res.bad.append(("%s%s: rejected" % (frags[0].key, tag), "Ast::new returns Err (%s) for\n%s" % (nm.render(str(q.value)), nm.render(src)[:600])))
            else:
                res.count("unsupported_refused")
        elif q.kind == "panic":
            for f in frags[:1]:
                res.bad.append(("%s%s: Ast::new panics" % (f.key, tag), nm.render("%s for\n%s" % (q.value, src[:600]))))
        else:
            res.undec.append(("%s%s" % (frags[0].key if frags else "?", tag), str(q.value)[:300]))
    res.absorb(lib)
    return res


def jobs12(lib, deep):
    jobs = []
    lay = [n for n, _ in layouts()]
    F = [f for f in S.catalogue() if f.supported]
    G = chunks(F, 20)
    for i, g in enumerate(G):
        n = sum(len(f.items()) for f in g)
        vs = [(None, None)] + [(l, None) for l in (lay if deep else [lay[0], lay[1 + i % 6], lay[7 + i % 5], lay[12 + i % 6]])]
        ps = permutations(n, deep)
        vs += [(lay[(i + j) % len(lay)] if j % 2 else None, p) for j, p in enumerate(ps)]
        for v in chunks(vs, 3):
            jobs.append((g, v))
    _, ws = words(lib.g)
    for i, f in enumerate(lexical(ws, deep)):
        jobs.append(([f], [(None, None), (lay[i % len(lay)], ("reversed", list(range(len(f.items())))[::-1]))]))
    for i, f in enumerate(sized(deep)):
        vs = [(None, None), ("compact", None), ("tricky comments %d" % (i % 6), None)]
        n = len(f.items())
        vs += [(None, p) for p in permutations(n, deep)[:2 if n > 8 else None]]
        if deep:
            vs += [(l, None) for l in lay[1:]]
        for v in chunks(vs, 6 if n < 8 else 2):
            jobs.append(([f], v))
    # every layout on a small mixed specification, and every gap singly
    return jobs


def gap_jobs(deep):
    """one tricky separator in one gap at a time, on a specification with one of everything"""
    P = S.Pool()
    p = P.fresh()
    ds = [S.Enum(p + "E", [(p + "A", "1"), (p + "B", "0x20")]),
          S.Struct(p + "S", [("fa", ("int", "u32")), ("fb", ("opaque", p + "K")), ("fc", ("opt", ("named", p + "S"))), ("fd", ("fix", ("int", "u64"), 3)), ("fe", S.STRG), ("ff", ("opaque", None, "bare"))]),
          S.Union(p + "U", ("int", "u32"), [(["1", p + "K"], ("named", p + "S")), ([p + "A"], None)], ("int", "i64")),
          S.Union(p + "V", ("named", p + "E"), [([p + "A"], ("named", p + "S"))], "void"),
          S.Typedef(p + "T", ("opaque", 4)), S.Typedef(p + "W", ("var", ("named", p + "S"), None)), S.Typedef(p + "X", ("int", "u64"))]
    f = S.Fragment("one of everything", ds, [(p + "K", "7")])
    n = len(tokens("\n".join(f.items())))
    return f, n


SEPS = [" /* c */ ", " // c\n", "\n", "\t", "\r\n", " /**/ ", " //\n", " /* * / ** */ ", " /* // */ ", " // /*\n", " /* struct zz_absent { int y; }; */ ", " // const zz_absent = 1;\n", "   ", " /* a */ /* b */ ", " // c\r", "\r"]


def gap_work(job):
    f, gaps, seps = job
    lib = Lib.fresh(_ctx["lib"])
    res = FRes()
    nm = S.Names()
    toks = tokens(nm.sub("\n".join(f.items())))
    where = where_of([f])
    for i in gaps:
        for sp in seps:
            src = join(toks, lambda j, need: sp if j == i else " ", sp if i == 0 else "", sp if i == len(toks) else "")
            res.count("specifications")
            q = AstQ(lib, src, nm)
            tag = " [%r before token %d]" % (sp, i)
            if q.kind == "ok":
                compare(res, q, f.decls, f.consts, where, " [separator %r]" % sp)
                res.count("declarations_compared", len(f.decls) + 1)
            elif q.kind in ("err", "panic"):
                res.bad.append(("%s: %s with separator %r" % (f.key, "rejected" if q.kind == "err" else "Ast::new panics", sp), "%s for %s" % (nm.render(str(q.value)), nm.render(src)[:900])))
            else:
                res.undec.append((f.key + tag, str(q.value)[:300]))
    res.absorb(lib)
    return res


def check(ck, prop, tier):
    deep = tier == "thorough"
    import texts
    ck.explain(*texts.front(prop))
    lib = Lib()
    _ctx["lib"] = lib
    jobs = [(one_ast, j) for j in jobs12(lib, deep)]
    f, n = gap_jobs(deep)
    seps = SEPS if deep else SEPS[:6] + SEPS[-2:]
    for g in chunks(list(range(n + 1)), 6):
        jobs.append((gap_work, (f, g, seps)))
    rs = pmap(lambda j: j[0](j[1]), jobs)
    fold(ck, [j[1][0] if not isinstance(j[1][0], list) else [x.key for x in j[1][0]][:3] for j in jobs], rs)
    a = [j for w, j in jobs if w is one_ast]
    ck.floor("specifications enumerated", sum(len(v) for _, v in a), 1500 if deep else 700)
    ck.floor("declarations enumerated", sum(len(v) * sum(len(x.items()) for x in f) for f, v in a), 6000)
    ck.floor("bodies analysed", ck.info["bodies_analysed"], 1)
