"""Declaration models, their XDR text, and the catalogue of declaration shapes.

A Fragment is a closed set of declarations exercising one shape.  Identifiers are symbolic for the
generator (one private-use code point stands for any identifier) and are rendered to plain ones
only for rustc.  Identifiers listed in `lits` are the literal text they are."""
import re


class Enum:
    kind = "enum"

    def __init__(self, name, members):
        self.name = name
        self.members = members          # [(member, value text)]


class Struct:
    kind = "struct"

    def __init__(self, name, fields):
        self.name = name
        self.fields = fields


class Union:
    kind = "union"

    def __init__(self, name, switch_type, arms, default=None, var="disc", default_pos=None):
        self.name = name
        self.switch_type = switch_type
        self.arms = arms                # [([labels], None | T)]
        self.default = default          # None | "void" | T
        self.var = var
        self.default_pos = default_pos  # index among the arms, None = last


class Typedef:
    kind = "typedef"

    def __init__(self, name, type):
        self.name = name
        self.type = type


SPELL = {"u32": "unsigned int", "i32": "int", "u64": "unsigned hyper", "i64": "hyper", "f32": "float", "f64": "double"}


def number(v):
    """value of a constant's text"""
    if isinstance(v, int):
        return v
    t = str(v)
    if t.lower().startswith("0x"):
        return int(t, 16)
    return int(t) if re.fullmatch(r"-?\d+", t) else t


def base(T):
    if T[0] == "int":
        return T[2] if len(T) > 2 else SPELL[T[1]]
    if T[0] == "bool":
        return "bool"
    if T[0] in ("opaque", "opaquef"):
        return "opaque"
    if T[0] == "string":
        return "string"
    if T[0] == "named":
        return "@" + T[1] + "@"
    return base(T[1])


def bound(x):
    return x if isinstance(x, int) or re.fullmatch(r"\d+|0x[0-9a-fA-F]+", str(x)) else "@%s@" % x


def declarator(T, name):
    """pieces of `type name array`"""
    k = T[0]
    n = "@%s@" % name
    b = base(T)
    if k in ("opaque", "string"):
        if T[1] is None:
            return "%s %s" % (b, n) + ("" if len(T) > 2 and T[2] == "bare" else "<>")
        return "%s %s<%s>" % (b, n, bound(T[1]))
    if k == "opaquef":
        return "%s %s[%s]" % (b, n, bound(T[1]))
    if k == "fix":
        return "%s %s[%s]" % (b, n, bound(T[2]))
    if k == "var":
        return "%s %s<%s>" % (b, n, "" if T[2] is None else bound(T[2]))
    if k == "opt":
        return "%s *%s" % (b, n)
    return "%s %s" % (b, n)


def label(l):
    l = str(l)
    return l if re.fullmatch(r"\d+|0x[0-9a-fA-F]+|TRUE|FALSE", l) else "@%s@" % l


def text(d):
    if d.kind == "enum":
        return "enum @%s@ {\n%s\n};" % (d.name, ",\n".join("\t@%s@ = %s" % (m, bound(v)) for m, v in d.members))
    if d.kind == "struct":
        return "struct @%s@ {\n%s};" % (d.name, "".join("\t%s;\n" % declarator(T, f) for f, T in d.fields))
    if d.kind == "typedef":
        return "typedef %s;" % declarator(d.type, d.name)
    out = []
    arms = []
    for i, (ls, T) in enumerate(d.arms):
        s = "".join("\tcase %s:\n" % label(l) for l in ls)
        arms.append(s + "\t\t%s;\n" % ("void" if T is None else declarator(T, "%s_a%d" % (d.name, i))))
    if d.default is not None:
        t = "".join("\tcase %s:\n" % label(l) for l in getattr(d, "default_labels", ())) + "\tdefault:\n\t\t%s;\n" % ("void" if d.default == "void" else declarator(d.default, "%s_ad" % d.name))
        arms.insert(len(arms) if d.default_pos is None else d.default_pos, t)
    out = "".join(arms)
    return "union @%s@ switch (%s @%s@) {\n%s};" % (d.name, base(d.switch_type), d.var, out)


class Fragment:
    def __init__(self, key, decls, consts=(), lits=(), props=None, tests=None, supported=True):
        self.key = key
        self.decls = decls
        self.consts = list(consts)      # [(name, text)]
        self.lits = set(lits)
        self.props = props
        self.tests = tests              # names of the declarations to judge (None: all)
        self.supported = supported
        self.long = None                # number of elements of the array the declaration starts with
        self.sizes_only = False

    def items(self):
        return ["const @%s@ = %s;" % (n, v) for n, v in self.consts] + [text(d) for d in self.decls]

    def subjects(self):
        return [d for d in self.decls if self.tests is None or d.name in self.tests]


class Names:
    """logical identifier -> private-use code point"""

    def __init__(self, lits=()):
        self.m = {}
        self.r = {}
        self.lits = set(lits)

    def sub(self, t):
        return re.sub(r"@(\w+)@", lambda m: self.one(m.group(1)), t)

    def one(self, n):
        if n in self.lits:
            return n
        if n not in self.m:
            c = chr(0xE000 + len(self.m))
            if len(self.m) >= 0xFFF:
                raise ValueError("too many names")
            self.m[n] = c
            self.r[c] = n
        return self.m[n]

    def render(self, t):
        def f(m):
            c = m.group(0)
            if c in self.r:
                return self.r[c]
            o = ord(c)
            if 0x108000 <= o:
                return self.r[chr(o - 0x108000 + 0xE000)].upper()
            if 0x100000 <= o:
                return self.r[chr(o - 0x100000 + 0xE000)].lower()
            return c
        return re.sub("[\ue000-\uefff\U00100000-\U0010ffff]", f, t)


# ---------------------------------------------------------------- the catalogue
U32, I32, U64, I64 = ("int", "u32"), ("int", "i32"), ("int", "u64"), ("int", "i64")
F32, F64, BOOL = ("int", "f32"), ("int", "f64"), ("bool",)
OPQ, STRG = ("opaque", None), ("string", None)
PRIMS = [("u32", U32), ("i32", I32), ("u64", U64), ("i64", I64), ("f32", F32), ("f64", F64), ("bool", BOOL)]
SPELLINGS = [("uint32_t", ("int", "u32", "uint32_t")), ("int32_t", ("int", "i32", "int32_t")), ("uint64_t", ("int", "u64", "uint64_t")),
             ("int64_t", ("int", "i64", "int64_t")), ("u32", ("int", "u32", "u32")), ("i32", ("int", "i32", "i32")), ("u64", ("int", "u64", "u64")),
             ("i64", ("int", "i64", "i64")), ("unsigned", ("int", "u32", "unsigned"))]


class Pool:
    """builds fragments with fresh names"""

    def __init__(self):
        self.n = 0
        self.out = []

    def fresh(self):
        self.n += 1
        return "F%d" % self.n

    def helpers(self, p):
        """declared types to refer to, one per kind: (label, T, decls)"""
        H = []
        H.append(("struct", p + "St", [Struct(p + "St", [("hx", U32), ("hy", U64)])]))
        H.append(("opaque struct", p + "Gs", [Struct(p + "Gs", [("hg", OPQ)])]))
        H.append(("enum", p + "En", [Enum(p + "En", [(p + "EA", "1"), (p + "EB", "7")])]))
        H.append(("union", p + "Un", [Union(p + "Un", U32, [(["3"], ("named", p + "Ux")), (["4"], None)]), Struct(p + "Ux", [("ux", I32)])]))
        H.append(("opaque union", p + "Gu", [Union(p + "Gu", U32, [(["3"], ("named", p + "Gx")), (["4"], None)]), Struct(p + "Gx", [("gx", OPQ)])]))
        H.append(("typedef of u32", p + "Tu", [Typedef(p + "Tu", U32)]))
        H.append(("typedef of opaque", p + "To", [Typedef(p + "To", OPQ)]))
        H.append(("typedef of string", p + "Ts", [Typedef(p + "Ts", STRG)]))
        H.append(("typedef of struct", p + "Td", [Typedef(p + "Td", ("named", p + "Tx")), Struct(p + "Tx", [("tx", U32)])]))
        H.append(("typedef of opaque struct", p + "Tg", [Typedef(p + "Tg", ("named", p + "Tz")), Struct(p + "Tz", [("tz", OPQ)])]))
        H.append(("typedef of typedef", p + "Tt", [Typedef(p + "Tt", ("named", p + "Tw")), Typedef(p + "Tw", U64)]))
        H.append(("typedef of typedef of opaque", p + "Tp", [Typedef(p + "Tp", ("named", p + "Tq")), Typedef(p + "Tq", OPQ)]))
        H.append(("typedef of array", p + "Ta", [Typedef(p + "Ta", ("var", ("named", p + "Tb"), None)), Struct(p + "Tb", [("tb", U32)])]))
        H.append(("typedef of opaque array", p + "Tk", [Typedef(p + "Tk", ("var", ("named", p + "Tl"), "3")), Struct(p + "Tl", [("tl", OPQ)])]))
        H.append(("typedef of enum", p + "Te", [Typedef(p + "Te", ("named", p + "Tc")), Enum(p + "Tc", [(p + "TA", "4"), (p + "TB", "6")])]))
        H.append(("typedef of union", p + "Tn", [Typedef(p + "Tn", ("named", p + "Tm")), Union(p + "Tm", I32, [(["2"], ("named", p + "Tj")), (["8"], None)]), Struct(p + "Tj", [("tj", U64)])]))
        H.append(("typedef of fixed opaque", p + "Th", [Typedef(p + "Th", ("opaquef", 6))]))
        H.append(("third typedef of a struct", p + "T1", [Typedef(p + "T1", ("named", p + "T2")), Typedef(p + "T2", ("named", p + "T3")), Typedef(p + "T3", ("named", p + "T4")), Struct(p + "T4", [("t4", I32), ("t5", I32)])]))
        H.append(("typedef of typedef of array", p + "T6", [Typedef(p + "T6", ("named", p + "T7")), Typedef(p + "T7", ("var", ("named", p + "T8"), None)), Struct(p + "T8", [("t8", I32)])]))
        return H

    def add(self, key, decls, consts=(), **kw):
        self.out.append(Fragment(key, decls, consts, **kw))

    def nhelpers(self):
        return len(self.helpers(""))


def leaf_types(p):
    """(label, T, consts, decls) of every non-array declarator of built-in type"""
    L = []
    for n, t in PRIMS:
        L.append((n, t, [], []))
    L.append(("opaque<>", OPQ, [], []))
    L.append(("opaque bare", ("opaque", None, "bare"), [], []))
    L.append(("opaque<n>", ("opaque", 10), [], []))
    L.append(("opaque<const>", ("opaque", p + "MX"), [(p + "MX", "9")], []))
    L.append(("opaque[n]", ("opaquef", 5), [], []))
    L.append(("opaque[4k]", ("opaquef", 8), [], []))
    L.append(("opaque[const]", ("opaquef", p + "FX"), [(p + "FX", "6")], []))
    L.append(("string<>", STRG, [], []))
    L.append(("string bare", ("string", None, "bare"), [], []))
    L.append(("string<n>", ("string", 10), [], []))
    L.append(("string<const>", ("string", p + "SX"), [(p + "SX", "11")], []))
    return L


def catalogue(deep=False):
    P = Pool()

    def helper(i):
        p = P.fresh()
        return (p,) + P.helpers(p)[i]

    # ---- struct fields
    for i in range(len(leaf_types(""))):
        p = P.fresh()
        lab, T, cs, ds = leaf_types(p)[i]
        P.add("struct field %s" % lab, [Struct(p + "S", [("fa", U32), ("fb", T), ("fc", I64)]), Struct(p + "L", [("fd", T)])] + ds, cs)
    for lab, T in SPELLINGS:
        p = P.fresh()
        P.add("struct field spelled %s" % lab, [Struct(p + "S", [("fa", T), ("fb", BOOL)])])
    for i in range(P.nhelpers()):
        p, lab, n, ds = helper(i)
        P.add("struct field %s" % lab, ds + [Struct(p + "S", [("fa", U32), ("fb", ("named", n)), ("fc", I32)])], tests={p + "S"})
        p, lab, n, ds = helper(i)
        P.add("optional %s" % lab, ds + [Struct(p + "S", [("fa", ("opt", ("named", n))), ("fb", U32)])], tests={p + "S"})
        p, lab, n, ds = helper(i)
        P.add("array<> of %s" % lab, ds + [Struct(p + "S", [("fa", ("var", ("named", n), None)), ("fb", U32)])], tests={p + "S"})
        p, lab, n, ds = helper(i)
        P.add("array<n> of %s" % lab, ds + [Struct(p + "S", [("fa", ("var", ("named", n), 2))])], tests={p + "S"})
        p, lab, n, ds = helper(i)
        P.add("array[n] of %s" % lab, ds + [Struct(p + "S", [("fa", ("fix", ("named", n), 2)), ("fb", U64)])], tests={p + "S"})
    for i in (0, 1, 5):
        p, lab, n, ds = helper(i)
        P.add("array<const> of %s" % lab, ds + [Struct(p + "S", [("fa", ("var", ("named", n), p + "AX")), ("fb", U32)])], [(p + "AX", "2")], tests={p + "S"})
        p, lab, n, ds = helper(i)
        P.add("array[const] of %s" % lab, ds + [Struct(p + "S", [("fa", ("fix", ("named", n), p + "AX")), ("fb", U32)])], [(p + "AX", "3")], tests={p + "S"})
    for lab, T in PRIMS:
        p = P.fresh()
        P.add("array[n] of %s" % lab, [Struct(p + "S", [("fa", ("fix", T, 3)), ("fb", U32)])])
    for lab, T in PRIMS:
        p = P.fresh()
        P.add("optional %s" % lab, [Struct(p + "S", [("fa", ("opt", T)), ("fb", U32)])])
    for n in (1, 17):
        p = P.fresh()
        P.add("array[%d] of i32" % n, [Struct(p + "S", [("fa", ("fix", I32, n)), ("fb", U32)])])
    p = P.fresh()
    P.add("array[const] of u32", [Struct(p + "S", [("fa", ("fix", U32, p + "PX")), ("fb", BOOL)])], [(p + "PX", "2")])
    for n in range(1, 10):
        p = P.fresh()
        P.add("opaque[%d]" % n, [Struct(p + "S", [("fa", ("opaquef", n)), ("fb", U32)])])
    p = P.fresh()
    P.add("empty struct", [Struct(p + "S", [])])
    p = P.fresh()
    P.add("struct of several opaques", [Struct(p + "S", [("fa", OPQ), ("fb", STRG), ("fc", ("opaquef", 3))])])
    p = P.fresh()
    P.add("struct of many fields", [Struct(p + "S", [("f%d" % i, [U32, I32, U64, BOOL, F32, F64, I64][i % 7]) for i in range(12)])])
    # ---- recursion
    p = P.fresh()
    P.add("recursion: optional self", [Struct(p + "S", [("fa", U32), ("fb", ("opt", ("named", p + "S")))])])
    p = P.fresh()
    P.add("recursion: optional self with opaque", [Struct(p + "S", [("fa", OPQ), ("fb", ("opt", ("named", p + "S")))])])
    p = P.fresh()
    P.add("recursion: mutual optional", [Struct(p + "A", [("fa", ("opt", ("named", p + "B")))]), Struct(p + "B", [("fb", ("opt", ("named", p + "A"))), ("fc", ("opaque", 8))])])
    p = P.fresh()
    P.add("recursion: array of self", [Struct(p + "S", [("fa", U32), ("fb", ("var", ("named", p + "S"), None))])])
    p = P.fresh()
    P.add("recursion: through a union", [Struct(p + "S", [("fa", ("opt", ("named", p + "U")))]), Union(p + "U", U32, [(["1"], ("named", p + "S")), (["2"], None)])])
    # ---- typedefs
    for i in range(len(leaf_types(""))):
        p = P.fresh()
        lab, T, cs, ds = leaf_types(p)[i]
        P.add("typedef of %s" % lab, [Typedef(p + "T", T)] + ds, cs)
    for lab, T in SPELLINGS[:4]:
        p = P.fresh()
        P.add("typedef spelled %s" % lab, [Typedef(p + "T", T)])
    for i in range(P.nhelpers()):
        p, lab, n, ds = helper(i)
        P.add("typedef of %s" % lab, ds + [Typedef(p + "T", ("named", n))], tests={p + "T"})
        p, lab, n, ds = helper(i)
        P.add("typedef of array<> of %s" % lab, ds + [Typedef(p + "T", ("var", ("named", n), None))], tests={p + "T"})
        p, lab, n, ds = helper(i)
        P.add("typedef of array<n> of %s" % lab, ds + [Typedef(p + "T", ("var", ("named", n), 2))], tests={p + "T"})
        p, lab, n, ds = helper(i)
        P.add("typedef of array[n] of %s" % lab, ds + [Typedef(p + "T", ("fix", ("named", n), 2))], tests={p + "T"})
    for i in (0, 1, 5):
        p, lab, n, ds = helper(i)
        P.add("typedef of array<const> of %s" % lab, ds + [Typedef(p + "T", ("var", ("named", n), p + "AX"))], [(p + "AX", "2")], tests={p + "T"})
    for lab, T in PRIMS:
        p = P.fresh()
        P.add("typedef of array[n] of %s" % lab, [Typedef(p + "T", ("fix", T, 3))])
    # ---- enums
    p = P.fresh()
    P.add("enum", [Enum(p + "E", [(p + "A", "1"), (p + "B", "2")])])
    p = P.fresh()
    P.add("enum, one member 0", [Enum(p + "E", [(p + "A", "0")])])
    p = P.fresh()
    P.add("enum, sparse and unordered", [Enum(p + "E", [(p + "A", "70"), (p + "B", "0"), (p + "C", "10001"), (p + "D", "2147483647"), (p + "F", "3")])])
    p = P.fresh()
    P.add("enum, hex", [Enum(p + "E", [(p + "A", "0x10"), (p + "B", "0x7fffffff"), (p + "C", "0xA"), (p + "D", "12")])])
    p = P.fresh()
    P.add("enum, const member", [Enum(p + "E", [(p + "A", p + "CA"), (p + "B", "2")])], [(p + "CA", "5")], supported=False)
    # ---- unions: arm types
    for i in range(len(leaf_types(""))):
        p = P.fresh()
        lab, T, cs, ds = leaf_types(p)[i]
        arr = T[0] in ("opaque", "string", "opaquef") and len(T) < 3
        P.add("union arm %s" % lab, [Union(p + "U", U32, [(["1"], T), (["2"], None)])] + ds, cs, supported=not arr)
        p = P.fresh()
        lab, T, cs, ds = leaf_types(p)[i]
        P.add("union default arm %s" % lab, [Union(p + "U", U32, [(["2"], None)], T)] + ds, cs, supported=not arr)
    for lab, T in SPELLINGS[:4]:
        p = P.fresh()
        P.add("union arm spelled %s" % lab, [Union(p + "U", U32, [(["1"], T)])])
    for i in range(P.nhelpers()):
        p, lab, n, ds = helper(i)
        P.add("union arm %s" % lab, ds + [Union(p + "U", I32, [(["1"], ("named", n)), (["5"], None)])], tests={p + "U"})
        p, lab, n, ds = helper(i)
        P.add("union default arm %s" % lab, ds + [Union(p + "U", I32, [(["1"], None)], ("named", n))], tests={p + "U"})
    # ---- unions: switches and labels
    W = lambda p: ("named", p + "W")
    WD = lambda p: [Struct(p + "W", [("wx", U32), ("wy", U32)])]
    for lab, T in (("u32", U32), ("i32", I32)):
        for lk, mk in (("literal", lambda p: ("3", [])), ("const", lambda p: (p + "C", [(p + "C", "12")])), ("hex const", lambda p: (p + "C", [(p + "C", "0x1F")])),
                       ("literal 0", lambda p: ("0", []))):
            for dk, dv in (("no default", None), ("void default", "void"), ("data default", 1)):
                p = P.fresh()
                l, cs = mk(p)
                P.add("union switch %s, label %s, %s" % (lab, lk, dk), WD(p) + [Union(p + "U", T, [([l], W(p)), (["40"], None)], W(p) if dv == 1 else dv)], cs, tests={p + "U"})
    for dk, dv in (("no default", None), ("void default", "void"), ("data default", 1)):
        for ls in (["TRUE"], ["FALSE"], ["TRUE", "FALSE"]):
            for void in (False, True):
                p = P.fresh()
                arms = [([l], None if void else W(p)) for l in ls]
                if len(ls) == 2:
                    arms[1] = (arms[1][0], W(p) if void else None)
                P.add("union switch bool, %s %s, %s" % ("void" if void else "data", "+".join(ls), dk), WD(p) + [Union(p + "U", BOOL, arms, W(p) if dv == 1 else dv)], tests={p + "U"})
    for dk, dv in (("no default", None), ("void default", "void"), ("data default", 1)):
        for sw in ("enum", "typedef of enum", "u32", "i32"):
            p = P.fresh()
            en = Enum(p + "E", [(p + "A", "1"), (p + "B", "2"), (p + "C", "9")])
            ds = WD(p) + [en]
            if sw == "enum":
                T = ("named", p + "E")
            elif sw == "typedef of enum":
                ds.append(Typedef(p + "T", ("named", p + "E")))
                T = ("named", p + "T")
            else:
                T = U32 if sw == "u32" else I32
            P.add("union switch %s, member labels, %s" % (sw, dk), ds + [Union(p + "U", T, [([p + "A"], W(p)), ([p + "C"], None)], W(p) if dv == 1 else dv)], tests={p + "U"})
            p = P.fresh()
            en = Enum(p + "E", [(p + "A", "1"), (p + "B", "2"), (p + "C", "9")])
            ds = WD(p) + [en]
            if sw == "enum":
                T = ("named", p + "E")
            elif sw == "typedef of enum":
                ds.append(Typedef(p + "T", ("named", p + "E")))
                T = ("named", p + "T")
            P.add("union switch %s, all members, %s" % (sw, dk), ds + [Union(p + "U", T, [([p + "A"], W(p)), ([p + "B", p + "C"], ("named", p + "W"))], W(p) if dv == 1 else dv)], tests={p + "U"})
    for dk, dv in (("no default", None), ("void default", "void")):
        for lab, T in (("u32", U32), ("i32", I32), ("bool", BOOL)):
            p = P.fresh()
            ls = (["1"], ["2"]) if lab != "bool" else (["TRUE"], ["FALSE"])
            P.add("union switch typedef of %s, %s" % (lab, dk), WD(p) + [Typedef(p + "T", T), Union(p + "U", ("named", p + "T"), [(ls[0], W(p)), (ls[1], None)], dv)], tests={p + "U"})
    for lab, T in SPELLINGS:
        if T[1] in ("u32", "i32"):
            p = P.fresh()
            P.add("union switch spelled %s" % lab, WD(p) + [Union(p + "U", T, [(["1"], W(p)), (["2"], None)], "void")], tests={p + "U"})
    for w in ("v", "d", "n", "len", "type", "match", "self"):
        p = P.fresh()
        P.add("discriminant called %s" % w, WD(p) + [Union(p + "U", I32, [(["1"], W(p)), (["2", "3"], None)], None, var=w), Union(p + "V", BOOL, [(["TRUE"], W(p)), (["FALSE"], None)], None, var=w)], tests={p + "U", p + "V"}, lits={w})
        p = P.fresh()
        P.add("field called %s" % w, WD(p) + [Struct(p + "S", [("fa", U32), (w, OPQ), ("fc", ("opt", W(p)))]), Struct(p + "R", [(w, ("var", W(p), None)), ("fz", I32)])], tests={p + "S", p + "R"}, lits={w})
    # groups and voids
    for lab, arms in (("group of 3", lambda p: [(["1", "2", "3"], W(p))]),
                      ("void group of 3", lambda p: [(["1", "2", "3"], None), (["7"], W(p))]),
                      ("group after single", lambda p: [(["9"], W(p)), (["1", "2"], W(p))]),
                      ("group then void group", lambda p: [(["1", "2"], W(p)), (["3", "4"], None)]),
                      ("void group then group", lambda p: [(["3", "4"], None), (["1", "2"], W(p)), (["5"], None)]),
                      ("two groups", lambda p: [(["1", "2"], W(p)), (["3", "4", "5"], ("named", p + "V"))]),
                      ("only voids", lambda p: [(["1"], None), (["2"], None)]),
                      ("one arm", lambda p: [(["1"], W(p))]),
                      ("large labels", lambda p: [(["2147483647"], W(p)), (["65536"], None)]),
                      ("unordered", lambda p: [(["9"], None), (["1"], W(p)), (["5"], ("named", p + "V")), (["0"], None)])):
        for dk, dv in (("no default", None), ("void default", "void"), ("data default", 1)):
            p = P.fresh()
            P.add("union arms: %s, %s" % (lab, dk), WD(p) + [Struct(p + "V", [("vx", OPQ)]), Union(p + "U", U32, arms(p), W(p) if dv == 1 else dv)], tests={p + "U"})
    for dk, dv in (("void default", "void"), ("data default", 1)):
        for pos in (0, 1):
            p = P.fresh()
            P.add("union %s at position %d, void after" % (dk, pos), WD(p) + [Union(p + "U", U32, [(["1"], W(p)), (["2"], None), (["3"], W(p))], W(p) if dv == 1 else dv, default_pos=pos)], tests={p + "U"})
    p = P.fresh()
    P.add("union labels: mixed const, literal and member", WD(p) + [Enum(p + "E", [(p + "A", "21"), (p + "B", "22")]), Union(p + "U", U32, [([p + "C", "4"], W(p)), ([p + "A"], None), ([p + "B", p + "D"], W(p))])],
          [(p + "C", "3"), (p + "D", "0x40")], tests={p + "U"})
    for n in (20, 40) + ((70,) if deep else ()):
        ns = [str(3 * i + 1) for i in range(n)]
        p = P.fresh()
        P.add("group of %d labels" % n, WD(p) + [Union(p + "U", U32, [(ns, W(p)), (["2"], None)])], tests={p + "U"})
        p = P.fresh()
        P.add("void group of %d labels" % n, WD(p) + [Union(p + "U", I32, [(["2"], W(p)), (ns, None)], W(p))], tests={p + "U"})
        p = P.fresh()
        P.add("union of %d arms" % n, WD(p) + [Union(p + "U", U32, [([l], W(p) if i % 3 else None) for i, l in enumerate(ns)])], tests={p + "U"})
        p = P.fresh()
        P.add("enum of %d members" % n, [Enum(p + "E", [(p + "A%d" % i, l) for i, l in enumerate(ns)])])
        p = P.fresh()
        P.add("switch over an enum of %d members" % n, WD(p) + [Enum(p + "E", [(p + "A%d" % i, l) for i, l in enumerate(ns)]), Union(p + "U", ("named", p + "E"), [([p + "A%d" % i], None if i % 5 else W(p)) for i in range(n)], None)], tests={p + "U"})
        p = P.fresh()
        P.add("struct of %d fields" % n, [Struct(p + "S", [("f%d" % i, [U32, I32, U64, F64][i % 4] if i != n // 2 else BOOL) for i in range(n)])])
        p = P.fresh()
        P.add("array[%d] of u32" % n, [Struct(p + "S", [("fa", ("fix", U32, n)), ("fb", U64)])])
        p = P.fresh()
        P.add("opaque[%d]" % n, [Struct(p + "S", [("fa", ("opaquef", n)), ("fb", U64)]), Struct(p + "R", [("fa", ("opaque", n)), ("fb", ("string", n + 1))])])
    p = P.fresh()
    P.add("union label group falling into default", WD(p) + [Union(p + "U", U32, [(["1"], None)], W(p)) ], tests={p + "U"})
    return P.out
