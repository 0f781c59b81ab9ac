"""C07: accepted specifications yield a module that compiles, with the documented API.

The text of the module comes from interpreting Generator::generate; rustc type-checks it together
with witness items written from the declarations alone (names, field and payload types, variants,
parameters, trait impls, distinctness), so a module that deviates does not build."""
import os
import random
import re

import naming
import probes
import spec as S
from emit import Emitter
from gen import Lib
from generic import acyclic, generic_names, shapes, uses

U32, I32, U64, OPQ = S.U32, S.I32, S.U64, S.OPQ

DERIVES = [("default", None), ("+Clone", "#[derive(Debug, Clone, PartialEq)]")]
MORE = [("+Clone, PartialOrd", "#[derive(PartialOrd, Clone, Debug, PartialEq)]"), ("Debug only", "#[derive(Debug)]")]


def traits(derive):
    t = re.findall(r"\w+", derive or "#[derive(Debug, PartialEq)]")[1:]
    return [x if x != "Debug" else "core::fmt::Debug" for x in t]


# ------------------------------------------------------------------ the documented shape, as Rust
class Shape:
    def __init__(self, frags):
        self.decls = [d for f in frags for d in f.decls]
        self.consts = {n: S.number(v) for f in frags for n, v in f.consts}
        self.generic = generic_names(self.decls)

    def num(self, x):
        v = S.number(x)
        return self.consts.get(v, v)

    def inst(self, n, p="Bytes"):
        return "xdr::%s%s" % (n, "<%s>" % p if n in self.generic else "")

    def ty(self, T, p="Bytes"):
        k = T[0]
        if k == "int":
            return T[1]
        if k == "bool":
            return "bool"
        if k in ("opaque", "opaquef"):
            return p
        if k == "string":
            return "String"
        if k == "named":
            return self.inst(T[1], p)
        if k == "opt":
            return "Option<Box<%s>>" % self.ty(T[1], p)
        if k == "var":
            return "Vec<%s>" % self.ty(T[1], p)
        if k == "fix":
            return "[%s; %s]" % (self.ty(T[1], p), self.num(T[2]))
        raise ValueError(T)

    def variants(self, d):
        """[(variant, payload type | None)]"""
        out = [(naming.variant_name(l), T) for ls, T in d.arms for l in ls]
        out += [(naming.variant_name(l), None if d.default == "void" else d.default) for l in getattr(d, "default_labels", ())]
        if d.default is not None:
            out.append(("default", None if d.default == "void" else d.default))
        return out

    def impls(self, d, derive, p="Bytes"):
        t = self.inst(d.name, p)
        L = ["fn i_%s() { decodes::<%s>(); }" % (d.name, t)]
        for b in traits(derive):
            L.append("fn d%s_%s() { fn has<X: %s>() {} has::<%s>(); }" % (re.sub(r"\W", "", b), d.name, b, t))
        L.append("impl Distinct for %s {}" % t)
        if d.name in self.generic:
            L.append("fn g_%s<P: AsRef<[u8]> + core::fmt::Debug>(_: %s) {}" % (d.name, self.inst(d.name, "P")))
            L.append("fn h_%s(x: &%s) { g_%s::<Vec<u8>>; }" % (d.name, self.inst(d.name, "&'static [u8]"), d.name))
        return L

    def witness(self, d, derive, p="Bytes"):
        t = self.inst(d.name, p)
        L = self.impls(d, derive)
        if d.kind == "struct":
            fs = [(naming.field_name(f), self.ty(T, p)) for f, T in d.fields]
            args = ", ".join("f%d: %s" % (i, y) for i, (_, y) in enumerate(fs))
            names = ", ".join("%s: f%d" % (f, i) for i, (f, _) in enumerate(fs))
            L.append("fn c_%s(%s) -> %s { xdr::%s { %s } }" % (d.name, args, t, d.name, names))
            L.append("fn m_%s(x: %s) { let xdr::%s { %s } = x; %s }" % (d.name, t, d.name, ", ".join("%s: f%d" % (f, i) for i, (f, _) in enumerate(fs)), " ".join("let _: %s = f%d;" % (y, i) for i, (_, y) in enumerate(fs))))
        elif d.kind == "typedef":
            y = self.ty(d.type, p)
            L.append("fn c_%s(x: %s) -> %s { xdr::%s(x) }" % (d.name, y, t, d.name))
            L.append("fn m_%s(x: %s) -> %s { let xdr::%s(y) = x; y }" % (d.name, t, y, d.name))
        elif d.kind == "enum":
            L.append("fn m_%s(x: %s) { match x { %s } }" % (d.name, t, " ".join("xdr::%s::%s => (), " % (d.name, naming.member_name(m)) for m, _ in d.members)))
        else:
            vs = self.variants(d)
            for i, (v, T) in enumerate(vs):
                if T is None:
                    L.append("fn c%d_%s() -> %s { xdr::%s::%s }" % (i, d.name, t, d.name, v))
                else:
                    L.append("fn c%d_%s(x: %s) -> %s { xdr::%s::%s(x) }" % (i, d.name, self.ty(T, p), t, d.name, v))
            L.append("fn m_%s(x: %s) { match x { %s } }" % (d.name, t, " ".join(
                "xdr::%s::%s => (), " % (d.name, v) if T is None else "xdr::%s::%s(y) => { let _: %s = y; } " % (d.name, v, self.ty(T, p)) for v, T in vs)))
        return L


PRE = """pub mod witness {
use super::xdr;
use fastxdr::bytes::Bytes;
use std::convert::TryFrom;
trait Distinct {}
fn decodes<X>() where X: TryFrom<Bytes, Error = xdr::Error> + for<'a> TryFrom<&'a mut Bytes, Error = xdr::Error> + xdr::WireSize {}"""


def selfdef(d):
    return d.kind == "typedef" and d.type[0] == "named" and d.type[1] == d.name


def extra(derive):
    def f(u):
        sh = Shape(u.frags)
        L = [PRE]
        for g in u.frags:
            for d in g.decls:
                if not selfdef(d):
                    L += sh.witness(d, derive)
            for n, v in g.consts:
                L.append("fn k_%s() -> u32 { xdr::%s }" % (n, n))
        return "\n".join(L) + "\n}"
    return f


# ------------------------------------------------------------------ families
WORDS = sorted(naming.RESERVED - {"const", "enum", "struct", "union", "typedef", "switch", "case", "default", "void"})


def rename(ds, p):
    """a declaration list with every declared name prefixed"""
    m = {d.name: p + d.name for d in ds}

    def rn(T):
        if isinstance(T, tuple):
            return (T[0], m.get(T[1], T[1])) if T[0] == "named" else tuple(rn(x) for x in T)
        return T
    es = []
    for d in ds:
        if d.kind == "struct":
            es.append(S.Struct(m[d.name], [(f, rn(T)) for f, T in d.fields]))
        elif d.kind == "union":
            es.append(S.Union(m[d.name], rn(d.switch_type), [(l, rn(T)) for l, T in d.arms], rn(d.default), var=d.var))
        elif d.kind == "typedef":
            es.append(S.Typedef(m[d.name], rn(d.type)))
        else:
            es.append(S.Enum(m[d.name], [(p + x, v) for x, v in d.members]))
    return es


def names(P):
    """names of fields, labels and constants"""
    for w in WORDS:
        p = P.fresh()
        P.add("field named %s" % w, [S.Struct(p + "S", [("fa", U32), (w, U32), ("fb", OPQ)]), S.Struct(p + "R", [(w, ("opt", ("named", p + "R")))]), S.Struct(p + "Q", [(w, ("named", p + "S")), ("fc", ("var", ("named", p + "S"), None))])], lits={w})
    p = P.fresh()
    P.add("fields named by every reserved word", [S.Struct(p + "S", [(w, [U32, S.STRG, OPQ, ("fix", I32, 2), S.BOOL][i % 5]) for i, w in enumerate(WORDS)])], lits=set(WORDS))
    loc = ["v", "n", "t", "d", "x", "f", "b", "e", "i", "value", "buf", "len", "length", "max", "size", "out", "res", "rest", "sum", "error", "default", "self_", "inner", "bytes", "source", "_x", "A", "Z9", "fieldName", "CamelCase", "UPPER_CASE",
           "string_", "intx", "u32x", "opaque_data", "unsigned_x", "hyperspace", "from", "Ok", "Err", "Some", "None", "Vec", "String", "Box", "Bytes", "Error", "Result", "WireSize", "T"]
    loc = [w for w in loc if w != "default"]
    for i in range(0, len(loc), 8):
        p = P.fresh()
        ws = loc[i:i + 8]
        P.add("fields named %s" % ", ".join(ws), [S.Struct(p + "S", [(w, [U32, OPQ, ("opt", ("named", p + "E")), ("var", ("named", p + "E"), 4)][j % 4]) for j, w in enumerate(ws)]), S.Struct(p + "E", [(w, U32) for w in ws]),
                                                  S.Union(p + "U", U32, [(["1"], ("named", p + "S"))], None, var=ws[0] if ws[0] != "None" else "Vec")], lits=set(ws))
    for w in WORDS + ["v", "d", "n", "value", "type_", "disc", "status", "Kind"]:
        p = P.fresh()
        P.add("discriminant named %s" % w, [S.Union(p + "U", U32, [(["1"], ("named", p + "W")), (["2"], None)], ("named", p + "W"), var=w), S.Union(p + "B", S.BOOL, [(["TRUE"], ("named", p + "W"))], None, var=w),
                                            S.Union(p + "D", ("named", p + "E"), [([p + "A"], ("named", p + "W"))], "void", var=w), S.Enum(p + "E", [(p + "A", "1"), (p + "C", "2")]), S.Struct(p + "W", [("wx", OPQ)])], lits={w})
    for ls in (["0"], ["7"], ["10", "11"], ["0x10"], ["0", "1", "2", "3"], ["4294967295"], ["2147483648", "5"]):
        for dk, dv in (("", None), (" and void default", "void"), (" and data default", ("named", "W"))):
            for void in (False, True):
                p = P.fresh()
                dv2 = ("named", p + "W") if isinstance(dv, tuple) else dv
                P.add("%sdigit labels %s%s" % ("void " if void else "", "+".join(ls), dk), [S.Union(p + "U", U32, [(ls, None if void else ("named", p + "W")), (["99"], ("named", p + "W"))], dv2), S.Struct(p + "W", [("wx", OPQ)])],
                      supported=not ls[0].startswith("0x"))
    p = P.fresh()
    P.add("constants", [S.Struct(p + "S", [("fa", ("opaque", p + "A")), ("fb", ("fix", U32, p + "B"))])], [(p + "A", "4294967295"), (p + "B", "0x10"), (p + "C", "0"), (p + "D", "0xffffffff")])


def labels(P):
    """label groups that fall through, into default, and mixtures of kinds of label"""
    W = lambda p: ("named", p + "W")
    for sw in ("u32", "enum", "bool"):
        for n in (1, 2, 3):
            p = P.fresh()
            if sw == "bool" and n > 2:
                continue
            ls = {"u32": ["1", "2", "3"], "enum": [p + "A", p + "B", p + "C"], "bool": ["TRUE", "FALSE"]}[sw]
            T = {"u32": U32, "enum": ("named", p + "E"), "bool": S.BOOL}[sw]
            ds = [S.Struct(p + "W", [("wx", OPQ)]), S.Struct(p + "V", [("vx", U64)])]
            if sw == "enum":
                ds.append(S.Enum(p + "E", [(p + "A", "1"), (p + "B", "2"), (p + "C", "3")]))
            arms = [([l], [W(p), None, ("named", p + "V")][i]) for i, l in enumerate(ls[:n])]
            for dk, dv in (("", None), (", void default", "void"), (", generic default", W(p)), (", plain default", ("named", p + "V")), (", string default", ("string", None, "bare")), (", opaque default", ("opaque", None, "bare"))):
                q = P.fresh()
                m = lambda T: T if not isinstance(T, tuple) or T[0] != "named" else ("named", T[1].replace(p, q, 1))
                es = rename(ds, "")
                es = [S.Struct(d.name.replace(p, q, 1), d.fields) if d.kind == "struct" else S.Enum(d.name.replace(p, q, 1), [(a.replace(p, q, 1), v) for a, v in d.members]) for d in ds]
                P.add("%d %s arms%s" % (n, sw, dk), es + [S.Union(q + "U", m(T), [([l.replace(p, q, 1) for l in a], m(t)) for a, t in arms], m(dv) if isinstance(dv, tuple) else dv)])


FACTOR = {"int": 1, "bool": 3, "opaque": 8, "string": 10, "opaquef": 2, "named": 2, "opt": 4, "var": 8}


def paths(T, mem=()):
    """rough number of paths through the decoder of a field"""
    if T[0] == "var" and T[1][1] in mem:
        return 40
    if T[0] == "fix":
        return 3 if T[1][0] == "int" else 40
    return FACTOR[T[0]]


def mixed(P, n, seed, limit=None):
    """larger specifications: declarations of every kind using each other in any order"""
    rnd = random.Random(7000 + seed)
    for k in range(n):
        p = P.fresh()
        nd = rnd.randint(4, 12)
        nms = [p + "%s" % "abcdefghijklmnop"[i] for i in range(nd)]
        kinds = {x: rnd.choice(["struct", "struct", "union", "typedef", "enum"]) for x in nms}
        consts = [(p + "K%d" % i, str(rnd.choice([1, 3, 8, 17]))) for i in range(rnd.randint(0, 2))]
        order = {x: i for i, x in enumerate(nms)}

        def num():
            return rnd.choice([c for c, _ in consts]) if consts and rnd.random() < .4 else rnd.randint(1, 9)

        def prim():
            return rnd.choice([U32, I32, U64, S.I64, S.F32, S.F64, S.BOOL, S.STRG, OPQ, ("opaque", num()), ("opaquef", num()), ("string", num())] + [t for _, t in S.SPELLINGS])

        def later(x):
            return [y for y in nms if order[y] > order[x]]

        def ty(x, arrays=True):
            ls = later(x)
            r = rnd.random()
            if r < .45 or not ls:
                t = prim()
                if arrays and r < .08 and t[0] == "int":
                    return ("fix", t, num())
                return t
            y = ("named", rnd.choice(ls))
            if not arrays:
                return y
            if r < .6:
                return y
            if r < .7:
                return ("opt", y)
            if r < .8:
                return ("var", y, rnd.choice([None, num()]))
            if r < .9:
                return ("fix", y, num() if limit is None else rnd.randint(1, 2))
            return ("opt", ("named", rnd.choice(nms))) if limit is None else ("opt", y)
        ds = []
        mem = {}
        for x in nms:
            if kinds[x] == "enum":
                mem[x] = [(x + "M%d" % i, str(v)) for i, v in enumerate(rnd.sample(range(40), rnd.randint(1, 4)))]
        for x in nms:
            kd = kinds[x]
            if kd == "enum":
                ds.append(S.Enum(x, mem[x]))
            elif kd == "struct":
                fs = [("f%d" % i, ty(x)) for i in range(rnd.randint(0, 6))]
                w = 1
                keep = []
                for f in fs:
                    w *= paths(f[1], mem)
                    if limit is not None and w > limit:
                        break
                    keep.append(f)
                ds.append(S.Struct(x, keep))
            elif kd == "typedef":
                t = ty(x)
                ds.append(S.Typedef(x, t[1] if t[0] == "opt" else t))
            else:
                es = [y for y in later(x) if y in mem]
                r = rnd.random()
                if es and r < .4:
                    e = rnd.choice(es)
                    sw, ls = ("named", e), [m for m, _ in mem[e]]
                elif r < .6:
                    sw, ls = S.BOOL, rnd.choice([["TRUE"], ["FALSE"], ["TRUE", "FALSE"]])
                else:
                    sw, ls = rnd.choice([U32, I32]), [str(i) for i in rnd.sample(range(100), rnd.randint(1, 5))]
                arms = []
                while ls:
                    g, ls = ls[:1 + (rnd.random() < .3)], None or ls[1 + (len(ls[:1]) and 0):]
                    ls = [l for l in ls if l not in g]
                    t = ty(x, False)
                    if t[0] in ("opaque", "string"):
                        t = (t[0], None, "bare") if limit is None else ("string", None, "bare")
                    arms.append((g, None if rnd.random() < .3 or t[0] == "opaquef" else t))
                d = rnd.choice([None, "void", 1])
                if d == 1:
                    d = ty(x, False)
                    if d[0] in ("opaque", "string", "opaquef"):
                        d = ("opaque", None, "bare") if limit is None else ("string", None, "bare")
                if not any(t for _, t in arms) and d in (None, "void"):
                    arms[0] = (arms[0][0], U32)
                ds.append(S.Union(x, sw, arms, d))
        if not acyclic(ds):
            continue
        rnd.shuffle(ds)
        P.add("mixed specification %d (seed %d)" % (k, seed), ds, consts)


def graphs(P, deep, seed):
    k = 0
    for key, ds in shapes(deep, seed):
        k += 1
        if key.startswith(("random", "graph")) and k % (4 if deep else 40):
            continue
        if key.startswith(("chain", "cycle", "opaque reaching", "edges")) and not deep and k % 5:
            continue
        if not acyclic(ds) or len(ds) > 24 or any(d.kind == "union" and not any(T not in (None, "void") for T in uses(d)) for d in ds):
            continue
        p = P.fresh()
        es = rename(ds, p + "g")
        P.add(key, es[::-1] if k % 2 else es)


def clashes():
    """names that meet those of the header, the prelude, the decoders' locals or Rust itself"""
    P = S.Pool()
    P.n = 8000
    for w in ("Error", "Result", "WireSize", "Bytes", "Buf", "Debug", "TryFrom", "Vec", "String", "Option", "Box", "u8", "type", "match"):
        p = P.fresh()
        P.add("type named %s" % w, [S.Struct(w, [("a", U32)]), S.Struct(p + "H", [("h", ("named", w)), ("o", ("opt", ("named", w))), ("l", ("var", ("named", w), None)), ("s", S.STRG)])], lits={w})
    for w in ("v", "d", "n", "x", "sum", "type"):
        p = P.fresh()
        P.add("constant named %s" % w, [S.Struct(p + "H", [("h", ("opaque", w)), ("s", S.STRG)]), S.Union(p + "U", U32, [(["4"], None), (["3"], ("named", p + "H"))])], [(w, "5")], lits={w})
    for w in ("d", "type"):
        p = P.fresh()
        P.add("enum member named %s" % w, [S.Enum(p + "E", [(w, "1"), (p + "B", "2")]), S.Union(p + "U", ("named", p + "E"), [([p + "B"], U32)])], lits={w})
    p = P.fresh()
    P.add("constant above 32 bits", [S.Struct(p + "H", [("h", U32)])], [(p + "K", "4294967296")])
    p = P.fresh()
    P.add("enum member above 32 bits", [S.Enum(p + "H", [(p + "h", "4294967296")])])
    p = P.fresh()
    P.add("enum member given as a constant", [S.Enum(p + "E", [(p + "A", p + "CA"), (p + "B", "2")])], [(p + "CA", "5")])
    p = P.fresh()
    P.add("union without arms", [S.Union(p + "U", U32, [])])
    return P.out


def fragments(deep, seed, lib):
    P = S.Pool()
    P.n = 6000
    ns = probes.numbers(lib.P)
    probes.sizes(P, ns, True)
    probes.labels(P, set(ns) | {255, 256, 65536})
    P.n = 3000
    names(P)
    labels(P)
    graphs(P, deep, seed)
    mixed(P, 400 if deep else 60, seed)
    return S.catalogue() + P.out + probes.styled(S.catalogue(), share=11 if deep else 33)


# ------------------------------------------------------------------ the facts rustc gives back
def facts(ck, u, lab):
    sh = Shape(u.frags)
    for f in u.frags:
        for d in f.decls:
            if selfdef(d):
                continue
            a = u.prog.adts.get(u.prefix + d.name)
            key = "%s: " % f.key
            if a is None:
                ck.violation(key + "no type for the %s" % d.kind, "type %s not emitted%s" % (d.name, lab))
                continue
            vs = a["variants"]
            if d.kind == "struct":
                want = [naming.field_name(x) for x, _ in d.fields]
                got = [x["name"] for x in vs[0]["fields"]]
                if got != want:
                    ck.violation(key + "fields of the struct", "struct %s has fields %s, declared %s%s" % (d.name, got, want, lab))
                    continue
            elif d.kind == "union":
                want = sorted(v for v, _ in sh.variants(d))
                got = sorted(v["name"] for v in vs)
                if got != want:
                    ck.violation(key + "variants of the union", "union %s has variants %s, declared labels %s%s" % (d.name, got, want, lab))
                    continue
            elif d.kind == "enum":
                want = [naming.member_name(m) for m, _ in d.members]
                got = [v["name"] for v in vs]
                if sorted(got) != sorted(want):
                    ck.violation(key + "members of the enum", "enum %s has members %s, declared %s%s" % (d.name, got, want, lab))
                    continue
            elif len(vs) != 1 or len(vs[0]["fields"]) != 1 or vs[0]["fields"][0]["name"] != "0":
                ck.violation(key + "typedef is not a tuple newtype", "%s: %s%s" % (d.name, vs, lab))
                continue
            ck.holds()


def check(ck, prop, tier):
    deep = tier == "thorough"
    import texts
    ck.explain(*texts.front(prop))
    lib = Lib()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    frags = fragments(deep, seed, lib)
    sup = {f.key for f in frags if f.supported}
    ck.info["specifications"] = len(frags)
    total = wit = 0
    runs = [(lab, dv, frags, 25, i) for i, (lab, dv) in enumerate(DERIVES + (MORE if deep else []))]
    cl = clashes()
    sup |= {f.key for f in cl}
    runs.append(("default", None, cl, 1, 0))
    for lab, derive, fs, group, i in runs:
        if i % 2:       # the other order of declarations, other neighbours
            fs = [S.Fragment(f.key, f.decls[::-1], f.consts, f.lits, f.props, f.tests, f.supported) for f in reversed(fs)]
        em = Emitter(lib, derive, group=group)
        em.build(fs, extra(derive))
        tag = " (derive line: %s)" % lab
        for u in em.units:
            facts(ck, u, tag)
            n = sum(len(Shape(u.frags).witness(d, derive)) for f in u.frags for d in f.decls if not selfdef(d))
            wit += n
            total += len(u.frags)
            ck.holds(n + 1)
        for u in em.units[:3]:
            ck.sample(derive=lab, specification=u.frags[0].key, declarations=[S.text(d).replace("@", "") for d in u.frags[0].decls][:2])
        for key, (kind, det) in sorted(em.failed.items()):
            if kind == "rustc":
                if key in sup:
                    ck.violation("%s: the module does not compile" % key, det + tag)
                else:
                    ck.undec(key, "does not compile: " + det[:200])
            elif kind == "witness":
                ck.violation("%s: the documented API is not exposed" % key, det + tag)
            elif kind in ("gen-err", "gen-panic") and key not in sup or kind == "gen-err":
                ck.info.setdefault("refused", {})[key] = det[:100]
            else:
                ck.undec(key, "%s: %s" % (kind, det[:200]))
        ck.info["rustc_runs_" + lab] = ck.info.get("rustc_runs_" + lab, 0) + em.n_rustc
    ck.info["modules_type_checked"] = total
    ck.info["witness_items"] = wit
    ck.floor("specifications", len(frags), 500)
