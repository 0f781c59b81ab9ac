"""RFC 4506 oracle: for a declaration, the exact result, consumption and size of its encoding, as
symbolic terms over the same buffer atoms the analysed decoder reads.

Types:   ("int", "u32"|"i32"|"u64"|"i64"|"f32"|"f64")  ("bool",)  ("string", max|None)
         ("opaque", max|None)  ("opaquef", n)  ("named", X)  ("fix", T, n)  ("var", T, max|None)  ("opt", T)
Expected values: ("int", lin) ("flt", kind, lin) ("bool", b) ("view", a, o, e) ("str", a, o, e)
         ("named", X, a, off) ("list", [..]) ("opt", None|x) ("struct", X, {field: x}) ("arm", X, label, x|None)
         ("member", X, m) ("new", X, x)
Errors:  ("InvalidLength",) ("InvalidBoolean",) ("UnknownVariant", lin) ("UnknownOptionVariant", lin)
         ("NonUtf8String", a, o, e) ("nested", X, a, off, e)"""
import re

from bmodels import u32_at, i32_at, u64_at, i64_at, canon, single
from engine import (Undecided, BV, Sym, Adt, Tup, Seq, Ref, View, SStr, OPTION, BOX)
from lin import Lin
import naming


class Spec:
    """a specification: constants, and declarations by name"""

    def __init__(self, consts, decls):
        self.consts = dict(consts)
        self.decls = {d.name: d for d in decls}
        self.order = list(decls)

    def underlying(self, T):
        """switch type: follow typedefs"""
        seen = set()
        while T[0] == "named":
            d = self.decls.get(T[1])
            if d is None or d.kind != "typedef" or T[1] in seen:
                return T
            seen.add(T[1])
            T = d.type
        return T

    def member(self, label):
        for d in self.order:
            if d.kind == "enum":
                for m, v in d.members:
                    if m == label:
                        return self.const(v)
        return None

    def const(self, v):
        if isinstance(v, int):
            return v
        if re.fullmatch(r"-?\d+|0[xX][0-9a-fA-F]+", v):
            return int(v, 0) if v[:1] != "0" or v[1:2] in ("x", "X") else int(v)
        if v in self.consts:
            return self.const(self.consts[v])
        raise Undecided("unknown constant %r" % (v,))

    def label(self, l):
        if isinstance(l, int):
            return l
        if l in ("TRUE", "true"):
            return 1
        if l in ("FALSE", "false"):
            return 0
        if l[:1].isdigit():
            return self.const(l)
        if l in self.consts:
            return self.const(l)
        v = self.member(l)
        if v is None:
            raise Undecided("unknown label %s" % l)
        return v


# elements the oracle follows beyond those the analysed code was followed for
DEEPER = 6


def lenient(eng, orc, st, got):
    """InvalidLength for an input that is also truncated is not a wrong error"""
    n, _ = orc.err_name(st, got)
    return n == "InvalidLength" and eng.infeas(st, ge=[Lin.atom(("e0",)) - Lin.atom(("o0",)) - 2**40])


class Oracle:
    def __init__(self, mod, eng, spec, K=None):
        self.mod = mod
        self.eng = eng
        self.spec = spec
        self.K = mod.K if K is None else K
        self.open = []           # states with a sequence too long to add up

    # each returns [(state, 'ok', value, off) | (state, 'err', error, off) | (state, 'cut', None, off)]
    def need(self, st, off, e, n, f):
        res = []
        for s, b in self.eng.branch(st, self.eng.ge0(e - off - n)):
            if b:
                res.extend(f(s))
            else:
                res.append((s, "err", ("InvalidLength",), off))
        return res

    def then(self, outs, f):
        res = []
        for s, k, v, o in outs:
            if k == "ok":
                res.extend(f(s, v, o))
            else:
                res.append((s, k, v, o))
        return res

    def max(self, m):
        return None if m is None else self.spec.const(m) if not isinstance(m, Lin) else m

    def pad(self, st, n):
        """[(state, pad length of n)]"""
        return [(s, (4 - r) % 4) for s, r, q in self.eng.residue(st, n, 4)]

    def payload(self, st, a, off, e, n, f):
        """n payload bytes and padding"""
        n = Lin.of(n)
        res = []
        # InvalidLength when payload or padding is missing
        for s, b in self.eng.branch(st, self.eng.ge0(e - off - n)):
            if not b:
                res.append((s, "err", ("InvalidLength",), off))
                continue
            for s2, p in self.pad(s, n):
                res.extend(self.need(s2, off + n, e, p, lambda s3, p=p: f(s3, canon(self.eng, s3, a, off), canon(self.eng, s3, a, off + n), off + n + p)))
        return res

    def word(self, st, a, off, e, f, signed=False):
        return self.need(st, off, e, 4, lambda s: f(s, (i32_at if signed else u32_at)(self.eng, s, a, off)))

    def count(self, st, a, off, e, mx, f):
        def g(s, n):
            mx2 = self.max(mx)
            if mx2 is None:
                return f(s, n)
            res = []
            for s2, b in self.eng.branch(s, self.eng.ge0(Lin.of(mx2) - n)):
                res.extend(f(s2, n) if b else [(s2, "err", ("InvalidLength",), off)])
            return res
        return self.word(st, a, off, e, g)

    def decode(self, st, T, a, off, e):
        off = Lin.of(off)
        e = Lin.of(e)
        k = T[0]
        eng = self.eng
        if k == "int":
            w = 4 if T[1] in ("u32", "i32", "f32") else 8

            def f(s):
                if T[1] == "u32":
                    v = ("int", u32_at(eng, s, a, off))
                elif T[1] == "i32":
                    v = ("int", i32_at(eng, s, a, off))
                elif T[1] == "u64":
                    v = ("int", u64_at(eng, s, a, off))
                elif T[1] == "i64":
                    v = ("int", i64_at(eng, s, a, off))
                elif T[1] == "f32":
                    v = ("flt", "f32", u32_at(eng, s, a, off))
                else:
                    v = ("flt", "f64", u64_at(eng, s, a, off))
                return [(s, "ok", v, off + w)]
            return self.need(st, off, e, w, f)
        if k == "bool":
            def fb(s, w):
                return self.select(s, w, {0: lambda s: [(s, "ok", ("bool", False), off + 4)], 1: lambda s: [(s, "ok", ("bool", True), off + 4)]},
                                   lambda s: [(s, "err", ("InvalidBoolean",), off)])
            return self.word(st, a, off, e, fb, True)
        if k == "opaquef":
            return self.payload(st, a, off, e, self.max(T[1]), lambda s, o, e2, nxt: [(s, "ok", ("view", a, o, e2), nxt)])
        if k == "opaque":
            return self.count(st, a, off, e, T[1], lambda s, n: self.payload(s, a, off + 4, e, n, lambda s, o, e2, nxt: [(s, "ok", ("view", a, o, e2), nxt)]))
        if k == "string":
            def fs(s, o, e2, nxt):
                res = []
                for s2, b in eng.branch(s, BV(("p", "utf8", a, o, e2))):
                    if not b:
                        # the empty text is well formed
                        eng.add_ge(s2, Lin.of(e2) - o - 1)
                        if eng.infeas(s2):
                            continue
                    res.append((s2, "ok", ("str", a, o, e2), nxt) if b else (s2, "err", ("NonUtf8String", a, o, e2), off))
                return res
            return self.count(st, a, off, e, T[1], lambda s, n: self.payload(s, a, off + 4, e, n, fs))
        if k == "named" and T[1] not in self.mod.decls:
            d = self.spec.decls.get(T[1])
            if d is None:
                raise Undecided("type %s" % T[1])
            return self.declaration(st, d, a, off, e)
        if k == "named":
            res = []
            for s, good, v, sz in self.mod.decode_at(eng, st, T[1], a, off, e, None, T[1] not in self.mod.free_size):
                if not good:
                    res.append((s, "err", ("nested", T[1], a, canon(eng, s, a, off), canon(eng, s, a, e)), off))
                elif T[1] in self.mod.free_size:
                    res.extend(self.need(s, off, e, sz, lambda s, sz=sz: [(s, "ok", ("named", T[1], a, canon(eng, s, a, off)), off + sz)]))
                else:
                    res.append((s, "ok", ("named", T[1], a, canon(eng, s, a, off)), off + sz))
            return res
        if k == "fix":
            return self.items(st, T[1], a, off, e, Lin.of(self.max(T[2])))
        if k == "var":
            return self.count(st, a, off, e, T[2], lambda s, n: self.items(s, T[1], a, off + 4, e, n))
        if k == "opt":
            def fo(s, w):
                return self.select(s, w, {
                    0: lambda s: [(s, "ok", ("opt", None), off + 4)],
                    1: lambda s: self.then(self.decode(s, T[1], a, off + 4, e), lambda s, v, o: [(s, "ok", ("opt", v), o)])},
                    lambda s: [(s, "err", ("UnknownOptionVariant", w), off)])
            return self.word(st, a, off, e, fo)
        raise Undecided("oracle type %r" % (T,))

    def items(self, st, T, a, off, e, n):
        res = []
        cur = [(st, [], off)]
        i = 0
        start = off
        while cur:
            nxt = []
            for s, vs, o in cur:
                for s2, b in self.eng.branch(s, self.eng.ge0(n - i - 1)):
                    if not b:
                        # array padding (elements are multiples of four unless T is a foreign type)
                        if T[0] == "named" and T[1] in self.mod.free_size:
                            for s3, p in self.pad(s2, o - start):
                                res.extend(self.need(s3, o, e, p, lambda s, p=p: [(s, "ok", ("list", vs), o + p)]))
                        else:
                            res.append((s2, "ok", ("list", vs), o))
                        continue
                    if i >= self.K and n.m:
                        res.append((s2, "cut", (n, i, self.least(T)), o))
                        continue
                    for s3, k, v, o2 in self.decode(s2, T, a, o, e):
                        if k == "ok":
                            nxt.append((s3, vs + [v], o2))
                        else:
                            res.append((s3, k, v, o2))
            cur = nxt
            i += 1
        return res

    def least(self, T):
        """least encoded size of a value of type T"""
        k = T[0]
        if k == "int":
            return 4 if T[1] in ("u32", "i32", "f32") else 8
        if k == "named":
            if T[1] in self.mod.free_size:
                return 0
            if T[1] in self.mod.min_size:
                return self.mod.min_size[T[1]]
            d = self.spec.decls.get(T[1])
            if d is not None and d.kind == "typedef":
                return self.least(d.type)
        return 4

    def beyond(self, st, cut, off, vi, got):
        """a result the code gave without following a sequence to its end, where the first
        elements decode and there are more: what is wrong with it, or None"""
        eng = self.eng
        n, i, least = cut
        room = Lin.atom(("e0",)) - off - (n - i).scale(least)
        if vi == 0:
            if eng.infeas(st, ge=[room]):
                return "accepts", "an array whose elements are not all there"
            for q in self.sequences(st, got):
                ln = Lin.of(eng.length(st, q))
                d = ln - n
                if not d.m and d.c == 0 or d.m and not eng.infeas(st, ge=[d, Lin(0) - d]):
                    return None
            return "value", "no list of all %r elements in the value" % n
        if lenient(eng, self, st, got):
            return None
        if eng.infeas(st, ge=[room - 2**30]):
            return None
        for a in self.words(st):
            if not eng.entails_ge(st, off - a):
                return None
        return "rejects", "an array of more than %d elements" % i

    def words(self, st):
        """the offsets of the input the path condition looks at"""
        out = []

        def walk(x):
            if isinstance(x, Lin):
                for a in x.m:
                    walk(a)
            elif isinstance(x, tuple):
                if len(x) >= 3 and x[0] in ("u8", "u16", "u32", "i32", "u64", "i64") and x[1] == "in" and isinstance(x[2], Lin):
                    out.append(x[2])
                elif len(x) >= 5 and x[0] == "p" and isinstance(x[3], Lin):
                    out.append(x[3])
                for y in x:
                    walk(y)
        for t, _ in st.pc:
            walk(t)
        return out

    def sequences(self, st, v, depth=0):
        v = self.deref(st, v)
        if isinstance(v, Seq):
            return [v]
        if isinstance(v, Adt) and depth < 8:
            return [q for x in v.f for q in self.sequences(st, x, depth + 1)]
        return []

    def select(self, st, w, table, other):
        res = []
        cur = [st]
        for val, f in table.items():
            nxt = []
            for s in cur:
                for s2, b in self.eng.branch(s, BV(("eq0", Lin.of(w) - val)) if Lin.of(w).m else Lin.of(w).c == val):
                    if b:
                        res.extend(f(s2))
                    else:
                        nxt.append(s2)
            cur = nxt
        for s in cur:
            res.extend(other(s))
        return res

    def declaration(self, st, d, a, off, e):
        off = Lin.of(off)
        eng = self.eng
        if d.kind == "typedef":
            return self.then(self.decode(st, d.type, a, off, e), lambda s, v, o: [(s, "ok", ("new", d.name, v), o)])
        if d.kind == "enum":
            def fe(s, w):
                tab = {}
                for m, v in d.members:
                    v = self.spec.const(v)
                    tab.setdefault(v, lambda s, m=m: [(s, "ok", ("member", d.name, m), off + 4)])
                return self.select(s, w, tab, lambda s: [(s, "err", ("UnknownVariant", w), off)])
            return self.word(st, a, off, e, fe, True)
        if d.kind == "struct":
            outs = [(st, "ok", {}, off)]
            for fn, T in d.fields:
                outs = self.then(outs, lambda s, v, o, fn=fn, T=T: self.then(self.decode(s, T, a, o, e), lambda s, x, o2: [(s, "ok", dict(v, **{fn: x}), o2)]))
            return [(s, k, ("struct", d.name, v) if k == "ok" else v, o) for s, k, v, o in outs]
        if d.kind == "union":
            u = self.spec.underlying(d.switch_type)
            signed = not (u == ("int", "u32"))

            def fu(s, w):
                tab = {}
                for labels, T in d.arms:
                    for l in labels:
                        v = self.spec.label(l)
                        if not signed:
                            v %= 2**32
                        tab.setdefault(v, lambda s, l=l, T=T: self.arm(s, d, l, T, a, off + 4, e))
                if u[0] == "bool":
                    for b in (0, 1):
                        tab.setdefault(b, lambda s: self.dflt(s, d, a, off, e, w))
                    return self.select(s, w, tab, lambda s: [(s, "err", ("InvalidBoolean",), off)])
                if u[0] == "named":
                    en = self.spec.decls[u[1]]
                    known = {}
                    for m, v in en.members:
                        known[self.spec.const(v)] = True
                    tab2 = {v: tab.get(v, lambda s: self.dflt(s, d, a, off, e, w)) for v in known}
                    # a value outside the enumeration is not a declared discriminant
                    return self.select(s, w, tab2, lambda s: [(s, "err", ("UnknownVariant", w), off)])
                return self.select(s, w, tab, lambda s: self.dflt(s, d, a, off, e, w))
            return self.word(st, a, off, e, fu, signed)
        raise Undecided("declaration %r" % (d,))

    def dflt(self, s, d, a, off, e, w):
        if d.default is None:
            v = Lin.of(w)
            at = single(v)
            if at is not None and at[0] == "u32":
                v = i32_at(self.eng, s, at[1], at[2])
            return [(s, "err", ("UnknownVariant", v), off)]
        return self.arm(s, d, "default", None if d.default == "void" else d.default, a, off + 4, e)

    def arm(self, s, d, label, T, a, off, e):
        if T is None:
            return [(s, "ok", ("arm", d.name, label, None), off)]
        return self.then(self.decode(s, T, a, off, e), lambda s, v, o: [(s, "ok", ("arm", d.name, label, v), o)])

    # ------------------------------------------------------------ comparison
    # every function returns a list of (state, mismatch description or None)
    def deref(self, st, v):
        while True:
            if isinstance(v, Ref):
                v = self.eng.rd(st, v)
            else:
                return v

    def cmp(self, st, got, exp):
        eng = self.eng
        got = self.deref(st, got)
        k = exp[0]
        if k == "int":
            if isinstance(got, (int, Lin)) and not isinstance(got, bool):
                d = Lin.of(got) - exp[1]
                if eng.entails_eq(st, d):
                    return [(st, None)]
                return [(s, None if b else "integer %r instead of %r" % (got, exp[1])) for s, b in eng.branch(st, BV(("eq0", d)))] if d.m else [(st, "integer %r instead of %r" % (got, exp[1]))]
            return [(st, "%r instead of an integer" % (got,))]
        if k == "flt":
            if isinstance(got, Sym) and isinstance(got.t, tuple) and got.t[0] == exp[1] and eng.entails_eq(st, got.t[1] - exp[2]):
                return [(st, None)]
            return [(st, "float %r instead of %s(%r)" % (got, exp[1], exp[2]))]
        if k == "bool":
            if isinstance(got, bool):
                return [(st, None if got == exp[1] else "%r instead of %r" % (got, exp[1]))]
            if isinstance(got, BV):
                return [(s, None if b == exp[1] else "%r instead of %r" % (b, exp[1])) for s, b in eng.branch(st, got)]
            return [(st, "%r instead of a boolean" % (got,))]
        if k == "view":
            if isinstance(got, View):
                if got.a == exp[1] and eng.entails_eq(st, got.o - exp[2]) and eng.entails_eq(st, got.e - exp[3]):
                    return [(st, None)]
                # an empty payload has no bytes to locate
                if isinstance(got.a, tuple) and got.a[0] == "copy":
                    _, a, o, e = got.a[:4]
                    if a == exp[1] and eng.entails_eq(st, o + got.o - exp[2]) and eng.entails_eq(st, o + got.e - exp[3]):
                        if eng.entails_eq(st, got.len()):
                            return [(st, None)]
                        return [(st, "opaque payload copied out of the input")]
                res = []
                for s, b in eng.branch(st, eng.ge0(exp[3] - exp[2] - 1)):
                    if not b and eng.entails_eq(s, got.len()):
                        res.append((s, None))
                    else:
                        res.append((s, "opaque bytes %r instead of %s[%r..%r)" % (got, exp[1], exp[2], exp[3])))
                return res
            return [(st, "%r instead of opaque bytes" % (got,))]
        if k == "str":
            if isinstance(got, SStr) and len(got.p) == 1 and isinstance(got.p[0], tuple) and got.p[0][0] in ("utf8", "lossy", "unchecked"):
                _, a, o, e = got.p[0]
                if a == exp[1] and eng.entails_eq(st, o - exp[2]) and eng.entails_eq(st, e - exp[3]):
                    return [(st, None)]
            if isinstance(got, str):
                for key, val in st.facts.items():
                    t = key[1] if isinstance(key, tuple) and len(key) == 2 and key[0] in ("instance", "str") else None
                    if isinstance(t, tuple) and t[0] == "utf8" and t[1] == exp[1] and eng.entails_eq(st, Lin.of(t[2]) - exp[2]) and eng.entails_eq(st, Lin.of(t[3]) - exp[3]):
                        if key[0] == "str":
                            if val[0] is None or len(val[0]) != 1:
                                continue
                            val = next(iter(val[0]))
                        return [(st, None if val == got else "string %r instead of the text %r" % (got, val))]
            if got == "":
                return [(s, None if not b else "empty string") for s, b in eng.branch(st, eng.ge0(exp[3] - exp[2] - 1))]
            return [(st, "string %r instead of text of %s[%r..%r)" % (got, exp[1], exp[2], exp[3]))]
        if k == "named":
            if isinstance(got, Sym) and isinstance(got.t, tuple) and got.t[0] == "dec":
                if got.t[1] == exp[1] and got.t[2] == exp[2] and eng.entails_eq(st, got.t[3] - exp[3]):
                    return [(st, None)]
            return [(st, "%r instead of the %s at %r" % (got, exp[1], exp[3]))]
        if k == "list":
            if isinstance(got, Seq) and all(x[0] == "one" for x in got.s):
                if len(got.s) != len(exp[1]):
                    return [(st, "%d elements instead of %d" % (len(got.s), len(exp[1])))]
                return self.all(st, [(x[1], y) for x, y in zip(got.s, exp[1])], lambda i: "element %d: " % i)
            if isinstance(got, Seq):
                raise Undecided("list of symbolic length")
            return [(st, "%r instead of a list" % (got,))]
        if k == "opt":
            if isinstance(got, Sym):
                raise Undecided("symbolic option")
            if not isinstance(got, Adt) or got.n != OPTION:
                return [(st, "%r instead of an optional" % (got,))]
            if exp[1] is None or got.v == 0:
                return [(st, None if (exp[1] is None) == (got.v == 0) else "optional %s" % ("present" if got.v else "absent"))]
            x = got.f[0]
            x = self.deref(st, x)
            if isinstance(x, Adt) and x.n == BOX:
                x = x.f[0]
            return self.cmp(st, x, exp[1])
        if k in ("struct", "arm", "member", "new"):
            n = self.mod.adt(naming.type_name(exp[1]))
            if not isinstance(got, Adt) or got.n != n:
                return [(st, "%r instead of a %s" % (got, exp[1]))]
            var = self.eng.P.adts[n]["variants"][got.v]
            if k == "new":
                if len(got.f) != 1:
                    return [(st, "%d fields in newtype" % len(got.f))]
                return self.cmp(st, got.f[0], exp[2])
            if k == "member":
                w = naming.member_name(exp[2])
                return [(st, None if var["name"] == w else "member %s instead of %s" % (var["name"], w))]
            if k == "arm":
                w = naming.variant_name(exp[2])
                if var["name"] != w:
                    return [(st, "arm %s instead of %s" % (var["name"], w))]
                if exp[3] is None:
                    return [(st, None if not got.f else "payload in a void arm")]
                if len(got.f) != 1:
                    return [(st, "%d payloads" % len(got.f))]
                return [(s, m and "arm %s: %s" % (w, m)) for s, m in self.cmp(st, got.f[0], exp[3])]
            fs = {f["name"]: i for i, f in enumerate(var["fields"])}
            pairs = []
            names = []
            for f, x in exp[2].items():
                w = naming.field_name(f)
                if w not in fs:
                    return [(st, "no field %s" % w)]
                pairs.append((got.f[fs[w]], x))
                names.append(w)
            if len(fs) != len(pairs):
                return [(st, "%d fields instead of %d" % (len(fs), len(pairs)))]
            return self.all(st, pairs, lambda i: "field %s: " % names[i])
        raise Undecided("expected value %r" % (exp,))

    def all(self, st, pairs, lab):
        cur = [st]
        bad = []
        for i, (g, x) in enumerate(pairs):
            nxt = []
            for s in cur:
                for s2, m in self.cmp(s, g, x):
                    if m is None:
                        nxt.append(s2)
                    else:
                        bad.append((s2, lab(i) + m))
            cur = nxt
        return bad + [(s, None) for s in cur]

    def err_name(self, st, got):
        """(variant name, payload values) of an Error value"""
        got = self.deref(st, got)
        if isinstance(got, Adt) and got.n == self.mod.adt("Error"):
            return self.eng.P.adts[got.n]["variants"][got.v]["name"], got.f
        return None, None

    def cmp_err(self, st, got, exp):
        eng = self.eng
        got = self.deref(st, got)
        if isinstance(got, Sym) and isinstance(got.t, tuple) and got.t[0] == "decerr":
            if exp[0] == "nested" and got.t[1] == exp[1] and got.t[2] == exp[2] and eng.entails_eq(st, got.t[3] - exp[3]):
                return [(st, None)]
            return [(st, "error of %s at %r instead of %s" % (got.t[1], got.t[3], exp[0]))]
        n, f = self.err_name(st, got)
        if n is None:
            raise Undecided("error value %r" % (got,))
        if n == exp[0]:
            if n in ("UnknownVariant", "UnknownOptionVariant"):
                return self.cmp(st, f[0], ("int", exp[1]))
            return [(st, None)]
        return [(st, "Error::%s instead of %s" % (n, exp[0] if exp[0] != "nested" else "the error of %s" % exp[1]))]

    # ------------------------------------------------------------ sizes of values
    def size(self, st, T, v):
        """[(state, encoded size)] of a value of type T held as v"""
        eng = self.eng
        v = self.deref(st, v)
        k = T[0]
        if k == "int":
            return [(st, Lin(4 if T[1] in ("u32", "i32", "f32") else 8))]
        if k == "bool":
            return [(st, Lin(4))]
        if k == "opaquef":
            # the value of a fixed-length opaque has its declared length
            n = Lin.of(self.max(T[1]))
            d = Lin.of(eng.length(st, v)) - n
            sts = [s for s, b in eng.branch(st, BV(("eq0", d))) if b] if d.m else [st]
            return [(s2, n + p) for s in sts if not eng.infeas(s) for s2, p in self.pad(s, n)]
        if k in ("opaque", "string"):
            n = Lin.of(eng.length(st, v))
            return [(s, n + p + 4) for s, p in self.pad(st, n)]
        if k == "named":
            if T[1] not in self.mod.decls and T[1] in self.spec.decls:
                return self.decl_size(st, self.spec.decls[T[1]], v)
            if isinstance(v, Sym):
                return [(st, self.mod.wire_atom(eng, st, T[1], v.t))]
            raise Undecided("size of %r" % (v,))
        if k in ("fix", "var"):
            # after the analysed code has run, the length of v is decided up to K elements
            return self.list_size(st, T, v)
        if k == "opt":
            res = []
            for s, vi in eng.split(st, v):
                if vi == 0:
                    res.append((s, Lin(4)))
                else:
                    x = self.deref(s, eng.fields(s, v, 1)[0])
                    if isinstance(x, Adt) and x.n == BOX:
                        x = x.f[0]
                    res.extend([(s2, z + 4) for s2, z in self.size(s, T[1], x)])
            return res
        raise Undecided("size of %r" % (T,))

    def list_size(self, st, T, v):
        eng = self.eng
        if not isinstance(v, Seq):
            raise Undecided("list value %r" % (v,))
        base = 4 if T[0] == "var" else 0
        cur = [(st, Lin(base))]
        for seg in v.s:
            if seg[0] == "one":
                cur = [(s2, z + y) for s, z in cur for s2, y in self.size(s, T[1], seg[1])]
                continue
            _, lst, ety = seg
            ln = Lin.of(eng.manylen(lst))
            out = []
            i = 0
            while cur:
                nxt = []
                for s, z in cur:
                    for s2, b in eng.branch(s, eng.ge0(ln - i - 1)):
                        if not b:
                            out.append((s2, z))
                        elif i >= self.K:
                            # elements of one fixed size, or more than any value that looks at K of them accounts for
                            ys = self.size(s2, T[1], eng.elem_at(s2, lst, i, ety)) if T[1][0] in ("int", "bool") else []
                            out.append((s2, z + (ln - i).scale(ys[0][1].c) if len(ys) == 1 else None))
                        else:
                            nxt.extend((s3, z + y) for s3, y in self.size(s2, T[1], eng.elem_at(s2, lst, i, ety)))
                cur = nxt
                i += 1
            cur = [(s, z) for s, z in out if z is not None]
            self.open += [s for s, z in out if z is None]
        return cur

    def uncounted(self, got):
        """feasible states in which a size the code gave cannot count every element of a sequence"""
        if not isinstance(got, (int, Lin)) or any(a[0] not in ("len", "wsz", "div") for a in Lin.of(got).m):
            return []
        return [s for s in self.open if not self.eng.infeas(s)]

    def decl_size(self, st, d, v):
        eng = self.eng
        v = self.deref(st, v)
        if d.kind == "enum":
            return [(st, Lin(4))]
        if d.kind == "typedef":
            return self.size(st, d.type, eng.fields(st, v, 0)[0])
        n = self.mod.adt(naming.type_name(d.name))
        adt = eng.P.adts[n]
        if d.kind == "struct":
            fs = {f["name"]: i for i, f in enumerate(adt["variants"][0]["fields"])}
            cur = [(st, Lin(0))]
            vals = eng.fields(st, v, 0)
            for fn, T in d.fields:
                w = naming.field_name(fn)
                if w not in fs:
                    raise Undecided("no field %s" % w)
                cur = [(s2, z + y) for s, z in cur for s2, y in self.size(s, T, vals[fs[w]])]
            return cur
        if d.kind == "union":
            byname = {}
            for labels, T in d.arms:
                for l in labels:
                    byname[naming.variant_name(l)] = T
            if d.default is not None:
                byname["default"] = None if d.default == "void" else d.default
            res = []
            for s, vi in eng.split(st, v):
                vn = adt["variants"][vi]["name"]
                if vn not in byname:
                    raise Undecided("undeclared variant %s" % vn)
                T = byname[vn]
                if T is None:
                    res.append((s, Lin(4)))
                else:
                    res.extend((s2, z + 4) for s2, z in self.size(s, T, eng.fields(s, v, vi)[0]))
            return res
        raise Undecided("size of %r" % (d,))
