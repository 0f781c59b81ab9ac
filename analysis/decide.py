"""C01-C06, C08, C09: every declaration shape of the catalogue, as emitted by the current generator,
interpreted abstractly and compared path by path with the RFC 4506 oracle."""
import os
import time

from bmodels import BYTES
from emit import Emitter
from engine import Undecided, Sym, Adt, Seq, Ref, View, SStr, OPTION, BOX, Tup
from gen import Lib
from lin import Lin
from module import Mod
from oracle import DEEPER, Oracle, lenient
from par import pmap
import header
import naming
import probes
import spec as S

PROPS = ("C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09")
DISC = ("UnknownVariant", "UnknownOptionVariant", "InvalidBoolean", "NonUtf8String")


class Res:
    """what one worker found"""

    def __init__(self):
        self.bad = []           # (props, class key, what, detail, family)
        self.undec = []         # (props, class key, why)
        self.ok = {}            # property -> discharged obligations
        self.visited = set()
        self.sites = set()
        self.subjects = 0
        self.declared = 0
        self.paths = 0
        self.steps = set()
        self.calls = {}         # declaration -> declarations its decoders call (name, cursor moved)
        self.samples = []

    def good(self, *props):
        for p in props:
            self.ok[p] = self.ok.get(p, 0) + 1


def describe(st, n=10):
    from header import describe as d
    return d(st, n)


# ------------------------------------------------------------------ facts about declarations
def least(spec, name, seen=()):
    """least encoded size of a declared type"""
    if name in seen:
        return 2**20          # a finite value takes another branch
    d = spec.decls.get(name)
    if d is None:
        return 0

    def ty(T):
        k = T[0]
        if k == "int":
            return 4 if T[1] in ("u32", "i32", "f32") else 8
        if k == "named":
            return least(spec, T[1], seen + (name,))
        if k == "opaquef":
            n = spec.const(S.number(T[1]))
            return n + (-n) % 4
        if k == "fix":
            return spec.const(S.number(T[2])) * ty(T[1])
        return 4
    if d.kind == "enum":
        return 4
    if d.kind == "typedef":
        return ty(d.type)
    if d.kind == "struct":
        return sum(ty(T) for _, T in d.fields)
    arms = [0 if T is None else ty(T) for _, T in d.arms]
    if d.default is not None:
        arms.append(0 if d.default == "void" else ty(d.default))
    return 4 + (min(arms) if arms else 0)


def maxima(spec, d):
    """sum of the maxima and fixed sizes a declaration states"""
    tot = [0]

    def ty(T):
        if T[0] in ("opaque", "string", "opaquef") and T[1] is not None:
            tot[0] += spec.const(S.number(T[1]))
        elif T[0] in ("fix", "var"):
            if T[2] is not None:
                tot[0] += spec.const(S.number(T[2]))
            ty(T[1])
        elif T[0] == "opt":
            ty(T[1])
    if d.kind == "typedef":
        ty(d.type)
    elif d.kind == "struct":
        for _, T in d.fields:
            ty(T)
    elif d.kind == "union":
        for _, T in d.arms:
            if T is not None:
                ty(T)
        if d.default not in (None, "void"):
            ty(d.default)
    return tot[0]


# ------------------------------------------------------------------ judging
def err_props(name):
    if name == "InvalidLength":
        return ("C05",)
    if name == "nested":
        return ("C05", "C06")
    return ("C06",)


def role(d, mm):
    return mm


def decoder(res, m, spec, d, by_ref, cls):
    fam = "TryFrom<&mut Bytes>" if by_ref else "TryFrom<Bytes>"
    try:
        eng, outs = m.decode(d.name, by_ref)
    except Undecided as u:
        bid, _ = m.decoder(d.name, by_ref)
        if bid is None:
            res.bad.append((("C01", "C03"), cls, "no %s decoder of the %s" % (fam, d.kind), "module has no impl %s for %s" % (fam, d.name), fam))
        else:
            res.undec.append((PROPS, cls, str(u)))
        return
    orc = Oracle(m, eng, spec, m.K + DEEPER if m.long is None else m.long + 2)
    o, e = Lin.atom(("o0",)), Lin.atom(("e0",))
    where = "%s of %s %s" % (fam, d.kind, d.name)
    cap = maxima(spec, d)
    for st, k, v, cur in outs:
        res.paths += 1
        allocs(res, eng, st, d, cls, where, fam, cap)
        for ev in st.ev:
            if ev[0] == "decode":
                res.calls.setdefault((cls, d.name), set()).add(ev[1])
        if k == "cut":
            continue
        if k == "panic":
            what = v[0] if isinstance(v, tuple) else str(v)
            res.bad.append((("C04",), cls, "panic: %s" % what, "%s can panic: %s (%s)\npath: %s" % (where, what, v, describe(st)), fam))
            continue
        if k != "v":
            res.undec.append((PROPS, cls, "%s: %s %s" % (where, k, v)))
            continue
        try:
            exps = orc.declaration(st, d, "in", o, e)
            for s, tag, x, off in exps:
                if eng.infeas(s):
                    continue
                for s2, vi in eng.split(s, v):
                    got = eng.fields(s2, v, vi)[0]
                    judge(res, eng, orc, s2, d, cls, where, fam, vi, got, tag, x, off, cur)
        except Undecided as u:
            res.undec.append((PROPS, cls, "%s: %s" % (where, u)))
    res.visited |= eng.visited
    res.sites |= eng.sites


def judge(res, eng, orc, st, d, cls, where, fam, vi, got, tag, x, off, cur):
    def bad(props, what, detail):
        res.bad.append((props, cls, what, "%s: %s\npath: %s" % (where, detail, describe(st)), fam))
    if tag == "cut":
        w = orc.beyond(st, x, off, vi, got)
        if w:
            n, _ = orc.err_name(st, got)
            bad(("C05",) if w[0] == "accepts" else ("C01", "C03") if w[0] == "value" else ("C01", "C05") if n == "InvalidLength" else ("C01",),
                w[0] + " a long array", "returns %s(%r) for %s" % ("Err" if vi else "Ok", got, w[1]))
        return
    if tag == "err":
        if vi == 0:
            bad(err_props(x[0]), "accepts what is %s" % x[0], "returns Ok(%r) where the encoding is %s" % (got, x))
            return
        for s3, mm in orc.cmp_err(st, got, x):
            if mm is None or lenient(eng, orc, s3, got):
                res.good("C03", "C04", *err_props(x[0]))
            else:
                bad(err_props(x[0]), "wrong error: %s" % mm.split(" at ")[0], "returns %r: %s" % (got, mm))
        return
    if vi == 1:
        n, _ = orc.err_name(st, got)
        if lenient(eng, orc, st, got):
            res.good("C04")
            return
        props = ("C01",) + (("C05",) if n == "InvalidLength" else ("C06",) if n in DISC else ())
        bad(props, "rejects a valid encoding%s" % (" as " + n if n else ""), "returns Err(%r) for a valid encoding" % (got,))
        return
    fine = True
    for s3, mm in orc.cmp(st, got, x):
        if mm is None:
            continue
        fine = False
        if "copied out" in mm:
            props = ("C08",)
        elif "opaque bytes" in mm:
            props = ("C01", "C08")
        elif mm.startswith(("arm ", "member ", "optional ")) and "instead of" in mm:
            props = ("C01", "C06")
        else:
            props = ("C01",)
        bad(props, "wrong value: " + generic(mm), mm)
    if cur is not None:
        if not isinstance(cur, View) or cur.a != "in":
            bad(("C01", "C02", "C03"), "caller's buffer replaced", "leaves the caller with %r" % (cur,))
            fine = False
        elif not (eng.entails_eq(st, cur.o - off) and eng.entails_eq(st, cur.e - Lin.atom(("e0",)))):
            bad(("C01", "C02", "C03"), "wrong cursor", "leaves the caller's buffer at [%r, %r) instead of [%r, e0)" % (cur.o, cur.e, off))
            fine = False
    if fine:
        res.good("C01", "C02", "C03", "C04", "C05", "C06", "C08")
        if len(res.samples) < 2:
            res.samples.append({"declaration": S.text(d).replace("@", ""), "decoder": fam, "path": describe(st), "consumed": repr(off - Lin.atom(("o0",)))})


def generic(mm):
    """a mismatch without its symbolic terms"""
    for w in ("integer", "element", "float", "string", "opaque bytes"):
        if w in mm:
            i = mm.index(w)
            return mm[:i] + w
    return mm.split(" at ")[0][:80]


def allocs(res, eng, st, d, cls, where, fam, cap):
    pushes = 0
    room = Lin.atom(("e0",)) - Lin.atom(("o0",))
    for ev in st.ev:
        if ev[0] != "alloc":
            continue
        kind, n, loc = ev[1], ev[2], ev[3]
        if kind in ("push", "box"):
            pushes += 1
            continue
        n = Lin.of(n)
        if eng.entails_ge(st, room.scale(64) + 64 * (cap + 64) - n):
            res.good("C09")
        else:
            res.bad.append((("C09", "C04"), cls, "allocation %s(unbounded)" % kind, "%s requests %s(%r)%s: not bounded by the input\npath: %s" % (where, kind, n, " of " + ev[4] if len(ev) > 4 and ev[4] else "", describe(st)), fam))
    if pushes and not st.facts.get(("zero-size",)):
        if eng.entails_ge(st, room.scale(16) + 16 * (cap + 4) - pushes):
            res.good("C09")
        else:
            res.bad.append((("C09",), cls, "more elements than input", "%s allocates %d elements\npath: %s" % (where, pushes, describe(st)), fam))


def sizes(res, m, spec, d, cls):
    bid, im = m.wire_impl(d.name)
    if bid is None:
        res.bad.append((("C02",), cls, "no wire_size() for the %s" % d.kind, "no WireSize impl for %s" % d.name, None))
        return
    eng = m.engine()
    st, _ = m.start(eng)
    try:
        sub = {}
        T = im["self"]
        from thir import subst
        gens = m.P.bodies[bid].generics
        args = {g: BYTES for g in gens}
        T = subst(T, args)
        v = eng.mk(st, ("v",), T)
        if m.long is not None:
            for x in eng.fields(st, v, 0):
                if isinstance(x, Seq) and x.s and x.s[0][0] == "many":
                    eng.add_eq(st, Lin.of(eng.length(st, x)) - m.long)
        m.subject = None
        outs = m.run(bid, (Ref(eng.temp(st, v)),), st, eng, args)
        orc = Oracle(m, eng, spec, m.K + DEEPER if m.long is None else m.long + 2)
        for s, k, got in outs:
            res.paths += 1
            if k == "cut":
                continue
            if k == "panic":
                res.bad.append((("C02", "C04"), cls, "wire_size() panics: %s" % (v[0] if isinstance(v, tuple) else got[0]), "wire_size() of %s can panic: %s\npath: %s" % (d.name, got, describe(s)), None))
                continue
            if k != "v":
                res.undec.append((("C02",), cls, "wire_size of %s: %s %s" % (d.name, k, got)))
                continue
            orc.open = []
            try:
                want = orc.decl_size(s, d, v)
                for s2 in orc.uncounted(got):
                    res.bad.append((("C02",), cls, "wire_size() does not count every element", "wire_size() of %s %s is %r for a sequence of more than %d elements\npath: %s" % (d.kind, d.name, got, orc.K, describe(s2)), None))
                for s2, z in want:
                    if eng.infeas(s2):
                        continue
                    if isinstance(got, (int, Lin)) and eng.entails_eq(s2, Lin.of(got) - z):
                        res.good("C02")
                    else:
                        res.bad.append((("C02",), cls, "wrong wire_size()", "wire_size() of %s %s is %r, its encoding has %r bytes\npath: %s" % (d.kind, d.name, got, z, describe(s2)), None))
            except Undecided as u:
                res.undec.append((("C02",), cls, "wire_size of %s: %s" % (d.name, u)))
    except Undecided as u:
        res.undec.append((("C02",), cls, "wire_size of %s: %s" % (d.name, u)))
    res.visited |= eng.visited
    res.sites |= eng.sites


def work(item):
    unit, frags, K = item
    res = Res()
    spec = unit.spec
    names = {d.name for f in unit.frags for d in f.decls if not (d.kind == "typedef" and d.type == ("named", d.name))}
    mins = {n: least(spec, n) for n in names}
    # enumerations and typedefs of words are leaves: interpreted where they are used
    for n in list(names):
        u = spec.underlying(("named", n))
        if u[0] in ("int", "bool") or u[0] == "named" and spec.decls[u[1]].kind == "enum":
            names.discard(n)
    m = Mod(unit.prog, names, K, unit.prefix, {n: min(x, 2**16) for n, x in mins.items()})
    for f in frags:
        for d in f.subjects():
            cls = f.key
            res.subjects += 1
            t = time.time()
            m.long = f.long
            if not f.sizes_only:
                decoder(res, m, spec, d, False, cls)
                decoder(res, m, spec, d, True, cls)
            sizes(res, m, spec, d, cls)
            m.long = None
            res.declared += 1
            if os.environ.get("VERIF_TIME"):
                print("%.2f s %s %s" % (time.time() - t, cls, d.name), flush=True)
        recursion(res, f)
    res.steps |= m.steps_by_size
    return res


def recursion(res, f):
    """a cycle among the decoders: every link of the input nests one more call, nothing bounds it"""
    edges = {d.name: res.calls.get((f.key, d.name), set()) for d in f.subjects()}
    for n in edges:
        seen, todo = set(), [n]
        while todo:
            for y in edges.get(todo.pop(), ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        if n in seen:
            res.bad.append((("C04",), f.key, "unbounded recursion", "the decoders of %s call themselves once per nested value (%s): the call depth is bounded only by the input, long chains overflow the stack"
                            % (n, " -> ".join([n] + sorted(seen))), None))
            return
    res.good("C04")


class Study:
    """the catalogue, generated, compiled and judged once"""

    def __init__(self, K, frags=None, derive=None, more=None):
        t = time.time()
        self.lib = Lib()
        self.frags = frags if frags is not None else S.catalogue()
        if more:
            self.frags = self.frags + more(self.lib)
        self.em = Emitter(self.lib, derive)
        self.em.build(self.frags)
        self.words = self.affixes = ()
        if more:     # what the generator tested names with: specifications with such names
            P = S.Pool()
            P.n = 7000
            self.words, self.affixes = probes.from_notes(P, self.lib.notes, self.frags)
            if P.out:
                self.em.build(P.out)
                self.frags = self.frags + P.out
        self.t_emit = time.time() - t
        items = []
        for u in self.em.units:
            u.spec = self.em.spec(u.frags)
        # long items first
        for u in self.em.units:
            for i in range(0, len(u.frags), 6):
                items.append((u, u.frags[i:i + 6], K))
        self.results = []
        self.crashed = []
        t = time.time()
        for it, (k, r) in zip(items, pmap(work, items)):
            if k == "ok":
                self.results.append(r)
            else:
                self.crashed.append((it[1][0].key, r))
        self.t_decide = time.time() - t


def short(what):
    return what[:120]


def report(ck, st, prop):
    bad = [b for r in st.results for b in r.bad]
    # wire_size() is what read_variable_array steps by: a wrong one misplaces elements
    steps = set().union(*[r.steps for r in st.results]) if st.results else set()
    fams = {}
    for props, cls, what, det, fam in bad:
        fams.setdefault((cls, what), set()).add(fam)
    for props, cls, what, det, fam in bad:
        ps = set(props)
        if what == "wrong wire_size()" and steps:
            ps |= {"C01", "C03"}
            if prop in ("C01", "C03"):
                det += "\nread_variable_array advances by wire_size(): arrays of it are misread"
        if fam is not None and len(fams[(cls, what)]) == 1:
            ps.add("C03")
        if prop in ps:
            ck.violation("%s: %s" % (cls, short(what)), det)
    for r in st.results:
        for props, cls, why in r.undec:
            if prop in props:
                ck.undec(cls, why)
        ck.holds(r.ok.get(prop, 0))
    if st.crashed:
        print("analysis crashed on %d groups: %s" % (len(st.crashed), st.crashed[0][1][-600:]))
    for cls, why in st.crashed:
        ck.undec(cls, "analysis: " + why[-200:])
    sup = {f.key for f in st.frags if f.supported}
    ck.info["refused_unsupported"] = sorted(k for k, v in st.em.failed.items() if k not in sup and v[0] == "gen-err")
    for key, (kind, det) in st.em.failed.items():
        if key not in sup and kind == "gen-err":
            continue
        if key in sup and kind in ("gen-err", "gen-panic") and prop == "C01":
            ck.violation("%s: not generated" % key, "the generator %s on a supported specification: %s" % ("panics" if kind == "gen-panic" else "returns an error", det))
        else:
            ck.undec(key, "%s: %s" % (kind, det[:200]))
    ck.info["classes"] = len(st.frags)
    ck.info["classes_emitted"] = sum(len(u.frags) for u in st.em.units)
    ck.info["declarations_judged"] = sum(r.subjects for r in st.results)
    ck.info["paths"] = sum(r.paths for r in st.results)
    ck.info["bodies_analysed"] = len(set().union(*[r.visited for r in st.results])) if st.results else 0
    ck.info["call_sites"] = len(set().union(*[r.sites for r in st.results])) if st.results else 0
    ck.info["emit_s"] = round(st.t_emit, 1)
    ck.info["decide_s"] = round(st.t_decide, 1)
    for r in st.results[:8]:
        for s in r.samples[:1]:
            ck.sample(**s)


def aimed(lib, deep):
    """specifications with lengths and labels around every number in the program, and names of every style"""
    P = S.Pool()
    P.n = 6000
    ns = probes.numbers(lib.P)
    probes.sizes(P, ns, deep)
    probes.labels(P, set(ns) | {255, 256, 257, 65535, 65536})
    try:
        counts = header.long_counts(header.header_module(lib)[2], 4, 5)
    except Undecided:
        counts = header.long_counts(lib.P, 4, 0)
    for n in counts:
        probes.many(P, n)
    return P.out + probes.styled(S.catalogue(), share=11 if deep else 33)


def check(ck, prop, tier):
    K = 4 if tier == "quick" else 6
    import texts
    ck.explain(*texts.decide(prop, K))
    deep = tier == "thorough"
    P = S.Pool()
    P.n = 9000
    from api import mixed
    mixed(P, 200 if deep else 20, int(os.environ.get("VERIF_SEED", "1")), 30)
    st = Study(K, S.catalogue(deep) + P.out, more=lambda lib: aimed(lib, deep))
    ck.info["names_tested_with"] = list(st.words) + list(st.affixes)
    report(ck, st, prop)
    ck.floor("declaration shapes", ck.info["classes"], 700)
    return st
