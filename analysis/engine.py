"""Abstract interpreter over THIR.

Values are partly symbolic.  A state is (heap, facts, linear constraints).  Every evaluation
returns a list of outcomes (state, kind, value); kinds: 'v' value, 'ret', 'brk', 'cont',
'panic', 'undec' (construct outside the domain), 'exit'.
Branches on unknown conditions partition the trace; loops over unknown sequences are summarised
once, for a generic element and a generic loop-carried state (see `fold`)."""
import sys
from lin import Lin, infeasible, fmt_atom
from thir import subst, unify, tstr

sys.setrecursionlimit(100000)


class Undecided(Exception):
    pass


class Need(Undecided):
    """an operation on a string of unknown content (t: its term)"""

    def __init__(self, t, why):
        Undecided.__init__(self, why)
        self.t = t


# ---------------------------------------------------------------- values
class V:
    __slots__ = ()


class SStr(V):
    """string template: tuple of pieces, each a python str or a term"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __eq__(self, o):
        return isinstance(o, SStr) and self.p == o.p

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return "".join(x if isinstance(x, str) else "{%s}" % fmt_atom(x) for x in self.p)


def mkstr(pieces):
    out = []
    for x in pieces:
        if isinstance(x, str):
            if not x:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)
        else:
            out.append(x)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SStr(tuple(out))


def pieces(s):
    if isinstance(s, str):
        return (s,) if s else ()
    if isinstance(s, SStr):
        return s.p
    raise Undecided("not a string: %r" % (s,))


def cat(a, b):
    return mkstr(pieces(a) + pieces(b))


def sterm(s):
    """term of a string value (for use in facts)"""
    if isinstance(s, str):
        return s
    if len(s.p) == 1:
        return s.p[0]
    return ("cat",) + s.p


class Char(V):
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        return isinstance(o, Char) and o.c == self.c

    def __hash__(self):
        return hash(("char", self.c))

    def __repr__(self):
        return "'%s'" % (self.c,)


class BV(V):
    """symbolic boolean: an atom"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, BV) and o.t == self.t

    def __hash__(self):
        return hash(("bv", self.t))

    def __repr__(self):
        return "?%s" % fmt_atom(self.t)


def bnot(b):
    if isinstance(b, bool):
        return not b
    t = b.t
    if t[0] == "not":
        return BV(t[1])
    return BV(("not", t))


class Sym(V):
    __slots__ = ("t", "ty")

    def __init__(self, t, ty):
        self.t = t
        self.ty = ty

    def __eq__(self, o):
        return isinstance(o, Sym) and o.t == self.t

    def __hash__(self):
        return hash(("sym", self.t))

    def __repr__(self):
        return "$%s" % fmt_atom(self.t)


class Adt(V):
    __slots__ = ("n", "v", "f")

    def __init__(self, n, v, f):
        self.n = n
        self.v = v
        self.f = tuple(f)

    def __eq__(self, o):
        return isinstance(o, Adt) and o.n == self.n and o.v == self.v and o.f == self.f

    def __hash__(self):
        return hash((self.n, self.v, self.f))

    def __repr__(self):
        return "%s#%s%r" % (self.n.split("::")[-1], self.v, self.f)


class Tup(V):
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = tuple(f)

    def __eq__(self, o):
        return isinstance(o, Tup) and o.f == self.f

    def __hash__(self):
        return hash(self.f)

    def __repr__(self):
        return "Tup%r" % (self.f,)


UNIT = Tup(())


class Seq(V):
    """Vec / slice / array contents.  segments: ('one', v) | ('many', term, elemty)"""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = tuple(s)

    def __eq__(self, o):
        return isinstance(o, Seq) and o.s == self.s

    def __hash__(self):
        return hash(self.s)

    def __repr__(self):
        return "[%s]" % ",".join(repr(x[1]) if x[0] == "one" else "*%s" % fmt_atom(x[1]) for x in self.s)


class Ref(V):
    __slots__ = ("c", "p")

    def __init__(self, c, p=()):
        self.c = c
        self.p = p

    def __eq__(self, o):
        return isinstance(o, Ref) and o.c == self.c and o.p == self.p

    def __hash__(self):
        return hash((self.c, self.p))

    def __repr__(self):
        return "&%s%s" % (self.c, "".join("." + str(x) for x in self.p))


class Clo(V):
    __slots__ = ("id", "fid", "sub")

    def __init__(self, id, fid, sub):
        self.id = id
        self.fid = fid
        self.sub = sub

    def __eq__(self, o):
        return isinstance(o, Clo) and o.id == self.id and o.fid == self.fid

    def __hash__(self):
        return hash((self.id, self.fid))

    def __repr__(self):
        return "clo(%s)" % self.id


class Fn(V):
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def __repr__(self):
        return "fn(%s)" % self.d["path"]


class Args(V):
    """core::fmt::Arguments: pieces, str or ('disp'|'debug'|.., value, ty)"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


class It(V):
    """lazy iterator: segments (segment, stages)"""
    __slots__ = ("s", "by")

    def __init__(self, s):
        self.s = tuple(s)

    def __repr__(self):
        return "It%r" % (self.s,)

    def __eq__(self, o):
        return isinstance(o, It) and o.s == self.s

    def __hash__(self):
        return hash(("it", self.s))


class View(V):
    """bytes::Bytes / byte slice / Vec<u8>: (allocation, start, end) with linear bounds"""
    __slots__ = ("a", "o", "e")

    def __init__(self, a, o, e):
        self.a = a
        self.o = Lin.of(o)
        self.e = Lin.of(e)

    def len(self):
        return self.e - self.o

    def __eq__(self, o):
        return isinstance(o, View) and o.a == self.a and o.o == self.o and o.e == self.e

    def __hash__(self):
        return hash((self.a, self.o, self.e))

    def __repr__(self):
        return "view(%s,%r..%r)" % (self.a, self.o, self.e)


class Poison(V):
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "poison(%s)" % self.why


OPTION = "core::option::Option"
RESULT = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"
BOX = "alloc::boxed::Box"
NONE = Adt(OPTION, 0, ())


def some(v):
    return Adt(OPTION, 1, (v,))


def ok(v):
    return Adt(RESULT, 0, (v,))


def err(v):
    return Adt(RESULT, 1, (v,))


INT = {"u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "u128": (0, 2**128 - 1),
       "usize": (0, 2**64 - 1), "i8": (-2**7, 2**7 - 1), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1),
       "i64": (-2**63, 2**63 - 1), "i128": (-2**127, 2**127 - 1), "isize": (-2**63, 2**63 - 1)}


# ---------------------------------------------------------------- state
class State:
    __slots__ = ("heap", "facts", "ge", "eq", "ne", "pc", "ev", "depth")

    def __init__(self):
        self.heap = {}
        self.facts = {}
        self.ge = []
        self.eq = []
        self.ne = []
        self.pc = ()
        self.ev = ()
        self.depth = 0

    def fork(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.ge = list(self.ge)
        s.eq = list(self.eq)
        s.ne = list(self.ne)
        s.pc = self.pc
        s.ev = self.ev
        s.depth = self.depth
        return s


def bind(outs, f):
    res = []
    for st, k, v in outs:
        if k == "v":
            try:
                res.extend(f(st, v))
            except Undecided as u:
                res.append((st, "undec", str(u)))
        else:
            res.append((st, k, v))
    return res


class Frame:
    __slots__ = ("fid", "body", "sub", "parent", "depth")

    def __init__(self, fid, body, sub, parent=None, depth=0):
        self.fid = fid
        self.body = body
        self.sub = sub
        self.parent = parent
        self.depth = depth


class Engine:
    def __init__(self, prog, models, max_depth=60):
        self.P = prog
        self.models = models
        self.cnt = 0
        self.atom_rng = {}
        self.folds = {}
        self.frames = {}
        self.var_owner = set()
        self.max_depth = max_depth
        self.hooks = {}
        self.visited = set()      # bodies analysed
        self.ncalls = 0
        self.sites = set()        # call sites analysed
        self.max_states = 20000
        self.type_hooks = {}      # trait method on abstract types
        self.impl_cache = {}
        self.loc = None
        self.notes = {}           # inspections of symbolic names: (kind, details) -> count

    # ------------------------------------------------------------ misc
    def note(self, kind, *details):
        k = (kind,) + details
        self.notes[k] = self.notes.get(k, 0) + 1

    def fresh(self, p="t"):
        self.cnt += 1
        return "%s%d" % (p, self.cnt)

    def temp(self, st, v):
        c = self.fresh("tmp")
        st.heap[c] = v
        return c

    def ty(self, fr, i):
        return subst(fr.body.crate.types[i], fr.sub)

    # ------------------------------------------------------------ symbols
    def mk(self, st, t, ty):
        k = ty[0]
        if k == "int":
            lo, hi = INT[ty[1]]
            if t not in self.atom_rng:
                self.atom_rng[t] = (lo, hi)
            return Lin.atom(t)
        if k == "bool":
            return BV(("b", t))
        if k == "str":
            return SStr((t,))
        if k == "tuple":
            return Tup(tuple(self.mk(st, ("fld", t, 0, i), x) for i, x in enumerate(ty[1])))
        if k == "ref":
            if ty[2][0] == "str":
                return SStr((t,))
            c = ("symref", t)
            if c not in st.heap:
                st.heap[c] = self.mk(st, t, ty[2])
            return Ref(c)
        if k == "slice":
            return Seq((("many", t, ty[1]),))
        if k == "array":
            n = ty[2][1] if isinstance(ty[2], tuple) else ty[2]
            if isinstance(n, int):
                return Seq(tuple(("one", self.mk(st, ("idx", t, i), ty[1])) for i in range(n)))
            return Seq((("many", t, ty[1]),))
        if k == "adt":
            p = ty[1]
            if p == "alloc::string::String":
                return SStr((t,))
            if p == "alloc::vec::Vec":
                return Seq((("many", t, ty[2][0]),))
            if p == BOX:
                return Adt(BOX, 0, (self.mk(st, t, ty[2][0]),))
            if p == "bytes::bytes::Bytes":
                return View(("sym", t), 0, Lin.atom(("blen", t)))
            return Sym(t, ty)
        return Sym(t, ty)

    def rng(self, atom):
        r = self.atom_rng.get(atom)
        if r is None and isinstance(atom, tuple):
            if atom[0] in ("len", "blen"):
                r = (0, self.hooks.get("len_max", 2**63 - 1))
            elif atom[0] in ("it",):
                r = (0, 2**63 - 1)
        return r

    def consts(self, st, extra=()):
        """linear constraints of st plus the ranges of the atoms involved."""
        ge = list(st.ge)
        eq = list(st.eq)
        atoms = set()
        for l in ge:
            atoms.update(l.m)
        for l in eq:
            atoms.update(l.m)
        for l in extra:
            atoms.update(l.m)
        for a in atoms:
            r = self.rng(a)
            if r:
                if r[0] is not None:
                    ge.append(Lin(-r[0], {a: 1}))
                if r[1] is not None:
                    ge.append(Lin(r[1], {a: -1}))
        return ge, eq

    def infeas(self, st, ge=(), eq=()):
        g, e = self.consts(st, tuple(ge) + tuple(eq))
        # keep only the constraints connected to the query
        q = list(ge) + list(eq)
        if q:
            seen = set()
            for l in q:
                seen.update(l.m)
            pool_g, pool_e = list(g), list(e)
            cg, ce = [], []
            ch = True
            while ch:
                ch = False
                ng = []
                for l in pool_g:
                    if not l.m:
                        cg.append(l)
                    elif any(a in seen for a in l.m):
                        cg.append(l)
                        seen.update(l.m)
                        ch = True
                    else:
                        ng.append(l)
                pool_g = ng
                ne = []
                for l in pool_e:
                    if not l.m or any(a in seen for a in l.m):
                        ce.append(l)
                        seen.update(l.m)
                        ch = True
                    else:
                        ne.append(l)
                pool_e = ne
            g, e = cg, ce
        if infeasible(list(ge) + g, list(eq) + e):
            return True
        for l in st.ne:
            if not l.m:
                if l.c == 0:
                    return True
                continue
            if infeasible(list(ge) + g + [l - 1], list(eq) + e) and infeasible(list(ge) + g + [-l - 1], list(eq) + e):
                return True
        return False

    def entails_ge(self, st, l):
        l = Lin.of(l)
        if not l.m:
            return l.c >= 0
        return self.infeas(st, ge=[-l - 1])

    def entails_eq(self, st, l):
        l = Lin.of(l)
        if not l.m:
            return l.c == 0
        return self.entails_ge(st, l) and self.entails_ge(st, -l)

    def add_ge(self, st, l):
        l = Lin.of(l)
        if l.m:
            st.ge.append(l)
            self.sat_ne(st)

    def add_eq(self, st, l):
        l = Lin.of(l)
        if l.m:
            st.eq.append(l)

    def add_ne(self, st, l):
        st.ne.append(l)
        self.sat_ne(st)

    def sat_ne(self, st):
        ch = True
        while ch:
            ch = False
            for l in list(st.ne):
                if not l.m:
                    continue
                if self.infeas_raw(st, [-l - 1]):   # l >= 0
                    st.ne.remove(l)
                    st.ge.append(l - 1)
                    ch = True
                elif self.infeas_raw(st, [l - 1]):  # l <= 0
                    st.ne.remove(l)
                    st.ge.append(-l - 1)
                    ch = True

    def infeas_raw(self, st, ge):
        g, e = self.consts(st, tuple(ge))
        return infeasible(list(ge) + g, e)

    # ------------------------------------------------------------ conditions
    def branch(self, st, c):
        """partition on a boolean value: list of (state, bool)"""
        if isinstance(c, bool):
            return [(st, c)]
        if isinstance(c, Poison):
            raise Undecided("branch on " + c.why)
        if not isinstance(c, BV):
            raise Undecided("branch on %r" % (c,))
        t = c.t
        if t[0] == "not":
            return [(s, not b) for s, b in self.branch(st, BV(t[1]))]
        if t[0] == "ge":
            l = t[1]
            if self.entails_ge(st, l):
                return [(st, True)]
            if self.infeas(st, ge=[l]):
                return [(st, False)]
            s2 = st.fork()
            self.add_ge(st, l)
            st.pc += ((t, True),)
            self.add_ge(s2, -l - 1)
            s2.pc += ((t, False),)
            return [(st, True), (s2, False)]
        if t[0] == "eq0":
            l = t[1]
            if self.entails_eq(st, l):
                return [(st, True)]
            if self.infeas(st, eq=[l]):
                return [(st, False)]
            s2 = st.fork()
            self.add_eq(st, l)
            st.pc += ((t, True),)
            self.add_ne(s2, l)
            s2.pc += ((t, False),)
            return [(st, True), (s2, False)]
        if t[0] == "sin":
            return self.branch_sin(st, t[1], t[2])
        if t[0] == "and":
            res = []
            for s, b in self.branch(st, BV(t[1])):
                if not b:
                    res.append((s, False))
                else:
                    res.extend(self.branch(s, BV(t[2])))
            return res
        if t[0] == "or":
            res = []
            for s, b in self.branch(st, BV(t[1])):
                if b:
                    res.append((s, True))
                else:
                    res.extend(self.branch(s, BV(t[2])))
            return res
        if t[0] == "isv":   # variant test
            res = []
            for s, v in self.split(st, Sym(t[1], t[3])):
                res.append((s, v == t[2]))
            return res
        if t[0] == "seq" and False:
            pass
        if t in st.facts:
            return [(st, st.facts[t])]
        s2 = st.fork()
        st.facts[t] = True
        st.pc += ((t, True),)
        s2.facts[t] = False
        s2.pc += ((t, False),)
        return [(st, True), (s2, False)]

    def str_possible(self, t, lit):
        """may the string term t equal the literal?"""
        if isinstance(t, tuple) and t and t[0] == "cat":
            if isinstance(t[1], str) and not lit.startswith(t[1]):
                return False
            if isinstance(t[-1], str) and not lit.endswith(t[-1]):
                return False
            if sum(len(x) for x in t[1:] if isinstance(x, str)) > len(lit):
                return False
        if isinstance(t, tuple) and t and t[0] == "itoa":
            import re
            if not re.fullmatch(r"-?[0-9]+", lit):
                return False
        h = self.hooks.get("str_possible")
        if h:
            return h(t, lit)
        return True

    def literal_len(self, st, t, lits):
        """a string known to be one literal has its length"""
        h = self.hooks.get("text_len")
        if h and len(lits) == 1:
            n = h(self, t)
            if n is not None:
                self.add_eq(st, n - len(next(iter(lits)).encode("utf8", "surrogatepass")))

    def branch_sin(self, st, t, S):
        if isinstance(t, str):
            if t not in S and any(ord(c) >= 0xE000 for c in t):
                for x in S:
                    self.note("streq", t, x)
            return [(st, t in S)]
        S = frozenset(x for x in S if self.str_possible(t, x))
        if not S:
            return [(st, False)]
        if ("instance", t) in st.facts:
            return [(st, st.facts[("instance", t)] in S)]
        pos, neg = st.facts.get(("str", t), (None, frozenset()))
        if pos is not None:
            i = pos & S
            if not i:
                return [(st, False)]
            if i == pos:
                return [(st, True)]
            s2 = st.fork()
            st.facts[("str", t)] = (i, neg)
            self.literal_len(st, t, i)
            st.pc += ((("sin", t, S), True),)
            s2.facts[("str", t)] = (pos - S, neg)
            s2.pc += ((("sin", t, S), False),)
            return [(st, True), (s2, False)]
        i = S - neg
        if not i:
            return [(st, False)]
        s2 = st.fork()
        st.facts[("str", t)] = (i, neg)
        self.literal_len(st, t, i)
        st.pc += ((("sin", t, S), True),)
        s2.facts[("str", t)] = (None, neg | S)
        s2.pc += ((("sin", t, S), False),)
        return [(st, True), (s2, False)]

    def variants_of(self, ty):
        a = self.P.adts.get(ty[1])
        if a is None:
            return None
        return a

    def split(self, st, v):
        """partition on the variant of a (possibly symbolic) enum value"""
        if isinstance(v, Adt):
            return [(st, v.v)]
        if isinstance(v, Poison):
            raise Undecided("match on " + v.why)
        if not isinstance(v, Sym):
            raise Undecided("match on %r" % (v,))
        key = ("var", v.t)
        if key in st.facts:
            f = st.facts[key]
            if isinstance(f, int):
                return [(st, f)]
            opts = f
        else:
            a = self.variants_of(v.ty) if v.ty[0] == "adt" else None
            if a is None:
                raise Undecided("match on opaque %r : %s" % (v, tstr(v.ty)))
            opts = tuple(range(len(a["variants"])))
            if a["kind"] != "enum":
                return [(st, 0)]
        h = self.hooks.get("split")
        if h:
            r = h(self, st, v, opts)
            if r is not None:
                return r
        res = []
        for i, o in enumerate(opts):
            s = st if i == len(opts) - 1 else st.fork()
            s.facts[key] = o
            s.pc += ((("isv", v.t, o, v.ty), True),)
            res.append((s, o))
        return res

    def fields(self, st, v, variant):
        """field values of a value known to be in `variant`"""
        if isinstance(v, (Adt, Tup)):
            return v.f
        if isinstance(v, Sym):
            if v.ty[0] == "tuple":
                return tuple(self.mk(st, ("fld", v.t, 0, i), x) for i, x in enumerate(v.ty[1]))
            a = self.variants_of(v.ty)
            if a is None:
                raise Undecided("fields of opaque %r" % (v,))
            s = dict(zip(a["generics"], v.ty[2]))
            out = []
            for i, f in enumerate(a["variants"][variant]["fields"]):
                if f["ty"] is None:
                    raise Undecided("field of foreign type %s" % v.ty[1])
                out.append(self.mk(st, ("fld", v.t, variant, i), subst(f["ty"], s)))
            return tuple(out)
        raise Undecided("fields of %r" % (v,))

    # ------------------------------------------------------------ places
    def rd(self, st, ref):
        if ref.c not in st.heap:
            raise Undecided("read of unset cell %s" % (ref.c,))
        v = st.heap[ref.c]
        for p in ref.p:
            v = self.proj(st, v, p)
        return v

    def proj(self, st, v, p):
        if p[0] == "f":
            if isinstance(v, (Adt, Tup)):
                if p[2] >= len(v.f):
                    raise Undecided("field %r of %r" % (p, v))
                return v.f[p[2]]
            if isinstance(v, Poison):
                return v
            return self.fields(st, v, p[1])[p[2]]
        if p[0] == "i":
            if isinstance(v, Seq):
                return self.seq_idx(st, v, p[1])
            raise Undecided("index of %r" % (v,))
        if p[0] in ("mv", "mk"):
            try:
                return v.e[p[1]][1 if p[0] == "mv" else 0]
            except (AttributeError, IndexError):
                raise Undecided("map projection of %r" % (v,))
        if p[0] == "sub":
            if isinstance(v, Seq):
                hi = p[2]
                s = v.s[p[1]:] if hi is None else v.s[p[1]:hi]
                return Seq(s)
        raise Undecided("projection %r" % (p,))

    def seq_idx(self, st, v, i):
        """i: concrete int, counted from the front; -k from the back"""
        n = 0
        if i >= 0:
            for s in v.s:
                if s[0] == "one":
                    if n == i:
                        return s[1]
                    n += 1
                else:
                    return self.mk(st, ("idx", s[1], i - n), s[2])
        else:
            if all(s[0] == "one" for s in v.s[i:]) and len(v.s) >= -i:
                return v.s[i][1]
            s = v.s[-1]
            if s[0] == "many":
                return self.mk(st, ("ridx", s[1], i), s[2])
        raise Undecided("index %d of %r" % (i, v))

    def wr(self, st, ref, val):
        if not ref.p:
            st.heap[ref.c] = val
            return
        st.heap[ref.c] = self.upd(st, st.heap[ref.c], ref.p, val)

    def upd(self, st, v, path, val):
        if not path:
            return val
        p = path[0]
        if p[0] == "f":
            if isinstance(v, Sym):
                fs = self.fields(st, v, p[1])
                v = Tup(fs) if v.ty[0] == "tuple" else Adt(v.ty[1], p[1], fs)
            if isinstance(v, (Adt, Tup)):
                f = list(v.f)
                f[p[2]] = self.upd(st, f[p[2]], path[1:], val)
                return Tup(f) if isinstance(v, Tup) else Adt(v.n, v.v, f)
        if p[0] == "mv" and hasattr(v, "e") and p[1] < len(v.e):
            e = list(v.e)
            e[p[1]] = (e[p[1]][0], self.upd(st, e[p[1]][1], path[1:], val))
            return type(v)(v.kind, tuple(e))
        if p[0] == "i" and isinstance(v, Seq):
            i = p[1]
            idx = i if i >= 0 else len(v.s) + i
            if all(s[0] == "one" for s in v.s[:idx + 1]) and idx < len(v.s):
                s = list(v.s)
                s[idx] = ("one", self.upd(st, s[idx][1], path[1:], val))
                return Seq(s)
        raise Undecided("write to %r of %r" % (p, v))

    def place(self, fr, e, st):
        """outcomes whose value is a Ref to the place"""
        k = e["k"]
        if k in ("var", "upvar"):
            return [(st, "v", Ref((self.var_frame(fr, e["v"]), e["v"])))]
        if k == "deref":
            def f(st, v):
                if isinstance(v, Ref):
                    return [(st, "v", v)]
                if isinstance(v, Adt) and v.n == BOX:
                    return [(st, "v", Ref(self.temp(st, v.f[0])))]
                # &str / &[u8] and friends are by-value
                return [(st, "v", Ref(self.temp(st, v)))]
            x = e["x"]
            xt = self.ty(fr, x["ty"])
            if xt[0] == "adt" and xt[1] == BOX:
                return bind(self.place(fr, x, st), lambda st, r: [(st, "v", Ref(r.c, r.p + (("f", 0, 0),)))])
            return bind(self.ev(fr, x, st), f)
        if k == "field":
            return bind(self.place(fr, e["x"], st), lambda st, r: [(st, "v", Ref(r.c, r.p + (("f", e["v"], e["i"]),)))])
        if k == "index":
            def g(st, r):
                def h(st, i):
                    return bind(self.bounds_check(st, self.rd(st, r), i, e, fr), lambda st, _: self.idx_ref(st, r, i))
                return bind(self.ev(fr, e["i"], st), h)
            return bind(self.place(fr, e["l"], st), g)
        if k in ("use", "value", "never"):
            return self.place(fr, e["x"], st)
        # rvalue: temporary
        return bind(self.ev(fr, e, st), lambda st, v: [(st, "v", Ref(self.temp(st, v)))])

    def idx_ref(self, st, r, i):
        if isinstance(i, Lin):
            i = i.norm()
        if isinstance(i, int):
            return [(st, "v", Ref(r.c, r.p + (("i", i),)))]
        v = self.rd(st, r)
        if isinstance(v, Seq) and len(v.s) == 1 and v.s[0][0] == "many":
            return [(st, "v", Ref(self.temp(st, self.mk(st, ("elem", v.s[0][1], i), v.s[0][2]))))]
        raise Undecided("symbolic index")

    def bounds_check(self, st, v, i, e, fr):
        n = self.length(st, v)
        res = []
        c = self.cmp_lt(i, n)
        for s, b in self.branch(st, c):
            if b:
                res.append((s, "v", UNIT))
            else:
                res.append((s, "panic", ("index out of bounds", fr.body.file, e.get("s"), fr.body.id)))
        return res

    def cmp_lt(self, a, b):
        l = Lin.of(b) - Lin.of(a) - 1
        if not l.m:
            return l.c >= 0
        return BV(("ge", l))

    def length(self, st, v):
        if isinstance(v, Seq):
            n = Lin(0)
            for s in v.s:
                n = n + (1 if s[0] == "one" else Lin.of(self.manylen(s[1])))
            return n.norm()
        if isinstance(v, View):
            return v.len().norm()
        if isinstance(v, str):
            return len(v.encode())
        if isinstance(v, SStr):
            return Lin.atom(("len", sterm(v)))
        if isinstance(v, Sym):
            return Lin.atom(("len", v.t))
        raise Undecided("len of %r" % (v,))

    def manylen(self, t):
        if isinstance(t, tuple) and t:
            if t[0] == "skip":
                return Lin.of(self.manylen(t[1])) - t[2]
            if t[0] == "mapped":
                return self.manylen(t[1])
            if t[0] == "range":
                return Lin.of(t[2]) - Lin.of(t[1])
            if t[0] == "foldlist":
                n = self.folds[t[1]]["lens"].get(t[2])
                if n is not None:
                    return n
        return Lin.atom(("len", t))

    def var_frame(self, fr, v):
        f = fr
        while f is not None:
            if (f.fid, v) in self.var_owner:
                return f.fid
            f = f.parent
        # not bound yet: belongs to the innermost frame whose body owns it
        return fr.fid

    var_owner = None

    # ------------------------------------------------------------ expressions
    def ev(self, fr, e, st):
        try:
            return self._ev(fr, e, st)
        except Undecided as u:
            m = str(u)
            if "@" not in m:
                m += " @%s:%s" % (fr.body.file, e.get("s"))
            return [(st, "undec", m)]

    def evs(self, fr, es, st):
        """evaluate a list left to right; value = tuple"""
        outs = [(st, "v", ())]
        for e in es:
            outs = bind(outs, lambda st, acc, e=e: bind(self.ev(fr, e, st), lambda st, v: [(st, "v", acc + (v,))]))
        return outs

    def _ev(self, fr, e, st):
        return getattr(self, "e_" + e["k"], self.e_unknown)(fr, e, st)

    def e_unknown(self, fr, e, st):
        raise Undecided("expression kind %s" % e["k"])

    def load(self, fr, e, st):
        return bind(self.place(fr, e, st), lambda st, r: [(st, "v", self.rd(st, r))])

    e_var = e_upvar = e_field = e_index = load

    def e_deref(self, fr, e, st):
        return self.load(fr, e, st)

    def e_use(self, fr, e, st):
        return self.ev(fr, e["x"], st)

    e_value = e_never = e_use

    def e_lit(self, fr, e, st):
        lk = e["lk"]
        v = e["v"]
        if lk == "int":
            t = self.ty(fr, e["ty"])
            if t[0] == "char":
                return [(st, "v", Char(chr(v)))]
            if t[0] == "bool":
                return [(st, "v", bool(v))]
            h = self.hooks.get("literal")
            if h:
                r = h(self, st, v, t)
                if r is not None:
                    return [(st, "v", r)]
            return [(st, "v", v)]
        if lk == "str":
            return [(st, "v", v)]
        if lk == "bool":
            return [(st, "v", v)]
        if lk == "char":
            return [(st, "v", Char(v))]
        if lk == "bytes":
            return [(st, "v", Seq(tuple(("one", x) for x in v)))]
        if lk == "float":
            return [(st, "v", Sym(("float", v), self.ty(fr, e["ty"])))]
        raise Undecided("literal")

    def e_zst(self, fr, e, st):
        t = self.ty(fr, e["ty"])
        if t[0] == "fndef":
            d = self.P.fndefs[(t[3], t[4])]
            d = dict(d)
            d["args"] = tuple(subst(a, fr.sub) for a in d["args"])
            if "res" in d:
                r = dict(d["res"])
                r["args"] = tuple(subst(a, fr.sub) for a in r["args"])
                d["res"] = r
            if "ctor" in d:
                d["ctor"] = (subst(d["ctor"][0], fr.sub), d["ctor"][1])
            return [(st, "v", Fn(d))]
        raise Undecided("zst %s" % tstr(t))

    def e_const(self, fr, e, st):
        if "bits" in e:
            t = self.ty(fr, e["ty"])
            v = e["bits"]
            if t[0] == "int":
                lo, hi = INT[t[1]]
                if v > hi:
                    v -= (hi - lo + 1)
                return [(st, "v", v)]
            if t[0] == "bool":
                return [(st, "v", bool(v))]
            if t[0] == "char":
                return [(st, "v", Char(chr(v)))]
        d = e["def"]
        did = d["id"]
        if d.get("trait"):
            selfty = subst(fr.body.crate.arg(d["args"][0]), fr.sub)
            im = self.find_impl(d["trait"], selfty, d["name"])
            if im:
                did = im[0]
        h = self.hooks.get("const")
        if h:
            v = h(self, d)
            if v is not None:
                return [(st, "v", v)]
        if did in self.P.bodies:
            b = self.P.bodies[did]
            return self.run_body(b, (), {}, st)
        raise Undecided("const %s" % d["path"])

    def e_static(self, fr, e, st):
        h = self.hooks.get("static")
        if h:
            h(self, fr, e)
        c = ("static", e["id"])
        if c not in st.heap:
            b = self.P.bodies.get(e["id"])
            if b is None or e["mut"] and not self.hooks.get("statics"):
                raise Undecided("static %s" % e["path"])
            return bind(self.run_body(b, (), {}, st), lambda st, v: [(st.heap.__setitem__(c, v) or st, "v", Ref(c))])
        return [(st, "v", Ref(c))]

    def e_block(self, fr, e, st):
        b = e["b"]
        outs = self.block(fr, b, st)
        if b["lab"]:
            labs = set(e.get("sc", [])) | {b["sc"]}
            outs = [(s, "v", v[1]) if k == "brk" and v[0] in labs else (s, k, v) for s, k, v in outs]
        return outs

    def block(self, fr, b, st):
        outs = [(st, "v", UNIT)]
        for s in b["st"]:
            if s["k"] == "expr":
                outs = bind(outs, lambda st, _, s=s: bind(self.ev(fr, s["x"], st), lambda st, v: [(st, "v", UNIT)]))
            else:
                outs = bind(outs, lambda st, _, s=s: self.let(fr, s, st))
            if len(outs) > self.max_states:
                raise Undecided("too many paths")
        if b["e"] is not None:
            outs = bind(outs, lambda st, _: self.ev(fr, b["e"], st))
        return outs

    def let(self, fr, s, st):
        if s["x"] is None:
            self.declare(fr, s["p"])
            return [(st, "v", UNIT)]

        def f(st, r):
            res = []
            for s2, m in self.match(fr, s["p"], r, st):
                if m:
                    res.append((s2, "v", UNIT))
                elif s["else"] is not None:
                    res.extend(self.block(fr, s["else"], s2))
                else:
                    res.append((s2, "undec", "refutable let"))
            return res
        return bind(self.scrut(fr, s["x"], st, s["p"]), f)

    def scrut(self, fr, e, st, pat=None):
        """scrutinee place; rvalues are moved into a temporary"""
        if e["k"] in ("var", "upvar", "field", "deref", "index", "use"):
            return self.place(fr, e, st)
        return bind(self.ev(fr, e, st), lambda st, v: [(st, "v", Ref(self.temp(st, v)))])

    def declare(self, fr, p):
        if p["k"] == "bind":
            self.var_owner.add((fr.fid, p["v"]))

    def e_if(self, fr, e, st):
        res = []
        for s, k, b in self.cond(fr, e["c"], st):
            if k != "v":
                res.append((s, k, b))
            elif b:
                res.extend(self.ev(fr, e["t"], s))
            elif e["e"] is not None:
                res.extend(self.ev(fr, e["e"], s))
            else:
                res.append((s, "v", UNIT))
        return res

    def cond(self, fr, e, st):
        """outcomes with python bool values"""
        k = e["k"]
        if k == "let":
            def f(st, r):
                return [(s, "v", m) for s, m in self.match(fr, e["p"], r, st)]
            return bind(self.scrut(fr, e["x"], st), f)
        if k == "logic":
            def g(st, b):
                if e["op"] == "and":
                    return self.cond(fr, e["r"], st) if b else [(st, "v", False)]
                return [(st, "v", True)] if b else self.cond(fr, e["r"], st)
            return bind(self.cond(fr, e["l"], st), g)
        if k == "un" and e["op"] == "Not" and self.ty(fr, e["ty"])[0] == "bool":
            return bind(self.cond(fr, e["x"], st), lambda st, b: [(st, "v", not b)])
        if k in ("use", "value"):
            return self.cond(fr, e["x"], st)
        return bind(self.ev(fr, e, st), lambda st, v: [(s, "v", b) for s, b in self.branch(st, v)])

    def e_logic(self, fr, e, st):
        return self.cond(fr, e, st)

    def e_let(self, fr, e, st):
        return self.cond(fr, e, st)

    def e_match(self, fr, e, st):
        def f(st, r):
            res = []
            pending = [st]
            for arm in e["arms"]:
                nxt = []
                for s in pending:
                    try:
                        ms = self.match(fr, arm["p"], r, s)
                    except Undecided as u:
                        res.append((s, "undec", "%s @%s:%s" % (u, fr.body.file, e.get("s"))))
                        continue
                    for s2, m in ms:
                        if not m:
                            nxt.append(s2)
                            continue
                        if arm["g"] is None:
                            res.extend(self.ev(fr, arm["b"], s2))
                            continue
                        for s3, k, b in self.cond(fr, arm["g"], s2):
                            if k != "v":
                                res.append((s3, k, b))
                            elif b:
                                res.extend(self.ev(fr, arm["b"], s3))
                            else:
                                nxt.append(s3)
                pending = nxt
                if not pending:
                    break
            for s in pending:
                if e["arms"]:
                    res.append((s, "undec", "match fell through @%s:%s" % (fr.body.file, e.get("s"))))
            if len(res) > self.max_states:
                raise Undecided("too many paths")
            return res
        return bind(self.scrut(fr, e["x"], st), f)

    # ------------------------------------------------------------ patterns
    def match(self, fr, p, r, st):
        """list of (state, matched)"""
        k = p["k"]
        if k == "wild":
            return [(st, True)]
        if k == "bind":
            if p["sub"] is not None:
                res = []
                for s, m in self.match(fr, p["sub"], r, st):
                    if m:
                        self.bindvar(fr, p, r, s)
                    res.append((s, m))
                return res
            self.bindvar(fr, p, r, st)
            return [(st, True)]
        if k in ("deref", "derefpat"):
            v = self.rd(st, r)
            if isinstance(v, Ref):
                return self.match(fr, p["p"], v, st)
            if isinstance(v, Adt) and v.n == BOX:
                return self.match(fr, p["p"], Ref(r.c, r.p + (("f", 0, 0),)), st)
            return self.match(fr, p["p"], Ref(self.temp(st, v)), st)
        if k == "const":
            return self.match_const(p, self.rd(st, r), st)
        if k == "or":
            # merge constant alternatives on strings into one set test
            cs = [q for q in p["ps"]]
            if all(q["k"] == "const" and q["lk"] == "str" for q in self.flat_deref(cs)):
                v = self.rd(st, r)
                lits = frozenset(q["c"] for q in self.flat_deref(cs))
                while isinstance(v, Ref):
                    v = self.rd(st, v)
                return self.branch_sin(st, sterm(v), lits)
            res = []
            pending = [st]
            for q in cs:
                nxt = []
                for s in pending:
                    for s2, m in self.match(fr, q, r, s):
                        if m:
                            res.append((s2, True))
                        else:
                            nxt.append(s2)
                pending = nxt
            return res + [(s, False) for s in pending]
        if k == "variant":
            v = self.rd(st, r)
            if isinstance(v, Ref):
                return self.match(fr, p, v, st)
            res = []
            for s, vi in self.split_test(st, v, p["v"]):
                if vi != p["v"]:
                    res.append((s, False))
                else:
                    self.materialise(s, r, p["v"])
                    res.extend(self.match_fields(fr, p["v"], p["f"], r, s))
            return res
        if k == "leaf":
            v = self.rd(st, r)
            if isinstance(v, Ref):
                return self.match(fr, p, v, st)
            return self.match_fields(fr, 0, p["f"], r, st)
        if k == "slice":
            return self.match_slice(fr, p, r, st)
        if k == "range":
            v = self.rd(st, r)
            if isinstance(v, Char):
                if isinstance(v.c, str):
                    lo = -1 if p["lo"] is None else p["lo"]
                    hi = 1 << 40 if p["hi"] is None else p["hi"]
                    o = ord(v.c)
                    return [(st, lo <= o and (o <= hi if p["incl"] else o < hi))]
                return self.branch(st, BV(("p", "chrange", v.c, p["lo"], p["hi"], p["incl"])))
            res = []
            l = Lin.of(v)
            for s, b in (self.branch(st, self.ge0(l - p["lo"])) if p["lo"] is not None else [(st, True)]):
                if not b:
                    res.append((s, False))
                    continue
                if p["hi"] is None:
                    res.append((s, True))
                else:
                    h = p["hi"] if p["incl"] else p["hi"] - 1
                    res.extend(self.branch(s, self.ge0(Lin(h) - l)))
            return res
        if k == "never":
            return [(st, False)]
        raise Undecided("pattern %s" % k)

    def ge0(self, l):
        l = Lin.of(l)
        return BV(("ge", l)) if l.m else l.c >= 0

    def split_test(self, st, v, want):
        """like split, but only separates `want` from the rest when the value is symbolic"""
        if isinstance(v, Sym):
            key = ("var", v.t)
            f = st.facts.get(key)
            if isinstance(f, int):
                return [(st, f)]
            h = self.hooks.get("split")
            if h:
                r = h(self, st, v, f)
                if r is not None:
                    return r
            a = self.variants_of(v.ty) if v.ty[0] == "adt" else None
            if a is None:
                raise Undecided("match on opaque %r" % (v,))
            opts = f if f is not None else tuple(range(len(a["variants"])))
            if want not in opts:
                return [(st, -1)]
            if len(opts) == 1:
                st.facts[key] = opts[0]
                return [(st, opts[0])]
            s2 = st.fork()
            st.facts[key] = want
            st.pc += ((("isv", v.t, want, v.ty), True),)
            rest = tuple(o for o in opts if o != want)
            s2.facts[key] = rest[0] if len(rest) == 1 else rest
            s2.pc += ((("isv", v.t, want, v.ty), False),)
            return [(st, want), (s2, -1)]
        return self.split(st, v)

    def materialise(self, st, r, variant):
        pass

    def flat_deref(self, ps):
        out = []
        for q in ps:
            while q["k"] == "deref":
                q = q["p"]
            out.append(q)
        return out

    def match_fields(self, fr, variant, fs, r, st):
        states = [(st, True)]
        for i, q in fs:
            nxt = []
            for s, m in states:
                if not m:
                    nxt.append((s, False))
                else:
                    nxt.extend(self.match(fr, q, Ref(r.c, r.p + (("f", variant, i),)), s))
            states = nxt
        return states

    def match_const(self, p, v, st):
        while isinstance(v, Ref):
            v = self.rd(st, v)
        c = p["c"]
        if p["lk"] == "str":
            return self.branch_sin(st, sterm(v), frozenset([c]))
        if p["lk"] == "int":
            if isinstance(v, bool) or isinstance(v, BV):
                b = v if c else bnot(v)
                return self.branch(st, b)
            if isinstance(v, Char):
                if isinstance(v.c, str):
                    return [(st, ord(v.c) == c)]
                return self.branch(st, BV(("p", "chareq", v.c, chr(c))))
            if isinstance(v, (int, Lin)):
                h = self.hooks.get("literal")
                if h:
                    t = ("int", "i32")
                    c2 = h(self, st, c, t)
                    if c2 is not None:
                        c = c2
                l = Lin.of(v) - c
                return self.branch(st, BV(("eq0", l)) if l.m else l.c == 0)
        raise Undecided("const pattern on %r" % (v,))

    def match_slice(self, fr, p, r, st):
        v = self.rd(st, r)
        while isinstance(v, Ref):
            r = v
            v = self.rd(st, r)
        if not isinstance(v, Seq):
            raise Undecided("slice pattern on %r" % (v,))
        npre, nsuf = len(p["pre"]), len(p["suf"])
        n = self.length(st, v)
        want = npre + nsuf
        l = Lin.of(n) - want
        if p["mid"] is None:
            c = BV(("eq0", l)) if l.m else l.c == 0
        else:
            c = self.ge0(l)
        res = []
        for s, b in self.branch(st, c):
            if not b:
                res.append((s, False))
                continue
            states = [(s, True)]
            subs = [(q, Ref(r.c, r.p + (("i", i),))) for i, q in enumerate(p["pre"])]
            subs += [(q, Ref(r.c, r.p + (("i", i - nsuf),)) if p["mid"] is not None else Ref(r.c, r.p + (("i", npre + i),))) for i, q in enumerate(p["suf"])]
            if p["mid"] is not None and p["mid"]["k"] != "wild":
                subs.append((p["mid"], Ref(self.temp(s, self.subseq(v, npre, nsuf)))))
            for q, rr in subs:
                nx = []
                for s1, m in states:
                    nx.extend(self.match(fr, q, rr, s1) if m else [(s1, False)])
                states = nx
            res.extend(states)
        return res

    def subseq(self, v, lo, cut):
        s = list(v.s)
        out = []
        i = lo
        while i and s:
            if s[0][0] == "one":
                s.pop(0)
                i -= 1
            else:
                s[0] = ("many", ("skip", s[0][1], i), s[0][2])
                i = 0
        while cut and s:
            if s[-1][0] == "one":
                s.pop()
                cut -= 1
            else:
                raise Undecided("suffix of symbolic slice")
        return Seq(s + out)

    def bindvar(self, fr, p, r, st):
        self.var_owner.add((fr.fid, p["v"]))
        if p["by"] == "val":
            st.heap[(fr.fid, p["v"])] = self.rd(st, r)
        else:
            v = self.rd(st, r)
            # references to by-value strings stay values
            if p["by"] == "ref" and isinstance(v, (str, SStr)) and False:
                st.heap[(fr.fid, p["v"])] = v
            else:
                st.heap[(fr.fid, p["v"])] = r

    # ------------------------------------------------------------ aggregates
    def e_tuple(self, fr, e, st):
        return bind(self.evs(fr, e["a"], st), lambda st, vs: [(st, "v", Tup(vs))])

    def e_array(self, fr, e, st):
        return bind(self.evs(fr, e["a"], st), lambda st, vs: [(st, "v", Seq(tuple(("one", v) for v in vs)))])

    def e_repeat(self, fr, e, st):
        n = e["n"]["const"]
        if not isinstance(n, int) or n > 4096:
            raise Undecided("array repeat %s" % (n,))
        return bind(self.ev(fr, e["x"], st), lambda st, v: [(st, "v", Seq((("one", v),) * n))])

    def e_adt(self, fr, e, st):
        t = self.ty(fr, e["ty"])
        es = e["f"]

        def f(st, vs):
            d = {i: v for (i, _), v in zip(es, vs)}
            if "base" in e:
                def g(st, b):
                    fs = list(self.fields(st, b, 0))
                    for i, v in d.items():
                        fs[i] = v
                    return [(st, "v", Adt(t[1], e["v"], fs))]
                return bind(self.ev(fr, e["base"], st), g)
            return [(st, "v", Adt(t[1], e["v"], tuple(d[i] for i in range(len(d)))))]
        return bind(self.evs(fr, [x for _, x in es], st), f)

    def e_borrow(self, fr, e, st):
        x = e["x"]
        t = self.ty(fr, x["ty"])

        def f(st, r):
            if t[0] == "str":
                return [(st, "v", self.rd(st, r))]
            if t[0] == "slice" or t[0] == "dyn":
                v = self.rd(st, r)
                if isinstance(v, View):
                    return [(st, "v", v)]
            return [(st, "v", r)]
        # reborrow &*x
        if x["k"] == "deref" and self.ty(fr, x["x"]["ty"])[0] in ("ref",):
            return self.ev(fr, x["x"], st) if not (self.ty(fr, x["x"]["ty"])[0] == "adt") else bind(self.place(fr, x, st), f)
        return bind(self.place(fr, x, st), f)

    def e_rawborrow(self, fr, e, st):
        raise Undecided("raw pointer")

    def e_closure(self, fr, e, st):
        h = self.hooks.get("closure")
        return [(st, "v", Clo(e["id"], fr.fid, fr.sub))]

    def e_coerce(self, fr, e, st):
        def f(st, v):
            return [(st, "v", v)]
        return bind(self.ev(fr, e["x"], st), f)

    def e_return(self, fr, e, st):
        if e["x"] is None:
            return [(st, "ret", UNIT)]
        return [(s, "ret" if k == "v" else k, v) for s, k, v in self.ev(fr, e["x"], st)]

    def e_break(self, fr, e, st):
        if e["x"] is None:
            return [(st, "brk", (e["lb"], UNIT, fr.fid))]
        return [(s, "brk", (e["lb"], v, fr.fid)) if k == "v" else (s, k, v) for s, k, v in self.ev(fr, e["x"], st)]

    def e_continue(self, fr, e, st):
        return [(st, "cont", (e["lb"], fr.fid))]

    def e_assign(self, fr, e, st):
        def f(st, v):
            return bind(self.place(fr, e["l"], st), lambda st, r: [(self.wr(st, r, v) or st, "v", UNIT)])
        return bind(self.ev(fr, e["r"], st), f)

    def e_assignop(self, fr, e, st):
        op = e["op"].replace("Assign", "")
        t = self.ty(fr, e["l"]["ty"])

        def f(st, v):
            def g(st, r):
                return bind(self.binop(fr, e, st, op, self.rd(st, r), v, t), lambda st, x: [(self.wr(st, r, x) or st, "v", UNIT)])
            return bind(self.place(fr, e["l"], st), g)
        return bind(self.ev(fr, e["r"], st), f)

    def e_bin(self, fr, e, st):
        lt = self.ty(fr, e["l"]["ty"])
        return bind(self.evs(fr, [e["l"], e["r"]], st), lambda st, vs: self.binop(fr, e, st, e["op"], vs[0], vs[1], lt))

    def residue(self, st, l, m):
        """partition on l mod m: list of (state, r, q) with l = m*q + r"""
        l = Lin.of(l)
        if not l.m:
            return [(st, l.c % m, l.c // m)]
        # combine known residues of the atoms
        r = l.c
        q = Lin(0)
        unknown = Lin(0)
        known = True
        for a, k in l.m.items():
            if k % m == 0:
                q = q + Lin.atom(a).scale(k // m)
                continue
            f = st.facts.get(("mod", a, m))
            if f is None:
                known = False
                break
            r += k * f
            q = q + Lin.atom(("div", a, m)).scale(k)
        if known:
            return [(st, r % m, (q + Lin(r // m)).norm())]
        # split on the first unknown atom
        a = next(a for a, k in l.m.items() if k % m and ("mod", a, m) not in st.facts)
        res = []
        for i in range(m):
            s = st.fork()
            s.facts[("mod", a, m)] = i
            qa = ("div", a, m)
            rg = self.rng(a)
            if qa not in self.atom_rng:
                self.atom_rng[qa] = (rg[0] // m if rg and rg[0] is not None else None, rg[1] // m if rg and rg[1] is not None else None)
            s.eq.append(Lin.atom(a) - Lin.atom(qa).scale(m) - i)
            s.pc += ((("eqmod", a, m, i), True),)
            if self.infeas(s, ge=[Lin.atom(a) - (rg[0] if rg and rg[0] is not None else 0)]) if rg else False:
                continue
            res.extend(self.residue(s, l, m))
        return res

    def binop(self, fr, e, st, op, a, b, t):
        while isinstance(a, Ref):
            a = self.rd(st, a)
        while isinstance(b, Ref):
            b = self.rd(st, b)
        if isinstance(a, Poison) or isinstance(b, Poison):
            return [(st, "v", Poison("op on poison"))]
        if isinstance(a, (bool, BV)):
            return self.boolop(st, op, a, b)
        if isinstance(a, Char):
            if isinstance(a.c, str) and isinstance(b.c, str):
                x, y = ord(a.c), ord(b.c)
                return [(st, "v", {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op])]
            if op in ("Eq", "Ne"):
                if isinstance(b.c, str):
                    v = BV(("p", "chareq", a.c, b.c))
                elif isinstance(a.c, str):
                    v = BV(("p", "chareq", b.c, a.c))
                else:
                    raise Undecided("char cmp")
                return [(st, "v", v if op == "Eq" else bnot(v))]
            raise Undecided("char cmp")
        if isinstance(a, Sym) or isinstance(b, Sym):
            if op in ("Eq", "Ne"):
                v = True if a == b else BV(("p", "eq", getattr(a, "t", a), getattr(b, "t", b)))
                return [(st, "v", v if op == "Eq" else bnot(v))]
            raise Undecided("op %s on %r" % (op, a))
        if not isinstance(a, (int, Lin)) or not isinstance(b, (int, Lin)):
            raise Undecided("op %s on %r %r" % (op, a, b))
        A, B = Lin.of(a), Lin.of(b)
        if op in ("Eq", "Ne"):
            l = A - B
            v = BV(("eq0", l)) if l.m else l.c == 0
            return [(st, "v", v if op == "Eq" else bnot(v))]
        if op == "Lt":
            return [(st, "v", self.ge0(B - A - 1))]
        if op == "Le":
            return [(st, "v", self.ge0(B - A))]
        if op == "Gt":
            return [(st, "v", self.ge0(A - B - 1))]
        if op == "Ge":
            return [(st, "v", self.ge0(A - B))]
        if op in ("Add", "Sub", "Mul"):
            if op == "Add":
                r = A + B
            elif op == "Sub":
                r = A - B
            else:
                if not A.m:
                    r = B.scale(A.c)
                elif not B.m:
                    r = A.scale(B.c)
                else:
                    at = ("mul", A, B)
                    r = Lin.atom(at)
            return self.range_check(fr, e, st, r, t, op)
        if op in ("Rem", "Div"):
            if not B.m:
                if B.c == 0:
                    return [(st, "panic", ("division by zero", fr.body.file, e.get("s"), fr.body.id))]
                if not A.m:
                    q = abs(A.c) // abs(B.c) * (1 if (A.c >= 0) == (B.c >= 0) else -1)
                    return [(st, "v", q if op == "Div" else A.c - q * B.c)]
                if B.c > 0 and self.entails_ge(st, A):
                    if B.c > 16:
                        raise Undecided("division by %d" % B.c)
                    return [(s, "v", r if op == "Rem" else (q if isinstance(q, int) else q.norm())) for s, r, q in self.residue(st, A, B.c)]
            raise Undecided("division")
        if op in ("BitAnd", "BitOr", "BitXor", "Shl", "Shr"):
            if not A.m and not B.m:
                x, y = A.c, B.c
                lo, hi = INT[t[1]]
                if op in ("Shl", "Shr") and not 0 <= y < (hi - lo).bit_length():
                    return [(st, "panic", ("shift by more than the width", fr.body.file if fr else None, e.get("s") if e else None, fr.body.id if fr else None))]
                r = {"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y, "Shl": x << (y & 255), "Shr": x >> (y & 255)}[op]
                return [(st, "v", (r - lo) % (hi - lo + 1) + lo)]
            return self.bits(fr, e, st, op, A, B, t)
        raise Undecided("binop %s" % op)

    def divmod2(self, st, x, k):
        """(q, r) with x = q * 2^k + r and 0 <= r < 2^k"""
        x = Lin.of(x)
        m = 1 << k
        q = Lin(x.c // m, {a: c // m for a, c in x.m.items() if c % m == 0})
        r = Lin(x.c % m, {a: c for a, c in x.m.items() if c % m})
        if self.entails_ge(st, r) and self.entails_ge(st, Lin(m - 1) - r):
            return q, r
        a = ("quo", r.norm(), m)
        self.atom_rng.setdefault(a, (-2**66, 2**66))
        y = Lin.atom(a)
        r = r - y.scale(m)
        if not st.facts.get(("quo", a)):
            st.facts[("quo", a)] = True
            self.add_ge(st, r)
            self.add_ge(st, Lin(m - 1) - r)
        return q + y, r

    def wrap(self, st, x, t):
        """the value of type t congruent to x"""
        lo, hi = INT[t[1]]
        x = Lin.of(x)
        if self.entails_ge(st, x - lo) and self.entails_ge(st, Lin(hi) - x):
            return x
        _, r = self.divmod2(st, x - lo, (hi - lo).bit_length())
        return r + lo

    def bits(self, fr, e, st, op, A, B, t):
        """bit operations on words, one operand at least symbolic"""
        lo, hi = INT[t[1]]
        width = (hi - lo).bit_length()

        def val(x):
            return x if isinstance(x, int) else x.norm()

        if op in ("Shl", "Shr"):
            if B.m:
                raise Undecided("shift by a symbolic amount")
            if not 0 <= B.c < width:
                return [(st, "panic", ("shift by more than the width", fr.body.file if fr else None, e.get("s") if e else None, fr.body.id if fr else None))]
            if op == "Shr":
                if B.c <= 4:
                    return [(s, "v", val(q)) for s, r, q in self.residue(st, A, 1 << B.c)]
                return [(st, "v", val(self.divmod2(st, A, B.c)[0]))]
            return [(st, "v", val(self.wrap(st, A.scale(1 << B.c), t)))]
        if op == "BitAnd" and not (A.m and B.m):
            x, c = (A, B.c) if A.m else (B, A.c)
            c %= hi - lo + 1
            if c == 0:
                return [(st, "v", 0)]
            low = (c & -c).bit_length() - 1
            n = c >> low
            if n & (n + 1):
                raise Undecided("bit mask %d" % c)
            top = low + n.bit_length()
            if top == width:
                if low == 0:
                    return [(st, "v", val(x))]
                if low <= 4:
                    return [(s, "v", val(x - r)) for s, r, q in self.residue(st, x, 1 << low)]
                return [(st, "v", val(x - self.divmod2(st, x, low)[1]))]
            if low == 0 and top <= 4:
                return [(s, "v", r) for s, r, q in self.residue(st, x, c + 1)]
            r = self.divmod2(st, x, top)[1]
            return [(st, "v", val(r - self.divmod2(st, r, low)[1]))]
        if op in ("BitOr", "BitXor"):
            for x, y in ((A, B), (B, A)):
                # x ends in k zero bits and y fits in them
                cs = [c for c in list(x.m.values()) + [x.c] if c]
                k = min((c & -c).bit_length() - 1 for c in cs) if cs else width
                if k == 0:
                    continue
                if self.entails_ge(st, Lin((1 << k) - 1) - y):
                    if self.entails_ge(st, y):
                        return [(st, "v", val(x + y))]
                    if op == "BitOr" and self.entails_ge(st, y + (1 << k)):
                        return [(s, "v", val(x + y if b else y)) for s, b in self.branch(st, self.ge0(y))]
            if not (A.m and B.m):
                x, c = (A, B.c) if A.m else (B, A.c)
                if op == "BitXor" and c in (-1, hi):
                    if c == -1 or lo == 0:
                        return [(st, "v", val(Lin(c) - x))]
                if c >= 0 and (c & (c + 1)) == 0 and c < 16:
                    return [(s, "v", val(x - r + (r ^ c if op == "BitXor" else c))) for s, r, q in self.residue(st, x, c + 1)]
        raise Undecided("bit op %s" % op)

    def range_check(self, fr, e, st, r, t, op):
        r = Lin.of(r)
        if t[0] != "int":
            return [(st, "v", r.norm())]
        lo, hi = INT[t[1]]
        site = ("arithmetic overflow (%s)" % op, fr.body.file if fr else None, e.get("s") if e else None, fr.body.id if fr else None)
        if not r.m:
            if lo <= r.c <= hi:
                return [(st, "v", r.c)]
            return [(st, "panic", site)]
        st.ev += (("arith", site, ()),)
        if any(isinstance(a, tuple) and a and a[0] == "mul" for a in r.m):
            # a product of two lengths: no value of that size fits in memory
            for l in (r - lo, Lin(hi) - r):
                if self.infeas(st, ge=[l]):
                    return [(st, "panic", site)]
                self.add_ge(st, l)
            return [(st, "v", r.norm())]
        res = []
        for s, b in self.branch(st, self.ge0(r - lo)):
            if not b:
                res.append((s, "panic", site))
                continue
            for s2, b2 in self.branch(s, self.ge0(Lin(hi) - r)):
                if b2:
                    res.append((s2, "v", r.norm()))
                else:
                    res.append((s2, "panic", site))
        return res

    def boolop(self, st, op, a, b):
        if op in ("BitAnd", "BitOr", "BitXor", "Eq", "Ne"):
            res = []
            for s, x in self.branch(st, a):
                for s2, y in self.branch(s, b):
                    res.append((s2, "v", {"BitAnd": x and y, "BitOr": x or y, "BitXor": x != y, "Eq": x == y, "Ne": x != y}[op]))
            return res
        raise Undecided("bool op " + op)

    def e_un(self, fr, e, st):
        t = self.ty(fr, e["ty"])

        def f(st, v):
            while isinstance(v, Ref):
                v = self.rd(st, v)
            if e["op"] == "Not":
                if t[0] == "bool":
                    return [(st, "v", bnot(v))]
                if isinstance(v, int):
                    if t[1][0] == "u":
                        return [(st, "v", INT[t[1]][1] - v)]
                    return [(st, "v", ~v)]
                return [(st, "v", (Lin(INT[t[1]][1] if t[1][0] == "u" else -1) - Lin.of(v)).norm())]
            if e["op"] == "Neg":
                if isinstance(v, (int, Lin)):
                    return self.range_check(fr, e, st, -Lin.of(v), t, "Neg")
            raise Undecided("unary %s" % e["op"])
        return bind(self.ev(fr, e["x"], st), f)

    def e_cast(self, fr, e, st):
        t = self.ty(fr, e["ty"])
        src = self.ty(fr, e["x"]["ty"])
        return bind(self.ev(fr, e["x"], st), lambda st, v: self.cast(st, v, src, t))

    def cast(self, st, v, src, t):
        while isinstance(v, Ref) and t[0] not in ("ref", "ptr"):
            v = self.rd(st, v)
        if t[0] == "int":
            lo, hi = INT[t[1]]
            if isinstance(v, bool):
                return [(st, "v", int(v))]
            if isinstance(v, BV):
                return [(s, "v", int(b)) for s, b in self.branch(st, v)]
            if isinstance(v, Char):
                if isinstance(v.c, str):
                    return [(st, "v", ord(v.c))]
                raise Undecided("char cast")
            if isinstance(v, int):
                n = hi - lo + 1
                return [(st, "v", (v - lo) % n + lo)]
            if isinstance(v, Lin):
                if self.entails_ge(st, v - lo) and self.entails_ge(st, Lin(hi) - v):
                    return [(st, "v", v)]
                return self.wrap_cast(st, v, t)
            if isinstance(v, (Adt, Sym)) and src[0] == "adt":
                a = self.P.adts.get(src[1])
                if a and a["kind"] == "enum":
                    res = []
                    for s, vi in self.split(st, v):
                        d = a["variants"][vi]["discr"]
                        h = self.hooks.get("discr")
                        if h:
                            d2 = h(self, s, d)
                            if d2 is not None:
                                res.extend(self.cast(s, d2, ("int", "i64"), t))
                                continue
                        # discriminants were printed as raw bits of the repr
                        n = hi - lo + 1
                        res.append((s, "v", (d - lo) % n + lo))
                    return res
            if isinstance(v, Sym) and src[0] == "float":
                raise Undecided("float cast")
        if t[0] in ("ref", "ptr") or t == src:
            return [(st, "v", v)]
        if t[0] == "char" and isinstance(v, int):
            return [(st, "v", Char(chr(v)))]
        if t[0] == "float":
            return [(st, "v", Sym(("tofloat", v if isinstance(v, int) else repr(v)), t))]
        raise Undecided("cast %s -> %s of %r" % (tstr(src), tstr(t), v))

    def wrap_cast(self, st, v, t):
        """two's complement wrap of a linear term: partition on the interesting half"""
        h = self.hooks.get("link_words")
        if h:
            r = h(self, st, v, t)
            if r is not None:
                return [(st, "v", r)]
        lo, hi = INT[t[1]]
        n = hi - lo + 1
        res = []
        for s, b in self.branch(st, self.ge0(Lin(hi) - v)):
            if b:
                for s2, b2 in self.branch(s, self.ge0(v - lo)):
                    if b2:
                        res.append((s2, "v", v))
                    elif self.entails_ge(s2, v + n - lo):
                        res.append((s2, "v", v + n))
                    else:
                        res.append((s2, "v", self.wrap(s2, v, t).norm()))
            elif self.entails_ge(s, Lin(hi + n) - v):
                res.append((s, "v", v - n))
            else:
                res.append((s, "v", self.wrap(s, v, t).norm()))
        return res

    # ------------------------------------------------------------ loops
    def e_loop(self, fr, e, st):
        labels = set(e.get("sc", []))
        it = self.find_next(fr, e["b"])
        if it is not None:
            return self.iter_loop(fr, e, st, labels, it)
        return self.gen_loop(fr, e, st, labels)

    def find_next(self, fr, body):
        """recognise `loop { match it.next() {..} }` and `while let Some(p) = it.next()`."""
        b = body
        while b["k"] in ("use", "value", "never"):
            b = b["x"]
        if b["k"] != "block":
            return None
        blk = b["b"]
        if len(blk["st"]) == 1 and blk["e"] is None and blk["st"][0]["k"] == "expr":
            x = blk["st"][0]["x"]
        elif not blk["st"] and blk["e"] is not None:
            x = blk["e"]
        else:
            return None
        while x["k"] in ("use", "value", "never"):
            x = x["x"]
        if x["k"] == "match":
            sc = x["x"]
        elif x["k"] == "if" and x["c"]["k"] == "let":
            sc = x["c"]["x"]
        else:
            return None
        while sc["k"] in ("use", "value"):
            sc = sc["x"]
        if sc["k"] != "call":
            return None
        t = fr.body.crate.types[sc["fty"]]
        if t[0] != "fndef":
            return None
        d = self.P.fndefs[(t[3], t[4])]
        if d["norm"] != "Iterator::next" and d.get("name") != "next":
            return None
        if d.get("trait") != "std::iter::Iterator":
            return None
        a = sc["a"][0]
        return (a, sc, x)

    def iter_loop(self, fr, e, st, labels, it):
        recv, call, x = it

        def start(st, r):
            while isinstance(r, Ref) and isinstance(self.rd(st, r), Ref):
                r = self.rd(st, r)
            v = self.rd(st, r) if isinstance(r, Ref) else r
            if not isinstance(v, It) or all(sg[0] == "one" for sg, _ in v.s):
                # concrete sequence or user iterator: unrolled
                return self.gen_loop(fr, e, st, labels)

            def body(st, elem):
                # run the loop body with next() yielding Some(elem)
                c = self.temp(st, some(elem))
                if x["k"] == "match":
                    x2 = dict(x)
                    x2["x"] = {"k": "cellref", "c": c, "ty": call["ty"]}
                else:
                    x2 = dict(x)
                    c2 = dict(x["c"])
                    c2["x"] = {"k": "cellref", "c": c, "ty": call["ty"]}
                    x2["c"] = c2
                outs = self.ev(fr, x2, st)
                res = []
                for s, k, v in outs:
                    if k == "cont" and v[0] in labels:
                        res.append((s, "v", UNIT))
                    elif k == "brk" and v[0] in labels:
                        res.append((s, "stop", v[1]))
                    else:
                        res.append((s, k, v))
                return res
            outs = self.consume(st, v, body, r if isinstance(r, Ref) else None, (fr.body.file, e.get("s"), fr.body.id))
            return [(s, "v" if k == "stop" else k, UNIT if (k == "v") else w) for s, k, w in outs]
        return bind(self.ev(fr, recv, st), start)

    def e_cellref(self, fr, e, st):
        return [(st, "v", st.heap[e["c"]])]

    def consume(self, st, it, body, ref=None, where=None):
        """run body(state, element) over an iterator; body kinds: 'v' continue, 'stop' end of
        consumption (value kept), others escape."""
        outs = [(st, "v", UNIT)]
        for seg, stages in it.s:
            def step(st, _, seg=seg, stages=stages):
                def b(st, elem):
                    return self.staged(st, elem, stages, 0, body)
                if seg[0] == "one":
                    return b(st, seg[1])
                return self.fold(st, seg, b, where)
            outs = bind(outs, step)
        if ref is not None:
            for s, k, v in outs:
                if k in ("v",) and ref.c in s.heap:
                    try:
                        self.wr(s, ref, It(()))
                    except Undecided:
                        pass
        return outs

    def staged(self, st, elem, stages, i, body):
        if i == len(stages):
            return body(st, elem)
        sg = stages[i]
        k = sg[0]
        if k == "map":
            return bind(self.call_value(sg[1], (elem,), st), lambda st, v: self.staged(st, v, stages, i + 1, body))
        if k in ("cloned", "copied"):
            def dr(st, v):
                while isinstance(v, Ref):
                    v = self.rd(st, v)
                return self.staged(st, v, stages, i + 1, body)
            return dr(st, elem)
        if k == "filter":
            c = self.temp(st, elem)

            def f(st, b):
                res = []
                for s, t in self.branch(st, b):
                    if t:
                        res.extend(self.staged(s, elem, stages, i + 1, body))
                    else:
                        res.append((s, "v", UNIT))
                return res
            return bind(self.call_value(sg[1], (Ref(c),), st), f)
        if k == "filter_map":
            def g(st, o):
                res = []
                for s, v in self.split(st, o):
                    if v == 1:
                        res.extend(self.staged(s, self.fields(s, o, 1)[0], stages, i + 1, body))
                    else:
                        res.append((s, "v", UNIT))
                return res
            return bind(self.call_value(sg[1], (elem,), st), g)
        if k == "take_while":
            c = self.temp(st, elem)

            def f2(st, b):
                res = []
                for s, t in self.branch(st, b):
                    if t:
                        res.extend(self.staged(s, elem, stages, i + 1, body))
                    else:
                        res.append((s, "stop", UNIT))
                return res
            return bind(self.call_value(sg[1], (Ref(c),), st), f2)
        if k == "map_while":
            def mw(st, o):
                res = []
                for s, v in self.split(st, o):
                    if v == 1:
                        res.extend(self.staged(s, self.fields(s, o, 1)[0], stages, i + 1, body))
                    else:
                        res.append((s, "stop", UNIT))
                return res
            return bind(self.call_value(sg[1], (elem,), st), mw)
        if k == "inspect":
            c = self.temp(st, elem)
            return bind(self.call_value(sg[1], (Ref(c),), st), lambda st, _: self.staged(st, elem, stages, i + 1, body))
        if k == "enum":
            n = st.heap[sg[1]]
            st.heap[sg[1]] = (Lin.of(n) + 1).norm()
            return self.staged(st, Tup((n, elem)), stages, i + 1, body)
        if k == "flat":
            # elem (or f(elem)) is itself iterable
            def fl(st, v):
                return bind(self.into_iter(st, v), lambda st, it: self.consume(st, it, lambda st, x: self.staged(st, x, stages, i + 1, body)))
            if sg[1] is None:
                return fl(st, elem)
            return bind(self.call_value(sg[1], (elem,), st), fl)
        raise Undecided("iterator stage %s" % k)

    def into_iter(self, st, v):
        f = self.models["IntoIterator::into_iter"]
        return f(self, st, (v,), None)

    # -- summarised loops
    def fold(self, st, seg, body, where=None):
        """loop over an unknown sequence: interpret the body once for a generic element and a
        generic loop-carried state; produce a guarded fold summary."""
        kind, lst, ety = seg
        ln = self.manylen(lst)
        if isinstance(Lin.of(ln).norm(), int) and Lin.of(ln).norm() == 0:
            return [(st, "v", UNIT)]
        if self.hooks.get("unroll_k") is not None:
            return self.unroll(st, lst, Lin.of(ln), ety, body)
        self.cnt += 1
        fid = self.cnt
        itv = ("it", fid)
        self.atom_rng[itv] = (0, 2**63 - 1)
        F = {"id": fid, "seg": seg, "where": where, "lens": {}, "trans": [], "init": {}, "len": ln}
        self.folds[fid] = F
        entry_keys = set(st.heap)
        carried = {}          # cell -> generic value

        def entry_state():
            s = st.fork()
            s.pc = ()
            s.ev = ()
            self.add_ge(s, Lin.of(ln) - Lin.atom(itv) - 1)
            for c, g in carried.items():
                s.heap[c] = g
            return s

        for rnd in range(12):
            s0 = entry_state()
            elem = self.mk_elem(s0, lst, itv, ety)
            outs = body(s0, elem)
            changed = False
            for s, k, v in outs:
                if k not in ("v",):
                    continue
                for c in list(entry_keys):
                    base = carried.get(c, st.heap[c])
                    nv = s.heap.get(c, base)
                    if nv is base or nv == base:
                        continue
                    if c in carried and self.same_shape(carried[c], nv):
                        continue
                    g = self.generalise(s, fid, c, (), st.heap[c] if c not in carried else carried[c], nv)
                    if c not in carried or carried[c] != g:
                        carried[c] = g
                        changed = True
            if not changed:
                break
        else:
            raise Undecided("loop state does not stabilise")
        F["init"] = {c: st.heap[c] for c in carried}
        F["generic"] = dict(carried)
        trans = []
        for s, k, v in outs:
            upd = {c: s.heap[c] for c in carried if s.heap[c] != carried[c]}
            trans.append({"pc": s.pc, "kind": k, "val": v, "upd": upd, "ev": s.ev, "st": s})
        F["trans"] = trans
        self.affine(st, F, carried)
        h = self.hooks.get("fold")
        if h:
            h(self, st, F)
        res = []
        # escapes: some iteration takes the transition
        evs = ()
        for t in trans:
            evs += t["ev"]
        for i, t in enumerate(trans):
            if t["kind"] in ("v",):
                continue
            s = t["st"]
            s2 = s.fork()
            s2.pc = st.pc + ((("exists", fid, i), True),)
            s2.ev = st.ev + (("fold", fid, i),) + t["ev"]
            res.append((s2, t["kind"], t["val"]))
        s = st.fork()
        s.ev = st.ev + (("fold", fid, None),) + evs
        s.pc = st.pc + ((("foldall", fid), True),)
        for c in carried:
            s.heap[c] = self.fold_out(s, F, c)
        res.append((s, "v", UNIT))
        return res

    def unroll(self, st, lst, ln, ety, body):
        """partition on the length of an unknown sequence: 0..K elements exactly, longer ones up
        to the K-th element ('cut' afterwards)"""
        K = self.hooks["unroll_k"]
        outs = []
        cur = [st]
        i = 0
        while cur:
            nxt = []
            for s in cur:
                for s2, b in self.branch(s, self.ge0(ln - (i + 1))):
                    if not b:
                        outs.append((s2, "v", UNIT))
                        continue
                    if i >= K and ln.m:
                        outs.append((s2, "cut", i))
                        continue
                    for s3, k, v in body(s2, self.elem_at(s2, lst, i, ety)):
                        if k == "v":
                            nxt.append(s3)
                        else:
                            outs.append((s3, k, v))
            cur = nxt
            i += 1
        return outs

    def elem_at(self, st, lst, i, ety):
        if isinstance(lst, tuple) and lst:
            if lst[0] == "range":
                return (Lin.of(lst[1]) + i).norm()
            if lst[0] == "bytes":
                h = self.hooks.get("byte_at")
                if h:
                    v = h(self, st, lst[1], Lin.of(lst[2]) + i)
                    return Ref(self.temp(st, v)) if ety[0] == "ref" else v
            if lst[0] == "skip":
                return self.elem_at(st, lst[1], i + lst[2], ety)
        h = self.hooks.get("elem_at")
        if h:
            r = h(self, st, lst, i, ety)
            if r is not None:
                return r
        return self.mk(st, ("elem", lst, i), ety)

    def mk_elem(self, st, lst, itv, ety):
        if isinstance(lst, tuple) and lst and lst[0] == "range":
            return (Lin.of(lst[1]) + Lin.atom(itv)).norm()
        h = self.hooks.get("elem")
        if h:
            r = h(self, st, lst, itv, ety)
            if r is not None:
                return r
        if isinstance(lst, tuple) and lst and lst[0] == "skip":
            return self.mk(st, ("elem", lst[1], (Lin.atom(itv) + lst[2])), ety)
        return self.mk(st, ("elem", lst, Lin.atom(itv)), ety)

    def same_shape(self, g, nv):
        """does the generic value g already cover nv?"""
        if isinstance(g, (str, SStr)) and isinstance(nv, (str, SStr)):
            return isinstance(g, SStr) and g.p[0:1] and isinstance(g.p[0], tuple) and g.p[0][0] == "lv"
        if isinstance(g, Seq) and isinstance(nv, Seq):
            return any(s[0] == "many" and isinstance(s[1], tuple) and s[1][0] == "lv" for s in g.s)
        if isinstance(g, (int, Lin)) and isinstance(nv, (int, Lin)):
            return isinstance(g, Lin)
        if isinstance(g, BV) and isinstance(nv, (bool, BV)):
            return True
        if isinstance(g, View) and isinstance(nv, View) and g.a == nv.a and g.o.m and any(isinstance(a, tuple) and a[0] == "lv" for a in g.o.m):
            return g.e == nv.e or any(isinstance(a, tuple) and a[0] == "lv" for a in g.e.m)
        if isinstance(g, Sym):
            return True
        if isinstance(g, Poison):
            return True
        if isinstance(g, (Adt, Tup)) and type(g) is type(nv) and len(g.f) == len(nv.f) and getattr(g, "v", 0) == getattr(nv, "v", 0):
            return all(a == b or self.same_shape(a, b) for a, b in zip(g.f, nv.f))
        if isinstance(g, It):
            return False
        return False

    def generalise(self, st, fid, cell, path, old, new):
        t = ("lv", fid, cell) + path
        if old == new:
            return old
        if isinstance(old, (bool, BV)) and isinstance(new, (bool, BV)):
            return BV(("b", t))
        if isinstance(old, (int, Lin)) and isinstance(new, (int, Lin)):
            if isinstance(old, Lin) and t in old.m:
                return old
            self.atom_rng.setdefault(t, (None, None))
            return Lin.atom(t)
        if isinstance(old, (str, SStr)) and isinstance(new, (str, SStr)):
            return SStr((t,))
        if isinstance(old, Seq) and isinstance(new, Seq):
            ety = None
            for s in new.s + old.s:
                if s[0] == "many":
                    ety = s[2]
            if ety is None:
                for s in new.s + old.s:
                    if s[0] == "one":
                        ety = self.tyof(s[1])
            return Seq((("many", t, ety),))
        if isinstance(old, View) and isinstance(new, View) and old.a == new.a:
            o = old.o
            e = old.e
            if old.o != new.o:
                self.atom_rng.setdefault(t + ("o",), (None, None))
                o = Lin.atom(t + ("o",))
            if old.e != new.e:
                self.atom_rng.setdefault(t + ("e",), (None, None))
                e = Lin.atom(t + ("e",))
            return View(old.a, o, e)
        if isinstance(old, (Adt, Tup)) and type(old) is type(new) and len(old.f) == len(new.f) and getattr(old, "v", 0) == getattr(new, "v", 0) and getattr(old, "n", 0) == getattr(new, "n", 0):
            fs = tuple(self.generalise(st, fid, cell, path + (i,), a, b) for i, (a, b) in enumerate(zip(old.f, new.f)))
            return Tup(fs) if isinstance(old, Tup) else Adt(old.n, old.v, fs)
        ty = self.tyof(new) or self.tyof(old)
        if isinstance(old, Adt) and isinstance(new, (Adt, Sym)) or isinstance(old, Sym):
            n = old.n if isinstance(old, Adt) else None
            if n == OPTION or (isinstance(new, Adt) and new.n == OPTION):
                inner = None
                for x in (old, new):
                    if isinstance(x, Adt) and x.v == 1:
                        inner = self.tyof(x.f[0])
                if inner is None and isinstance(old, Sym):
                    return old
                if inner is not None:
                    return Sym(t, ("adt", OPTION, (inner,)))
            if ty is not None:
                return Sym(t, ty)
        return Poison("loop-carried %s" % (cell,))

    def tyof(self, v):
        if isinstance(v, bool) or isinstance(v, BV):
            return ("bool",)
        if isinstance(v, (int, Lin)):
            return ("int", "usize")
        if isinstance(v, (str, SStr)):
            return ("adt", "alloc::string::String", ())
        if isinstance(v, Sym):
            return v.ty
        if isinstance(v, Adt):
            a = self.P.adts.get(v.n)
            if v.n == OPTION:
                if v.v == 1:
                    i = self.tyof(v.f[0])
                    return ("adt", OPTION, (i,)) if i else None
                return None
            if a is not None and not a["generics"]:
                return ("adt", v.n, ())
            if a is not None:
                # infer arguments from the fields
                s = {}
                for f, x in zip(a["variants"][v.v]["fields"], v.f):
                    t = self.tyof(x)
                    if t and f["ty"]:
                        unify(f["ty"], t, s)
                if all(g in s for g in a["generics"]):
                    return ("adt", v.n, tuple(s[g] for g in a["generics"]))
            return None
        if isinstance(v, Tup):
            ts = tuple(self.tyof(x) for x in v.f)
            return ("tuple", ts) if all(ts) else None
        if isinstance(v, Seq):
            for s in v.s:
                t = s[2] if s[0] == "many" else self.tyof(s[1])
                if t:
                    return ("adt", "alloc::vec::Vec", (t,))
            return None
        if isinstance(v, View):
            return ("adt", "bytes::bytes::Bytes", ())
        if isinstance(v, Char):
            return ("char",)
        return None

    def affine(self, st, F, carried):
        """solve additive recurrences of integer loop state: x' = x + d."""
        F["affine"] = {}

    def fold_out(self, st, F, c):
        g = F["generic"][c]
        return self.fout(st, F, c, (), F["init"][c], g)

    def updates(self, F, c, path):
        """the component at path of the new value of cell c, per continuing transition"""
        out = []
        for t in F["trans"]:
            if t["kind"] != "v":
                continue
            v = t["upd"].get(c, F["generic"][c])
            for p in path:
                if p in ("o", "e"):
                    v = v.o if p == "o" else v.e
                else:
                    v = v.f[p]
            out.append((t, v))
        return out

    def fout(self, st, F, c, path, init, g):
        fid = F["id"]
        if init == g:
            return init
        t = ("fold", fid, c) + path
        lv = ("lv", fid, c) + path
        if isinstance(g, Lin):
            ups = self.updates(F, c, path)
            ds = []
            for tr, v in ups:
                d = Lin.of(v) - Lin.atom(lv)
                ds.append(d)
            # constant increment
            if ds and all(d == ds[0] for d in ds) and not any(self.mentions_lv(a, fid) for a in ds[0].m):
                d = ds[0]
                if not d.m:
                    return (Lin.of(init) + Lin.of(F["len"]).scale(d.c)).norm()
                if not any(tr["pc"] for tr, _ in ups if False):
                    return (Lin.of(init) + self.sum_atom(st, F, d, [tr for tr, _ in ups])).norm()
            self.atom_rng.setdefault(t, (None, None))
            return Lin.atom(t)
        if isinstance(g, BV):
            return BV(("b", t))
        if isinstance(g, SStr):
            return SStr((t,))
        if isinstance(g, Seq):
            # unconditional single push?
            ups = self.updates(F, c, path)
            n = 0
            for tr, v in ups:
                if isinstance(v, Seq) and v.s[:1] == g.s and all(s[0] == "one" for s in v.s[1:]):
                    k = len(v.s) - 1
                    n = k if n in (0, k) and k else None
                else:
                    n = None
                if n is None:
                    break
            lt = ("foldlist", fid, (c,) + path)
            ety = g.s[0][2]
            if ety is None:
                for tr, v in ups:
                    if isinstance(v, Seq):
                        for s in v.s:
                            if s[0] == "one":
                                ety = self.tyof(s[1])
            if n == 1 and not any(t2["kind"] == "stop" for t2 in F["trans"]):
                F["lens"][(c,) + path] = Lin.of(F["len"])
                if isinstance(init, Seq) and all(s[0] == "one" for s in init.s):
                    F["pushinit"] = True
                    return Seq(init.s + (("many", lt, ety),))
            return Seq((("many", ("foldseq", fid, (c,) + path), ety),))
        if isinstance(g, View):
            o = self.fout(st, F, c, path + ("o",), init.o, g.o) if init.o != g.o else init.o
            e = self.fout(st, F, c, path + ("e",), init.e, g.e) if init.e != g.e else init.e
            return View(g.a, o, e)
        if isinstance(g, (Adt, Tup)):
            fs = tuple(self.fout(st, F, c, path + (i,), a, b) for i, (a, b) in enumerate(zip(init.f, g.f)))
            return Tup(fs) if isinstance(g, Tup) else Adt(g.n, g.v, fs)
        if isinstance(g, Sym):
            return Sym(t, g.ty)
        return g

    def mentions_lv(self, a, fid):
        if isinstance(a, tuple):
            if len(a) > 1 and a[0] == "lv" and a[1] == fid:
                return True
            return any(self.mentions_lv(x, fid) for x in a)
        if isinstance(a, Lin):
            return any(self.mentions_lv(x, fid) for x in a.m)
        return False

    def sum_atom(self, st, F, d, trs):
        """sum over the iterations of a per-element amount d"""
        seg = F["seg"]
        itv = ("it", F["id"])
        body = self.canon(d, F["id"])
        at = ("sum", seg[1], body)
        lo = 0 if all(self.entails_ge(tr["st"], d) for tr in trs) else None
        self.atom_rng.setdefault(at, (lo, None))
        # residues modulo 4
        if all(self.mod0(tr["st"], d, 4) for tr in trs):
            st.facts[("mod", at, 4)] = 0
            self.atom_rng.setdefault(("div", at, 4), (lo, None))
            st.eq.append(Lin.atom(at) - Lin.atom(("div", at, 4)).scale(4))
        return Lin.atom(at)

    def mod0(self, st, l, m):
        l = Lin.of(l)
        r = l.c
        for a, k in l.m.items():
            if k % m == 0:
                continue
            f = st.facts.get(("mod", a, m))
            if f is None:
                return False
            r += k * f
        return r % m == 0

    def canon(self, x, fid):
        """replace this loop's index by a canonical name"""
        if isinstance(x, Lin):
            return Lin(x.c, {self.canon(a, fid): k for a, k in x.m.items()})
        if isinstance(x, tuple):
            if x == ("it", fid):
                return ("it", "_")
            return tuple(self.canon(a, fid) for a in x)
        return x

    def gen_loop(self, fr, e, st, labels):
        """a loop without a recognised iterator: try a bounded concrete unrolling, else a
        summary with a generic state."""
        # concrete unrolling while every iteration is fully decided
        outs = []
        cur = [st]
        K = self.hooks.get("unroll_k")
        sym = 0
        watch = self.hooks.get("loop_state")
        there = list(st.heap) if watch else ()
        seen = []
        for i in range(self.hooks.get("unroll", 20000)):
            nxt = []
            grew = False
            if K is not None and sym > K and (sym > K + self.hooks.get("loop_extra", 3) or len(cur) > 4):
                return outs + [(s, "cut", i) for s in cur]
            for s in cur:
                base = len(s.pc)
                before = (dict(s.heap), len(s.facts), len(s.ge), len(s.eq), len(s.ne)) if K is not None else None
                for s2, k, v in self.ev(fr, e["b"], s):
                    if k == "v" or (k == "cont" and v[0] in labels):
                        if len(s2.pc) > base:
                            grew = True
                        elif before is not None and all(s2.heap.get(c) == w for c, w in before[0].items()) and before[1:] == (len(s2.facts), len(s2.ge), len(s2.eq), len(s2.ne)):
                            outs.append((s2, "panic", ("loop does not terminate (an iteration leaves the state unchanged)", fr.body.file, e.get("s"), fr.body.id)))
                            continue
                        nxt.append(s2)
                    elif k == "brk" and v[0] in labels:
                        outs.append((s2, "v", v[1]))
                    else:
                        outs.append((s2, k, v))
            cur = nxt
            if not cur:
                return outs
            if watch and 64 <= i < 82 and len(cur) == 1 and not grew:
                f = watch(self, cur[0], there)
                if f is not None and f in seen:
                    return outs + [(cur[0], "panic", ("loop does not terminate (an earlier state comes back)", fr.body.file, e.get("s"), fr.body.id))]
                seen.append(f)
            if grew:
                sym += 1
            if K is None and i >= 6 and len(cur) + len(outs) > 40:
                break
        h = self.hooks.get("gen_loop")
        if h:
            r = h(self, fr, e, st, labels)
            if r is not None:
                return r
        return outs + [(s, "undec", "unbounded loop @%s:%s" % (fr.body.file, e.get("s"))) for s in cur]

    # ------------------------------------------------------------ calls
    def e_call(self, fr, e, st):
        t = self.ty(fr, e["fty"])
        self.sites.add((fr.body.id, e.get("s")))
        if t[0] == "fndef":
            d = self.P.fndefs[(t[3], t[4])]
            if fr.sub:
                d = dict(d)
                d["args"] = tuple(subst(a, fr.sub) for a in d["args"])
                if "res" in d:
                    r = dict(d["res"])
                    r["args"] = tuple(subst(a, fr.sub) for a in r["args"])
                    d["res"] = r
                if "ctor" in d:
                    d["ctor"] = (subst(d["ctor"][0], fr.sub), d["ctor"][1])
            return bind(self.evs(fr, e["a"], st), lambda st, vs: self.call_def(d, vs, st, (fr, e)))
        return bind(self.ev(fr, e["f"], st), lambda st, f: bind(self.evs(fr, e["a"], st), lambda st, vs: self.call_value(f, vs, st, (fr, e))))

    def call_value(self, f, args, st, site=None):
        while isinstance(f, Ref):
            f = self.rd(st, f)
        if isinstance(f, Adt) and f.n == BOX:
            return self.call_value(f.f[0], args, st, site)
        if isinstance(f, Clo):
            b = self.P.bodies[f.id]
            return self.run_body(b, args, f.sub, st, self.frames[f.fid], closure=True)
        if isinstance(f, Fn):
            return self.call_def(f.d, args, st, site)
        if callable(f):
            return f(self, st, args)
        raise Undecided("call of %r" % (f,))

    def find_impl(self, trait, selfty, name, targs=None):
        """local impl of a trait method: (body id, substitution)"""
        key = (trait, selfty, name, targs)
        if key in self.impl_cache:
            return self.impl_cache[key]
        r = None
        for im in self.P.impls:
            if im.get("trait") != trait:
                continue
            s = {}
            if not unify(im["self"], selfty, s):
                continue
            if targs is not None and not all(unify(a, b, s) for a, b in zip(im["targs"][1:], targs)):
                continue
            b = im["items"].get(name)
            r = (b, s, im)
            break
        self.impl_cache[key] = r
        return r

    def call_def(self, d, args, st, site=None):
        self.ncalls += 1
        if "ctor" in d:
            t, v = d["ctor"]
            return [(st, "v", Adt(t[1], v, args))]
        h = self.hooks.get("call")
        if h:
            r = h(self, d, args, st, site)
            if r is not None:
                return r
        # local body?
        trait = d.get("trait")
        if trait:
            selfty = d["args"][0] if d["args"] else None
            if selfty is not None:
                im = self.find_impl(trait, selfty, d["name"], d["args"][1:] if trait in ("std::convert::From", "std::convert::TryFrom", "std::convert::AsRef", "std::cmp::PartialEq", "std::convert::Into", "std::convert::TryInto") else None)
                if im and isinstance(im[0], str) and im[0] in self.P.bodies:
                    b = self.P.bodies[im[0]]
                    if im[2].get("derived"):
                        m = self.models.get("derived:" + trait.split("::")[-1] + "::" + d["name"])
                        if m:
                            return m(self, st, args, Ctx(d, site))
                    sub = dict(im[1])
                    self.method_subst(b, d, im, sub)
                    return self.run_body(b, args, sub, st)
                if im and d["id"] in self.P.bodies and im[0] is None:
                    b = self.P.bodies[d["id"]]
                    sub = {"Self": selfty}
                    self.pos_subst(b, d["args"], sub)
                    return self.run_body(b, args, sub, st)
            m = self.models.get(trait.split("::")[-1] + "::" + d["name"])
            if m:
                return self.call_model(m, st, args, Ctx(d, site))
            # default method of a local trait on an abstract type
            if d["id"] in self.P.bodies:
                b = self.P.bodies[d["id"]]
                sub = {"Self": selfty}
                self.pos_subst(b, d["args"], sub)
                return self.run_body(b, args, sub, st)
            u = self.hooks.get("unknown_call")
            if u:
                r = u(self, d, args, st, site)
                if r is not None:
                    return r
            raise Undecided("trait call %s on %s" % (d["path"], tstr(selfty) if selfty else "?"))
        if d["id"] in self.P.bodies:
            b = self.P.bodies[d["id"]]
            sub = {}
            self.pos_subst(b, d["args"], sub)
            return self.run_body(b, args, sub, st)
        m = self.models.get(d["norm"])
        if m:
            return self.call_model(m, st, args, Ctx(d, site))
        u = self.hooks.get("unknown_call")
        if u:
            r = u(self, d, args, st, site)
            if r is not None:
                return r
        raise Undecided("call of %s" % d["path"])

    instances = None

    def call_model(self, m, st, args, cx):
        """a model that needs the content of an unknown string is run for instances of it (finding a
        violation for one of them is finding a violation); the rest stays undecided"""
        try:
            return m(self, st, args, cx)
        except Need as n:
            if self.instances is None:
                raise
            outs = []
            for s in self.instances(self, st, n.t):
                outs.extend(self.call_model(m, s, args, cx))
            return outs + [(st, "undec", str(n))]

    def pos_subst(self, b, args, sub):
        ta = [a for a in args]
        for g, a in zip(b.generics, ta):
            sub[g] = a

    def method_subst(self, b, d, im, sub):
        # method's own generics follow the impl's in b.generics
        own = b.generics[len(im[2].get("generics", [])):]
        ntrait = len(im[2]["targs"])
        for g, a in zip(own, d["args"][ntrait:]):
            sub[g] = a

    def run_body(self, b, args, sub, st, parent=None, closure=False):
        rec = self.hooks.get("recursion")
        if rec is None:
            return self.run_body_(b, args, sub, st, parent, closure)
        r = rec(self, b, args, sub, st, closure)
        if r is not None:
            return r
        try:
            return self.run_body_(b, args, sub, st, parent, closure)
        finally:
            self.active.pop()

    def run_body_(self, b, args, sub, st, parent, closure):
        self.visited.add(b.id)
        self.cnt += 1
        fid = self.cnt
        st.depth += 1
        if st.depth > self.max_depth:
            raise Undecided("call depth exceeded at %s" % b.id)
        fr = Frame(fid, b, sub, parent, st.depth)
        self.frames[fid] = fr
        params = b.params
        if closure:
            params = params[1:]
        if len(params) != len(args):
            # rust-call ABI: closure arguments may come as one tuple
            if len(args) == 1 and isinstance(args[0], Tup):
                args = args[0].f
            if len(params) != len(args):
                raise Undecided("arity of %s" % b.id)
        outs = [(st, "v", UNIT)]
        for p, a in zip(params, args):
            if p["p"] is None:
                continue

            def f(st, _, p=p, a=a):
                c = self.temp(st, a)
                return [(s, "v", UNIT) if m else (s, "undec", "param pattern") for s, m in self.match(fr, p["p"], Ref(c), st)]
            outs = bind(outs, f)
        outs = bind(outs, lambda st, _: self.ev(fr, b.e, st))
        res = []
        for s, k, v in outs:
            s.depth -= 1 if k in ("v", "ret", "panic", "undec") else 0
            if k == "ret":
                k = "v"
            res.append((s, k, v))
        return res

    def call_body(self, bid, args, st, sub=None):
        return self.run_body(self.P.bodies[bid], args, sub or {}, st)


class Ctx:
    """call context given to models"""
    __slots__ = ("d", "site")

    def __init__(self, d, site):
        self.d = d
        self.site = site

    def loc(self):
        if self.site and self.site[0] is not None:
            fr, e = self.site
            return (fr.body.file, e.get("s"), fr.body.id)
        return (None, None, None)

    def ret(self, eng):
        if self.site and self.site[0] is not None:
            fr, e = self.site
            return eng.ty(fr, e["ty"])
        return None

    def arg(self, i):
        return self.d["args"][i] if i < len(self.d["args"]) else None


