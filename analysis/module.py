"""Abstract interpretation of an emitted module (or just the runtime header): decoders run on a
symbolic buffer view `in[o0..e0)`, nested declared types are taken by contract."""
import bmodels
import models
from bmodels import canon, u32_at, i32_at, u64_at, i64_at, f32_of, f64_of, BYTES
from engine import (Engine, State, Undecided, BV, Sym, Adt, Tup, Seq, Ref, View, SStr, OPTION, BOX, ok, err, NONE, some, bind)
from lin import Lin

MAXOFF = 2**62


def link_words(eng, st, v, t):
    """cast of a whole word between its signed and unsigned reading"""
    a = bmodels.single(v)
    if a is not None and a[0] == "u32" and t == ("int", "i32"):
        return i32_at(eng, st, a[1], a[2]).norm()
    if a is not None and a[0] == "i32" and t == ("int", "u32"):
        u = u32_at(eng, st, a[1], a[2])
        bmodels.link(eng, st, a[1], canon(eng, st, a[1], a[2]))
        return u.norm()
    return None


# instances tried for a string whose content the analysed code examines: empty, every residue of the
# padding, several bytes per character, white space, zero bytes and digits at either end
TEXTS = ("", "a", "ab", "abc", "abcd", "abcde", "\u00e9", "a\u00e9", "\u65e5\u672c", "\U0001f600b", "\0", "abc\0", "ab\0\0", "\0abc", " a", "a ",
         "a\n", "\ta", "A", "aB-c_d", "7", "-1", "\ufeffa", "e\u0301", "'\"\\", "a" * 64, "\u00e9" * 32, "a" * 61 + "\0", "x" * 255 + " ")
FEW = ("", "abc", "\u00e9")


def text_len(eng, t):
    if isinstance(t, tuple) and t and t[0] == "utf8":
        return Lin.of(t[3]) - Lin.of(t[2])
    if isinstance(t, tuple):
        at = ("len", t)
        eng.atom_rng[at] = (0, 2**62)
        return Lin.atom(at)
    return None


def instances(eng, st, t):
    n = text_len(eng, t)
    pos, neg = st.facts.get(("str", t), (None, frozenset()))
    more = any(isinstance(k, tuple) and k and k[0] == "instance" for k in st.facts)
    res = []
    for x in sorted(pos) if pos is not None else FEW if more else TEXTS:
        if x in neg:
            continue
        l = Lin.of(n) - len(x.encode())
        if l.m and eng.infeas(st, eq=[l]) or not l.m and l.c:
            continue
        s = st.fork()
        s.facts[("instance", t)] = x
        s.pc += ((("sin", t, frozenset([x])), True),)
        eng.add_eq(s, l)
        res.append(s)
    return res


class Mod:
    def __init__(self, P, decls=(), K=2, prefix=None, min_size=None):
        self.P = P
        self.K = K
        self.prefix = prefix
        if prefix is None:
            for k in P.adts:
                if k.endswith("::xdr::Error"):
                    self.prefix = k[:-len("Error")]
        if self.prefix is None or self.prefix + "Error" not in P.adts:
            raise Undecided("module xdr has no Error type")
        self.decls = set(decls)          # names taken by contract
        self.free_size = set()           # contract types whose size is unconstrained
        self.min_size = min_size or {}   # least encoded size of a contract type
        self.subject = None              # declaration whose decoders are being analysed
        self.steps_by_size = set()       # bodies that use the wire_size() of a decoded element
        self.visited = set()
        self.sites = set()
        self.ncalls = 0
        self.long = None                 # a run on N elements: every element decodes, sizes are known
        self.room = None                 # such a run in exactly so many bytes

    # ------------------------------------------------------------ set-up
    def engine(self):
        eng = Engine(self.P, models.M, max_depth=120)
        eng.hooks["unroll_k"] = self.K if self.long is None else self.long + 2
        eng.hooks["byte_at"] = bmodels.u8_at
        eng.hooks["call"] = self.hook
        eng.hooks["link_words"] = link_words
        eng.hooks["len_max"] = 2**32 - 1
        eng.hooks["trace_alloc"] = True
        eng.hooks["text_len"] = text_len
        eng.instances = instances
        return eng

    def absorb(self, eng):
        self.visited |= eng.visited
        self.sites |= eng.sites
        self.ncalls += eng.ncalls

    def start(self, eng):
        st = State()
        eng.atom_rng[("o0",)] = (0, MAXOFF)
        eng.atom_rng[("e0",)] = (0, MAXOFF)
        o, e = Lin.atom(("o0",)), Lin.atom(("e0",))
        eng.add_ge(st, e - o)
        st.facts[("offs", "in")] = (o, e)
        if self.room is not None:
            eng.add_eq(st, e - o - self.room)
        elif self.long is not None:
            eng.add_ge(st, e - o - 12 * self.long - 4096)
        return st, View("in", o, e)

    def name_of(self, ty):
        """declared name of a type, if it is one taken by contract"""
        while ty is not None and ty[0] == "ref":
            ty = ty[2]
        if ty is not None and ty[0] == "adt":
            n = ty[1]
            if n.startswith(self.prefix):
                n = n[len(self.prefix):]
            if n in self.decls:
                return n
        return None

    def adt(self, name):
        return self.prefix + name

    # ------------------------------------------------------------ contracts
    def hook(self, eng, d, args, st, site):
        tr = d.get("trait")
        if tr is None:
            return None
        if tr == "std::convert::TryFrom" and d["name"] == "try_from":
            n = self.name_of(d["args"][0])
            if n is not None:
                return self.nested(eng, st, n, args[0], d["args"][0], d["args"][1] if len(d["args"]) > 1 else None)
        if tr == "std::convert::TryInto" and d["name"] == "try_into" and len(d["args"]) > 1:
            n = self.name_of(d["args"][1])
            if n is not None:
                return self.nested(eng, st, n, args[0], d["args"][1], d["args"][0])
        if tr.split("::")[-1] == "WireSize" and d["name"] == "wire_size":
            n = self.name_of(d["args"][0])
            if n is not None:
                v = args[0]
                while isinstance(v, Ref):
                    v = eng.rd(st, v)
                if isinstance(v, Sym):
                    if isinstance(v.t, tuple) and v.t[0] == "dec":
                        self.steps_by_size.add(site[0].body.id if site and site[0] is not None else "?")
                    return [(st, "v", self.wire_atom(eng, st, n, v.t).norm())]
        return None

    def known_size(self, off):
        """sizes of elements in a run on many: 4, 8 or 12, a function of the offset"""
        d = Lin.of(off) - Lin.atom(("o0",))
        if self.room is not None and d.m.get(("e0",)) == 1:
            d = d - Lin.atom(("e0",)) + Lin.atom(("o0",)) + self.room
        if d.m:
            raise Undecided("element at an unknown offset")
        return Lin(4 + 4 * (int(d.c) // 4 * 7 % 3))

    def many_size(self, start, n):
        """bytes of n such elements from in[o0+start"""
        o = start
        for _ in range(n):
            o += int(self.known_size(Lin.atom(("o0",)) + o).c)
        return o - start

    def size_atom(self, eng, st, n, a, off):
        if self.long is not None and a == "in":
            return self.known_size(canon(eng, st, a, off))
        at = ("size", n, a, canon(eng, st, a, off))
        eng.atom_rng[at] = (self.min_size.get(n, 0), MAXOFF)
        if n not in self.free_size and ("mod", at, 4) not in st.facts:
            st.facts[("mod", at, 4)] = 0
            q = ("div", at, 4)
            eng.atom_rng[q] = (0, MAXOFF // 4)
            st.eq.append(Lin(0, {at: 1, q: -4}))
        return Lin.atom(at)

    def wire_atom(self, eng, st, n, t):
        if isinstance(t, tuple) and t[0] == "dec":
            return self.size_atom(eng, st, n, t[2], t[3])
        if self.long is not None and isinstance(t, tuple) and t[0] in ("long", "elem", "idx") and isinstance(t[-1], int):
            return Lin(4 + 4 * (t[-1] * 7 % 3))
        at = ("wsz", t)
        eng.atom_rng[at] = (self.min_size.get(n, 0), 2**40)
        if n not in self.free_size and ("mod", at, 4) not in st.facts:
            st.facts[("mod", at, 4)] = 0
            q = ("div", at, 4)
            eng.atom_rng[q] = (0, 2**38)
            st.eq.append(Lin(0, {at: 1, q: -4}))
        return Lin.atom(at)

    def decode_at(self, eng, st, n, a, off, e, ty, by_ref=True):
        """contract of the decoder of declared type n at in[off..e): outcomes (st, ok?, value, size)"""
        off = canon(eng, st, a, off)
        e = canon(eng, st, a, e)
        if self.long is not None and a == "in":
            sz = self.known_size(off)
            if n not in self.free_size and not eng.entails_ge(st, e - off - sz):
                raise Undecided("element outside the room")
            return [(st, True, Sym(("dec", n, a, off), ty), sz)]
        res = []
        for s, b in eng.branch(st, BV(("p", "decok", n, a, off, e))):
            if b:
                sz = self.size_atom(eng, s, n, a, off)
                if by_ref or n not in self.free_size:
                    eng.add_ge(s, e - off - sz)
                    if eng.infeas(s):
                        continue
                res.append((s, True, Sym(("dec", n, a, off), ty), sz))
            else:
                res.append((s, False, Sym(("decerr", n, a, off, e), ("adt", self.adt("Error"), ())), None))
        return res

    def nested(self, eng, st, n, arg, ty, family):
        """a decoder called by a decoder: by contract, unless it is the subject delegating to itself"""
        if n == self.subject:
            v = arg
            while isinstance(v, Ref):
                v = eng.rd(st, v)
            if isinstance(v, View) and v.a == "in" and eng.entails_eq(st, v.o - Lin.atom(("o0",))) and eng.entails_eq(st, v.e - Lin.atom(("e0",))):
                if ("self", family) in st.ev:
                    return [(st, "panic", ("decoder of %s calls itself on the same bytes" % n, None, None, None))]
                st.ev += (("self", family),)
                return None
        return self.decode_contract(eng, st, n, arg, ty)

    def decode_contract(self, eng, st, n, arg, ty):
        p = None
        v = arg
        while isinstance(v, Ref):
            p = v
            v = eng.rd(st, v)
        if not isinstance(v, View):
            raise Undecided("decoder of %s called on %r" % (n, v))
        res = []
        st.ev += (("decode", n, v.a, v.o, p is not None),)
        for s, good, val, sz in self.decode_at(eng, st, n, v.a, v.o, v.e, ty, p is not None):
            if good:
                if p is not None:
                    eng.wr(s, p, View(v.a, v.o + sz, v.e))
                res.append((s, "v", ok(val)))
            else:
                if p is not None:
                    at = ("errpos", eng.fresh("p"))
                    eng.atom_rng[at] = (0, MAXOFF)
                    eng.add_ge(s, Lin.atom(at) - v.o)
                    eng.add_ge(s, v.e - Lin.atom(at))
                    eng.wr(s, p, View(v.a, Lin.atom(at), v.e))
                res.append((s, "v", err(val)))
        return res

    # ------------------------------------------------------------ entry points
    def run(self, bid, args, st, eng, sub=None):
        try:
            outs = eng.call_body(bid, args, st, sub or {})
        except Undecided as u:
            outs = [(st, "undec", str(u))]
        except RecursionError:
            outs = [(st, "undec", "recursion")]
        self.absorb(eng)
        return outs

    def decoder(self, name, by_ref):
        """(body id, impl) of TryFrom<Bytes> / TryFrom<&mut Bytes> for a declared type"""
        want = ("ref", True, BYTES) if by_ref else BYTES
        for im in self.P.impls:
            if im.get("trait") == "std::convert::TryFrom" and im["self"][0] == "adt" and im["self"][1] == self.adt(name):
                if im["targs"][1] == want:
                    return im["items"].get("try_from"), im
        return None, None

    def wire_impl(self, name):
        for im in self.P.impls:
            if (im.get("trait") or "").split("::")[-1] == "WireSize" and im["self"][0] == "adt" and im["self"][1] == self.adt(name):
                return im["items"].get("wire_size"), im
        return None, None

    def decode(self, name, by_ref):
        """outcomes of one decoder: (engine, [(st, kind, value, end cursor)])"""
        bid, im = self.decoder(name, by_ref)
        if bid is None:
            raise Undecided("no decoder for %s" % name)
        eng = self.engine()
        st, v = self.start(eng)
        if self.long is not None:
            eng.add_eq(st, bmodels.u32_at(eng, st, "in", Lin.atom(("o0",))) - self.long)
        cell = None
        arg = v
        if by_ref:
            cell = eng.temp(st, v)
            arg = Ref(cell)
        self.subject = name
        st.ev += (("self", ("ref", True, BYTES) if by_ref else BYTES),)
        outs = self.run(bid, (arg,), st, eng)
        self.subject = None
        return eng, [(s, k, w, s.heap.get(cell) if cell else None) for s, k, w in outs]
