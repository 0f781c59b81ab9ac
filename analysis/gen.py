"""Interpretation of fastxdr's library entry points on specifications with symbolic names."""
import frontend
import models
import peg
from engine import Engine, State, Adt, Sym, Undecided, bind, ok, err, UNIT, Ref, BOX
from models import PairsV

STR = ("ref", False, ("str",))


class Outcome:
    """outcome of one entry point on one specification"""
    __slots__ = ("kind", "value", "ev", "st", "pc")

    def __init__(self, kind, value, st):
        self.kind = kind          # ok | err | panic | undec | exit
        self.value = value
        self.st = st
        self.ev = st.ev if st is not None else ()
        self.pc = st.pc if st is not None else ()


class Lib:
    def __init__(self):
        self.P, self.bins = frontend.repo_program()
        self.g = peg.load(frontend.REPO)
        self.notes = {}
        self.rules = set()
        self.visited = set()
        self.sites = set()
        self.ncalls = 0
        self.entry = {}
        for b in self.P.bodies.values():
            if b.kind in ("Fn", "AssocFn"):
                self.entry.setdefault(b.path, b)

    @staticmethod
    def fresh(lib):
        """the same program with counters of its own"""
        l = Lib.__new__(Lib)
        l.__dict__.update(lib.__dict__)
        l.notes, l.rules, l.visited, l.sites, l.ncalls = {}, set(), set(), set(), 0
        return l

    def find(self, path):
        b = self.entry.get(path)
        if b is None:
            raise Undecided("entry point %s not found" % path)
        return b

    def pnote(self, *k):
        k = ("peg",) + k
        self.notes[k] = self.notes.get(k, 0) + 1

    def engine(self):
        eng = Engine(self.P, models.M, max_depth=400)
        eng.hooks["call"] = self.hook
        return eng

    def hook(self, eng, d, args, st, site):
        if d.get("name") == "parse" and d.get("trait") == "pest::Parser":
            rule = models.deref(eng, st, args[0])
            src = models.string(eng, st, args[1])
            if not isinstance(src, str):
                raise Undecided("symbolic text parsed")
            rn = eng.P.adts[rule.n]["variants"][rule.v]["name"]
            m = peg.Matcher(self.g, src, self.pnote)
            try:
                r = m.parse(rn)
            except peg.GrammarError as e:
                raise Undecided("grammar: %s" % e)
            self.rules |= m.used
            if r is None:
                return [(st, "v", err(Sym(("pest-error", m.far), ("adt", "pest::error::Error", ()))))]
            return [(st, "v", ok(PairsV(r)))]
        return None

    def absorb(self, eng):
        for k, v in eng.notes.items():
            self.notes[k] = self.notes.get(k, 0) + v
        self.visited |= eng.visited
        self.sites |= eng.sites
        self.ncalls += eng.ncalls

    def wrap(self, outs):
        res = []
        for s, k, v in outs:
            if k == "v" and isinstance(v, Adt):
                res.append(Outcome("ok" if v.v == 0 else "err", v.f[0], s))
            elif k == "v":
                res.append(Outcome("undec", "result %r" % (v,), s))
            else:
                res.append(Outcome(k, v, s))
        return res

    def generate(self, src, derive=None):
        """outcomes of Generator::default()[.with_derive(derive)].generate(src)"""
        eng = self.engine()
        st = State()
        try:
            im = eng.find_impl("std::default::Default", ("adt", self.P_id("Generator"), ()), "default")
            outs = eng.call_body(im[0], (), st)
            if derive is not None:
                wd = self.find("Generator::with_derive")
                outs = bind(outs, lambda s, g: eng.call_body(wd.id, (g, derive), s, {wd.generics[0]: STR} if wd.generics else {}))
            b = self.find("Generator::generate")
            outs = bind(outs, lambda s, g: eng.call_body(b.id, (Ref(eng.temp(s, g)), src), s, {b.generics[0]: STR} if b.generics else {}))
        except Undecided as u:
            outs = [(st, "undec", str(u))]
        self.absorb(eng)
        return self.wrap(outs)

    def P_id(self, name):
        for k, a in self.P.adts.items():
            if a.get("local") and k.split("::")[-1] == name:
                return k
        raise Undecided("type %s not found" % name)

    def ast(self, src):
        eng = self.engine()
        st = State()
        try:
            b = self.find("ast::Ast::new")
            outs = eng.call_body(b.id, (src,), st, {})
        except Undecided as u:
            outs = [(st, "undec", str(u))]
        self.absorb(eng)
        return eng, self.wrap(outs)
