"""C11: Generator::generate as a function of the declarations - hash seeds, process state, earlier calls,
layout and declaration order."""
import hashlib
import re

import front
import generic
import models
import spec as S
import texts
from engine import Undecided, State, Adt, Ref, SStr, Sym, Seq, Fn, Clo, NONE, OPTION, UNIT, bind, ok, some
from front import FRes, chunks, fold, tokens, layouts, permutations, where_of
from gen import Lib, STR
from models import R, deref, place
from lin import Lin
from par import pmap

_ctx = {}

# sources of process state: (path pattern, what)
AMBIENT = [(r"^std::time::(SystemTime|Instant)::(now|elapsed)", "clock"), (r"^std::process::id", "process id"), (r"^std::thread::(current|Thread::id|available_parallelism)", "thread"),
           (r"^std::hash::RandomState::new|RandomState as std::default::Default|^std::collections::hash_map::RandomState", "hash seed"),
           (r"^std::env::(var|var_os|vars|vars_os|args|args_os|current_dir|current_exe|temp_dir|home_dir)$", "environment"),
           (r"^std::fs::|^std::path::Path::(exists|is_file|is_dir|metadata)|^std::fs::File", "file system"), (r"^std::ptr::(addr_of|from_ref)|::addr$|expose_provenance", "address"),
           (r"^std::io::stdin", "standard input"), (r"^std::net::", "network")]


def tainted(v, depth=6):
    """does a value mention process state?"""
    if isinstance(v, tuple):
        return bool(v) and (v[0] == "ambient" or any(tainted(x, depth) for x in v))
    if isinstance(v, (str, int, bool, float, frozenset)) or v is None or depth == 0:
        return False
    return "'ambient'" in repr(v) or "ambient(" in repr(v)


class Session:
    """one process: an engine and a state in which generate is called repeatedly"""

    def __init__(self, lib, order=None):
        self.lib = lib
        self.eng = eng = lib.engine()
        self.st = State()
        self.base_call = eng.hooks["call"]
        eng.hooks["call"] = self.call
        eng.hooks["unknown_call"] = self.unknown
        eng.hooks["statics"] = True
        eng.hooks["const"] = self.const
        if order:
            eng.hooks["hash_order"] = order
        self.n = 0

    # ------------------------------------------------------ process state
    def const(self, eng, d):
        if d["path"].split("::")[-1].isupper() and d["id"] + "::__rust_std_internal_init_fn" in eng.P.bodies:
            return Adt("localkey", 0, (d["id"],))
        if d["path"].startswith("std::time::"):
            return Sym(("const", d["path"]), ("adt", d["path"], ()))
        return None

    def call(self, eng, d, args, st, site):
        n = d["norm"]
        tr = (d.get("trait") or "").split("::")[-1]
        if n.startswith("Atomic") or (d["path"].startswith("std::sync::atomic::") and "::" in n):
            return self.atomic(eng, d, args, st)
        if n in ("LocalKey::with", "LocalKey::with_borrow", "LocalKey::with_borrow_mut", "LocalKey::set", "LocalKey::get", "LocalKey::take", "LocalKey::replace"):
            k = deref(eng, st, args[0])
            if not (isinstance(k, Adt) and k.n == "localkey"):
                raise Undecided("thread local")
            c = ("static", k.f[0])

            def go(st, _):
                r = Ref(c)
                m = n.split("::")[1]
                inner = Ref(c, (("f", 0, 0),))
                if m == "with":
                    return models.call(eng, st, args[1], (r,))
                if m.startswith("with_borrow"):
                    return models.call(eng, st, args[1], (inner,))
                old = eng.rd(st, inner)
                if m == "get":
                    return R(st, old)
                if m in ("set", "replace"):
                    eng.wr(st, inner, args[1])
                    return R(st, UNIT if m == "set" else old)
                raise Undecided(n)
            if c in st.heap:
                return go(st, None)
            b = eng.P.bodies[k.f[0] + "::__rust_std_internal_init_fn"]

            def put(st, v):
                st.heap[c] = v
                return R(st, UNIT)
            return bind(bind(eng.run_body(b, (NONE,) * len(b.params), {}, st), put), go)
        if n in ("Mutex::lock", "RwLock::read", "RwLock::write", "Mutex::try_lock"):
            p = place(eng, st, args[0])
            return R(st, ok(Ref(p.c, p.p + (("f", 0, 0),))))
        if n in ("RwLock::new", "OnceLock::new", "OnceCell::new"):
            return R(st, Adt("cell", 0, tuple(args) if args else (NONE,)))
        if n in ("OnceLock::get", "OnceCell::get"):
            p = place(eng, st, args[0])
            v = eng.rd(st, p).f[0]
            return R(st, NONE if v.v == 0 else some(Ref(p.c, p.p + (("f", 0, 0), ("f", 1, 0)))))
        if n in ("OnceLock::set", "OnceCell::set"):
            p = place(eng, st, args[0])
            if eng.rd(st, p).f[0].v == 0:
                eng.wr(st, p, Adt("cell", 0, (some(args[1]),)))
                return R(st, ok(UNIT))
            return R(st, models.err(args[1]))
        if n in ("OnceLock::get_or_init", "OnceCell::get_or_init"):
            p = place(eng, st, args[0])
            r = Ref(p.c, p.p + (("f", 0, 0), ("f", 1, 0)))
            if eng.rd(st, p).f[0].v == 1:
                return R(st, r)

            def init(st, v):
                eng.wr(st, p, Adt("cell", 0, (some(v),)))
                return R(st, r)
            return bind(models.call(eng, st, args[1], ()), init)
        if n in ("LazyLock::new", "LazyCell::new"):
            return R(st, Adt("lazy", 0, (NONE, args[0])))
        if n in ("LazyLock::force", "LazyCell::force") or tr == "Deref" and name(d) == "deref" and isinstance(args[0], Ref):
            p = place(eng, st, args[0])
            v = eng.rd(st, p)
            if isinstance(v, Adt) and v.n == "lazy":
                r = Ref(p.c, p.p + (("f", 0, 0), ("f", 1, 0)))
                if v.f[0].v == 1:
                    return R(st, r)

                def init(st, x):
                    eng.wr(st, p, Adt("lazy", 0, (some(x), v.f[1])))
                    return R(st, r)
                return bind(models.call(eng, st, v.f[1], ()), init)
        for rx, what in AMBIENT:
            if re.search(rx, d["path"]) or "res" in d and re.search(rx, d["res"]["path"]):
                st.ev += (("ambient", what, d["path"]),)
                return self.source(eng, d, st, site, what)
        return self.base_call(eng, d, args, st, site)

    def source(self, eng, d, st, site, what):
        from engine import Ctx
        self.n += 1
        ty = Ctx(d, site).ret(eng)
        if ty is None:
            raise Undecided("%s" % d["path"])
        return R(st, eng.mk(st, ("ambient", what, self.n), ty))

    def unknown(self, eng, d, args, st, site):
        if any(tainted(deref(eng, st, a)) for a in args):
            return self.source(eng, d, st, site, "derived by " + d["norm"])
        return None

    def atomic(self, eng, d, args, st):
        m = d["path"].split("::")[-1]
        if m == "new":
            return R(st, Adt("cell", 0, (args[0],)))
        p = place(eng, st, args[0])
        v = eng.rd(st, p)
        if not (isinstance(v, Adt) and v.n == "cell"):
            raise Undecided("atomic")
        old = v.f[0]
        if m == "load":
            return R(st, old)
        if m in ("store", "swap"):
            eng.wr(st, p, Adt("cell", 0, (args[1],)))
            return R(st, UNIT if m == "store" else old)
        if m in ("fetch_add", "fetch_sub", "fetch_or", "fetch_and", "fetch_max", "fetch_min"):
            a, b = old, args[1]
            if isinstance(a, Lin) and isinstance(b, int) and m in ("fetch_add", "fetch_sub"):
                eng.wr(st, p, Adt("cell", 0, ((a + b if m == "fetch_add" else a - b),)))
                return R(st, old)
            if not isinstance(a, int) or not isinstance(b, int):
                raise Undecided("atomic arithmetic")
            nv = {"fetch_add": a + b, "fetch_sub": a - b, "fetch_or": a | b, "fetch_and": a & b, "fetch_max": max(a, b), "fetch_min": min(a, b)}[m]
            if isinstance(a, bool):
                nv = bool(nv)
            eng.wr(st, p, Adt("cell", 0, (nv,)))
            return R(st, old)
        if m.startswith("compare_exchange"):
            if models.equal(eng, st, old, args[1]) is True:
                eng.wr(st, p, Adt("cell", 0, (args[2],)))
                return R(st, ok(old))
            return R(st, models.err(old))
        raise Undecided("atomic %s" % m)

    # ------------------------------------------------------ calls
    def single(self, outs):
        if len(outs) != 1 or outs[0][1] != "v":
            raise Undecided("%s" % ([(k, str(v)[:100]) for _, k, v in outs[:3]]))
        self.st = outs[0][0]
        return outs[0][2]

    def generator(self, derive=None):
        eng, lib = self.eng, self.lib
        im = eng.find_impl("std::default::Default", ("adt", lib.P_id("Generator"), ()), "default")
        g = self.single(eng.call_body(im[0], (), self.st))
        if derive is not None:
            wd = lib.find("Generator::with_derive")
            g = self.single(eng.call_body(wd.id, (g, derive), self.st, {wd.generics[0]: STR} if wd.generics else {}))
        return Ref(eng.temp(self.st, g))

    def generate(self, g, src):
        """[Outcome]; the state of the first outcome carries on"""
        b = self.lib.find("Generator::generate")
        self.st.depth = 0
        try:
            outs = self.eng.call_body(b.id, (g, src), self.st, {b.generics[0]: STR} if b.generics else {})
        except Undecided as u:
            outs = [(self.st, "undec", str(u))]
        r = self.lib.wrap(outs)
        for o in r:
            if o.kind in ("ok", "err"):
                self.st = o.st
                break
        return r

    def counters(self, g):
        """integers that outlive a call: {(cell, path): value}"""
        out = {}

        def walk(c, path, v, depth):
            if isinstance(v, int) and not isinstance(v, bool):
                out[(c, path)] = v
            elif isinstance(v, Adt) and depth < 6:
                for i, x in enumerate(v.f):
                    walk(c, path + (("f", v.v, i),), x, depth + 1)
        for c, v in self.st.heap.items():
            if isinstance(c, tuple) and c and c[0] == "static" or c == g.c:
                walk(c, (), v, 0)
        return out

    def done(self):
        self.lib.absorb(self.eng)


def name(d):
    return d.get("name")


# ------------------------------------------------------------------ hash orders
def orders():
    def keyed(f):
        return lambda eng, st, e: sorted(e, key=lambda x: f(repr(models.keyof(eng, st, x[0]))))

    def md5(salt):
        return keyed(lambda k: hashlib.md5((salt + k).encode("utf8", "surrogatepass")).hexdigest())
    return [("latest first", lambda eng, st, e: [e[-1]] + e[:-1]), ("sorted", keyed(lambda k: k)), ("scrambled 1", md5("1")), ("scrambled 2", md5("2")), ("scrambled 3", md5("3")),
            ("reverse sorted", lambda eng, st, e: sorted(e, key=lambda x: repr(models.keyof(eng, st, x[0])), reverse=True))]


# ------------------------------------------------------------------ items of a module
LEX = re.compile(r'//[^\n]*|/\*.*?\*/|"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)\'|\s+|[A-Za-z0-9_\ue000-\uf8ff\U00100000-\U0010ffff]+|.', re.S)


def items(text):
    """sorted definitions of the module's items, whitespace and comments aside"""
    toks = [t for t in LEX.findall(text) if not t.isspace() and not (t.startswith("//") or t.startswith("/*"))]
    try:
        i = toks.index("{")
    except ValueError:
        return ["".join(toks)]
    out, cur, depth = ["head:" + " ".join(toks[:i])], [], 0
    for t in toks[i + 1:]:
        if t == "}" and depth == 0:
            break
        cur.append(t)
        if t in "{([":
            depth += 1
        elif t in "})]":
            depth -= 1
            if t == "}" and depth == 0:
                out.append(" ".join(cur))
                cur = []
        elif t == ";" and depth == 0:
            out.append(" ".join(cur))
            cur = []
    if cur:
        out.append(" ".join(cur))
    return sorted(out)


def difference(a, b):
    """(items only in a, items only in b)"""
    from collections import Counter
    x, y = Counter(a), Counter(b)
    return list((x - y).elements()), list((y - x).elements())


def short(s, n=300):
    s = repr(s) if not isinstance(s, str) else s
    return s if len(s) <= n else s[:n // 2] + " ... " + s[-n // 2:]


def first_diff(a, b):
    a, b = str(a), str(b)
    i = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
    return "%r\nversus\n%r" % (a[max(0, i - 80):i + 120], b[max(0, i - 80):i + 120])


class Group:
    """fragments checked together"""

    def __init__(self, frags):
        self.frags = frags
        self.nm = S.Names(set().union(*[f.lits for f in frags]) if frags else ())
        self.items = [x for f in frags for x in f.items()]
        self.where = where_of(frags)
        self.label = frags[0].key + (" and %d more" % (len(frags) - 1) if len(frags) > 1 else "") if frags else "nothing"

    def source(self, order=None, layout=None):
        xs = self.items if order is None else [self.items[i] for i in order]
        if layout is None:
            return self.nm.sub("\n".join(xs) + "\n")
        return dict(layouts())[layout](tokens(self.nm.sub("\n".join(xs))))

    def owner(self, it):
        """fragment an item belongs to"""
        for w in re.findall(r"\w+", self.nm.render(it)):
            k = self.where(w)
            if k != "?":
                return k
        return self.label


def verdict(res, grp, outs, what):
    """one outcome, or the reason why there are several"""
    und = [o for o in outs if o.kind == "undec"]
    if und:
        res.undec.append(("%s %s" % (grp.label, what), str(und[0].value)[:200]))
        return None
    vals = [(o.kind, o.value if o.kind == "ok" else "") for o in outs]
    amb = [o for o in outs if tainted(o.pc) or o.kind == "ok" and tainted(o.value)]
    if amb and (len(set(map(repr, vals))) > 1 or any(o.kind == "ok" and tainted(o.value) for o in outs)):
        src = sorted({"%s (%s)" % (e[2], e[1]) for o in outs for e in o.ev if e[0] == "ambient"})
        res.bad.append(("output depends on process state: %s" % ", ".join(src), "outcomes for %s: %s" % (grp.label, "\n".join(short(v[1]) if v[0] == "ok" else v[0] for v in vals[:3]))))
        return None
    if len(set(map(repr, vals))) > 1:
        res.undec.append(("%s %s" % (grp.label, what), "%d outcomes" % len(outs)))
        return None
    o = outs[0]
    if o.kind == "ok" and not isinstance(o.value, str):
        res.undec.append(("%s %s" % (grp.label, what), "symbolic text"))
        return None
    return o


def fresh(lib, src, res, grp, what, derive=None, order=None):
    s = Session(lib, order)
    try:
        outs = s.generate(s.generator(derive), src)
    except Undecided as u:
        res.undec.append(("%s %s" % (grp.label, what), str(u)[:200]))
        return None
    finally:
        s.done()
    res.count("generate_calls")
    return verdict(res, grp, outs, what)


def same_items(res, grp, base, bitems, o, what):
    if o is None:
        return
    if base.kind != o.kind:
        res.bad.append(("%s: accepted in one layout or order only" % what, "%s for\n%s" % (", ".join((base.kind, o.kind)), grp.nm.render("\n".join(grp.items))[:600])))
        return
    if o.kind == "ok":
        a, b = difference(bitems, items(o.value))
        if a or b:
            x = (a + b)[0]
            res.bad.append(("%s: items change with %s" % (grp.owner(x), what), grp.nm.render("only in one: %s\nonly in the other: %s" % ([short(i, 500) for i in a[:3]], [short(i, 500) for i in b[:3]]))))
            return
        res.count("items_compared", len(bitems))
    res.ok += 1


def same_text(res, grp, a, b, key, detail):
    if a is None or b is None:
        return
    if (a.kind, a.value if a.kind == "ok" else "") != (b.kind, b.value if b.kind == "ok" else ""):
        res.bad.append((key, detail + "\n" + (grp.nm.render(first_diff(a.value, b.value)) if a.kind == b.kind else "%s versus %s" % (a.kind, b.kind))))
    else:
        res.ok += 1


def work(job):
    frags, tasks = job
    lib = Lib.fresh(_ctx["lib"])
    res = FRes()
    grp = Group(frags)
    src = grp.source()
    base = fresh(lib, src, res, grp, "")
    if base is not None and base.kind in ("ok", "err"):
        bitems = []
        if base.kind == "ok":
            bitems = items(base.value)
            res.samples.append({"declarations": len(grp.items), "first": grp.label, "items": len(bitems), "tasks": [str(t)[:40] for t in tasks][:6]})
        for t in tasks:
            if t[0] == "hash":
                o = fresh(lib, src, res, grp, "hash order %s" % t[1], order=dict(orders())[t[1]])
                same_text(res, grp, base, o, "%s: output depends on the order a hash table is iterated in" % grp.label, "hash order %s versus insertion order" % t[1])
            elif t[0] == "layout":
                same_items(res, grp, base, bitems, fresh(lib, grp.source(None, t[1]), res, grp, t[1]), "layout %s" % t[1])
            elif t[0] == "order":
                same_items(res, grp, base, bitems, fresh(lib, grp.source(t[2], t[3]), res, grp, t[1]), "declaration order (%s)%s" % (t[1], ", layout %s" % t[3] if t[3] else ""))
            elif t[0] == "history":
                history(lib, res, grp, base, src, t[1])
    res.absorb(lib)
    return res


DERIVE = "#[derive(Debug, Clone, PartialEq)]"


def variant(grp, k):
    """another specification using the same names differently"""
    out = []
    for i, x in enumerate(grp.items):
        if k == "reversed":
            pass
        elif k == "other types" and x.startswith(("struct", "typedef")):
            if "opaque" in x:
                x = re.sub(r"\bopaque (\S+?)(<[^>]*>|\[[^\]]*\])?;", r"unsigned int \1;", x)
            else:
                x = re.sub(r"\bunsigned int (\w|@)", r"opaque\t\1", x, count=1).replace("opaque\t", "opaque ", 1)
        elif k == "half" and i % 2 and not x.startswith(("const", "enum")):
            continue
        out.append(x)
    if k == "reversed":
        out.reverse()
    return grp.nm.sub("\n".join(out) + "\n")


def history(lib, res, grp, base, src, k):
    other = variant(grp, k)
    b = fresh(lib, other, res, grp, "variant %s" % k)
    bd = fresh(lib, src, res, grp, "with_derive", derive=DERIVE)
    if b is None or bd is None:
        return
    s = Session(lib)
    try:
        g = s.generator()
        seq = [(g, src, base, "the first call"), (g, src, base, "a repeated call"), (g, other, b, "a call after another specification"), (g, src, base, "a call after another specification"),
               (s.generator(DERIVE), src, bd, "a call after one with another derive line"), (s.generator(), other, b, "a new Generator after other calls"), (g, "", None, None),
               (g, "struct {", None, None), (g, src, base, "a call after a failed one")]
        seen = []
        for g_, x, want, what in seq:
            outs = s.generate(g_, x)
            seen.append(s.counters(g))
            res.count("generate_calls")
            if want is None:
                continue
            o = verdict(res, grp, outs, what)
            if o is None:
                return
            same_text(res, grp, want, o, "output of %s differs from a fresh process" % what, grp.label)
        # what every call moves further reaches any value: a call after any number of others
        late = [k for k, v in seen[0].items() if all(k in y for y in seen[1:4]) and (v < seen[1][k] < seen[2][k] < seen[3][k] or v > seen[1][k] > seen[2][k] > seen[3][k])]
        if late:
            for k in late:
                at = ("ambient", "earlier calls", len(s.st.ev))
                now = seen[-1][k]
                s.eng.atom_rng[at] = (now, 2**31) if now > seen[0][k] else (0, max(now, 0))
                s.eng.wr(s.st, Ref(k[0], k[1]), Lin.atom(at))
                s.st.ev += (("ambient", "number of earlier calls", str(k[0][1]) if isinstance(k[0], tuple) else "Generator"),)
            res.count("late_calls")
            verdict(res, grp, s.generate(g, src), "a call after many others")
    except Undecided as u:
        res.undec.append(("%s history" % grp.label, str(u)[:200]))
    finally:
        s.done()


def jobs(lib, deep):
    out = []
    lay = [n for n, _ in layouts()]
    H = [n for n, _ in orders()]
    F = [f for f in S.catalogue() if f.supported]
    for i, g in enumerate(chunks(F, 12)):
        n = sum(len(f.items()) for f in g)
        ts = [("hash", h) for h in (H if deep else [H[i % 2], H[2 + i % 4]])]
        ts += [("layout", l) for l in (lay if deep else [lay[i % len(lay)]])]
        ps = permutations(n, deep)
        ts += [("order", p[0], p[1], lay[(i + j) % len(lay)] if j % 2 else None) for j, p in enumerate(ps if deep else [ps[i % len(ps)]])]
        ts += [("history", k) for k in (("other types", "half", "reversed") if deep else (("other types", "half", "reversed")[i // 2 % 3],) if i % 2 == 0 else ())]
        for c in chunks(ts, 8):
            out.append((g, c))
    # single fragments: the same declarations in every order
    for i, f in enumerate(F if deep else F[::3]):
        n = len(f.items())
        if n > 1:
            ps = permutations(n, deep)
            ts = [("order", p[0], p[1], lay[(i + j) % len(lay)] if j % 2 else None) for j, p in enumerate(ps)]
            out.append(([f], ts if deep else ts[:3]))
    _, ws = front.words(lib.g)
    L = front.lexical(ws, deep)
    for i, f in enumerate(L if deep else L[::4]):
        n = len(f.items())
        out.append(([f], [("layout", lay[i % len(lay)]), ("order", "reversed", list(range(n))[::-1], None), ("hash", H[i % len(H)])]))
    Z = front.sized(deep)
    for i, f in enumerate(Z):
        n = len(f.items())
        ts = [("hash", H[i % len(H)]), ("layout", lay[i % len(lay)])] + [("order", p[0], p[1], None) for p in permutations(n, deep)[:2]]
        out.append(([f], ts + ([("history", "half")] if n > 1 and n < 40 else [])))
    # dependency graphs: the generic index feeds every emitter
    G = generic.shapes(deep, 1)
    for i, (key, ds) in enumerate(G if deep else G[::8]):
        if len(ds) < 2:
            continue
        f = S.Fragment(key, ds, lits={w for d in ds for w in re.findall(r"\w+", S.text(d))})
        n = len(ds)
        ps = permutations(n, deep)
        ts = [("order", p[0], p[1], None) for p in (ps[:6] if deep else [ps[0], ps[-1]])] + [("hash", H[j]) for j in ((0, 1, 2, 3, 4, 5) if deep else (i % 6, (i + 3) % 6))]
        if i % 4 == 0:
            ts.append(("history", "other types"))
        out.append(([f], ts))
    # specifications fastxdr rejects are rejected in every layout and order
    B = [f for f in S.catalogue() if not f.supported]
    for i, f in enumerate(B):
        n = len(f.items())
        out.append(([f], [("layout", lay[i % len(lay)])] + [("order", p[0], p[1], None) for p in permutations(n, deep)[:3]]))
    return out


def check(ck, prop, tier):
    deep = tier == "thorough"
    ck.explain(*texts.front(prop))
    lib = Lib()
    _ctx["lib"] = lib
    js = jobs(lib, deep)
    # long jobs first
    js.sort(key=lambda j: -sum(len(f.items()) for f in j[0]) * (1 + len(j[1])))
    rs = pmap(work, js)
    fold(ck, [[f.key for f in j[0]][:3] for j in js], rs)
    ck.floor("specifications", len(js), 300)
    ck.floor("comparisons enumerated", sum(len(j[1]) for j in js), 900)
    ck.floor("bodies analysed", ck.info["bodies_analysed"], 1)
