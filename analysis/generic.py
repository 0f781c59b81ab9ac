"""C13: the generic index and the emitted parameters against reachability of opaque data."""
import itertools
import os
import random
import re

import front
import spec as S
from emit import Emitter
from engine import Undecided
from front import AstQ, FRes, chunks, fold
from gen import Lib
from par import pmap

U32, I32, OPQ = S.U32, S.I32, S.OPQ
_ctx = {}


# ------------------------------------------------------------------ the model
def leafs(T):
    """(opaque?, named types) of a declared type expression"""
    if T is None or T == "void":
        return False, []
    if T[0] in ("opaque", "opaquef"):
        return True, []
    if T[0] == "named":
        return False, [T[1]]
    if T[0] in ("opt", "var", "fix"):
        return leafs(T[1])
    return False, []


def uses(d):
    if d.kind == "struct":
        return [T for _, T in d.fields]
    if d.kind == "union":
        return [T for _, T in d.arms] + [d.default]
    if d.kind == "typedef":
        return [d.type]
    return []


def generic_names(decls):
    own, succ = {}, {}
    for d in decls:
        o, s = False, set()
        for T in uses(d):
            a, b = leafs(T)
            o |= a
            s |= set(b)
        own[d.name], succ[d.name] = o, s
    G = {n for n in own if own[n]}
    while True:
        more = {n for n in own if n not in G and succ[n] & G}
        if not more:
            return G
        G |= more


# ------------------------------------------------------------------ graphs
SE = ["plain", "opt", "var", "fix", "varn"]
UE = ["arm", "default", "group"]
TE = ["alias", "avar", "afix"]


def node(name, kind, succ, leaf, r):
    """a declaration of the kind using the successors; leaf: opaque data of its own"""
    def sf(k, t):
        return {"plain": ("named", t), "opt": ("opt", ("named", t)), "var": ("var", ("named", t), None), "varn": ("var", ("named", t), 3), "fix": ("fix", ("named", t), 2)}[k]
    if kind == "typedef" and (len(succ) == 1 and not leaf or not succ and leaf):
        if succ:
            k = TE[r % 3]
            T = {"alias": ("named", succ[0]), "avar": ("var", ("named", succ[0]), None), "afix": ("fix", ("named", succ[0]), 2)}[k]
        else:
            T = [("opaque", None), ("opaque", 8), ("opaquef", 4), ("opaque", None, "bare")][r % 4]
        return S.Typedef(name, T)
    if kind == "union":
        arms = []
        default = None
        ts = [("named", s) for s in succ] + ([("opaque", None, "bare")] if leaf else [])
        k = 1
        for i, T in enumerate(ts):
            if i == len(ts) - 1 and (r // 3) % 2:
                default = T
                continue
            ls = [str(k)] if r % 2 else [str(k), str(k + 1)]
            k += 2
            arms.append((ls, T))
        if not arms:
            arms.append(([str(k)], None))
        return S.Union(name, U32, arms, default)
    fs = [("f%d" % i, sf(SE[(r + i) % 5], s)) for i, s in enumerate(succ)]
    if leaf:
        fs.append(("fo", [OPQ, ("opaque", 7), ("opaquef", 5), ("opaque", None, "bare")][r % 4]))
    if r % 3 == 0 or not fs:
        fs.insert(r % (len(fs) + 1), ("fp", [U32, S.STRG, S.F64][r % 3]))
    return S.Struct(name, fs)


KINDS = ["struct", "union", "typedef"]


def graph(key, n, edges, leaves, r=0, kinds=None, names=None):
    nm = names or ["N%d" % i for i in range(n)]
    ds = []
    for i in range(n):
        ds.append(node(nm[i], (kinds or KINDS)[(i + r) % len(kinds or KINDS)], [nm[j] for j in edges.get(i, [])], i in leaves, r + i))
    return key, ds


def shapes(deep, seed):
    """[(key, declarations)]"""
    out = []
    for n in ([2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 17, 24, 40] + ([64, 100] if deep else [])):
        for lab, ks in (("mixed", KINDS), ("structs", ["struct"]), ("unions", ["union"]), ("typedefs", ["typedef"])):
            out.append(graph("chain of %d %s" % (n, lab), n, {i: [i + 1] for i in range(n - 1)}, {n - 1}, 1, ks))
        out.append(graph("chain of %d, opaque in the middle" % n, n, {i: [i + 1] for i in range(n - 1)}, {n // 2}, 2))
        out.append(graph("chain of %d without opaque" % n, n, {i: [i + 1] for i in range(n - 1)}, set(), 0))
        if n <= 13:
            out.append(graph("cycle of %d without opaque" % n, n, {i: [(i + 1) % n] for i in range(n)}, set(), 1))
            out.append(graph("cycle of %d with opaque" % n, n, {i: [(i + 1) % n] for i in range(n)}, {0}, 1))
            out.append(graph("cycle of %d reaching opaque" % n, n + 2, {**{i: [(i + 1) % n] for i in range(n)}, 1: [2 % n, n], n: [n + 1]}, {n + 1}, 2))
            out.append(graph("opaque reaching a cycle of %d" % n, n + 1, {**{i: [(i + 1) % n] for i in range(n)}, n: [0]}, {n}, 0))
    out.append(graph("diamond", 4, {0: [1, 2], 1: [3], 2: [3]}, {3}))
    out.append(graph("diamond without opaque", 4, {0: [1, 2], 1: [3], 2: [3]}, set()))
    out.append(graph("diamond, one side opaque", 5, {0: [1, 2], 1: [3], 2: [4]}, {4}))
    out.append(graph("stacked diamonds", 10, {0: [1, 2], 1: [3], 2: [3], 3: [4, 5], 4: [6], 5: [6], 6: [7, 8], 7: [9], 8: [9]}, {9}, 1))
    out.append(graph("self reference", 1, {0: [0]}, set()))
    out.append(graph("self reference with opaque", 1, {0: [0]}, {0}))
    out.append(graph("two components", 6, {0: [1], 1: [2], 3: [4], 4: [5]}, {2}, 2))
    out.append(graph("wide", 14, {0: list(range(1, 13)), 12: [13]}, {13}, 0, ["struct"]))
    out.append(graph("wide union", 14, {0: list(range(1, 13)), 12: [13]}, {13}, 0, ["union"]))
    # every edge and leaf kind
    for r in range(15):
        for ks in (["struct"], ["union"], ["typedef"], ["struct", "typedef"], ["union", "typedef"], ["struct", "union"]):
            out.append(graph("edges of kind %d through %s" % (r, "+".join(ks)), 3, {0: [1], 1: [2]}, {2}, r, ks))
    # all small graphs
    subs = [()] + [(a,) for a in range(5)] + list(itertools.combinations(range(5), 2))
    k = 0
    for combo in itertools.product(subs, repeat=3):
        k += 1
        if not deep and k % 5 != seed % 5:
            continue
        ed = {i: [x for x in c if x < 3] for i, c in enumerate(combo)}
        lv = {i for i, c in enumerate(combo) if 4 in c}
        out.append(graph("graph %s" % "/".join("".join(map(str, c)) or "-" for c in combo), 3, ed, lv, k))
    rnd = random.Random(1000 + seed)
    for i in range(400 if deep else 120):
        n = rnd.randint(4, 14)
        ed = {a: sorted(rnd.sample(range(n), rnd.choice([0, 1, 1, 2, 2, 3]))) for a in range(n)}
        lv = {a for a in range(n) if rnd.random() < 0.15}
        out.append(graph("random graph %d (seed %d)" % (i, seed), n, ed, lv, rnd.randint(0, 30)))
    # names
    out.append(("field and arm names equal to generic type names", [S.Struct("G", [("g", OPQ)]), S.Struct("H", [("G", U32), ("J", I32)]), S.Union("J", U32, [(["1"], U32)], None, var="G"), S.Typedef("K", U32), S.Enum("E", [("EG", "1")]),
                                                                     S.Struct("L", [("E", ("named", "E")), ("K", ("named", "K")), ("J", ("named", "J"))])]))
    out.append(("names that extend each other", [S.Struct("data", [("x", OPQ)]), S.Struct("data2", [("x", U32)]), S.Struct("dat", [("x", U32)]), S.Struct("holder", [("x", ("named", "data2"))]), S.Struct("holder2", [("x", ("named", "data"))]),
                                                 S.Struct("DATA", [("x", ("named", "dat"))])]))
    out.append(("strings and fixed integers only", [S.Struct("A", [("s", S.STRG), ("t", ("string", 5)), ("u", ("fix", U32, 3))]), S.Typedef("B", S.STRG), S.Union("C", U32, [(["1"], ("named", "A"))], ("named", "B"))]))
    out.append(("undeclared types", [S.Struct("A", [("s", ("named", "Missing"))]), S.Typedef("B", ("named", "Missing2")), S.Struct("C", [("b", ("named", "B")), ("o", OPQ)])]))
    out.append(("void arms", [S.Union("A", U32, [(["1"], None), (["2"], None)], "void"), S.Union("B", U32, [(["1"], None)], OPQ if False else ("opaque", None, "bare")), S.Union("C", U32, [(["2"], ("named", "B")), (["1"], None)], "void")]))
    return out


def orders(ds, deep):
    n = len(ds)
    out = [("as written", list(range(n)))]
    return out + front.permutations(n, deep)


def lits_of(ds, on):
    return set()


def work(job):
    todo = job
    lib = Lib.fresh(_ctx["lib"])
    res = FRes()
    for key, ds, (oname, order), names in todo:
        frag = S.Fragment(key, ds)
        nm = S.Names()
        # the order of names decides the order of declarations in the indexes
        for d in sorted(ds, key=lambda d: d.name, reverse=bool(names)):
            nm.one(d.name)
        src = nm.sub("\n".join(S.text(ds[i]) for i in order) + "\n")
        res.count("specifications")
        q = AstQ(lib, src, nm)
        want = generic_names(ds)
        if q.kind == "ok":
            try:
                for d in ds:
                    g = q.generic(d.name)
                    if g == (d.name in want):
                        res.ok += 1
                    else:
                        res.bad.append(("%s%s" % (re.sub(r" \d+$", "", key.split(" (")[0]) if key.startswith(("random", "graph")) else key, ": generic type not in the index" if not g else ": type in the index without opaque data"),
                                        "generics().contains(%s) is %s with the declarations in order %s; opaque data is %sreachable from it\n%s" % (d.name, g, oname, "" if d.name in want else "not ", "\n".join(S.text(ds[i]) for i in order)[:1500])))
                        break
                if q.generic("zz_absent"):
                    res.bad.append((key + ": absent name in the index", "contains(zz_absent)"))
                res.count("memberships_judged", len(ds))
                if not res.samples:
                    res.samples.append({"graph": key, "order": oname, "generic": sorted(want)[:6]})
            except Undecided as u:
                res.undec.append((key, str(u)))
        elif q.kind == "err":
            res.undec.append((key, "rejected: %s" % nm.render(str(q.value))))
        elif q.kind == "panic":
            res.bad.append((key + ": Ast::new panics", "%s\n%s" % (q.value, "\n".join(S.text(d) for d in ds)[:800])))
        else:
            res.undec.append((key, str(q.value)[:300]))
    res.absorb(lib)
    return res


def acyclic(ds):
    """no declaration embeds itself (rustc needs finite sizes) and every name is declared"""
    emb = {}
    known = {d.name for d in ds}
    for d in ds:
        e = set()
        for T in uses(d):
            for t in ([T] if T not in (None, "void") else []):
                if leafs(t)[1] and leafs(t)[1][0] not in known:
                    return False
                if t[0] == "named" or t[0] == "fix":
                    e |= set(leafs(t)[1])
        emb[d.name] = e
    for n in emb:
        seen, todo = set(), [n]
        while todo:
            for y in emb.get(todo.pop(), ()):
                if y == n:
                    return False
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
    return True


GEN_ERRORS = ("E0107", "E0392", "E0282", "E0283", "E0412", "E0425", "E0277", "E0308", "E0119", "E0207", "E0401", "E0403")


def emitted(ck, lib, G, deep):
    """the parameters of the emitted items, from rustc's view of them"""
    frags = [f for f in S.catalogue() if f.supported]
    n = nr = 0
    for key, ds in G:
        if not deep and (key.startswith("random") and nr > 20 or len(ds) > 17):
            continue
        nr += key.startswith("random")
        if not acyclic(ds) or any(d.kind == "union" and not any(T is not None for T in uses(d)) for d in ds):
            continue
        if key.startswith("graph") and n % 12 and not deep:
            n += 1
            continue
        n += 1
        p = "F%dg" % (5000 + n)
        m = {d.name: p + d.name for d in ds}

        def rn(T):
            if isinstance(T, tuple):
                return (T[0], m.get(T[1], T[1])) if T[0] == "named" else tuple(rn(x) for x in T)
            return T
        es = []
        for d in ds:
            if d.kind == "struct":
                es.append(S.Struct(m[d.name], [(f, rn(T)) for f, T in d.fields]))
            elif d.kind == "union":
                es.append(S.Union(m[d.name], d.switch_type, [(l, rn(T)) for l, T in d.arms], rn(d.default), var=d.var))
            elif d.kind == "typedef":
                es.append(S.Typedef(m[d.name], rn(d.type)))
            else:
                es.append(S.Enum(m[d.name], [(p + x, v) for x, v in d.members]))
        frags.append(S.Fragment(key, es[::-1] if n % 2 else es))
    em = Emitter(lib)
    em.build(frags)
    done = 0
    for u in em.units:
        decls = [d for f in u.frags for d in f.decls]
        want = generic_names(decls)
        cls = front.where_of(u.frags)
        for d in decls:
            a = u.prog.adts.get(u.prefix + d.name)
            if a is None:
                ck.undec("emitted %s" % cls(d.name), "type %s not emitted" % d.name)
                continue
            done += 1
            g = len(a["generics"])
            if (g != 0) != (d.name in want):
                ck.violation("%s: emitted %s %s the parameter" % (cls(d.name), d.kind, "carries" if g else "lacks"), "type %s has parameters %s; opaque data is %sreachable from it\n%s" % (d.name, a["generics"], "" if d.name in want else "not ", S.text(d)))
            else:
                ck.holds()
            if d.kind == "typedef" and d.type == ("named", d.name):
                continue
            k = 0
            for im in u.prog.impls:
                tr = (im.get("trait") or "").split("::")[-1]
                if tr in ("TryFrom", "WireSize") and im["self"][0] == "adt" and im["self"][1] == u.prefix + d.name:
                    k += 1
                    args = im["self"][2]
                    if (len(args) != 0) != (d.name in want):
                        ck.violation("%s: %s impl of the %s %s the parameter" % (cls(d.name), tr, d.kind, "carries" if args else "lacks"), "impl %s for %s%s" % (tr, d.name, args))
                    else:
                        ck.holds()
            if k < 3:
                ck.violation("%s: %d of 3 impls of the %s" % (cls(d.name), k, d.kind), "TryFrom<Bytes>, TryFrom<&mut Bytes>, WireSize of %s" % d.name)
    for key, (kind, det) in em.failed.items():
        codes = re.findall(r"error\[(E\d+)\]", det)
        gerr = [f for f in frags if f.key == key]
        if kind == "rustc" and any(c in GEN_ERRORS for c in codes) and re.search(r"generic|Bytes|\bT\b|type parameter", det):
            ck.violation("%s: emitted items disagree about the parameter" % key, det[:900])
        elif kind == "gen-panic":
            ck.violation("%s: the generator panics" % key, det[:600])
        else:
            ck.undec("emitted %s" % key, "%s: %s" % (kind, det[:200]))
    ck.info["emitted_types_judged"] = done
    ck.info["modules_type_checked"] = len(em.units)
    return em


def check(ck, prop, tier):
    deep = tier == "thorough"
    import texts
    ck.explain(*texts.front(prop))
    lib = Lib()
    _ctx["lib"] = lib
    seed = int(os.environ.get("VERIF_SEED", "1"))
    G = shapes(deep, seed)
    todo = []
    for i, (key, ds) in enumerate(G):
        os_ = orders(ds, deep)
        if not deep and (key.startswith(("random", "graph")) or len(os_) > 8):
            os_ = [os_[0], os_[1 + i % (len(os_) - 1)]] if len(os_) > 1 else os_
        for j, o in enumerate(os_):
            todo.append((key, ds, o, (i + j) % 2))
    todo.sort(key=lambda t: -len(t[1]))
    n = 64
    jobs = [todo[i::n * 2] for i in range(n * 2)]
    fold(ck, [j[0][0] for j in jobs], pmap(work, jobs))
    emitted(ck, lib, G, deep)
    ck.info["graphs"] = len(G)
    ck.floor("specifications enumerated", len(todo), 2000)
    ck.floor("memberships enumerated", sum(len(t[1]) for t in todo), 8000)
