"""Emitted modules: fragments -> text (by interpreting Generator::generate) -> type-checked program."""
import re
import time

import frontend
import spec as S
from oracle import Spec
from par import pmap


class Unit:
    """an emitted module with the fragments it was generated from"""

    def __init__(self, frags, src, tag):
        self.frags = frags
        self.src = src
        self.tag = tag
        self.prog = None

    @property
    def prefix(self):
        return "emitted::%s::xdr::" % self.tag


class Emitter:
    def __init__(self, lib, derive=None, group=25):
        self.lib = lib
        self.derive = derive
        self.group = group
        self.units = []
        self.failed = {}     # fragment key -> (kind, detail): gen-err | gen-panic | gen-undec | gen-many | rustc
        self.n_gen = 0
        self.n_rustc = 0
        self.t_gen = self.t_rustc = 0
        self.cnt = 0

    def spec_text(self, frags):
        nm = S.Names(set().union(*[f.lits for f in frags]) if frags else ())
        return nm, nm.sub("\n".join(i for f in frags for i in f.items()) + "\n")

    def generate(self, frags):
        """('ok', text) | (kind, detail)"""
        nm, src = self.spec_text(frags)
        outs = self.lib.generate(src, self.derive)
        if len(outs) != 1:
            return "gen-many", "%d outcomes: %s" % (len(outs), [(o.kind, str(o.value)[:80]) for o in outs][:3])
        o = outs[0]
        if o.kind == "ok":
            if not isinstance(o.value, str):
                return "gen-undec", "text %r" % (o.value,)
            return "ok", nm.render(o.value)
        v = o.value
        return "gen-" + o.kind, nm.render(str(v))[:300]

    def gen_all(self, groups):
        def one(fs):
            lib = self.lib
            lib.notes, lib.visited, lib.sites, lib.rules, lib.ncalls = {}, set(), set(), set(), 0
            r = self.generate(fs)
            return r, lib.notes, lib.visited, lib.sites, lib.rules, lib.ncalls
        t = time.time()
        out = []
        for k, r in pmap(one, groups):
            if k == "exc":
                out.append(("gen-undec", r))
                continue
            r, notes, vis, sites, rules, nc = r
            for a, b in notes.items():
                self.lib.notes[a] = self.lib.notes.get(a, 0) + b
            self.lib.visited |= vis
            self.lib.sites |= sites
            self.lib.rules |= rules
            self.lib.ncalls += nc
            out.append(r)
        self.n_gen += len(groups)
        self.t_gen += time.time() - t
        return out

    def texts(self, groups):
        """units for groups of fragments that generate; the rest is recorded"""
        units = []
        todo = [g for g in groups if g]
        while todo:
            again = []
            for g, (k, v) in zip(todo, self.gen_all(todo)):
                if k == "ok":
                    self.cnt += 1
                    units.append(Unit(g, v, "g%d" % self.cnt))
                elif len(g) == 1:
                    self.failed[g[0].key] = (k, v)
                else:
                    singles = self.gen_all([[f] for f in g])
                    good = []
                    for f, (k1, v1) in zip(g, singles):
                        if k1 == "ok":
                            good.append(f)
                        else:
                            self.failed[f.key] = (k1, v1)
                    if len(good) < len(g):
                        again.append(good)
                    else:     # only fails together
                        h = len(g) // 2
                        again += [g[:h], g[h:]]
            todo = [g for g in again if g]
        return units

    def compile(self, units, extra=None):
        """one crate, one `mod` per unit: (program | None, {unit: [(line, message)]}, stderr)"""
        lines = ["#![allow(warnings)]"]
        spans = []
        for u in units:
            a = len(lines) + 1
            lines.append("pub mod %s {" % u.tag)
            lines += u.src.split("\n")
            b = len(lines)
            if extra is not None:
                lines += extra(u).split("\n")
            lines.append("}")
            spans.append((a, b, len(lines), u))
        t = time.time()
        P, err = frontend.module_program("emitted", "\n".join(lines) + "\n")
        self.t_rustc += time.time() - t
        self.n_rustc += 1
        bad = {}
        for m in re.finditer(r"^error(?:\[\w+\])?: (.*?)(?=^error|^warning|\Z)", err, re.S | re.M):
            blk = m.group(0)
            k = re.search(r"^\s*--> src/lib\.rs:(\d+):", blk, re.M)
            if not k:
                continue
            ln = int(k.group(1))
            for a, b, c, u in spans:
                if a <= ln <= c:
                    # the item the line belongs to
                    frag = None
                    for i in range(ln, a, -1):
                        f = re.search(r"\bF\d+(?=[A-Za-z])", lines[i - 1])
                        if f:
                            frag = f.group(0)
                            break
                    bad.setdefault(u, []).append((frag, blk[:900], ln > b))
        return P, bad, err

    def build(self, frags, extra=None):
        t0 = time.time()
        groups = [frags[i:i + self.group] for i in range(0, len(frags), self.group)]
        units = self.texts(groups)
        while units:
            P, bad, err = self.compile(units, extra)
            if P is not None:
                for u in units:
                    u.prog = P
                self.units += units
                break
            if not bad:
                for u in units:
                    for f in u.frags:
                        self.failed[f.key] = ("gen-undec", "rustc: " + err[-600:])
                break
            keep = []
            redo = []
            for u in units:
                if u not in bad:
                    keep.append(u)
                elif len(u.frags) == 1:
                    self.failed[u.frags[0].key] = ("witness" if all(x[2] for x in bad[u]) else "rustc", bad[u][0][1])
                else:
                    hit = {x[0] for x in bad[u]}
                    off = [f for f in u.frags if any(d.name.startswith(h) and not d.name[len(h)].isdigit() for h in hit if h for d in f.decls)]
                    if not off:
                        h = len(u.frags) // 2
                        redo += [u.frags[:h], u.frags[h:]]
                    else:
                        redo.append([f for f in u.frags if f not in off])
                        redo += [[f] for f in off]
            units = keep + self.texts(redo)
        self.wall = time.time() - t0

    def spec(self, frags):
        consts = [(n, S.number(v)) for f in frags for n, v in f.consts]
        return Spec(consts, [d for f in frags for d in f.decls])
