"""Loading of the THIR facts dumped by driver/thirdump.rs."""
import json
import re


def norm_path(p):
    """Last two meaningful segments of a pretty path: 'std::option::Option::<T>::map' ->
    'Option::map', 'core::str::<impl str>::trim' -> 'str::trim'."""
    m = re.search(r"<impl ([^<>]*(?:<[^<>]*>)?[^<>]*)>::(\w+)$", p)
    if m and " for " not in m.group(1):
        t = m.group(1)
        t = {"[T]": "slice", "[u8]": "slice", "[T; N]": "array"}.get(t, t)
        if re.fullmatch(r"[iu](8|16|32|64|128|size)", t):
            t = "int"
        return t + "::" + m.group(2)
    # strip generic groups
    out, depth = [], 0
    i = 0
    while i < len(p):
        ch = p[i]
        if ch == "<":
            depth += 1
        elif ch == ">" and p[i - 1] != "-":
            depth -= 1
        elif depth == 0:
            out.append(ch)
        i += 1
    s = "".join(out)
    segs = [x for x in s.split("::") if x]
    return "::".join(segs[-2:])


class Body:
    __slots__ = ("crate", "j", "id", "path", "params", "e", "generics", "file", "line", "kind", "impl", "trait", "ret", "name", "pub")

    def __init__(self, crate, j):
        self.crate = crate
        self.j = j
        self.id = j["id"]
        self.path = j["path"]
        self.params = j["params"]
        self.e = j["e"]
        self.generics = j.get("generics", [])
        self.file = j["file"]
        self.line = j["line"]
        self.kind = j["kind"]
        self.impl = j.get("impl")
        self.trait = j.get("trait")
        self.ret = j.get("ret")
        self.name = j.get("name")
        self.pub = j.get("pub")


class Crate:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.name = d["crate"]
        self.raw_types = d["types"]
        self.types = [None] * len(self.raw_types)
        self.fndefs = {}
        for i in range(len(self.raw_types)):
            self.ty(i)
        self.adts = {}
        for k, a in d["adts"].items():
            a = dict(a)
            for v in a["variants"]:
                for f in v["fields"]:
                    f["ty"] = self.types[f["ty"]] if f["ty"] is not None else None
            self.adts[k] = a
        self.impls = []
        for im in d["impls"]:
            im = dict(im)
            im["self"] = self.types[im["self"]]
            im["targs"] = tuple(self.arg(a) for a in im.get("targs", []))
            its = {}
            for k, v in im["items"].items():
                its[k] = ("ty", self.types[v["ty"]]) if isinstance(v, dict) else v
            im["items"] = its
            im["crate"] = self
            self.impls.append(im)
        self.items = d["items"]
        self.bodies = {}
        for b in d["bodies"]:
            self.bodies[b["id"]] = Body(self, b)

    def arg(self, a):
        if isinstance(a, int):
            return self.ty(a)
        return ("const", a["const"])

    def ty(self, i):
        t = self.types[i]
        if t is not None:
            return t
        self.types[i] = ("rec", i)
        r = self.raw_types[i]
        k = r["k"]
        if k in ("int", "float"):
            t = (k, r["n"])
        elif k == "adt":
            t = ("adt", r["id"], tuple(self.arg(a) for a in r["args"]))
        elif k == "array":
            t = ("array", self.ty(r["t"]), ("const", r["n"]["const"]))
        elif k == "slice":
            t = ("slice", self.ty(r["t"]))
        elif k in ("ref", "ptr"):
            t = (k, r["mut"], self.ty(r["t"]))
        elif k == "tuple":
            t = ("tuple", tuple(self.ty(x) for x in r["ts"]))
        elif k == "param":
            t = ("param", r["n"])
        elif k == "fndef":
            d = dict(r["def"])
            d["args"] = tuple(self.arg(a) for a in d["args"])
            d["norm"] = norm_path(d["path"])
            if "res" in r:
                x = dict(r["res"])
                x["args"] = tuple(self.arg(a) for a in x["args"])
                x["norm"] = norm_path(x["path"])
                d["res"] = x
            if "ctor" in r:
                d["ctor"] = (self.ty(r["ctor"][0]), r["ctor"][1])
            self.fndefs[i] = d
            t = ("fndef", d["id"], d["args"], self.name, i)
        elif k == "closure":
            t = ("closure", r["id"])
        elif k == "alias":
            t = ("alias", r["path"], tuple(self.arg(a) for a in r["args"]))
        elif k == "dyn":
            t = ("dyn", r.get("path"))
        elif k == "other":
            t = ("other", r["dbg"])
        else:
            t = (k,)
        self.types[i] = t
        return t


class Program:
    def __init__(self, paths):
        self.crates = [Crate(p) for p in paths]
        self.bodies = {}
        self.adts = {}
        self.impls = []
        self.fndefs = {}
        for c in self.crates:
            for k, b in c.bodies.items():
                self.bodies.setdefault(k, b)
            for k, a in c.adts.items():
                if k not in self.adts or a["local"]:
                    self.adts[k] = a
            self.impls.extend(c.impls)
            for i, d in c.fndefs.items():
                self.fndefs[(c.name, i)] = d


def subst(t, s):
    """Substitute type parameters by name."""
    if not s or not isinstance(t, tuple) or not t:
        return t
    k = t[0]
    if k == "param":
        return s.get(t[1], t)
    if k in ("bool", "char", "int", "float", "str", "never", "closure", "dyn", "other", "fnptr", "const"):
        return t
    return tuple(subst(x, s) if isinstance(x, tuple) else x for x in t) if k != "adt" and k != "alias" and k != "tuple" and k != "fndef" else \
        ((k, t[1], tuple(subst(x, s) for x in t[2])) + t[3:] if k != "tuple" else (k, tuple(subst(x, s) for x in t[1])))


def unify(pat, t, s):
    """One-way match of an impl's type pattern (with params) against a type; extends s."""
    if not isinstance(pat, tuple):
        return pat == t
    if pat[0] == "param":
        if pat[1] in s:
            return s[pat[1]] == t
        s[pat[1]] = t
        return True
    if not isinstance(t, tuple) or pat[0] != t[0] or len(pat) != len(t):
        return False
    for a, b in zip(pat[1:], t[1:]):
        if isinstance(a, tuple) and a and isinstance(a[0], tuple):
            if not isinstance(b, tuple) or len(a) != len(b) or not all(unify(x, y, s) for x, y in zip(a, b)):
                return False
        elif isinstance(a, tuple):
            if a == () or b == ():
                if a != b:
                    return False
            elif isinstance(a[0], str):
                if not unify(a, b, s):
                    return False
            elif a != b:
                return False
        elif a != b:
            return False
    return True


def tstr(t):
    k = t[0]
    if k in ("int", "float", "param"):
        return t[1]
    if k in ("bool", "char", "str", "never"):
        return k
    if k == "adt":
        n = t[1].split("::")[-1]
        return n + ("<%s>" % ",".join(tstr(x) if isinstance(x, tuple) and x[0] != "const" else str(x) for x in t[2]) if t[2] else "")
    if k == "ref":
        return ("&mut " if t[1] else "&") + tstr(t[2])
    if k == "slice":
        return "[%s]" % tstr(t[1])
    if k == "array":
        return "[%s;%s]" % (tstr(t[1]), t[2][1] if isinstance(t[2], tuple) else t[2])
    if k == "tuple":
        return "(%s)" % ",".join(tstr(x) for x in t[1])
    return str(t)
