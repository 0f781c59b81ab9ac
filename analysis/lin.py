"""Linear integer terms and a small linear-inequality abstract domain (Fourier-Motzkin
elimination with integer tightening).  This is the numeric domain of the abstract interpreter."""
from math import gcd


class Lin:
    __slots__ = ("c", "m", "_h")

    def __init__(self, c=0, m=None):
        self.c = c
        self.m = m or {}
        self._h = None

    @staticmethod
    def atom(a):
        return Lin(0, {a: 1})

    @staticmethod
    def of(x):
        if isinstance(x, Lin):
            return x
        if isinstance(x, bool):
            return Lin(int(x))
        if isinstance(x, int):
            return Lin(x)
        return Lin(0, {x: 1})

    def __add__(self, o):
        o = Lin.of(o)
        m = dict(self.m)
        for a, k in o.m.items():
            v = m.get(a, 0) + k
            if v:
                m[a] = v
            else:
                m.pop(a, None)
        return Lin(self.c + o.c, m)

    __radd__ = __add__

    def __neg__(self):
        return Lin(-self.c, {a: -k for a, k in self.m.items()})

    def __sub__(self, o):
        return self + (-Lin.of(o))

    def __rsub__(self, o):
        return Lin.of(o) - self

    def scale(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, {a: v * k for a, v in self.m.items()})

    def is_const(self):
        return not self.m

    def norm(self):
        return self.c if not self.m else self

    def __eq__(self, o):
        if isinstance(o, int):
            return not self.m and self.c == o
        return isinstance(o, Lin) and self.c == o.c and self.m == o.m

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, frozenset(self.m.items())))
        return self._h

    def __repr__(self):
        if not self.m:
            return str(self.c)
        parts = []
        for a, k in sorted(self.m.items(), key=lambda x: repr(x[0])):
            s = fmt_atom(a)
            parts.append(("+" if k > 0 else "-") + (s if abs(k) == 1 else "%d*%s" % (abs(k), s)))
        if self.c:
            parts.append("%+d" % self.c)
        r = "".join(parts)
        return r[1:] if r.startswith("+") else r


def fmt_atom(a):
    if isinstance(a, tuple):
        if not a:
            return "()"
        if len(a) == 1:
            return str(a[0])
        return "%s(%s)" % (a[0], ",".join(fmt_atom(x) for x in a[1:]))
    return str(a)


def _tight(l):
    """divide by the gcd of coefficients, floor the constant (integers)."""
    g = 0
    for k in l.m.values():
        g = gcd(g, abs(k))
    if g > 1:
        return Lin(l.c // g, {a: k // g for a, k in l.m.items()})
    return l


def infeasible(ges, eqs=(), limit=4000):
    """True if {l >= 0 for l in ges} and {l == 0 for l in eqs} has no integer solution that the
    domain can see (sound: False means 'possibly feasible')."""
    ges = [_tight(l) for l in ges]
    eqs = list(eqs)
    # substitute equalities that have a unit coefficient
    while eqs:
        e = eqs.pop()
        if not e.m:
            if e.c != 0:
                return True
            continue
        g = 0
        for k in e.m.values():
            g = gcd(g, abs(k))
        if e.c % g:
            return True
        if g > 1:
            e = Lin(e.c // g, {a: k // g for a, k in e.m.items()})
        a = next((x for x, k in e.m.items() if abs(k) == 1), None)
        if a is None:
            ges.append(e)
            ges.append(-e)
            continue
        k = e.m[a]
        # a = -(e - k a)/k
        rest = Lin(e.c, {x: v for x, v in e.m.items() if x != a}).scale(-k)

        def sub(l):
            v = l.m.get(a)
            if not v:
                return l
            return Lin(l.c, {x: y for x, y in l.m.items() if x != a}) + rest.scale(v)

        ges = [_tight(sub(l)) for l in ges]
        eqs = [sub(l) for l in eqs]
    cur = {}

    def add(store, l):
        l = _tight(l)
        if not l.m:
            return l.c >= 0
        key = frozenset(l.m.items())
        if key not in store or store[key].c > l.c:
            store[key] = l
        return True

    for l in ges:
        if not add(cur, l):
            return True
    while True:
        # direct contradiction check
        for key, l in cur.items():
            nk = frozenset((a, -k) for a, k in l.m.items())
            o = cur.get(nk)
            if o is not None and l.c + o.c < 0:
                return True
        occ = {}
        for l in cur.values():
            for a, k in l.m.items():
                p = occ.setdefault(a, [0, 0])
                p[0 if k > 0 else 1] += 1
        if not occ:
            return False
        a = min(occ, key=lambda x: occ[x][0] * occ[x][1] - occ[x][0] - occ[x][1])
        pos = [l for l in cur.values() if l.m.get(a, 0) > 0]
        neg = [l for l in cur.values() if l.m.get(a, 0) < 0]
        nxt = {}
        for l in cur.values():
            if a not in l.m and not add(nxt, l):
                return True
        if len(pos) * len(neg) > limit:
            return False
        for p in pos:
            for n in neg:
                kp, kn = p.m[a], -n.m[a]
                if not add(nxt, p.scale(kn) + n.scale(kp)):
                    return True
        cur = nxt
        if len(cur) > limit:
            return False
