"""The XDR grammar (src/xdr.pest) read as data: parser of pest grammars and a matcher producing
the token tree pest builds.  Text may contain symbolic names (private-use code points, one code
point = one unknown identifier); the literals and character classes tried against a name are
recorded, they delimit the witness classes of that name."""
import os
import re
import unicodedata


class GrammarError(Exception):
    pass


def is_name(c):
    o = ord(c)
    return 0xE000 <= o < 0xF000 or o >= 0x100000


# ---------------------------------------------------------------- grammar text
TOK = re.compile(r"""\s*(?:(//[^\n]*)|(/\*.*?\*/)|("(?:\\.|[^"\\])*")|('(?:\\u\{[0-9A-Fa-f]+\}|\\x[0-9A-Fa-f]{2}|\\.|[^'\\])')|(\^)|(\.\.)|([A-Za-z_][A-Za-z0-9_]*)|(\d+)|([=@$!_&~|*+?(){},\[\]]))""", re.S)


def tokens(text):
    i, out = 0, []
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            if text[i:].strip() == "":
                break
            raise GrammarError("cannot read grammar at %r" % text[i:i + 20])
        i = m.end()
        if m.group(1) or m.group(2):
            continue
        out.append(m.group(0).strip())
    return out


def unesc(s):
    s = s[1:-1]
    out, i = [], 0
    while i < len(s):
        if s[i] == "\\":
            c = s[i + 1]
            if c == "x":
                out.append(chr(int(s[i + 2:i + 4], 16)))
                i += 4
                continue
            if c == "u":
                j = s.index("}", i)
                out.append(chr(int(s[i + 3:j], 16)))
                i = j + 1
                continue
            out.append({"n": "\n", "r": "\r", "t": "\t", "0": "\0"}.get(c, c))
            i += 2
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


class Grammar:
    def __init__(self, text):
        self.text = text
        self.rules = {}
        t = tokens(text)
        i = 0
        while i < len(t):
            name = t[i]
            if t[i + 1] != "=":
                raise GrammarError("rule expected at %s" % t[i])
            i += 2
            mod = ""
            if t[i] in ("_", "@", "$", "!"):
                mod = t[i]
                i += 1
            if t[i] != "{":
                raise GrammarError("{ expected in %s" % name)
            self.t, self.i = t, i + 1
            e = self.choice()
            if self.t[self.i] != "}":
                raise GrammarError("} expected in %s, got %s" % (name, self.t[self.i]))
            i = self.i + 1
            self.rules[name] = (mod, e)

    def choice(self):
        if self.t[self.i] == "|":
            self.i += 1
        xs = [self.seq()]
        while self.t[self.i] == "|":
            self.i += 1
            xs.append(self.seq())
        return xs[0] if len(xs) == 1 else ("alt", xs)

    def seq(self):
        xs = [self.prefix()]
        while self.t[self.i] == "~":
            self.i += 1
            xs.append(self.prefix())
        return xs[0] if len(xs) == 1 else ("seq", xs)

    def prefix(self):
        c = self.t[self.i]
        if c == "!":
            self.i += 1
            return ("not", self.prefix())
        if c == "&":
            self.i += 1
            return ("and", self.prefix())
        return self.postfix()

    def postfix(self):
        e = self.atom()
        while True:
            c = self.t[self.i]
            if c == "?":
                e = ("opt", e)
            elif c == "*":
                e = ("rep", e)
            elif c == "+":
                e = ("seq", [e, ("rep", e)])
            elif c == "{":
                j = self.t.index("}", self.i)
                b = self.t[self.i + 1:j]
                self.i = j
                if len(b) == 1:
                    e = ("seq", [e] * int(b[0])) if int(b[0]) > 1 else e
                elif b[-1] == ",":
                    e = ("seq", [e] * int(b[0]) + [("rep", e)])
                else:
                    lo = 0 if b[0] == "," else int(b[0])
                    hi = int(b[-1])
                    o = None
                    for _ in range(hi - lo):
                        o = ("opt", e if o is None else ("seq", [e, o]))
                    xs = [e] * lo + ([o] if o else [])
                    e = ("seq", xs) if len(xs) != 1 else xs[0]
            else:
                return e
            self.i += 1

    def atom(self):
        c = self.t[self.i]
        self.i += 1
        if c == "(":
            e = self.choice()
            if self.t[self.i] != ")":
                raise GrammarError(") expected")
            self.i += 1
            return e
        if c == "^":
            s = unesc(self.t[self.i])
            self.i += 1
            return ("insens", s)
        if c[0] == '"':
            return ("lit", unesc(c))
        if c[0] == "'":
            lo = unesc(c)
            if self.t[self.i] != "..":
                raise GrammarError(".. expected")
            hi = unesc(self.t[self.i + 1])
            self.i += 2
            return ("range", lo, hi)
        if re.match(r"[A-Za-z_]", c):
            if c in ("PUSH", "PEEK", "POP", "PEEK_ALL", "POP_ALL", "DROP"):
                raise GrammarError("stack operation %s" % c)
            return ("ref", c)
        raise GrammarError("unexpected %s" % c)


class Token:
    __slots__ = ("rule", "start", "end", "src", "children")

    def __init__(self, rule, start, end, src, children):
        self.rule = rule
        self.start = start
        self.end = end
        self.src = src
        self.children = children

    def text(self):
        return self.src[self.start:self.end]

    def tree(self):
        return (self.rule, self.text() if not self.children else None, tuple(c.tree() for c in self.children))

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "%s@%d..%d" % (self.rule, self.start, self.end)


CLASSES = {
    "ASCII_DIGIT": lambda c: "0" <= c <= "9",
    "ASCII_NONZERO_DIGIT": lambda c: "1" <= c <= "9",
    "ASCII_BIN_DIGIT": lambda c: c in "01",
    "ASCII_OCT_DIGIT": lambda c: "0" <= c <= "7",
    "ASCII_HEX_DIGIT": lambda c: c in "0123456789abcdefABCDEF",
    "ASCII_ALPHA_LOWER": lambda c: "a" <= c <= "z",
    "ASCII_ALPHA_UPPER": lambda c: "A" <= c <= "Z",
    "ASCII_ALPHA": lambda c: "a" <= c <= "z" or "A" <= c <= "Z",
    "ASCII_ALPHANUMERIC": lambda c: "a" <= c <= "z" or "A" <= c <= "Z" or "0" <= c <= "9",
    "ASCII": lambda c: ord(c) < 128,
    "LETTER": lambda c: c.isalpha(), "ALPHABETIC": lambda c: c.isalpha(),
    "UPPERCASE_LETTER": lambda c: unicodedata.category(c) == "Lu", "LOWERCASE_LETTER": lambda c: unicodedata.category(c) == "Ll",
    "UPPERCASE": lambda c: c.isupper(), "LOWERCASE": lambda c: c.islower(),
    "WHITE_SPACE": lambda c: c in "\t\n\x0b\x0c\r \x85\xa0\u1680\u2028\u2029\u202f\u205f\u3000" or "\u2000" <= c <= "\u200a",
    "SPACE_SEPARATOR": lambda c: unicodedata.category(c) == "Zs", "CONTROL": lambda c: unicodedata.category(c) == "Cc",
    "NUMBER": lambda c: c.isnumeric(), "DECIMAL_NUMBER": lambda c: c.isdecimal(),
    "XID_START": lambda c: c.isidentifier(), "XID_CONTINUE": lambda c: ("a" + c).isidentifier(),
}
# a symbolic name starts with a letter, continues with letters, digits and '_'
NAME_IN = {"ASCII_ALPHA", "ASCII_ALPHANUMERIC", "ASCII", "LETTER", "ALPHABETIC", "XID_START", "XID_CONTINUE", "ANY"}


class Matcher:
    """PEG matching with pest's rules for implicit whitespace and token emission"""

    def __init__(self, g, src, note=None):
        self.g = g
        self.src = src
        self.note = note or (lambda *a: None)
        self.used = set()
        self.fuel = 4000000
        self.far = 0

    def parse(self, rule):
        r = self.rule(rule, 0, False, 0)
        if r is None:
            return None
        return r[1]

    # every method returns None or (pos, [tokens])
    def rule(self, name, i, atomic, look):
        self.fuel -= 1
        if self.fuel < 0:
            raise GrammarError("matching does not terminate")
        if name not in self.g.rules:
            return self.builtin(name, i)
        self.used.add(name)
        mod, e = self.g.rules[name]
        at = atomic
        emit = not atomic or atomic == "compound"
        if mod == "@":
            at = "atomic"
        elif mod == "$":
            at = "compound"
        elif mod == "!":
            at = False
        if name in ("WHITESPACE", "COMMENT"):
            at = "atomic"
        r = self.m(e, i, at, look)
        if r is None:
            return None
        j, toks = r
        if mod == "_" or look:
            return j, toks
        if not emit:
            return j, toks
        return j, [Token(name, i, j, self.src, toks if at != "atomic" else [])]

    def builtin(self, name, i):
        s = self.src
        if name == "SOI":
            return (i, []) if i == 0 else None
        if name == "EOI":
            return (i, [Token("EOI", i, i, s, [])]) if i == len(s) else None
        if name == "NEWLINE":
            for l in ("\n", "\r\n", "\r"):
                if s.startswith(l, i):
                    return i + len(l), []
            return None
        if i >= len(s):
            return None
        c = s[i]
        if name == "ANY":
            return i + 1, []
        if name in CLASSES:
            if is_name(c):
                self.note("class", name, c)
                return (i + 1, []) if name in NAME_IN else None
            return (i + 1, []) if CLASSES[name](c) else None
        raise GrammarError("unknown rule %s" % name)

    def skip(self, i, atomic):
        if atomic:
            return i
        ws, co = "WHITESPACE" in self.g.rules, "COMMENT" in self.g.rules
        while True:
            j = i
            while ws:
                r = self.rule("WHITESPACE", i, "atomic", 1)
                if r is None or r[0] == i:
                    break
                i = r[0]
            if co:
                r = self.rule("COMMENT", i, "atomic", 1)
                if r is not None and r[0] > i:
                    i = r[0]
                    continue
            if i == j or not co:
                return i

    def m(self, e, i, at, look):
        k = e[0]
        if i > self.far:
            self.far = i
        if k == "lit":
            s = e[1]
            if self.src.startswith(s, i):
                return i + len(s), []
            # literal against a name: a prefix relation is possible
            n = 0
            while n < len(s) and i + n < len(self.src) and self.src[i + n] == s[n]:
                n += 1
            if n < len(s) and i + n < len(self.src) and is_name(self.src[i + n]):
                self.note("lit", s, s[n:], self.src[i + n])
            return None
        if k == "insens":
            s = e[1]
            if self.src[i:i + len(s)].lower() == s.lower():
                return i + len(s), []
            return None
        if k == "range":
            if i < len(self.src):
                c = self.src[i]
                if is_name(c):
                    self.note("range", e[1], e[2], c)
                    return (i + 1, []) if e[1] <= "m" <= e[2] or e[1] <= "M" <= e[2] else None
                if e[1] <= c <= e[2]:
                    return i + 1, []
            return None
        if k == "ref":
            return self.rule(e[1], i, at, look)
        if k == "seq":
            out = []
            for n, x in enumerate(e[1]):
                if n:
                    i = self.skip(i, at)
                r = self.m(x, i, at, look)
                if r is None:
                    return None
                i = r[0]
                out += r[1]
            return i, out
        if k == "alt":
            for x in e[1]:
                r = self.m(x, i, at, look)
                if r is not None:
                    return r
            return None
        if k == "opt":
            r = self.m(e[1], i, at, look)
            return r if r is not None else (i, [])
        if k == "rep":
            out = []
            first = True
            while True:
                j = i if first else self.skip(i, at)
                r = self.m(e[1], j, at, look)
                if r is None:
                    return i, out
                if r[0] == i and not first:
                    raise GrammarError("repetition of an empty match")
                if r[0] == i:
                    return i, out + r[1]
                i = r[0]
                out += r[1]
                first = False
        if k == "not":
            return (i, []) if self.m(e[1], i, at, 1) is None else None
        if k == "and":
            return (i, []) if self.m(e[1], i, at, 1) is not None else None
        raise GrammarError(k)


def grammar_path(repo):
    """the file named by #[grammar = ...] of the crate's parser"""
    for d, _, fs in os.walk(os.path.join(repo, "src")):
        for f in sorted(fs):
            if f.endswith(".rs"):
                t = open(os.path.join(d, f), errors="replace").read()
                m = re.search(r'#\[\s*grammar\s*=\s*"([^"]+)"', t)
                if m:
                    for base in (os.path.join(repo, "src"), repo):
                        p = os.path.join(base, m.group(1))
                        if os.path.exists(p):
                            return p
                m = re.search(r'#\[\s*grammar_inline\s*=\s*r?(#*)"(.*?)"\1\s*\]', t, re.S)
                if m:
                    raise GrammarError("inline grammar")
    raise GrammarError("no grammar attribute found")


_g = {}


def load(repo):
    p = grammar_path(repo)
    if p not in _g:
        _g[p] = Grammar(open(p).read())
    return _g[p]
