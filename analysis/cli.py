"""C15: the fastxdr binary's main interpreted for every bounded argument list, against what the
library generates; the environment (arguments, files, standard streams) is modelled."""
import itertools

import models
import texts
from engine import Engine, State, Undecided, Adt, Seq, Ref, Fn, It, Sym, SStr, Lin, BV, OPTION, RESULT, BOX, UNIT, NONE, bind, ok, err, some, mkstr, sterm, pieces, cat, INT, pieces as spieces
from front import FRes, fold
from gen import Lib, STR
from models import R, deref, unbox, string, lit_it, FMT
from par import pmap
from thir import Program

OUT = "io:stdout"
ERR = "io:stderr"
BUF = "io:buffered"
FILE = "io:file"
NAMES = ["a.x", "dir/b.x", "c d", "E.X", "\u00e9=,.x", "-v.x", "0"]
STATES = ("valid", "invalid", "unreadable", "not text")


class Merged(Program):
    """lib and bin facts together"""

    def __init__(self, lib, b):
        self.crates = lib.crates + b.crates
        self.bodies = dict(lib.bodies)
        for k, v in b.bodies.items():
            if k in self.bodies:
                raise Undecided("bin and lib both define %s" % k)
            self.bodies[k] = v
        self.adts = dict(lib.adts)
        for k, a in b.adts.items():
            if k not in self.adts or a["local"]:
                self.adts[k] = a
        self.impls = lib.impls + b.impls
        self.fndefs = dict(lib.fndefs)
        bc = b.crates[0]
        lc = lib.crates[0]
        if bc.name == lc.name:
            # types carry the crate name: the bin's are renamed
            bc.name = bc.name + "#bin"
            rename(bc, lc.name)
        for i, d in bc.fndefs.items():
            self.fndefs[(bc.name, i)] = d


def rename(c, old):
    """fndef types of crate c refer to (crate name, index)"""
    def f(t):
        if not isinstance(t, tuple):
            return t
        if t and t[0] == "fndef" and len(t) == 5 and t[3] == old:
            return t[:2] + (tuple(f(x) for x in t[2]), c.name, t[4])
        return tuple(f(x) for x in t)
    c.types = [f(t) for t in c.types]


# the contents of a file that is not UTF-8 text
LOSSY = mkstr(("struct s { int a; }; // ", ("lossy",)))


class Scene:
    """argument list: [(name, state)]; contents symbolic or given"""

    def __init__(self, args, contents=None, texts=None):
        self.args = args
        self.contents = contents or {}
        self.texts = texts
        self.state = dict(args)

    def content(self, n):
        if n in self.contents:
            return self.contents[n]
        return mkstr(("struct ", ("content", n)) if self.state.get(n) == "invalid" else (("content", n),))

    def key(self):
        return "%d file%s%s" % (len(self.args), "" if len(self.args) == 1 else "s", ": " + ", ".join(s for _, s in self.args) if self.args else "")


class Env:
    def __init__(self, prog, gen, scene, ends, memo):
        self.P = prog
        self.gen = gen          # id of Generator::generate
        self.scene = scene
        self.ends = ends        # first and last characters of any generated text
        self.memo = memo
        self.cur = 0

    def event(self, st, *e):
        st.ev = st.ev + (e,)

    # ------------------------------------------------------------- files
    def path(self, eng, st, v):
        p = string(eng, st, v)
        if not isinstance(p, str):
            raise Undecided("path %r" % (p,))
        return p

    def read(self, eng, st, p):
        """outcome of reading file p: content or None"""
        s = self.scene.state.get(p)
        if s is None:
            return None
        return None if s == "unreadable" else LOSSY if s == "not text" else self.scene.content(p)

    def ioerr(self, p):
        return err(Sym(("io-error", p), ("adt", "core::io::error::Error", ())))

    # ------------------------------------------------------------- sinks
    def sink(self, eng, st, v):
        """(stream, buffered) of a writer value, or None"""
        buf = False
        v = unbox(eng, st, v)
        while isinstance(v, Adt) and v.n == BUF:
            buf = True
            v = unbox(eng, st, v.f[0])
        if isinstance(v, Adt) and v.n in (OUT, ERR):
            return v.n, buf
        return None

    def io_write(self, eng, st, t, s, cx):
        if t[0] != "io":
            return None
        k = self.sink(eng, st, t[1])
        if k is None:
            return None
        self.event(st, k[0], s, k[1])
        return R(st, ok(UNIT))

    def io_flush(self, eng, st, a, cx):
        k = self.sink(eng, st, a[0])
        if k is not None:
            self.event(st, "flush")

    # ------------------------------------------------------------- calls
    def call(self, eng, d, args, st, site):
        n = d["norm"]
        name = d.get("name")
        tr = (d.get("trait") or "").split("::")[-1]
        if d["id"] == self.gen or (d.get("res") or {}).get("id") == self.gen:
            return self.generate(eng, st, args)
        if n in ("env::args", "env::args_os"):
            return R(st, lit_it(["fastxdr"] + [a for a, _ in self.scene.args]))
        if n in ("io::_print", "io::_eprint", "stdio::_print", "stdio::_eprint"):
            k = ERR if name == "_eprint" else OUT

            def pr(st, s):
                self.event(st, k, s, False)
                return R(st, UNIT)
            return bind(models.render(eng, st, deref(eng, st, args[0])), pr)
        if n in ("io::stdout", "stdio::stdout"):
            return R(st, Adt(OUT, 0, ()))
        if n in ("io::stderr", "stdio::stderr"):
            return R(st, Adt(ERR, 0, ()))
        if n in ("Stdout::lock", "Stderr::lock"):
            return R(st, unbox(eng, st, args[0]))
        if n in ("BufWriter::new", "BufWriter::with_capacity", "LineWriter::new"):
            return R(st, Adt(BUF, 0, (args[-1],)))
        if n in ("BufWriter::get_ref", "BufWriter::get_mut"):
            return R(st, unbox(eng, st, args[0]).f[0])
        if n == "BufWriter::into_inner":
            self.event(st, "flush")
            return R(st, ok(unbox(eng, st, args[0]).f[0]))
        if tr == "Write" and name == "write" and self.sink(eng, st, args[0]):
            raise Undecided("write() may write a part")
        if tr == "Write" and name == "write_all" and self.sink(eng, st, args[0]):
            x = deref(eng, st, args[1])
            if isinstance(x, Seq) and len(x.s) == 1 and x.s[0][0] == "bytes":
                x = x.s[0][1]
            if isinstance(x, (str, SStr)):
                return models.write(eng, st, args[0], x, None)
            return None
        if n in ("String::as_bytes", "str::as_bytes", "String::into_bytes"):
            x = string(eng, st, args[0])
            return R(st, Seq((("bytes", x),)) if x != "" else Seq(()))
        if n in ("fs::read_to_string", "fs::read"):
            p = self.path(eng, st, args[0])
            c = self.read(eng, st, p)
            if c is None or c == LOSSY and name != "read":
                return R(st, self.ioerr(p))
            return R(st, ok(c if name == "read_to_string" else Seq((("bytes", c),))))
        if n in ("str::from_utf8", "String::from_utf8", "converts::from_utf8", "String::from_utf8_lossy"):
            x = deref(eng, st, args[0])
            if isinstance(x, Seq) and len(x.s) == 1 and x.s[0][0] == "bytes":
                if x.s[0][1] == LOSSY and "lossy" not in n:
                    return R(st, err(Sym(("not utf8",), ("other", "Utf8Error"))))
                return R(st, x.s[0][1] if "lossy" in n else ok(x.s[0][1]))
            return None
        if n == "File::open":
            p = self.path(eng, st, args[0])
            return R(st, ok(Adt(FILE, 0, (p,))) if self.read(eng, st, p) is not None else self.ioerr(p))
        if n in ("BufReader::new", "BufReader::with_capacity"):
            return R(st, args[-1])
        if (tr == "Read" and name in ("read_to_string", "read_to_end")) or n == "io::read_to_string":
            f = deref(eng, st, args[0])
            if isinstance(f, Adt) and f.n == FILE:
                c = self.read(eng, st, f.f[0])
                if c == LOSSY and name != "read_to_end":
                    return R(st, self.ioerr(f.f[0]))
                if n == "io::read_to_string":
                    return R(st, ok(c))
                r = models.place(eng, st, args[1])
                old = eng.rd(st, r)
                if name == "read_to_end":
                    if not (isinstance(old, Seq) and not old.s):
                        raise Undecided("read_to_end appends")
                    eng.wr(st, r, Seq((("bytes", c),)))
                else:
                    eng.wr(st, r, cat(old, c))
                ln = Lin.atom(("len", sterm(c))) if not isinstance(c, str) else len(c.encode())
                return R(st, ok(ln))
            return None
        if n in ("Path::new", "PathBuf::from", "Path::to_path_buf", "OsString::from", "OsStr::new", "Path::as_os_str", "PathBuf::as_path", "Path::to_string_lossy", "OsStr::to_string_lossy",
                 "OsString::to_string_lossy", "Path::display", "OsStr::display", "PathBuf::into_os_string", "OsString::as_os_str"):
            return R(st, self.path(eng, st, args[0]))
        if n in ("Path::to_str", "OsStr::to_str"):
            return R(st, some(self.path(eng, st, args[0])))
        if n == "OsString::into_string":
            return R(st, ok(self.path(eng, st, args[0])))
        if n in ("Path::exists", "Path::is_file"):
            p = self.path(eng, st, args[0])
            return R(st, p in self.scene.state and self.scene.state[p] != "unreadable")
        if n == "Path::is_dir":
            return R(st, False)
        if n in ("ExitCode::from", "ExitCode::exit_process") or (tr == "From" and d["args"] and str(d["args"][0]).find("ExitCode") >= 0):
            return R(st, Adt("ExitCode", 0, (deref(eng, st, args[0]),)))
        if tr == "Termination" and name == "report":
            raise Undecided("Termination::report")
        return None

    def const(self, eng, d):
        if d["path"].endswith("ExitCode::SUCCESS"):
            return Adt("ExitCode", 0, (0,))
        if d["path"].endswith("ExitCode::FAILURE"):
            return Adt("ExitCode", 0, (1,))
        return None

    # ------------------------------------------------------------- generate, by contract
    def generate(self, eng, st, args):
        g = deref(eng, st, args[0])
        x = string(eng, st, args[1])
        self.event(st, "generate", g, x)
        if x == LOSSY:
            # a text the file does not hold: what generate returns for it is not for this file
            return R(st, ok(self.code(g, x)))
        if self.scene.texts is None:
            for n, s in self.scene.args:
                if x == self.scene.content(n):
                    return R(st, ok(self.code(g, x)) if s == "valid" else err(self.rejection(x)))
            raise Undecided("generate called on a text derived from the file's: %r" % (x,))
        if not isinstance(x, str):
            raise Undecided("symbolic text")
        k, v = self.memo(g, x)
        if k == "ok":
            return R(st, ok(v))
        if k == "err":
            return R(st, err(self.rejection(x)))
        raise Undecided("generate: %s" % (v,))

    def code(self, g, x):
        return mkstr((self.ends[0], ("code", g, sterm(x)), self.ends[1]))

    def rejection(self, x):
        return Adt(BOX, 0, (Sym(("rejection", sterm(x)), ("dyn", "std::error::Error")),))


class Run:
    """what main did in one path"""

    def __init__(self, o, env, eng):
        s, k, v = o
        self.out, self.err = [], []
        self.pending = self.lost = False
        self.gens = []
        for e in s.ev:
            if e[0] in (OUT, ERR):
                (self.out if e[0] == OUT else self.err).append(e[1])
                self.pending = self.pending or e[2]
            elif e[0] == "flush":
                self.pending = False
            elif e[0] == "generate":
                self.gens.append(e[1:])
        self.pc = s.pc
        self.undec = None
        self.diag = bool(self.err)
        self.code = None
        if k == "exit":
            c = v
            if isinstance(c, Lin) and not c.m:
                c = c.c
            if not isinstance(c, int):
                self.undec = "exit code %r" % (v,)
            else:
                self.code = c & 255
            self.lost = self.pending
        elif k == "panic":
            self.code = 101
            self.diag = True
        elif k == "v":
            self.ret(eng, s, v)
        else:
            self.undec = str(v)
        self.stdout = ""
        for x in self.out:
            self.stdout = cat(self.stdout, x)

    def ret(self, eng, st, v):
        v = deref(eng, st, v)
        if v == UNIT:
            self.code = 0
        elif isinstance(v, Adt) and v.n == RESULT:
            if v.v == 1:
                self.code = 1
                self.diag = True
            else:
                self.ret(eng, st, v.f[0])
        elif isinstance(v, Adt) and v.n == "ExitCode":
            c = v.f[0]
            if isinstance(c, int):
                self.code = c & 255
            else:
                self.undec = "exit code %r" % (c,)
        else:
            self.undec = "main returns %r" % (v,)


def show(s):
    s = repr(s) if not isinstance(s, str) else s
    return s if len(s) < 160 else s[:70] + " ... " + s[-70:]


def judge(res, scene, run, want, mode):
    """compare one path of main with the property"""
    cond = "".join(", when %s%s" % ("" if b else "not ", c) for c, b in run.pc)
    where = "%s%s" % (scene.key(), mode)
    det = "arguments %s%s\nstdout: %s\nstderr: %s\nexit status %s" % ([(a, s) for a, s in scene.args], cond, show(run.stdout), [show(x) for x in run.err], run.code)
    if run.undec:
        res.undec.append((where, run.undec))
        return
    fine = bool(scene.args) and all(s == "valid" for _, s in scene.args)
    if run.lost and (fine or not run.err):
        res.undec.append((where, "process::exit with buffered output"))
        return
    if fine:
        if run.code != 0:
            res.bad.append(("%s: exits with %s" % (where, run.code), det))
        elif run.stdout != want:
            res.bad.append(("%s: standard output is not the generated text of each file in order" % where, "%s\nexpected: %s" % (det, show(want))))
        else:
            res.ok += 1
    else:
        if run.code == 0:
            res.bad.append(("%s: exits with 0" % where, det))
        elif not run.diag and not extra(run.stdout, scene, want):
            res.bad.append(("%s: no diagnostic" % where, det))
        else:
            res.ok += 1


def extra(out, scene, texts):
    """is there anything in stdout beside generated texts?"""
    if isinstance(texts, dict):
        s = out
        for t in sorted(texts.values(), key=len, reverse=True):
            s = s.replace(t, "")
        return bool(s.strip()) if isinstance(s, str) else True
    return any(isinstance(p, str) and p.strip() for p in pieces(out)) if not any(isinstance(p, tuple) and p[0] == "code" for p in pieces(out)) else True


_c = {}


def one(job):
    scene, mode = job
    res = FRes()
    P, gen, dflt, ends, main = _c["P"], _c["gen"], _c["default"], _c["ends"], _c["main"]
    real = {}

    def memo(g, x):
        if (g, x) not in real:
            real[(g, x)] = _c["generate"](g, x)
        return real[(g, x)]
    env = Env(P, gen, scene, ends, memo)
    eng = Engine(P, models.M, max_depth=300)
    eng.hooks["call"] = env.call
    eng.hooks["const"] = env.const
    eng.hooks["io_write"] = env.io_write
    eng.hooks["io_flush"] = env.io_flush
    st = State()
    try:
        outs = eng.run_body(main, (), {}, st)
    except Undecided as u:
        outs = [(st, "undec", str(u))]
    if scene.texts is None:
        want = ""
        for n, s in scene.args:
            if s == "valid":
                want = cat(want, env.code(dflt, scene.content(n)))
    else:
        want = ""
        t = {}
        for n, s in scene.args:
            k, v = memo(dflt, scene.contents[n])
            if s == "valid":
                if k != "ok":
                    res.undec.append((scene.key(), "generate: %s" % (v,)))
                    return res
                t[n] = v
                want += v
            elif s == "invalid" and k != "err":
                res.undec.append((scene.key(), "generate accepts %r" % scene.contents[n]))
                return res
        if not all(s == "valid" for _, s in scene.args):
            want = t
    for o in outs:
        run = Run(o, env, eng)
        judge(res, scene, run, want, mode)
        res.count("paths")
    res.count("argument_lists")
    if not outs:
        res.undec.append((scene.key(), "no outcome"))
    res.visited |= eng.visited
    res.sites |= eng.sites
    res.calls += eng.ncalls
    if outs and len(res.samples) < 1:
        res.samples.append({"arguments": scene.args, "paths": len(outs), "stdout": show(run.stdout), "status": run.code})
    return res


VALID = ["struct s { int a; };\n", "\n\n  const K = 3;\r\nenum e { A = 1 };\r\n\r\n", "", "/* c */ typedef opaque t<>; // end", "union u switch (int v) { case 1: int a; default: void; };\t\n\n"]
INVALID = ["struct", "struct s { int a[K]; };", "\u00e9"]
# texts a front end may be tempted to repair: accepted or rejected as the library says
MORE = ["\ufeffstruct s { int a; };", "struct s { int a; };\x1a", "struct s { int a; };\0", "\xa0const A = 1;", "%#include <x>\nconst A = 1;", "#define X 1\nconst A = 1;",
        "#!/usr/bin/fastxdr\nconst A = 1;", "const A = 1;\r", "const A = 1;\x0c", "\tconst A = 1;\x0b", "const A = 1", "// only a comment", " ", "\u2028const A = 1;", "const  A=1;;", "CONST A = 1;"]


def scenes(deep):
    out = []
    n = 4 if deep else 3
    for k in range(0, n + 1):
        for ss in itertools.product(STATES, repeat=k):
            out.append(Scene(list(zip(NAMES, ss))))
    for i in range(len(NAMES)):
        r = NAMES[i:] + NAMES[:i]
        out.append(Scene(list(zip(r, ["valid"] * 3))))
        out.append(Scene([(NAMES[i], "valid")]))
    # one file several times
    for p in itertools.product((0, 1), repeat=3):
        out.append(Scene([(NAMES[i], "valid") for i in p]))
    out.append(Scene([(x, "valid") for x in NAMES]))
    out.append(Scene([(x, "valid") for x in reversed(NAMES)]))
    return out


def check(ck, prop, tier):
    deep = tier == "thorough"
    ck.explain(*texts.front(prop))
    lib = Lib()
    if len(lib.bins) != 1:
        ck.floor("binaries of the crate", len(lib.bins), 1)
        if len(lib.bins) != 1:
            ck.undec("binaries", "%d" % len(lib.bins))
            return
    P = Merged(lib.P, lib.bins[0])
    main = [b for b in lib.bins[0].bodies.values() if b.path == "main"]
    if len(main) != 1:
        ck.undec("main", "%d bodies" % len(main))
        return
    gen = lib.find("Generator::generate")
    eng = lib.engine()
    st = State()
    im = eng.find_impl("std::default::Default", ("adt", lib.P_id("Generator"), ()), "default")
    outs = eng.call_body(im[0], (), st)
    if len(outs) != 1 or outs[0][1] != "v":
        ck.undec("Generator::default", str(outs)[:200])
        return
    dflt = outs[0][2]

    def generate(g, x):
        l = Lib.fresh(lib)
        e = l.engine()
        s = State()
        try:
            o = e.call_body(gen.id, (Ref(e.temp(s, g)), x), s, {gen.generics[0]: STR} if gen.generics else {})
        except Undecided as u:
            return "undec", str(u)
        o = l.wrap(o)
        if len(o) != 1 or (o[0].kind == "ok" and not isinstance(o[0].value, str)):
            return "undec", "%d outcomes" % len(o)
        return o[0].kind, o[0].value
    k, v = generate(dflt, VALID[0])
    _c.update(P=P, gen=gen.id, default=dflt, main=main[0], generate=generate, ends=(v[:24], v[-3:]) if k == "ok" else ("m", "}"))
    jobs = [(s, "") for s in scenes(deep)]
    # with real texts: contents given, generate interpreted
    for i in range(len(VALID)):
        jobs.append((Scene([("a.x", "valid")], {"a.x": VALID[i]}, True), " [text %d]" % i))
        j = (i + 1) % len(VALID)
        jobs.append((Scene([("a.x", "valid"), ("b.x", "valid")], {"a.x": VALID[i], "b.x": VALID[j]}, True), " [texts %d, %d]" % (i, j)))
        jobs.append((Scene([("a.x", "valid"), ("b.x", "valid")], {"a.x": VALID[i], "b.x": VALID[i]}, True), " [texts %d, %d]" % (i, i)))
    for i in range(len(INVALID)):
        jobs.append((Scene([("a.x", "invalid")], {"a.x": INVALID[i]}, True), " [rejected text %d]" % i))
        jobs.append((Scene([("a.x", "valid"), ("b.x", "invalid")], {"a.x": VALID[0], "b.x": INVALID[i]}, True), " [rejected text %d]" % i))
        jobs.append((Scene([("a.x", "invalid"), ("b.x", "valid")], {"a.x": INVALID[i], "b.x": VALID[0]}, True), " [rejected text %d]" % i))
    for i, t in enumerate(MORE):
        k, v = generate(dflt, t)
        if k not in ("ok", "err"):
            ck.undec("text %r" % t, v)
            continue
        how = "valid" if k == "ok" else "invalid"
        jobs.append((Scene([("a.x", how)], {"a.x": t}, True), " [%s text %r]" % (how, t)))
        jobs.append((Scene([("a.x", "valid"), ("b.x", how)], {"a.x": VALID[0], "b.x": t}, True), " [%s text %r]" % (how, t)))
    rs = pmap(one, jobs)
    fold(ck, [j[0].key() for j in jobs], rs)
    ck.floor("argument lists", len(jobs), 60)
    ck.floor("bodies analysed", ck.info["bodies_analysed"], 1)
