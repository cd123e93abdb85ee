"""C03/C04/C05/C26/C35: the command-line driver, decided on an abstract interpretation of toon::cli::run with I/O calls as ghost events."""
import re
from .. import extract
from ..engine import Engine, Plugin, Exit, Site
from ..models import Models
from ..prog import Program
from ..report import Check
from ..state import State, variants, evalb, Infeasible, ZERO
from ..terms import *
from .effects import classify, TRUST

RUN = "toon::cli::run"
ARGS = "toon::cli::args::Args"
ENC = "toon::options::EncodeOptions"
DEC = "toon::options::DecodeOptions"

READ_FILE = re.compile(r"^std::fs::(read_to_string|read|File::open)$")
READ_STDIN = re.compile(r"(io::stdio::Stdin(Lock)?\b.* as .*Read>?::|^std::io::stdio::Stdin(Lock)?::(read_line|lines)|^std::io::(stdio::)?read_to_string$|^alloc::io::(read::)?read_to_string$)")
CREATE = re.compile(r"^std::fs::File::(create|create_new|create_buffered)$")
FSWRITE = re.compile(r"^std::fs::write$")
FSLOOK = re.compile(r"^std::(fs::(metadata|symlink_metadata|exists|canonicalize)|path::Path::(exists|try_exists|is_file|is_dir|metadata|symlink_metadata|canonicalize))$")
WRITE = re.compile(r"io::(write::)?Write>?::(write_all|write_fmt|write|flush|write_vectored|write_all_vectored)$|^alloc::io::buffered::\w+::BufWriter(<.*>)?::(into_inner)$|^std::fs::File::(sync_all|sync_data)$|^(<&?std::fs::File as .*Write>|<std::io::stdio::Stdout as .*Write>)::(write_all|write_fmt|write|flush)$")
START, ITEM, NL, DONE, OTHER = range(5)


class Cli(Plugin):
    def __init__(self, prog, pure):
        self.prog = prog
        self.pure = pure
        fl = [f[0] for f in prog.adts[ARGS]["v"][0]["f"]]
        self.ix = {n: i for i, n in enumerate(fl)}
        self.seen = {}
        self.convs = []
        self.ends = {}
        self._op = {}

    # ---- which functions are interpreted
    def opaque(self, eng, body):
        r = self._op.get(body.id)
        if r is None:
            r = self._op[body.id] = self._opaque(eng, body)
        return r

    def _opaque(self, eng, body):
        if body.id not in self.pure or body.kind == "Closure":
            return False
        if self.is_conv(eng, body):
            return True
        if not body.id.lstrip("<").startswith("toon::cli"):
            return True
        tys = [eng.tyof(l) for l in body.locals[1:body.argc + 1]]
        if tys and all(t["k"] in ("str", "char", "int", "float") for t in tys):
            return True        # a pure helper on text or numbers
        return bool(re.match(r"<?toon::cli::json_", body.id))

    def is_conv(self, eng, body):
        return any((ENC in eng.tyof(l)["s"] or DEC in eng.tyof(l)["s"]) for l in body.locals[1:body.argc + 1])

    # ---- ghost
    def g(self, st, k, d):
        return st.ghost.get(k, d)

    def ghost_key(self, st):
        return (self.g(st, "src", ZERO).a, self.g(st, "failed", FALSE).a, self.g(st, "last", ZERO).a, self.g(st, "dirty", FALSE).a, self.g(st, "created", FALSE).a, "conv" in st.ghost, self.g(st, "enc", ZERO).a, self.dash(st, True))

    def argfield(self, t, name, opt=True):
        """t is the (payload of the optional) argument `name` of the parsed command line"""
        if opt:
            if t.op != "fld" or t.a[1] != 1 or t.a[2] != 0:
                return False
            t = t.a[0]
        return t.op == "fld" and t.a[2] == self.ix.get(name, -1) and t.a[0].op == "app" and str(t.a[0].a[0]).endswith("parse")

    def okey(self, site, what):
        return (str(site.span), site.fr.body.id, what)

    def obl(self, eng, site, what, ok, good, bad):
        if site.span == "return":
            o = self.ends.setdefault(what, [True, good, site, None])
            if not ok:
                self.ends[what] = [False, bad, site, None]
            return
        eng.oblige(self.okey(site, what), bool(ok), good if ok else bad, site)

    def results(self, eng, st, okval, site, boxed=True):
        s2 = st.copy()
        s2.ghost["failed"] = TRUE
        return [Exit(okv(okval), st), Exit(errv(sym(("ioerr",))), s2)]

    def val(self, eng, st, a):
        return eng.load(st, a) if a.op == "mref" else a

    def on_call(self, eng, st, path, c, args, site):
        if not path:
            return None
        if path in self.prog.bodies:
            b = self.prog.bodies[path]
            if self.opaque(eng, b) and self.is_conv(eng, b):
                return self.conversion(eng, st, path, b, args, site)
            return None
        if path == "std::process::exit":
            v = args[0]
            if st.F.const_of(v) not in (None, 0):
                return []
            self.final(eng, st, okv(UNIT), site)
            return []
        if READ_FILE.match(path):
            p = self.val(eng, st, args[0])
            isin = self.argfield(p, "input")
            self.obl(eng, site, "read", isin, "reads the named input file", f"a file other than the named input is read ({show(p)[:60]})")
            if isin:
                self.obl(eng, site, "source", self.dash(st) is False, "the file is read only when an input file other than \"-\" is named",
                         "the input is read as a file although it was not shown to name one")
            st.ghost["src"] = intc(1)
            return self.results(eng, st, app("content", p), site)
        if READ_STDIN.search(path):
            self.obl(eng, site, "source", self.dash(st) is True, "standard input is read only when no input file is named (or \"-\")",
                     "standard input can be read although an input file is named")
            st.ghost["src"] = intc(2)
            for a in args:
                if a.op == "mref" and a is not args[0]:
                    eng.store(st, a, app("content", sym("stdin")))
            return self.results(eng, st, app("content", sym("stdin")) if len(args) < 2 else intc(1), site)
        if CREATE.match(path) or FSWRITE.match(path):
            p = self.val(eng, st, args[0])
            self.obl(eng, site, "create", self.argfield(p, "output"), "creates the named output file", f"a file other than the named output is created ({show(p)[:60]})")
            conv = st.ghost.get("conv")
            self.obl(eng, site, "converted", conv is not None and self.conv_ok(eng, st, conv), "the output file is created only after the conversion succeeded",
                     "the output file is created (and truncated) although the conversion has not succeeded yet")
            st.ghost["created"] = TRUE
            if FSWRITE.match(path):
                self.data(eng, st, self.val(eng, st, args[1]), site)
                return self.results(eng, st, UNIT, site)
            return self.results(eng, st, app("file", p), site)
        if path.startswith("std::io::stdio::_print"):
            self.data(eng, st, self.val(eng, st, args[0]), site)
            return None
        if WRITE.search(path):
            return self.write(eng, st, path, args, site)
        if FSLOOK.match(path):
            p = self.val(eng, st, args[0])
            self.obl(eng, site, "look", self.argfield(p, "input") or self.argfield(p, "output"), "looks at a named file", f"looks at a file that is not named ({show(p)[:60]})")
            return None
        k = (c or {}).get("rk") or (c or {}).get("krate") or path.split("::")[0]
        cls = classify(path, k, site.fr.body.id)
        if cls.startswith("io:") and not re.search(r"std::io::stdio::(stdin|stdout|stderr|_eprint|Std(in|out|err)(Lock)?::(lock|as_fd|as_raw_fd))|^<?(std|core)::io::error|io::stdio::Stderr|std::process::(ExitCode|Termination)", path):
            self.obl(eng, site, "other-io", False, "", f"call to {path}: an effect other than reading the input and writing the output")
        return None

    def dash(self, st, key=False):
        """is the input standard input?  None: not known"""
        if key:
            return tuple(sorted([("=", v) for x, v in st.F.at.items() if x.op == "app" and x.a[0] == "eq" and any(y.op == "str" and y.a[0] == "-" for y in x.a[1:])] +
                                [("v", tuple(sorted(v))) for t, v in st.F.var.items() if self.argfield(t, "input", False) or self.argfield(t, "flatten_depth", False)], key=str))
        for x, v in st.F.at.items():
            if x.op == "app" and x.a[0] == "eq" and any(y.op == "str" and y.a[0] == "-" for y in x.a[1:]) and any(self.argfield(y, "input") for y in x.a[1:]):
                return v
        for t in st.F.var:
            if self.argfield(t, "input", False):
                vs = variants(st.F, t)
                if vs == frozenset({0}):
                    return True
        return None

    # ---- the conversion
    def conversion(self, eng, st, path, b, args, site):
        vals = [self.val(eng, st, a) for a in args]
        self.obl(eng, site, "order", self.g(st, "created", FALSE) is FALSE, "conversion runs before the output is touched", "a conversion that can fail runs after the output file was created")
        self.convs.append((path, [v for v in vals], site, st))
        src = self.g(st, "src", ZERO)
        want = None
        txt = [v for v, l in zip(vals, b.locals[1:]) if eng.tyof(l)["k"] == "str"]
        cont = [v for v in txt if v.op == "app" and v.a[0] == "content"]
        self.obl(eng, site, "input", len(txt) == 1 and len(cont) == 1, "the whole input text is converted", "the text converted is not the input that was read")
        r = app("conv", *vals)
        r.a
        eng.typed(r, site.destty)
        st.ghost["conv"] = r
        st.ghost["enc"] = boolc(any(ENC in eng.tyof(l)["s"] for l in b.locals[1:b.argc + 1]))
        st.ghost["k"] = intc(0)
        rt = eng.tyof(b.locals[0])
        if rt.get("p") == "core::result::Result":
            s2 = st.copy()
            s2.ghost["failed"] = TRUE
            st.F.var[r] = frozenset({0})
            s2.F.var[r] = frozenset({1})
            return [Exit(r, st), Exit(r, s2)]
        return [Exit(r, st)]

    def conv_ok(self, eng, st, r):
        return self.g(st, "failed", FALSE) is FALSE

    def payloads(self, st):
        r = st.ghost.get("conv")
        return [] if r is None else [mk("fld", r, 0, 0), r]

    # ---- what is written
    def write(self, eng, st, path, args, site):
        n = path.rsplit("::", 1)[-1]
        sink = self.val(eng, st, args[0])
        ty = self.prog.tys(site.argtys[0]) + " " + show(sink)
        if re.search(r"Stderr|stderr\(", ty):
            return None
        if n in ("flush", "into_inner"):
            s2 = st.copy()
            s2.ghost["failed"] = TRUE
            st.ghost["dirty"] = FALSE
            return [Exit(okv(UNIT if n == "flush" else app("inner", sink)), st), Exit(errv(sym(("ioerr",))), s2)]
        if n in ("sync_all", "sync_data"):
            return self.results(eng, st, UNIT, site)
        if n in ("write", "write_vectored", "write_all_vectored"):
            st.ghost["last"] = intc(OTHER)
            self.obl(eng, site, "data", False, "", f"{n} may write only part of its data")
            return self.results(eng, st, sym(("n", "written")), site)
        nl = self.data(eng, st, self.val(eng, st, args[1]), site)
        if re.search(r"BufWriter|LineWriter|buffered", ty):
            d = TRUE
        elif re.search(r"Stdout|stdout\(", ty):
            d = FALSE if nl else TRUE        # standard output is line buffered
        elif re.search(r"std::fs::File|\bfile\(", ty):
            d = self.g(st, "dirty", FALSE)
        else:
            d = TRUE
        st.ghost["dirty"] = d
        return self.results(eng, st, UNIT, site)

    def flat(self, t):
        if t.op == "app" and t.a[0] == "bytes":
            return self.flat(t.a[1])
        if t.op == "arr" and all(x.op == "int" for x in t.a[0]):
            return [("t", bytes(x.a[0] & 255 for x in t.a[0]).decode("latin1"))]
        if t.op == "str":
            return [("t", t.a[0])]
        if t.op == "char":
            return [("t", chr(t.a[0]))]
        if t.op == "app" and t.a[0] == "elem":
            return [("item", t.a[1], t.a[2])]
        if t.op == "app" and t.a[0] == "join":
            return [("join", t.a[1], t.a[2])]
        if t.op in ("cat", "cat0") or t.op == "app" and t.a[0] in ("cat", "cat0"):
            out = []
            ps = t.a[0] if t.op in ("cat", "cat0") else t.a[1]
            for p in ps:
                out += [("t", p[1])] if isinstance(p[1], str) else self.flat(p[1])
            return out
        return [("?", t)]

    def data(self, eng, st, t, site):
        """advances the output automaton; True when the data is known to end in a newline"""
        nl = False
        for p in self.flat(t):
            nl = False
            last = self.g(st, "last", intc(START)).a[0]
            R = self.payloads(st)
            enc = self.g(st, "enc", FALSE) is TRUE
            k = st.ghost.get("k", intc(0))
            new = OTHER
            why = None
            if p[0] == "t":
                for ch in p[1]:
                    last = self.g(st, "last", intc(START)).a[0]
                    if ch == "\n":
                        new = DONE if last == START else NL if last == ITEM else OTHER
                        nl = True
                    else:
                        new = OTHER
                        nl = False
                    if new == OTHER:
                        why = f"constant text {p[1]!r} is written between the lines of the result"
                    st.ghost["last"] = intc(new)
                if not p[1]:
                    continue
            elif p[0] == "item":
                if not any(p[1] is r for r in R):
                    why = f"written text is not part of the conversion's result ({show(p[1])[:50]})"
                elif not (st.F.le(p[2], k) and st.F.le(k, p[2])):
                    why = "the parts of the result are not shown to be written in order, each once"
                elif last not in ((START, NL) if enc else (START, ITEM)):
                    why = "a line of the result is written without a separating newline" if enc else "a chunk of the result is written after a newline"
                else:
                    new = ITEM
                st.ghost["k"] = add(k, intc(1))
                st.ghost["last"] = intc(new)
            elif p[0] == "join":
                sep = p[2].a[0] if p[2].op == "str" else chr(p[2].a[0]) if p[2].op == "char" else None
                if not any(p[1] is r for r in R):
                    why = f"written text is not the conversion's result ({show(p[1])[:50]})"
                elif sep != ("\n" if enc else ""):
                    why = f"the parts of the result are joined with {sep!r}"
                elif last != START:
                    why = "text was written before the result"
                else:
                    new = ITEM
                st.ghost["k"] = mk_len_(p[1])
                st.ghost["last"] = intc(new)
            else:
                why = f"text that is not shown to be the conversion's result is written ({show(p[1])[:60]})"
                st.ghost["last"] = intc(OTHER)
            self.obl(eng, site, "data", why is None, "writes the next part of the conversion's result, or its newline", why)
        return nl

    # ---- at the end of a run that reports success
    def final(self, eng, st, ret, site):
        if ret.op == "adt" and ret.a[1] == 1:
            return
        failed = self.g(st, "failed", FALSE)
        if failed is not FALSE and not (ret.op == "adt" and ret.a[1] == 0):
            vs = variants(st.F, ret)
            if vs == frozenset({1}):
                return
        self.obl(eng, site, "failure-reported", failed is FALSE, "no failed read, conversion or write is left unreported", "the run can report success although a read, the conversion or a write failed")
        if failed is not FALSE:
            return
        self.obl(eng, site, "flushed", self.g(st, "dirty", FALSE) is FALSE, "everything written was flushed and the flush checked", "the run can report success with written data still in a buffer whose flush is not checked")
        k = st.ghost.get("k")
        last = self.g(st, "last", intc(START)).a[0]
        R = self.payloads(st)
        done = bool(R) and last in (NL, DONE) and any(st.F.le(k, mk_len_(r)) and st.F.le(mk_len_(r), k) for r in R)
        self.obl(eng, site, "complete", done, "the whole result and one final newline were written", "the run can report success without having written the whole result and a final newline")


def mk_len_(t):
    from ..engine import mk_len
    return mk_len(t)


def io_free(prog):
    """functions from which no I/O is reachable"""
    cg = prog.callgraph()
    dirty = set()
    rev = {}
    for b, es in cg.items():
        for p, c, sp, how in es:
            if p is None:
                continue
            if p in prog.bodies:
                rev.setdefault(p, set()).add(b)
            elif c is not None and not p.startswith("drop:"):
                k = c.get("rk") or c.get("krate") or p.split("::")[0]
                if k != "toon" and (classify(p, k, b).startswith("io:") or WRITE.search(p) or READ_STDIN.search(p)):
                    dirty.add(b)
    work = list(dirty)
    while work:
        x = work.pop()
        for y in rev.get(x, ()):
            if y not in dirty:
                dirty.add(y)
                work.append(y)
    return set(prog.bodies) - dirty


def analyse(prog, assume=None):
    pl = Cli(prog, io_free(prog))
    eng = Engine(prog, pl, Models())
    body = prog.bodies[RUN]
    body.analyse()
    st = State()
    if assume:
        assume(pl, st)
    e = eng.analyse_root(RUN, st=st, args=[])
    pl.summary = e
    for ex in e.exits:
        s = Site(type("F", (), {"body": body, "fid": 0})(), 0, "return")
        pl.final(eng, ex.st, ex.ret, s)
    return eng, pl, e


KINDS = {
    "C03": ("read", "create", "look", "other-io"),
    "C04": ("converted", "order"),
    "C05": ("failure-reported", "flushed"),
    "C26": ("source", "input"),
    "C35": ("data", "complete"),
}


def report(chk, eng, kinds):
    seen = {("return of toon::cli::run", RUN, w): o for w, o in eng.pl.ends.items() if w in kinds}
    for s, k, o in eng.all_obls():
        if k[2] in kinds:
            cur = seen.get(k)
            if cur is None or cur[0] and not o[0]:
                seen[k] = o
    for k, (ok, text, site, data) in sorted(seen.items()):
        if ok:
            chk.ok(f"{k[0]} {k[2]}", text)
        else:
            chk.bad(f"{k[1]}:{k[2]}", f"{k[0]} ({k[1]})", text)
    chk.cov["functions_interpreted"] = sorted(eng.stats["inlined"])
    chk.cov["blocks_interpreted"] = eng.stats["blocks"]
    return seen


def start(pid, rule, expl):
    chk = Check(pid, rule, expl, TRUST + ["models of std collection/option/result/iterator operations in sa/models.py", "File/BufWriter/Stdout semantics: write_all writes everything or fails, flush empties the buffer or fails, stdout is line buffered"])
    d = extract.extract("all")
    prog = Program(d["lib"])
    chk.anchor(RUN in prog.bodies and ARGS in prog.adts, "toon::cli::run and its Args")
    return chk, d, prog


EXPL = "Abstract interpretation of toon::cli::run and every function it calls up to the pure conversions, for all command lines, inputs and outcomes of every system call (each read, create, write, flush may succeed or fail)."


def files(pid):
    chk, d, prog = start(pid, "every file-system call site reached from the CLI entry point has the parsed `input` argument (reads) or `output` argument (creates) as its path; no other I/O class is reached", EXPL)
    eng, pl, e = analyse(prog)
    seen = report(chk, eng, KINDS["C03"])
    chk.anchor(any(k[2] == "read" for k in seen) and any(k[2] == "create" for k in seen), "the CLI's file read and file create")
    # code outside the driver performs no I/O at all (also established by C02 for the exported conversions)
    cg = prog.callgraph()
    reach = prog.reachable([RUN])
    n = 0
    for b in reach:
        if b in pl._op and pl._op[b]:
            n += 1
            chk.ok(f"{b}", "no I/O reachable")
    return chk.finish()


def created(pid):
    chk, d, prog = start(pid, "at every call that creates the output file, the conversion's result is known to be Ok on every path, and no conversion runs afterwards", EXPL)
    eng, pl, e = analyse(prog)
    seen = report(chk, eng, KINDS["C04"])
    chk.anchor(any(k[2] == "converted" for k in seen), "a call that creates the output file")
    chk.anchor(any(k[2] == "order" for k in seen), "a conversion call")
    return chk.finish()


def errors(pid):
    chk, d, prog = start(pid, "ghost typestate: any failed read, conversion, create, write or flush forces run() to return Err; buffered data must be flushed (checked) before Ok; main turns Err into a nonzero exit status", EXPL)
    eng, pl, e = analyse(prog)
    seen = report(chk, eng, KINDS["C05"])
    chk.anchor(any(k[2] == "failure-reported" for k in seen), "a successful return of toon::cli::run")
    main_exit(chk, Program(d["bin"]))
    return chk.finish()


class Main(Plugin):
    def __init__(self):
        self.ends = []

    def on_call(self, eng, st, path, c, args, site):
        if path == RUN:
            s2 = st.copy()
            s2.ghost["failed"] = TRUE
            return [Exit(okv(UNIT), st), Exit(errv(sym("err", "toon::error::ToonError")), s2)]
        if path == "std::process::exit":
            self.ends.append((st.ghost.get("failed", FALSE), ("exit", st.F.const_of(args[0])), site))
            return []
        if path and path.startswith("std::process::ExitCode") or path and path.endswith("::from") and "ExitCode" in path:
            return [Exit(app("exitcode", args[0]) if args else app("exitcode"), st)]
        return None

    def ghost_key(self, st):
        return st.ghost.get("failed", FALSE).a


def main_exit(chk, prog):
    mains = [b for b in prog.bodies if b.endswith("::main") or b == "main"]
    chk.anchor(len(mains) == 1, "fn main of the binary")
    if len(mains) != 1:
        return
    pl = Main()
    eng = Engine(prog, pl, Models())
    e = eng.analyse_root(mains[0])
    reached = set()
    for ex in e.exits:
        pl.ends.append((ex.st.ghost.get("failed", FALSE), ("return", ex.ret), None))
    for failed, (how, v), site in pl.ends:
        f = failed is TRUE
        reached.add(f)
        where = str(site.span) if site else mains[0]
        if how == "exit":
            code = None if v is None else (v != 0)
        elif v.op == "adt" and v.a[0] == "core::result::Result":
            code = v.a[1] == 1
        elif v.op == "app" and v.a[0] == "exitcode":
            x = v.a[1] if len(v.a) > 1 else None
            code = None if x is None or x.op != "int" else x.a[0] != 0
        elif v.op == "adt" and v.a[0] == "toon::?":
            code = None
        elif v is UNIT or v.op == "tup":
            code = False
        else:
            code = "FAILURE" in show(v) if "SUCCESS" in show(v) or "FAILURE" in show(v) else None
        if f:
            if code is True:
                chk.ok(f"main: failure at {where}", "exit status is nonzero")
            else:
                chk.bad("main:failure-status", where, "a failed run can end with exit status 0 (or a status that is not known to be nonzero)")
        elif code is True:
            chk.bad("main:success-status", where, "a successful run can end with a nonzero exit status")
        else:
            chk.ok(f"main: success at {where}", "exit status is zero")
    chk.anchor(reached == {True, False}, "both outcomes of toon::cli::run are handled by main")


def output(pid):
    chk, d, prog = start(pid, "output automaton with a symbolic count: every write is the next element of the conversion's result or the newline its position requires; on success the count equals the result's length", EXPL)
    eng, pl, e = analyse(prog)
    seen = report(chk, eng, KINDS["C35"])
    chk.anchor(any(k[2] == "complete" for k in seen) and any(k[2] == "data" for k in seen), "writes of the conversion's result")
    return chk.finish()


def wiring(pid):
    chk, d, prog = start(pid, "the option values at every conversion call are the command line's, for every value of each flag; run once per combination of flag values",
                         EXPL + " The option argument of every conversion call is compared field by field with the parsed arguments.")
    eng, pl, e = analyse(prog)
    report(chk, eng, KINDS["C26"])
    T = prog.adts
    encf = [f[0] for f in T[ENC]["v"][0]["f"]]
    decf = [f[0] for f in T[DEC]["v"][0]["f"]]
    n = 0
    for kf in (0, 1):
        for ep in (0, 1):
            for ns in (False, True):
                for en, de in ((True, False), (False, True)):
                    def assume(pl, st):
                        a = app("clap_builder::derive::Parser::parse")
                        def f(nm):
                            return mk("fld", a, 0, pl.ix[nm])
                        st.F.var[f("key_folding")] = frozenset({kf})
                        st.F.var[f("expand_paths")] = frozenset({ep})
                        for nm, v in (("no_strict", ns), ("encode", en), ("decode", de)):
                            st.F.at[f(nm)] = v
                    eng, pl, e = analyse(prog, assume)
                    combo = f"key_folding={'safe' if kf else 'off'} expand_paths={'safe' if ep else 'off'} no_strict={ns} {'encode' if en else 'decode'}"
                    chk.anchor(bool(pl.convs), f"a conversion is reached ({combo})")
                    for path, vals, site, st in pl.convs:
                        n += 1
                        opts = [v for v in vals if v.op == "adt" and (v.a[0] in (ENC, DEC) or v.a[0] == "core::option::Option")]
                        o = opts[0] if opts else None
                        if o is not None and o.a[0] == "core::option::Option":
                            o = o.a[2][0] if o.a[1] == 1 else None
                        where = f"{site.span} ({site.fr.body.id})"
                        if o is None or o.op != "adt":
                            chk.bad(f"{site.fr.body.id}:options", where, "the options passed to the conversion are not built from the command line")
                            continue
                        isenc = o.a[0] == ENC
                        if isenc != en:
                            chk.bad(f"{site.fr.body.id}:mode", where, f"with {combo} the {'encoder' if isenc else 'decoder'} runs")
                            continue
                        fs = dict(zip(encf if isenc else decf, o.a[2]))
                        for nm, v in fs.items():
                            ok = field_ok(pl, st, nm, v, kf, ep, ns)
                            if ok:
                                chk.ok(f"{combo}: {nm}", "as on the command line")
                            else:
                                chk.bad(f"{site.fr.body.id}:{nm}", where, f"option `{nm}` passed to the conversion is {show(v)[:60]}, not the command line's (with {combo})")
    chk.cov["combinations"] = n
    defaults(chk, prog)
    return chk.finish()


def field_ok(pl, st, nm, v, kf, ep, ns):
    if nm == "replacer":
        return v.op == "adt" and v.a[1] == 0
    if nm == "flatten_depth":
        d = mk("fld", app("clap_builder::derive::Parser::parse"), 0, pl.ix[nm])
        return pl.argfield(v, "flatten_depth", False) or v.op == "adt" and v.a[1] == 0 and variants(st.F, d) == frozenset({0}) or v.op == "adt" and v.a[1] == 1 and pl.argfield(v.a[2][0], "flatten_depth", True)
    if v.op != "adt" or v.a[1] != 1:
        return False
    x = v.a[2][0]
    if nm == "indent":
        while x.op == "app" and x.a[0] in ("cast", "from", "into"):
            x = x.a[1]
        return pl.argfield(x, "indent", False)
    if nm == "delimiter":
        return pl.argfield(x, "delimiter", False)
    if nm in ("key_folding", "expand_paths"):
        want = kf if nm == "key_folding" else ep
        return variants(st.F, x) == frozenset({want})
    if nm == "strict":
        return evalb(st.F, x) is (not ns)
    return False


DEFAULTS = {"indent": 2, "delimiter": 44, "strict": True, "key_folding": 0, "expand_paths": 0, "flatten_depth": 2 ** 64 - 1}


def defaults(chk, prog):
    """resolve_*_options: a given option is used as given, a missing one gets its documented default"""
    for fn, src in (("toon::options::resolve_encode_options", ENC), ("toon::options::resolve_decode_options", DEC)):
        chk.anchor(fn in prog.bodies, fn)
        if fn not in prog.bodies:
            continue
        body = prog.bodies[fn]
        names = [f[0] for f in prog.adts[src]["v"][0]["f"]]
        rp = prog.types[body.locals[0]]["p"]
        rn = [f[0] for f in prog.adts[rp]["v"][0]["f"]]
        for given in (None, "none", "some"):
            vals = []
            for n in names:
                vals.append(NONE if given == "none" else some(sym(("given", n))))
            arg = NONE if given is None else some(mk("adt", src, 0, tuple(vals)))
            eng = Engine(prog, Plugin(), Models())
            body.analyse()
            e = eng.analyse_root(fn, st=State(), args=[arg])
            chk.anchor(len(e.exits) == 1, f"{fn} has one outcome")
            for ex in e.exits:
                r = ex.ret
                for n, v in zip(rn, r.a[2] if r.op == "adt" else [None] * len(rn)):
                    if n == "replacer":
                        ok = v is not None and (v.op == "adt" and v.a[1] == 0 if given != "some" else v is some(sym(("given", n))))
                    elif given == "some":
                        ok = v is sym(("given", n))
                    else:
                        w = DEFAULTS.get(n)
                        ok = v is not None and (v.op == "adt" and v.a[1] == w if n in ("key_folding", "expand_paths") else v.op == "bool" and v.a[0] == w if isinstance(w, bool) else v.op in ("int", "char") and v.a[0] == w)
                    if ok:
                        chk.ok(f"{fn}: {n} ({given})", "given value is used" if given == "some" else "documented default")
                    else:
                        chk.bad(f"{fn}:{n}", fn, f"resolved `{n}` is {show(v)[:60] if v is not None else '?'} when the option is {'given' if given == 'some' else 'missing'}")
