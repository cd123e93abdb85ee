"""C07/C10: the decoder's event stream, decided on an event-grammar abstraction of the MIR."""
from .. import extract, evgram
from ..engine import Engine, Limit, Site
from ..evgram import *
from ..models import Models, elem_of
from ..prog import Program
from ..report import Check
from ..models import EMPTY
from .. import state as S
from ..state import State

ERR = "toon::error::ToonError"
SOPT = "toon::options::DecodeStreamOptions"


def mentions(t, e):
    if t is e:
        return True
    if not e.syms <= t.syms:
        return False
    for x in t.a:
        if isinstance(x, Term):
            if mentions(x, e):
                return True
        elif isinstance(x, tuple):
            if any(isinstance(y, Term) and mentions(y, e) for y in x):
                return True
    return False


def from_input(F, q):
    """attribute "tok": the value is computed from what was read, it is not (on any path) a constant of the program"""
    return F.at.get(q) is True or _tok(F, q.a[1])


def _tok(F, t):
    if t.op == "sym":
        n = t.a[0]
        return not (isinstance(n, tuple) and n and (n[0] == "phi" or n[0] == "n" and n[1] in ("ext", "havoc", "chavoc"))) or F.at.get(mk("app", "tok", t)) is True or t is EMPTY
    if t is EMPTY:
        return True
    if not t.syms:
        return False
    if t.op == "fld":
        return _tok(F, t.a[0])
    if t.op == "app":
        if t.a[0] in ("push", "extd"):
            return _tok(F, t.a[1]) and _tok(F, t.a[2])
        ts = [x for x in t.a[1:] if isinstance(x, Term) and x.op not in ("int", "char", "bool")]
        return bool(ts) and (_tok(F, ts[0]) if t.a[0] in ("elem", "substr", "trim") else any(_tok(F, x) for x in ts))
    kids = [x for x in t.a if isinstance(x, Term)] + [y for x in t.a if isinstance(x, tuple) for y in x if isinstance(y, Term)]
    return all(_tok(F, x) for x in kids if x.op not in ("int", "lin", "bool", "char") and x.ty not in ("usize", "bool", "char"))


class DecPlugin(EvPlugin):
    def __init__(self, prog, strict):
        super().__init__(prog)
        self.strict = strict
        self._op = {}
        self.split = False
        self.rows = set()

    def opaque(self, eng, body):
        r = self._op.get(body.id)
        if r is None:
            r = self._op[body.id] = self._opaque(eng, body)
        return r

    def _opaque(self, eng, body):
        """pure parsing helpers are uninterpreted functions of their arguments: the grammar does not depend on what they compute"""
        if body.kind == "Closure":
            return False
        for l in body.locals[1:body.argc + 1]:
            t = eng.T[l]
            if t["k"] == "ref" and t.get("m"):
                return False
            u = eng.tyof(l)
            if u["k"] not in ("str", "char", "int") and u.get("p") != "alloc::string::String":
                return False
        rt = eng.T[body.locals[0]]
        if rt["k"] == "adt" and rt["p"] == "core::result::Result":
            rt = eng.T[rt["a"][0]]
        if rt["k"] == "tuple" and not rt["a"]:
            return False
        if rt.get("p") == EV or "JsonStreamEvent" in rt["s"] or rt.get("p") == ERR:
            return False
        return True

    # ---- what a caller knows about the line the cursor stands on is passed to recursive callees
    def cursors(self):
        """{adt: (lines field, index field)} of structs that walk a vector of lines"""
        if not hasattr(self, "_c"):
            self._c = {}
            T = self.prog.types
            for path, a in self.prog.adts.items():
                if a["local"] and a["kind"] == "struct" and len(a["v"]) == 1:
                    fl = [T[f[1]] if f[1] is not None else None for f in a["v"][0]["f"]]
                    ls = [i for i, t in enumerate(fl) if t and t.get("p") == "alloc::vec::Vec" and T[t["a"][0]].get("p") in self.prog.adts]
                    ix = [i for i, t in enumerate(fl) if t and t["s"] == "usize"]
                    if ls and len(ix) == 1:
                        self._c[path] = (ls, ix[0])
        return self._c

    def current(self, eng, st):
        out = []
        for k, v in st.cells.items():
            if v.op == "adt" and v.a[0] in self.cursors():
                ls, ix = self.cursors()[v.a[0]]
                for l in ls:
                    s = v.a[2][l]
                    if s.op == "seq":
                        out.append((s, v.a[2][ix], elem_of(eng, st, s, v.a[2][ix])))
        return out

    def ctx_at(self, eng, st, t):
        if t.op != "app" or t.a[0] not in ("starts_with", "eq"):
            return False
        return any(e is not None and mentions(t, e) for s, i, e in self.current(eng, st))

    def ghost_key(self, st):
        k = super().ghost_key(st)
        if not self.split:
            return k
        fs = {(t.a[0], str(t.a[2].a[0] if t.a[2].op == "str" else t.a[1].a[0] if t.a[1].op == "str" else "")) for t, v in st.F.at.items() if v is True and self.ctx_at(None, st, t)}
        return (k, tuple(sorted(fs)))

    def ctx_lt(self, eng, gen, a, b):
        pa, pb = a.a[0][2], b.a[0][2]
        return pb[-1] == "n" and len(pa) == len(pb) - 1 and pa[:-1] == pb[:-2] and isinstance(pa[-1], int)

    def end_array(self, eng, st, top, site):
        if self.strict is not True:
            return
        f = top.a[2]
        ok = st.F.le(f[1], f[2]) and st.F.le(f[2], f[1])
        eng.oblige(self.okey(site, "count"), ok, "declared length equals the number of items on every path" if ok else
                   "in strict mode an array can be closed although its item count was not shown equal to its declared length", site)


    def end_object(self, eng, st, top, site):
        """strict mode: a row object of a tabular array has exactly the header's fields"""
        if self.strict is not True:
            return
        b = top.a[2][3]
        if b.op != "adt" or b.a[0] != FR or b.a[1] != ARR or b.a[2][2].op != "fld":
            return
        d = b.a[2][2]
        H, fi = d.a[0], d.a[2]
        for p, j in self.headers():
            if p[1] != fi:
                continue
            opt = mk("fld", H, 0, j)
            vs = variants(st.F, opt)
            if vs is not None and 1 not in vs:
                continue
            n = mk_len(mk("fld", opt, 1, 0))
            c = top.a[2][1]
            ok = (st.F.le(c, n) and st.F.le(n, c)) or (st.F.le(n, intc(0)) and vs is not None)
            self.rows.add(str(site.span))
            eng.oblige(self.okey(site, "width"), ok, "row object has exactly the header's fields" if ok else
                       "in strict mode a row of a tabular array may have a different number of members than the header has fields", site)

    def headers(self):
        """[(('length field', index), fields index)] of array-header structs: a usize field beside an Option<Vec<..>> field"""
        if not hasattr(self, "_h"):
            self._h = []
            for path, a in self.prog.adts.items():
                if a["local"] and a["kind"] == "struct" and len(a["v"]) == 1:
                    fl = a["v"][0]["f"]
                    def ty(i):
                        return self.prog.types[fl[i][1]] if fl[i][1] is not None else None
                    ls = [i for i in range(len(fl)) if ty(i) and ty(i)["s"] == "usize"]
                    os = [i for i in range(len(fl)) if ty(i) and ty(i).get("p") == "core::option::Option" and self.prog.types[ty(i)["a"][0]].get("p") == "alloc::vec::Vec"]
                    for l in ls:
                        for o in os:
                            self._h.append(((path, l), o))
        return self._h

    # ---- errors about layout
    def err_site(self, eng, site, what):
        eng.oblige(self.okey(site, "layout-error"), self.strict is not False,
                   f"reached only in strict mode ({what})" if self.strict is not False else
                   f"with strict = false decoding can fail here: {what} is built outside the token parsers", site)

    def returns_err(self, eng, body):
        return eng.tyof(body.locals[0]).get("p") == ERR

    def on_enter(self, eng, st, body, args, site):
        if self.returns_err(eng, body) and not self.returns_err(eng, site.fr.body):
            self.err_site(eng, site, body.id.split("::", 1)[1])

    def on_adt(self, eng, st, fr, bb, agg, v, span):
        if agg["p"] == ERR and not self.returns_err(eng, fr.body):
            self.err_site(eng, Site(fr, bb, span), "ToonError")

    def feed(self, eng, st, top, vi, x, site):
        if self.strict is True and self.vn[vi] == "Primitive":
            v = eng.field(st, x, vi, 0)
            ok = _tok(st.F, v)
            eng.oblige(self.okey(site, "padding"), ok, "the value comes from a parsed token" if ok else
                       "in strict mode a value that no input token supplies (a constant) can be emitted", site)
        return super().feed(eng, st, top, vi, x, site)


def analyse(prog, strict, split=False, root="toon::decode::decoders::decode_stream_sync"):
    pl = DecPlugin(prog, strict)
    pl.split = split
    S.UNARY.clear()
    if strict is True:
        S.UNARY["tok"] = from_input
    M = Models()
    M.vec_new = pl.vec_new
    eng = Engine(prog, pl, M)
    body = prog.bodies[root]
    body.analyse()
    st = State()
    src = M.param_value(eng, body.locals[1], ("in", root, "src"))
    if strict is None:
        opt = sym(("in", root, "opt"), eng.tyname(body.locals[2]))
    else:
        flds = [f[0] for f in prog.adts[SOPT]["v"][0]["f"]]
        vals = tuple(some(boolc(strict)) if f == "strict" else sym(("in", root, f), "core::option::Option<usize>") for f in flds)
        opt = some(mk("adt", SOPT, 0, vals))
    e = eng.analyse_root(root, st=st, args=[src, opt])
    return eng, pl, e


def final(chk, eng, e, what):
    n = 0
    for ex in e.exits:
        r = ex.ret
        if not (r.op == "adt" and r.a[1] == 0):
            continue
        v = r.a[2][0]
        n += 1
        key = f"{what}: result"
        if not isev(v):
            chk.bad("result", e.body.id, "the returned event vector is not the one the events were pushed into")
            continue
        b = v.a[2][0]
        F = ex.st.F
        if b.op == "adt" and b.a[0] == BASE and b.a[2][0] is FALSE and F.const_of(b.a[2][1]) == 1 and F.const_of(b.a[2][2]) == 0:
            chk.ok(key, "exactly one complete value")
        else:
            chk.bad("result", e.body.id, f"on success the events may not form exactly one complete value ({show(b)})")
    chk.anchor(n > 0, "a successful exit of " + e.body.id)


def grammar(pid):
    chk = Check(pid, "event-grammar typestate over MIR: every push of a JsonStreamEvent is checked against the containers open on every path; recursive functions by computed summaries",
                "Abstract interpretation of decode_stream_sync and everything it calls, for every input and every option value. The event vector is abstracted by its stack of open containers (kind, pending key, symbolic item count). Pure parsing helpers are uninterpreted.",
                ["rustc MIR and type resolution", "models of Vec/iterator/Option/Result operations in sa/models.py"])
    prog = Program(extract.extract("all")["lib"])
    eng, pl, e = analyse(prog, None)
    report(chk, eng, pl, e, ("count", "width", "padding", "layout-error"), False)
    final(chk, eng, e, "decode_stream_sync")
    return chk.finish()


def report(chk, eng, pl, e, kind, only):
    seen = {}
    for s, k, o in eng.all_obls():
        if (k[2] in kind) != only:
            continue
        cur = seen.get(k)
        if cur is None or (cur[0] and not o[0]):
            seen[k] = o
    for k, (ok, text, site, data) in sorted(seen.items(), key=lambda kv: str(kv[0])):
        w = f"{k[0]} ({k[1]})"
        if ok:
            chk.ok(f"{k[0]} {k[2]}", text)
        else:
            chk.bad(f"{k[1]}:{k[2]}", w, text)
    chk.cov["functions_interpreted"] = sorted(eng.stats["inlined"])
    chk.cov["blocks_interpreted"] = eng.stats["blocks"]
    chk.cov["summaries"] = len(eng.summ)
    chk.cov["event_sites"] = len(pl.sites)
    chk.cov["unmodelled_calls"] = eng.stats["havoc"]


def counts(pid):
    chk = Check(pid, "relational item counts: at every EndArray in strict mode, difference-bound facts entail items == declared length",
                "Same interpretation as C07 with strict = true; item counts of every open array are symbolic and related to the declared length by the comparisons the decoder makes on the path.",
                ["rustc MIR and type resolution", "models of Vec/iterator/Option/Result operations in sa/models.py"])
    prog = Program(extract.extract("all")["lib"])
    for strict in (True,):
        eng, pl, e = analyse(prog, strict)
        report(chk, eng, pl, e, ("count", "width", "padding"), True)
        chk.anchor(len(pl.rows) > 0, "a push of EndObject for a tabular row")
    return chk.finish()


def lenient(pid):
    chk = Check(pid, "path-sensitive reachability: with strict = false no construction of a ToonError outside the per-token parsers is reachable",
                "Same interpretation as C07 with strict = false (states kept apart by what is known about the current line). Every place that builds a ToonError outside the uninterpreted per-token parsers must be unreachable; the same run with strict = true shows which of them are live.",
                ["rustc MIR and type resolution", "models of Vec/iterator/Option/Result operations in sa/models.py"])
    prog = Program(extract.extract("all")["lib"])
    eng, pl, e = analyse(prog, True, True)
    live = {k[0]: o for s, k, o in eng.all_obls() if k[2] == "layout-error"}
    for k in sorted(live):
        chk.cov.setdefault("strict_only_error_sites", []).append(str(k))
    eng, pl, e = analyse(prog, False, True)
    report(chk, eng, pl, e, ("layout-error",), True)
    bad = {k[0] for s, k, o in eng.all_obls() if k[2] == "layout-error"}
    for k in sorted(live):
        if k not in bad:
            chk.ok(f"{k} layout-error", "not reachable with strict = false")
    chk.anchor(bool(live), "layout errors reachable in strict mode")
    chk.cov["opaque_token_parsers"] = sorted(b for b, o in pl._op.items() if o and "ToonError" in prog.types[prog.bodies[b].locals[0]]["s"])
    return chk.finish()
