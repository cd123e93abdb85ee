"""C11: strict decoding reads the whole document: no line is skipped, ignored or left over."""
from .. import extract
from ..engine import Engine, Site
from ..evgram import *
from ..models import Models, elem_of
from ..prog import Program
from ..report import Check
from .. import state as S
from ..state import State, variants
from .events import DecPlugin, mentions, SOPT

ROOT = "toon::decode::decoders::decode_stream_sync"
OPT = "core::option::Option"
RES = "core::result::Result"
STR = ("alloc::string::String", "str")
# operations on the vector of parsed lines that keep every line
KEEPS = {"push", "extend", "reserve", "len", "is_empty", "get", "first", "last", "iter", "deref", "index", "as_slice", "clone", "into_iter", "reserve_exact", "shrink_to_fit", "extend_one", "append"}


class LinePlugin(DecPlugin):
    def __init__(self, prog):
        super().__init__(prog, True)
        self.advances = set()
        self.uses = set()
        self.drops = 0

    def ghost_key(self, st):
        return super().ghost_key(st), st.ghost.get("pend", FALSE) is FALSE, st.ghost.get("left", FALSE)

    # ---- which text is waiting to be used
    def pend(self, st):
        p = st.ghost.get("pend", FALSE)
        return None if p is FALSE else p

    def used(self, st, p):
        F = st.F
        for t, v in F.at.items():
            if v is True and t.op == "app" and t.a[0] == "eq" and mentions(t, p) and any(isinstance(x, Term) and x.op == "str" for x in t.a):
                return True
        for t, v in F.var.items():
            if v == frozenset({1}) and t.op == "fld" and mentions(t, p) and (t.ty or "").startswith(OPT) and self.parsed(t):
                return True
        c = F.const_of(mk_len(p))
        if c == 0:
            return True
        for a, b in list(F.db):
            for t in (a, b):
                if t.op == "app" and t.a[0] == "len" and mentions(t, p) and F.le(t, intc(0)):
                    return True
        return False

    def parsed(self, t):
        while t.op == "fld":
            t = t.a[0]
        return t.op == "app" and t.a[0] in self.prog.bodies

    def settle(self, st):
        p = self.pend(st)
        if p is not None and self.used(st, p):
            st.ghost["pend"] = FALSE
            return None
        return p

    def need(self, eng, st, site, what):
        p = self.settle(st)
        eng.oblige(self.okey(site, what), p is None,
                   "the previous line's text was used" if p is None else "a line that was read may be ignored: its text reaches no parser on some path", site)
        st.ghost["pend"] = FALSE

    # ---- advancing the cursor
    def on_field_write(self, eng, st, fr, m, val, span):
        cell, proj = m.a
        if not proj or proj[-1][0] != "f":
            return
        cont = eng.load(st, mk("mref", cell, proj[:-1]))
        if cont.op != "adt" or cont.a[0] not in self.cursors():
            return
        ls, ix = self.cursors()[cont.a[0]]
        ls = [l for l in ls if self.text_index(cont.a[0], l) is not None]
        if proj[-1][2] != ix or not ls:
            return
        old = cont.a[2][ix]
        site = Site(fr, ("w", span), span)
        self.need(eng, st, site, "used")
        ok = (st.F.le(val, add(old, intc(1))) and st.F.le(add(old, intc(1)), val))
        eng.oblige(self.okey(site, "step"), ok, "moves on by exactly one line" if ok else "the cursor may move by other than one line", site)
        self.advances.add(span)
        for l in ls:
            t = self.text_index(cont.a[0], l)
            e = elem_of(eng, st, cont.a[2][l], old)
            st.ghost["pend"] = eng.field(st, e, 0, t)
            st.ghost["pend"].ty = st.ghost["pend"].ty or STR[0]

    def text_index(self, cur, l):
        """the field of a line that holds what the decoder reads"""
        T = self.prog.types
        el = T[T[self.prog.adts[cur]["v"][0]["f"][l][1]]["a"][0]]["p"]
        fl = self.prog.adts[el]["v"][0]["f"]
        c = [i for i, f in enumerate(fl) if f[1] is not None and T[f[1]].get("p") == STR[0]]
        n = [i for i in c if fl[i][0] == "content"]
        return n[0] if n else (c[-1] if c else None)

    def line_adts(self):
        T = self.prog.types
        return {T[T[self.prog.adts[c]["v"][0]["f"][l][1]]["a"][0]]["p"] for c, (ls, ix) in self.cursors().items() for l in ls if self.text_index(c, l) is not None}

    # ---- uses
    def on_call(self, eng, st, path, c, args, site):
        if path:
            n = path.rsplit("::", 1)[-1]
            if args and site.argtys:
                t = eng.T[site.argtys[0]]
                if t["k"] == "ref" and t.get("m"):
                    u = eng.tyof(site.argtys[0])
                    if u.get("p") == "alloc::vec::Vec" and eng.T[u["a"][0]].get("p") in self.line_adts() and n not in KEEPS:
                        eng.oblige(self.okey(site, "vector"), False, f"{n} on the vector of lines may drop or reorder lines", site)
            b = self.prog.bodies.get(path)
            p = self.pend(st)
            if p is not None and b is not None and self.opaque(eng, b):
                rt = eng.T[b.locals[0]]
                if rt["k"] == "adt" and rt["p"] == RES:
                    rt = eng.T[rt["a"][0]]
                if rt["k"] != "bool" and rt.get("p") != OPT and rt["s"] != "usize":
                    if any(mentions(eng.load(st, a) if a.op == "mref" else a, p) for a in args):
                        self.uses.add(site.span)
                        st.ghost["pend"] = FALSE
        return super().on_call(eng, st, path, c, args, site)

    def gen_ghost_args(self, eng, st, body, args, gargs, gg, site):
        p = self.settle(st)
        gg = dict(gg)
        gg["pend"] = FALSE
        if p is not None:
            hit = [i for i, a in enumerate(args) if a.op != "mref" and mentions(a, p)]
            if hit:
                self.uses.add(site.span)
                gg["pend"] = gargs[hit[0]]
            else:
                self.need(eng, st, site, "used")
        return gg

    # ---- the source
    def after_call(self, eng, st, path, c, args, ret, site):
        if path and path.endswith("Iterator::next") or path and path.endswith("::next"):
            if ret.op == "adt" and ret.a[1] == 1 and self.from_source(ret.a[2][0]):
                s = Site(site.fr, (site.bb, "next"), site.span)
                self.need(eng, st, s, "used")
                st.ghost["pend"] = ret.a[2][0]
                self.advances.add(site.span)
            elif ret.op == "adt" and ret.a[1] == 0 and self.pend(st) is not None and self.src_iter(eng, st, args):
                self.need(eng, st, Site(site.fr, (site.bb, "next"), site.span), "used")
        return super().after_call(eng, st, path, c, args, ret, site)

    def src_iter(self, eng, st, args):
        return bool(args) and self.from_source(eng.load(st, args[0]) if args[0].op == "mref" else args[0])

    def from_source(self, t):
        return any(s.a[0] == ("in", ROOT, "src") for s in t.syms)

    def on_push(self, eng, st, m, cur, x, site):
        p = self.settle(st)
        if p is not None and x.op == "adt" and x.a[0] in self.line_adts() and mentions(x, p):
            self.uses.add(site.span)
            st.ghost["pend"] = FALSE
        return super().on_push(eng, st, m, cur, x, site) if hasattr(super(), "on_push") else None

    # ---- the end
    def on_drop(self, eng, st, fr, pl, ti, span):
        t = eng.T[ti]
        if t["k"] == "adt" and t["p"] in self.cursors() and any(self.text_index(t["p"], l) is not None for l in self.cursors()[t["p"]][0]):
            v = eng.rd_place(st, fr, pl)
            self.drops += 1
            if v.op == "adt":
                ls, ix = self.cursors()[t["p"]]
                ok = all(st.F.le(mk_len(v.a[2][l]), v.a[2][ix]) for l in ls if self.text_index(t["p"], l) is not None)
            else:
                ok = False
            st.ghost["left"] = boolc(not ok)

    def exit_state(self, eng, body, rk, st):
        r = st.cells[rk]
        err = r.op == "adt" and r.a[0] == RES and r.a[1] == 1
        if err:
            st = st.copy()
            st.ghost["pend"] = FALSE
        elif body.id == ROOT or eng.recursive(body.id):
            st = st.copy()
            self.need(eng, st, Site(type("F", (), {"body": body, "fid": 0, "eng": eng})(), ("exit",), body.span), "used")
        return super().exit_state(eng, body, rk, st)


def analyse(prog):
    pl = LinePlugin(prog)
    S.UNARY.clear()
    M = Models()
    M.vec_new = pl.vec_new
    eng = Engine(prog, pl, M)
    body = prog.bodies[ROOT]
    body.analyse()
    st = State()
    src = M.param_value(eng, body.locals[1], ("in", ROOT, "src"))
    flds = [f[0] for f in prog.adts[SOPT]["v"][0]["f"]]
    vals = tuple(some(TRUE) if f == "strict" else sym(("in", ROOT, f), OPT + "<usize>") for f in flds)
    e = eng.analyse_root(ROOT, st=st, args=[src, some(mk("adt", SOPT, 0, vals))])
    return eng, pl, e


def whole(pid):
    chk = Check(pid, "typestate over MIR: a line taken from the source or the cursor must have been used before the next one is taken and before any successful return; the cursor moves one line at a time; at the end of a successful strict decode it stands past the last line",
                "Abstract interpretation of decode_stream_sync with strict = true for every document. 'Used' means: its text (or a part of it) is an argument of a token parser or value splitter, a header parser accepted it, or the path's comparisons determine the text completely (a bare list marker, blank remainder).",
                ["rustc MIR and type resolution", "models of Vec/iterator/Option/Result operations in sa/models.py", "the token parsers themselves are uninterpreted"])
    prog = Program(extract.extract("all")["lib"])
    eng, pl, e = analyse(prog)
    seen = {}
    for s, k, o in eng.all_obls():
        if k[2] in ("used", "step", "vector"):
            cur = seen.get(k)
            if cur is None or (cur[0] and not o[0]):
                seen[k] = o
    for k, (ok, text, site, data) in sorted(seen.items(), key=lambda kv: str(kv[0])):
        if ok:
            chk.ok(f"{k[0]} {k[1]} {k[2]}", text)
        else:
            chk.bad(f"{k[1]}:{k[2]}", f"{k[0]} ({k[1]})", text)
    n = 0
    for x in e.exits:
        if x.ret.op == "adt" and x.ret.a[0] == RES and x.ret.a[1] == 0:
            n += 1
            left = x.st.ghost.get("left")
            if left is FALSE:
                chk.ok("end of input", "on every successful return of this kind the cursor stands past the last line")
            else:
                chk.bad("left", ROOT, "a strict decode may succeed although lines of the document were not read")
    chk.anchor(n > 0, "a successful exit of decode_stream_sync")
    chk.anchor(len(pl.advances) >= 2 and pl.drops > 0, "the loop over source lines and a cursor over parsed lines")
    chk.cov["functions_interpreted"] = sorted(eng.stats["inlined"])
    chk.cov["blocks_interpreted"] = eng.stats["blocks"]
    chk.cov["advance_sites"] = sorted(pl.advances)
    chk.cov["use_sites"] = sorted(pl.uses)
    return chk.finish()
