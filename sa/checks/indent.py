"""C13: what a line's indentation means, and what strict mode accepts as indentation."""
from .. import extract
from .. import state as S
from ..engine import Engine, Plugin, Site
from ..evgram import *
from ..engine import tyu, mk_cmp
from ..models import Models, elem_of
from ..prog import Program
from ..report import Check
from ..state import State, pfx_of, evalb

from .events import DecPlugin, mentions, SOPT
from .lines import LinePlugin, ROOT, OPT, RES, STR

ERR = "toon::error::ToonError"
SP = frozenset({32})
WS = frozenset({9, 32})


def only(cs, allowed):
    return cs is not None and all(lo <= hi and all(c in allowed for c in range(lo, hi + 1)) if hi - lo < 8 else False for lo, hi in cs)


class IndentPlugin(LinePlugin):
    """the part of a decode that turns source lines into parsed lines; everything behind a cursor is left out"""

    def __init__(self, prog, strict, size):
        DecPlugin.__init__(self, prog, strict)
        self.size = size            # a term
        self.advances, self.uses, self.drops = set(), set(), 0
        self.pushes, self.errs = set(), set()
        T = prog.types
        self.line = None
        self.curs = {c for c, (ls, ix) in self.cursors().items() if any(self.text_index(c, l) is not None for l in ls)}
        for c, (ls, ix) in self.cursors().items():
            for l in ls:
                el = T[T[prog.adts[c]["v"][0]["f"][l][1]]["a"][0]]["p"]
                names = [f[0] for f in prog.adts[el]["v"][0]["f"]]
                if {"depth", "indent", "content", "line_number"} <= set(names):
                    self.line, self.names = el, names

    # nothing of the line typestate of C11
    def ghost_key(self, st):
        return st.ghost.get("scanned", FALSE), st.ghost.get("raw", FALSE) is FALSE

    def on_field_write(self, *a):
        pass

    def gen_ghost_args(self, eng, st, body, args, gargs, gg, site):
        return gg

    def on_drop(self, *a):
        pass

    def exit_state(self, eng, body, rk, st):
        return st

    def feed(self, eng, st, top, vi, x, site):
        return top

    def opaque(self, eng, body):
        for t in body.locals[1:body.argc + 1]:
            if eng.tyof(t).get("p") in self.curs:
                return True
        return False

    def on_adt(self, eng, st, fr, bb, agg, v, span):
        if agg["p"] in self.curs:
            st.ghost["scanned"] = TRUE
        if agg["p"] == ERR and not self.returns_err(eng, fr.body):
            self.rejects(eng, st, Site(fr, bb, span))

    def on_enter(self, eng, st, body, args, site):
        if self.returns_err(eng, body) and not self.returns_err(eng, site.fr.body):
            self.rejects(eng, st, site)

    def rejects(self, eng, st, site):
        if st.ghost.get("scanned", FALSE) is FALSE and st.ghost.get("raw", FALSE) is not FALSE:
            ok, why = self.justified(eng, st)
            self.errs.add(site.span)
            eng.oblige((site.fr.body.id, site.span, "reject"), ok, why, site)

    def after_call(self, eng, st, path, c, args, ret, site):
        if path and path.endswith("::next") and ret.op == "adt" and ret.a[1] == 1 and self.from_source(ret.a[2][0]) and "String" in eng.T[site.destty]["s"]:
            st.ghost["raw"] = ret.a[2][0]
            st.ghost["taken"] = add(st.ghost.get("taken", intc(0)), intc(1))
            self.advances.add(site.span)
        return Plugin.after_call(self, eng, st, path, c, args, ret, site)

    def on_call(self, eng, st, path, c, args, site):
        return Plugin.on_call(self, eng, st, path, c, args, site)

    # ---- accepted lines
    def on_push(self, eng, st, m, cur, x, site):
        if not (x.op == "adt" and x.a[0] == self.line):
            return None
        self.pushes.add(site.span)
        F = st.F
        raw = st.ghost.get("raw", FALSE)
        f = dict(zip(self.names, x.a[2]))
        ind = f["indent"]
        ob = lambda k, ok, good, bad: eng.oblige((site.fr.body.id, site.span, k), ok, good if ok else bad, site)
        if raw is FALSE:
            ob("source", False, "", "a parsed line that belongs to no source line")
            return None
        c = f["content"]
        ok = c.op == "app" and c.a[0] == "substr" and c.a[1] is raw and c.a[2] is ind and F.le(mk_len(raw), c.a[3])
        ob("content", ok, "the content is the source line from the end of its indentation to its end",
           "the content of a parsed line may not be the rest of the source line after its indentation")
        b = cset_at(F, raw, ind)
        ok = only(pfx_of(F, raw, ind), SP) and b is not None and not any(lo <= 32 <= hi for lo, hi in b)
        ob("indent", ok, "the indentation is exactly the run of leading spaces",
           "the indentation recorded may not be the number of leading spaces")
        n = st.ghost.get("taken", intc(0))
        ok = F.le(n, f["line_number"]) and F.le(f["line_number"], n)
        ob("number", ok, "the line number is the number of source lines taken so far", "the line number of a parsed line may not be its position in the document")
        d = f["depth"]
        if self.size is intc(0):
            ok = F.const_of(d) == 0
        else:
            ok = d.op == "app" and d.a[0] == "div" and d.a[1] is ind and d.a[2] is self.size or F.const_of(ind) == 0 and F.const_of(d) == 0
        ob("depth", ok, "the depth is the indentation divided by the indent size (0 when that is 0)",
           "the depth of a line may not be its indentation divided by the indent size")
        if self.strict:
            ok = b is not None and not any(lo <= 9 <= hi for lo, hi in b)
            ob("tab", ok, "strict: the indentation is not followed by a tab",
               "strict mode may accept a line with a tab in its indentation")
            if self.size is intc(0):
                ok = F.const_of(ind) == 0
                ob("step", ok, "strict, indent size 0: only unindented lines are accepted", "strict mode with indent size 0 may accept an indented line")
            else:
                ok = F.const_of(ind) == 0 or multiple(F, ind, self.size)
                ob("step", ok, "strict: only multiples of the indent size are accepted",
                   "strict mode may accept a line whose indentation is not a multiple of the indent size")
        return None

    # ---- rejected lines
    def justified(self, eng, st):
        F = st.F
        if not self.strict:
            return False, "a line may be rejected although strict mode is off"
        raw = st.ghost["raw"]
        for t, v in list(F.at.items()):
            if v is True and t.op == "app" and t.a[0] == "leadhas" and t.a[1] is raw and t.a[2].a[0] == "((9, 9),)" and only(eval(t.a[3].a[0]), WS):
                return True, "rejected: a tab among the leading blanks"
        i = indent_of(F, raw)
        for ind in i:
            if self.size is intc(0):
                if F.le(intc(1), ind):
                    return True, "rejected: indented although the indent size is 0"
            elif nonmultiple(F, ind, self.size):
                return True, "rejected: indentation that is not a multiple of the indent size"
            b = cset_at(F, raw, ind)
            if b is not None and only(b, {9}):
                return True, "rejected: a tab after the leading spaces"
        return False, "strict mode may reject a line whose indentation is fine"


def cset_at(F, raw, i):
    for k, v in F.cs.items():
        if k.op == "app" and k.a[0] == "elem" and k.a[2] is i:
            s = k.a[1]
            if s.op == "app" and s.a[0] == "bytes" and s.a[1] is raw:
                return v
    return None


def indent_of(F, raw):
    out = []
    for k in list(F.cs):
        if k.op == "app" and k.a[0] == "pfx" and k.a[1] is raw and only(F.cs[k], SP):
            b = cset_at(F, raw, k.a[2])
            if b is not None and not any(lo <= 32 <= hi for lo, hi in b):
                out.append(k.a[2])
    return out


def rems(F, ind, size):
    return tyu(app("rem", ind, size))


def multiple(F, ind, size):
    return F.const_of(rems(F, ind, size)) == 0 or evalb(F, mk_cmp("Eq", rems(F, ind, size), intc(0))) is True


def nonmultiple(F, ind, size):
    return F.le(intc(1), rems(F, ind, size)) or evalb(F, mk_cmp("Eq", rems(F, ind, size), intc(0))) is False


def analyse(prog, strict, zero):
    pl = IndentPlugin(prog, strict, None)
    S.UNARY.clear()
    M = Models()
    eng = Engine(prog, pl, M)
    body = prog.bodies[ROOT]
    body.analyse()
    st = State()
    size = intc(0) if zero else sym(("in", ROOT, "indent"), "usize")
    pl.size = size
    if not zero:
        st.F.add_le(intc(1), size, 0)
    src = M.param_value(eng, body.locals[1], ("in", ROOT, "src"))
    flds = [f[0] for f in prog.adts[SOPT]["v"][0]["f"]]
    vals = []
    for f in flds:
        vals.append(some(boolc(strict)) if f == "strict" else some(size) if f == "indent" else sym(("in", ROOT, f), "?"))
    e = eng.analyse_root(ROOT, st=st, args=[src, some(mk("adt", SOPT, 0, tuple(vals)))])
    return eng, pl, e


def indentation(pid):
    chk = Check(pid, "abstract interpretation of MIR with character-class facts on the bytes of a line: every parsed line and every rejection in the line scanner is checked against the specification of indentation",
                "decode_stream_sync from the source iterator to the line cursor, in four configurations that cover all options (strict on/off, indent size 0 / any positive size), for every line.",
                ["rustc MIR and type resolution", "models of slice/str/iterator operations in sa/models.py"])
    prog = Program(extract.extract("all")["lib"])
    n = 0
    for strict in (True, False):
        for zero in (True, False):
            what = ("strict" if strict else "lenient") + ", indent size " + ("0" if zero else ">= 1")
            eng, pl, e = analyse(prog, strict, zero)
            chk.anchor(pl.line is not None, "a struct of parsed lines with indent, content and depth")
            chk.anchor(bool(pl.pushes) and bool(pl.advances), f"parsed lines are collected ({what})")
            if strict:
                chk.anchor(bool(pl.errs), f"bad indentation is rejected ({what})")
            seen = {}
            for s, k, o in eng.all_obls():
                cur = seen.get(k)
                if cur is None or (cur[0] and not o[0]):
                    seen[k] = o
            for k, (ok, text, site, data) in sorted(seen.items(), key=lambda kv: str(kv[0])):
                if k[2] not in ("content", "indent", "depth", "tab", "step", "reject", "source", "number"):
                    continue
                n += 1
                if ok:
                    chk.ok(f"{k[0]} {k[1]} {k[2]} ({what})", text)
                else:
                    chk.bad(f"{k[0].split('::')[-1]}:{k[2]}", f"{k[0]} ({k[1]})", f"{text} ({what})")
    chk.anchor(n >= 12, "obligations for all configurations")
    chk.cov["functions_interpreted"] = sorted(eng.stats["inlined"])
    chk.cov["blocks_interpreted"] = eng.stats["blocks"]
    return chk.finish()
