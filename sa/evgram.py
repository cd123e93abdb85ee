"""Event-grammar domain: an abstract vector of JsonStreamEvents is a stack of open containers with symbolic item counts."""
from .terms import *
from .engine import Plugin, Exit, mk_len, mk_cmp
from . import state as S
from .state import variants, Infeasible
from .models import one, run_generic, it_next, as_iter

EV = "toon::JsonStreamEvent"
FR = "#fr"
BASE = "#base"
EVV = "#ev"
S.NVAR[FR] = 4
S.NVAR[BASE] = 1
S.NVAR[EVV] = 1
OBJ, ARR = 1, 2
KIND = {OBJ: "object", ARR: "array"}


def fr(kind, pend, cnt, decl, below):
    return mk("adt", FR, kind, (pend, cnt, decl, below))


def base(pend, nv, np_):
    return mk("adt", BASE, 0, (pend, nv, np_))


def ev(top):
    return mk("adt", EVV, 0, (top,))


FRESH = ev(base(FALSE, intc(0), intc(0)))


def isev(v):
    return v.op == "adt" and v.a[0] == EVV


_shape = {}


def frshape(t):
    """kinds and pending flags of every event vector mentioned in a term"""
    r = _shape.get(t)
    if r is None:
        r = _shape[t] = _frshape(t)
    return r


def _frshape(t):
    if t.op == "adt":
        p, vi, fs = t.a
        if p == FR:
            return ("f", vi, fs[0].a[0] if fs[0].op == "bool" else None, frshape(fs[3]))
        if p == BASE:
            return ("b", fs[0].a[0] if fs[0].op == "bool" else None)
    out = []
    for x in t.a:
        if isinstance(x, Term):
            s = frshape(x)
            if s:
                out.append(s)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, Term):
                    s = frshape(y)
                    if s:
                        out.append(s)
    return tuple(out)


DEAD = ev(sym("after-error"))


def deaden(v, memo={}):
    r = memo.get(v)
    if r is None:
        if isev(v):
            r = DEAD
        elif not frshape(v):
            r = v
        else:
            a2 = tuple(deaden(x) if isinstance(x, Term) else tuple(deaden(y) if isinstance(y, Term) else y for y in x) if isinstance(x, tuple) else x for x in v.a)
            r = rebuild(v.op, a2)
        memo[v] = r
    return r


class EvPlugin(Plugin):
    """feeds pushes of events to the grammar and records the obligations"""
    keep_variants = False

    def __init__(self, prog, counts=False):
        self.prog = prog
        self.counts = counts
        self.vn = {i: v["name"] for i, v in enumerate(prog.adts[EV]["v"])} if EV in prog.adts else {}
        self.sites = set()

    # ---- recognising event vectors
    def is_evvec(self, eng, ti):
        if ti is None:
            return False
        t = eng.tyof(ti)
        return t["k"] == "adt" and t["p"] in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque") and eng.T[t["a"][0]].get("p") == EV

    def vec_new(self, eng, st, site):
        if self.is_evvec(eng, site.destty):
            return FRESH
        return None

    def opaque(self, eng, body):
        return False

    def ghost_key(self, st):
        out = []
        for k, v in st.cells.items():
            s = frshape(v)
            if s:
                out.append((str(k), s))
        return tuple(sorted(out))

    def gen_value(self, gen, t, path):
        if isev(t):
            return ev(self.gen_top(gen, t.a[2][0], path))
        return None

    def gen_top(self, gen, t, path):
        if t.op == "adt" and t.a[0] == FR:
            p, c, d, b = t.a[2]
            return fr(t.a[1], p if p.op == "bool" else gen.insym(p, path + ("p",)), c if c is intc(0) else gen.insym(c, path + ("c",), "usize"), gen.insym(d, path + ("d",), "usize"), gen.insym(b, path + ("b",)))
        if t.op == "adt" and t.a[0] == BASE:
            p, nv, np_ = t.a[2]
            return base(p if p.op == "bool" else gen.insym(p, path + ("p",)), nv if nv is intc(0) else gen.insym(nv, path + ("nv",), "usize"), np_ if np_ is intc(0) else gen.insym(np_, path + ("np",), "usize"))
        return gen.insym(t, path + ("t",))

    def exit_state(self, eng, body, rk, st):
        """after an error nothing is known about unfinished events: whoever pushes to them again is reported"""
        r = st.cells[rk]
        if r.op == "adt" and r.a[0] == "core::result::Result" and r.a[1] == 1:
            st = st.copy()
            for k, v in list(st.cells.items()):
                if k != rk:
                    st.cells[k] = deaden(v)
            st.F = type(st.F)()
        return st

    # ---- grammar
    def feed(self, eng, st, top, vi, x, site):
        """-> (new top or None, complaint or None)"""
        n = self.vn[vi]
        if top.op != "adt" or top.a[0] not in (FR, BASE):
            return None, f"{n} reaches a container this function did not open (or the open containers differ between paths)"
        pend = top.a[2][0]
        if pend.op != "bool":
            return None, f"{n}: whether a key is pending differs between paths"
        isb = top.a[0] == BASE
        isobj = not isb and top.a[1] == OBJ
        if n == "Key":
            if not isb and not isobj:
                return None, "Key inside an array"
            if pend.a[0]:
                return None, "Key directly after a Key"
            return self.setpend(top, TRUE), None
        if n in ("StartObject", "StartArray", "Primitive"):
            if isobj and not pend.a[0]:
                return None, f"{n} inside an object without a preceding Key"
            if n == "Primitive":
                return self.value(top), None
            d = intc(0)
            if n == "StartArray":
                d = eng.field(st, x, vi, 0)
                if d.ty is None and d.op != "int":
                    d.ty = "usize"
            return fr(OBJ if n == "StartObject" else ARR, FALSE, intc(0), d, top), None
        # EndObject / EndArray
        want = OBJ if n == "EndObject" else ARR
        if isb:
            return None, f"{n} without an open container"
        if top.a[1] != want:
            return None, f"{n} closes an {KIND[top.a[1]]}"
        if pend.a[0]:
            return None, f"{n} while a key waits for its value"
        if want == ARR:
            self.end_array(eng, st, top, site)
        else:
            self.end_object(eng, st, top, site)
        b = top.a[2][3]
        if b.op != "adt" or b.a[0] not in (FR, BASE):
            return None, f"{n} closes a container this function did not open"
        return self.value(b), None

    def end_array(self, eng, st, top, site):
        pass

    def end_object(self, eng, st, top, site):
        pass

    def setpend(self, top, b):
        f = top.a[2]
        return mk("adt", top.a[0], top.a[1], (b,) + f[1:])

    def value(self, top):
        f = top.a[2]
        if top.a[0] == BASE:
            if f[0] is TRUE:
                return base(FALSE, f[1], add(f[2], intc(1)))
            return base(FALSE, add(f[1], intc(1)), f[2])
        return fr(top.a[1], FALSE, add(f[1], intc(1)), f[2], f[3])

    def okey(self, site, what):
        return (str(site.span), site.fr.body.id, what)

    def on_push(self, eng, st, aref, cur, x, site):
        if not isev(cur):
            if self.is_event(eng, site, 1) and self.is_evvec(eng, site.argtys[0]):
                eng.oblige(self.okey(site, "lost"), False, "an event is pushed into a vector whose contents the analysis lost", site)
            return None
        return self.push_ev(eng, st, aref, cur, x, site)

    def is_event(self, eng, site, i):
        return i < len(site.argtys) and eng.tyof(site.argtys[i]).get("p") == EV

    def push_ev(self, eng, st, aref, cur, x, site):
        if x.op == "mref":
            x = eng.load(st, x)
        vs = variants(st.F, x)
        if vs is None:
            vs = frozenset(self.vn)
        out = []
        for vi in sorted(vs):
            s = st if len(vs) == 1 else st.copy()
            if x.op != "adt" and len(vs) > 1:
                ss = eng.assume_var(s, x, frozenset((vi,)), True, EV)
                if not ss:
                    continue
                s = ss[0]
            top, why = self.feed(eng, s, cur.a[2][0], vi, x, site)
            self.sites.add((str(site.span), self.vn[vi]))
            eng.oblige(self.okey(site, self.vn[vi]), why is None, why or f"{self.vn[vi]} is allowed here on every path", site)
            if why is not None:
                continue     # nothing after a malformed event is looked at
            eng.store(s, aref, ev(top))
            out.append(Exit(UNIT, s))
        return out

    def lost(self, eng, st, cur, what, site):
        if isev(cur):
            eng.oblige(self.okey(site, what), False, f"the event vector is changed by {what}; its contents are no longer known", site)

    def on_pop(self, eng, st, aref, cur, site):
        self.lost(eng, st, cur, "pop", site)

    def on_clear(self, eng, st, aref, cur, site):
        if isev(cur):
            eng.store(st, aref, FRESH)
            return True

    def on_elem_mut(self, eng, st, a, cur, i, cell, site):
        self.lost(eng, st, cur, "element access", site)

    def on_havoc(self, eng, st, m, cur, site):
        self.lost(eng, st, cur, "unmodelled call", site)

    def on_extend(self, eng, st, aref, cur, args, site):
        if not isev(cur):
            if site.argtys and self.is_evvec(eng, site.argtys[0]):
                eng.oblige(self.okey(site, "lost"), False, "events are appended to a vector whose contents the analysis lost", site)
            return None
        v = eng.load(st, args[1]) if args[1].op == "mref" else args[1]
        if isev(v):
            r = self.splice(eng, st, aref, cur, v, site)
            if args[1].op == "mref":
                for e in r:
                    eng.store(e.st, args[1], FRESH)
            return r
        it = v if v.op == "it" else as_iter(eng, v)
        return self.feed_iter(eng, st, aref, it, site)

    def feed_iter(self, eng, st, aref, it, site):
        from .models import abs_loop

        def step(s, item):
            return self.push_ev(eng, s, aref, eng.load(s, aref), item, site)
        return abs_loop(eng.models, eng, st, it, step, site)

    def splice(self, eng, st, aref, cur, v, site):
        """append a separately built fragment"""
        b = v.a[2][0]
        top = cur.a[2][0]
        key = self.okey(site, "append")
        if b.op != "adt" or b.a[0] != BASE or b.a[2][0] is not FALSE or top.op != "adt" or top.a[0] not in (FR, BASE):
            eng.oblige(key, False, "an unfinished fragment of events is appended", site)
            return []
        nv, np_ = st.F.const_of(b.a[2][1]), st.F.const_of(b.a[2][2])
        isb = top.a[0] == BASE
        f = top.a[2]
        why = None
        new = top
        if np_ == 0 and nv == 1:
            if not isb and top.a[1] == OBJ and f[0] is not TRUE:
                why = "a value is appended inside an object without a preceding key"
            else:
                new = self.value(top)
        elif np_ == 0 and f[0] is FALSE and (isb or top.a[1] == ARR):
            new = base(FALSE, add(f[1], b.a[2][1]), f[2]) if isb else fr(ARR, FALSE, add(f[1], b.a[2][1]), f[2], f[3])
        elif nv == 0 and f[0] is FALSE and (isb or top.a[1] == OBJ):
            new = base(FALSE, f[1], add(f[2], b.a[2][2])) if isb else fr(OBJ, FALSE, add(f[1], b.a[2][2]), f[2], f[3])
        else:
            why = "a fragment of events is appended where its items do not fit"
        eng.oblige(key, why is None, why or "appended fragment fits", site)
        if why:
            return []
        eng.store(st, aref, ev(new))
        return [Exit(UNIT, st)]

    def on_collect(self, eng, st, it, r, dt, site):
        t = dt
        if t.get("p") in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque") and eng.T[t["a"][0]].get("p") == EV:
            cell = (("evc", site.key()), 0)
            st.cells[cell] = FRESH
            out = []
            for e in self.feed_iter(eng, st, mk("mref", cell, ()), it, site):
                v = e.st.cells.pop(cell)
                out.append(Exit(v, e.st))
            return out
        return None
