"""MIR execution for the text abstract domain of tape.py (all inputs of a regular language at once)."""
from . import lang as L
from .tape import *
from .tape import Interp as _I, _mt
from .models import parse_template
from .lang import Dfa, from_nfa

CF = "core::ops::control_flow::ControlFlow"
STRFNS = {}


def model(*names):
    def deco(f):
        for n in names:
            STRFNS[n] = f
        return f
    return deco


class Opaque(Exception):
    pass


class Frame:
    __slots__ = ("body", "pre", "stack", "pc")

    def __init__(self, body, stack):
        self.body = body
        self.stack = stack + (body.id,)
        self.pre = "%d:" % len(stack)


class Outcome:
    """one outcome of a function on an arbitrary string argument"""
    __slots__ = ("val", "dfa", "assume")

    def __init__(self, val, dfa, assume):
        self.val, self.dfa, self.assume = val, dfa, assume


class Exec(_I):
    def __init__(self, prog, tape=None, **k):
        self.shared = k.pop("shared", None) or {"sum": {}, "hom": {}, "notes": set(), "unk": {}, "fnc": {}, "cov": set()}
        super().__init__(prog, tape, **k)
        self.Tys = prog.types
        self.stack = ()
        self.sink = None
        self.summarising = False
        self.monitor = None
        self.depthlimit = 24
        self.cursp = None
        self.blur = ()          # pieces whose inside is not followed into called functions
        self.blurred = []

    # ---------------------------------------------------------------- values
    def fix(self, st, v):
        o = []
        walk_toks(v, o)
        if any(t not in st.toks for t in o):
            f = st.fwd

            def g(t):
                n = 0
                while t not in st.toks and t in f and n < 50:
                    t = f[t]
                    n += 1
                return t
            return map_toks(v, g)
        return v

    def rename(self, st, a, b):
        r = super().rename(st, a, b)
        st.fwd[a] = b
        return r

    def _ren(self, s, st, v):
        return self.fix(s, v)

    def _rt(self, s, t):
        n = 0
        while t not in s.toks and t in s.fwd and n < 50:
            t = s.fwd[t]
            n += 1
        return t

    def lastren(self, s, t):
        return self._rt(s, t)

    # ---------------------------------------------------------------- keys and garbage
    def gc(self, st):
        o = []
        if st.adjb:
            for k, v in list(st.cells.items()):
                v2 = shift_lins(v, st.adjb)
                if v2 is not v:
                    st.cells[k] = v2
        for k, v in st.cells.items():
            walk_toks(v, o)
        walk_toks(("tup", tuple(x for x in st.expect if isinstance(x, tuple))), o)
        live = set(o) | {START, END, st.base}
        if self.tape is not None:
            # the first few positions stand for small integers used as indexes
            mx = 0
            for v in st.cells.values():
                mx = max(mx, self._maxint(v))
            cur = st.base
            for _ in range(min(mx, CAP)):
                live.add(cur)
                cur = st.adjb.get(cur)
                if cur is None:
                    break
                live.add(cur)
        dead = [t for t in st.toks if t not in live]
        if dead:
            ds = set(dead)
            for t in dead:
                del st.toks[t]
            st.adj = {a: b for a, b in st.adj.items() if a not in ds and b not in ds}
            st.adjb = {a: b for a, b in st.adjb.items() if a not in ds and b not in ds}
            st.lt = {(a, b) for a, b in st.lt if a not in ds and b not in ds}
        st.fwd = {}

    def _maxint(self, v):
        if v[0] == "int":
            return v[1] if isinstance(v[1], int) and 0 <= v[1] <= CAP else 0
        if v[0] in ("adt", "tup", "iter"):
            m = 0
            for x in v[1:]:
                if isinstance(x, tuple):
                    for y in ([x] if x and isinstance(x[0], str) else x):
                        if isinstance(y, tuple) and y and isinstance(y[0], str):
                            m = max(m, self._maxint(y))
            return m
        return 0

    def key(self, st):
        order = {START: "S", END: "E"}

        def f(t):
            if t not in order:
                order[t] = "#%d" % len(order)
            return order[t]
        cells = tuple((k, map_toks(st.cells[k], f)) for k in sorted(st.cells))
        ex = _mt(st.expect, f) if st.expect and st.expect[0] != "T" else st.expect
        cur, n = st.base, 0
        while cur in st.adjb and n <= CAP:
            cur = st.adjb[cur]
            f(cur)
            n += 1
        toks = tuple(sorted((n, st.toks[t]) for t, n in order.items() if t in st.toks) if False else
                     [(n,) + tuple(map(repr, st.toks[t])) for t, n in order.items() if t in st.toks])
        adj = tuple(sorted((order[a], order[b]) for a, b in st.adjb.items() if a in order and b in order))
        adc = tuple(sorted((order[a], order[b]) for a, b in st.adj.items() if a in order and b in order))
        lt = frozenset((order[a], order[b]) for a, b in st.lt if a in order and b in order)
        return (cells, toks, adj, adc, lt, tuple(sorted(st.cons.items(), key=lambda p: p[0])), ex, f(st.base))

    def join_point(self, st, pc, visited):
        """True when this state was already explored from here"""
        self.gc(st)
        k = (pc, self.key(st))
        if self.tape is not None and self.tape.kind == "R":
            n = ("j",) + k
            self.rec_edge(st, n)
            st.origin = (n, "EPS")
        if k in visited:
            return True
        visited.add(k)
        self.nstates += 1
        if self.nstates > self.limit:
            raise Unsupported("more than %d states" % self.limit)
        return False

    def loop(self, st, name, step):
        """run a model's internal loop: step(st) -> list of (st, None | value); None means go round again"""
        pc = (self.stack, self.pc, name)
        visited = set()
        work = [st]
        out = []
        while work:
            s = work.pop()
            if self.join_point(s, pc, visited):
                continue
            for s2, v in step(s):
                if v is None:
                    work.append(s2)
                else:
                    out.append((s2, v))
        return out

    # ---------------------------------------------------------------- places
    def load(self, st, ref):
        v = st.cells.get(ref[1], TOP)
        for e in ref[2]:
            v = self.proj1(st, v, e)
        return v

    def proj1(self, st, v, e):
        if v[0] == "ref":
            v = self.load(st, v)
        if e == "*":
            return v
        if e[0] == "f":
            if v[0] == "adt":
                return v[3][e[1]] if e[1] < len(v[3]) else TOP
            if v[0] == "tup":
                return v[1][e[1]] if e[1] < len(v[1]) else TOP
            if v[0] == "clo":
                return v[2][e[1]] if e[1] < len(v[2]) else TOP
            if v[0] == "sym":
                return self.symfield(v, 0, e[1])
            return TOP
        if e[0] == "v":
            return v
        if e[0] == "el" and v[0] == "vec" and e[1] < len(v[1]):
            return v[1][e[1]]
        return TOP

    def symval(self, name, ti):
        t = self.Tys[ti] if ti is not None else None
        while t is not None and t["k"] == "ref":
            ti = t["a"][0]
            t = self.Tys[ti]
        if t is None:
            return TOP
        if t["s"] in ("str", "alloc::string::String"):
            return ("p", name)
        if t["s"] == "f64":
            return ("num", name)
        if t["s"] == "bool":
            return ("symb", name)
        if t["s"] == "char" and self.shared.get("delim"):
            return ("int", ord(self.shared["delim"]))
        if t["s"] == "usize":
            return ("symint", name)
        if t["k"] == "slice":
            return ("list", name, t["a"][0])
        if t["k"] == "adt":
            if t["p"] == "alloc::vec::Vec":
                return ("list", name, t["a"][0])
            return ("sym", name, ti)
        return TOP

    def fieldty(self, path, vi, i, args):
        ad = self.prog.adts.get(path)
        if path in (OPT, "core::result::Result"):
            return args[0] if path == OPT else args[vi]
        if ad and vi < len(ad["v"]) and i < len(ad["v"][vi]["f"]):
            return ad["v"][vi]["f"][i][1]
        return None

    def symfield(self, v, vi, i):
        t = self.Tys[v[2]]
        return self.symval("%s.%d.%d" % (v[1], vi, i), self.fieldty(t["p"], vi, i, t.get("a") or []))

    def rd(self, st, fr, pl):
        """list of (st, value)"""
        res = [(st, st.cells.get(fr.pre + str(pl[0]), TOP))]
        for e in pl[1:]:
            nxt = []
            for s, v in res:
                v = self.fix(s, v)
                if v[0] == "ref":
                    if e == "*":
                        nxt.append((s, self.load(s, v)))
                        continue
                    v = self.load(s, v)
                if e == "*":
                    nxt.append((s, v))
                elif e[0] in ("f", "v"):
                    nxt.append((s, self.proj1(s, v, e)))
                elif e[0] == "i":
                    idx = s.cells.get(fr.pre + str(e[1]), TOP)
                    nxt += self.index(s, v, self.fix(s, idx))
                elif e[0] == "ci":
                    if v[0] in ("vec", "arr"):
                        its = v[1]
                        i = e[1] if not e[2] else len(its) - e[1]
                        nxt.append((s, its[i] if 0 <= i < len(its) else TOP))
                    elif v[0] in ("s", "str"):
                        nxt += self.index(s, v, ("int", e[1])) if not e[2] else [(s, TOP)]
                    else:
                        nxt.append((s, TOP))
                else:
                    nxt.append((s, TOP))
            res = nxt
        return res

    def index(self, st, v, idx):
        if v[0] in ("vec", "arr"):
            if idx[0] == "int" and 0 <= idx[1] < len(v[1]):
                return [(st, v[1][idx[1]])]
            return [(st, TOP)]
        if v[0] == "str":
            if idx[0] == "int":
                b = v[1].encode()
                return [(st, ("int", b[idx[1]]))] if 0 <= idx[1] < len(b) else []
            return [(st, TOP)]
        if v[0] == "s":
            out = []
            if idx[0] == "int":
                st.base = v[1]
            for s, t in self.resolve(st, v[1], idx):
                for s2, u in self.know(s, t):
                    if s2.toks[u][1] == "END":
                        continue    # out of bounds: the code panics
                    if self.order(s2, u, self.fix(s2, v)[2]) in ("=", ">"):
                        continue
                    out.append((s2, ("ch", u, "b")))
            return out
        if v[0] in ("p", "hom"):
            raise NeedScan(v[1], "indexed")
        return [(st, TOP)]

    def addr(self, st, fr, pl):
        cell = fr.pre + str(pl[0])
        proj = []
        for e in pl[1:]:
            if e == "*":
                v = st.cells.get(cell, TOP)
                for x in proj:
                    v = self.proj1(st, v, x)
                if v[0] == "ref":
                    cell, proj = v[1], list(v[2])
            elif e[0] in ("f", "v"):
                proj.append(tuple(e[:2]))
            else:
                return ("ref", "~junk", ())
        return ("ref", cell, tuple(x for x in proj if x[0] != "v"))

    def store(self, st, cell, proj, v):
        if cell == "~junk":
            return
        st.cells[cell] = self.upd(st.cells.get(cell, TOP), proj, v)

    def upd(self, cur, proj, v):
        if not proj:
            return v
        e = proj[0]
        if e[0] == "f":
            if cur[0] == "adt":
                fs = list(cur[3])
                while len(fs) <= e[1]:
                    fs.append(TOP)
                fs[e[1]] = self.upd(fs[e[1]], proj[1:], v)
                return cur[:3] + (tuple(fs),)
            if cur[0] == "tup":
                fs = list(cur[1])
                while len(fs) <= e[1]:
                    fs.append(TOP)
                fs[e[1]] = self.upd(fs[e[1]], proj[1:], v)
                return ("tup", tuple(fs))
            if cur[0] == "clo":
                fs = list(cur[2])
                if e[1] < len(fs):
                    fs[e[1]] = self.upd(fs[e[1]], proj[1:], v)
                return ("clo", cur[1], tuple(fs))
            return cur if cur[0] != "?" else TOP
        if e[0] == "el" and cur[0] == "vec" and e[1] < len(cur[1]):
            return ("vec", cur[1][:e[1]] + (self.upd(cur[1][e[1]], proj[1:], v),) + cur[1][e[1] + 1:])
        if e[0] == "v" and cur[0] == "adt" and len(proj) > 1:
            return self.upd(cur, proj[1:], v)
        return TOP

    def wr(self, st, fr, pl, v):
        if len(pl) == 1:
            st.cells[fr.pre + str(pl[0])] = v
            return
        # a field of a local that is not a structure yet (deferred initialisation)
        r = self.addr(st, fr, pl)
        self.store(st, r[1], r[2], v)

    # ---------------------------------------------------------------- operands
    def const(self, c):
        k = c["c"]
        if k == "int":
            return ("int", int(c["v"]))
        if k == "bool":
            return ("int", 1 if c["v"] else 0)
        if k == "char":
            v = c["v"]
            return ("int", ord(v) if isinstance(v, str) else int(v))
        if k == "str":
            return ("str", c["v"])
        if k == "bytes":
            v = c["v"]
            try:
                return ("str", v if isinstance(v, str) else bytes(v).decode())
            except UnicodeDecodeError:
                return ("arr", tuple(("int", x) for x in v))
        if k == "float":
            return ("float", float(c["v"])) if c.get("v") is not None else TOP
        if k == "ref":
            return self.const(c["v"])
        if k == "fn":
            p = c.get("r") or c["p"]
            self.shared["fnc"][p] = c
            return ("fn", p)
        if k in ("zst", "closure"):
            t = self.Tys[c["t"]]
            if t["k"] == "closure":
                return ("clo", t["p"], ())
            if t["k"] == "fndef":
                return ("fn", t["p"])
            if t["k"] == "adt":
                return ("adt", t["p"], 0, ())
            return UNIT
        if k == "agg":
            t = self.Tys[c["t"]]
            fs = tuple(self.const(x) for x in c["f"])
            if t["k"] == "tuple":
                return ("tup", fs)
            if t["k"] in ("array", "slice"):
                return ("arr", fs)
            if t["k"] == "adt":
                return ("adt", t["p"], c.get("vi") or 0, fs)
            if t["k"] == "closure":
                return ("clo", t["p"], fs)
        if k == "slice" and "f" in c:
            return ("arr", tuple(self.const(x) for x in c["f"]))
        return TOP

    def op(self, st, fr, o):
        if o[0] in ("c", "m"):
            return self.rd(st, fr, o[1])
        if o[0] == "k":
            return [(st, self.const(o[1]))]
        return [(st, ("int", 0))]

    def ops(self, st, fr, os):
        """list of (st, [values])"""
        res = [(st, ())]
        for o in os:
            res = [(s2, vs + (v,)) for s, vs in res for s2, v in self.op(s, fr, o)]
        return [(s, [self.fix(s, v) for v in vs]) for s, vs in res]

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, st, fr, rv, destty):
        k = rv[0]
        if k == "use":
            return self.op(st, fr, rv[1])
        if k == "ref":
            if rv[2] == "mut":
                return [(st, self.addr(st, fr, rv[1]))]
            return [(s, self.load(s, v) if v[0] == "ref" else v) for s, v in self.rd(st, fr, rv[1])]
        if k == "rawptr":
            return [(s, v) for s, v in self.rd(st, fr, rv[1])]
        if k == "cast":
            return [(s, self.cast(s, v, rv)) for s, v in self.op(st, fr, rv[2])]
        if k == "bin":
            out = []
            for s, (a, b) in self.ops(st, fr, [rv[2], rv[3]]):
                out += self.binop(s, rv[1], a, b)
            return out
        if k == "un":
            out = []
            for s, v in self.op(st, fr, rv[2]):
                if rv[1] == "Not":
                    if v[0] == "int" and v[1] in (0, 1):
                        out.append((s, ("int", 1 - v[1])))
                    elif v[0] == "symb":
                        for s2, b in self.truth(s, v):
                            out.append((s2, ("int", 0 if b else 1)))
                    else:
                        out.append((s, TOP))
                elif rv[1] == "PtrMetadata":
                    out += self.length(s, v)
                elif v[0] == "int":
                    out.append((s, ("int", -v[1])))
                else:
                    out.append((s, TOP))
            return out
        if k == "discr":
            return self.discr(st, fr, rv[1])
        if k == "agg":
            out = []
            a = rv[1]
            for s, vs in self.ops(st, fr, rv[2]):
                vs = tuple(self.deref(s, v) if v[0] == "ref" and a["k"] == "adt" and False else v for v in vs)
                if a["k"] == "adt":
                    out.append((s, ("adt", a["p"], a["vi"] or 0, vs)))
                elif a["k"] == "tuple":
                    out.append((s, ("tup", vs)))
                elif a["k"] == "closure":
                    out.append((s, ("clo", a["p"], vs)))
                else:
                    out.append((s, ("arr", vs)))
            return out
        return [(st, TOP)]

    def cast(self, s, v, rv):
        if v[0] == "ch":
            t = self.Tys[rv[3]]["s"] if isinstance(rv[3], int) else ""
            if t == "char" and v[2] == "b":
                return ("ch", v[1], "b")
            if t in ("u32", "u8"):
                sy = s.toks[v[1]][1]
                if t == "u8" and v[2] == "c" and (sy in (None, "END") or sy[0] & L.NONASCII):
                    return TOP
                return v
            return TOP
        if v[0] in ("num", "numof", "float", "nf", "xnum", "f64tape"):
            t = self.Tys[rv[3]]["s"] if isinstance(rv[3], int) else ""
            if t == "f64" or v[0] == "xnum":
                return v
            if v[0] in ("num", "numof") and t in self.INTMAX:
                return ("numi", v[1], t)
            if v[0] in ("num", "numof", "f64tape") and t == "f32":
                return ("xnum", "f32")
            return TOP
        if v[0] == "numi":
            t = self.Tys[rv[3]]["s"] if isinstance(rv[3], int) else ""
            if t == "f64":
                return ("nf", "cast", v[1], v[2])
            return v if t == v[2] else TOP
        if v[0] == "int" and isinstance(v[1], int):
            t = self.Tys[rv[3]]["s"] if isinstance(rv[3], int) else ""
            m = self.INTMAX.get(t)
            if m:
                m = m if t[0] == "u" else 2 * m
                n = v[1] % m
                return ("int", n if t[0] == "u" or n < m // 2 else n - m) if n != v[1] else v
        return v

    INTMAX = {"i8": 2 ** 7, "i16": 2 ** 15, "i32": 2 ** 31, "i64": 2 ** 63, "isize": 2 ** 63, "i128": 2 ** 127,
              "u8": 2 ** 8, "u16": 2 ** 16, "u32": 2 ** 32, "u64": 2 ** 64, "usize": 2 ** 64, "u128": 2 ** 128}

    def keeps(self, st, v):
        """does the cast keep every number it is applied to, by what is known about it"""
        f = st.cons.get("#" + v[1], frozenset())
        if "z" in f or ("rt", v[2]) in f:
            return True
        up = [x[1] for x in f if isinstance(x, tuple) and x[0] == "<"]
        lo = [x[1] for x in f if isinstance(x, tuple) and x[0] == ">"]
        m = self.INTMAX[v[2]]
        if "int" not in f or not up or min(up) > m:
            return False
        return bool(lo) and max(lo) >= (-m if v[2][0] == "i" else -1) or v[2][0] == "u" and "!neg" in f

    def addfact(self, st, n, fact):
        s = st.copy()
        s.cons["#" + n] = s.cons.get("#" + n, frozenset()) | {fact}
        return s

    def numcmp(self, st, op, a, b):
        """order comparisons of a number of the value with a constant"""
        if b[0] != "float":
            a, b, op = b, a, {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}[op]
        if b[0] != "float" or not (a[0] in ("num", "numof") or a[0] == "nf" and a[1] == "abs"):
            return None
        n, c = (a[1] if a[0] != "nf" else a[2]), b[1]
        if getattr(self, "jsonq", False):
            q = ("cmp", "abs" if a[0] == "nf" else "num", op, c)
            return self.bools(self.numfact(st, ("num", n), q))
        f = st.cons.get("#" + n, frozenset())
        if "z" in f:
            return [(st, ("int", int({"Lt": 0 < c, "Le": 0 <= c, "Gt": 0 > c, "Ge": 0 >= c}[op])))]
        yes, no = st.copy(), st.copy()
        less = yes if op in ("Lt", "Le") else no
        more = no if less is yes else yes
        # a NaN makes every comparison false: only the true side learns anything unless the number is finite
        if less is yes or "fin" in f:
            less = self.addfact(less, n, ("<", c if op in ("Lt", "Ge") else c + 1))
            if a[0] == "nf":
                less = self.addfact(less, n, (">", -c))
        if (more is yes or "fin" in f) and a[0] != "nf":
            more = self.addfact(more, n, (">", c if op in ("Gt", "Le") else c - 1))
        return [(less, ("int", int(op in ("Lt", "Le")))), (more, ("int", int(op in ("Gt", "Ge"))))]

    def either(self, st):
        """a condition the analysis cannot tell: what follows may be impossible"""
        a, b = st.copy(), st.copy()
        a.cons["~doubt"] = b.cons["~doubt"] = 1
        return [(a, True), (b, False)]

    def truth(self, st, v):
        """list of (st, bool)"""
        if v[0] == "int":
            return [(st, bool(v[1]))]
        if v[0] == "symb":
            f = st.cons.get(v[1])
            if f is not None:
                return [(st, f)]
            a, b = st.copy(), st.copy()
            a.cons[v[1]] = True
            b.cons[v[1]] = False
            return [(a, True), (b, False)]
        return self.either(st)

    def bools(self, l):
        return [(s, ("int", 1 if b else 0)) for s, b in l]

    def binop(self, st, op, a, b):
        a, b = self.deref(st, a), self.deref(st, b)
        if op.endswith("WithOverflow"):
            return [(s, ("tup", (v, ("int", 0)))) for s, v in self.arith(st, op[:3], a, b)]
        if op in ("Add", "Sub", "Mul", "Div", "Rem", "AddUnchecked", "SubUnchecked"):
            return self.arith(st, op.replace("Unchecked", ""), a, b)
        if op in ("Eq", "Ne"):
            return [(s, ("int", int(e == (op == "Eq"))) if e is not None else TOP) for s, e in self.equal(st, a, b)]
        if op in ("Lt", "Le", "Gt", "Ge"):
            r = self.letter_cmp(st, op, a, b)
            if r is not None:
                return r
            if "qlen" in (a[0], b[0]):
                r = self.qlen(a, b)
                less = a[1] if a[0] == "qlen" else not b[1]
                return [(st, ("int", int((op in ("Lt", "Le")) == less)))] if r else [(st, TOP)]
            if "float" in (a[0], b[0]):
                r = self.numcmp(st, op, a, b)
                return r if r is not None else [(st, TOP)]
            if a[0] == "symint" or b[0] == "symint":
                lo, hi = 0, 100_000_000
                x = b if a[0] == "symint" else a
                if x[0] == "int":
                    n = x[1]
                    import operator as o_
                    f = {"Lt": o_.lt, "Le": o_.le, "Gt": o_.gt, "Ge": o_.ge}[op]
                    vals = {(f(t, n) if a[0] == "symint" else f(n, t)) for t in {lo, hi, min(max(n - 1, lo), hi), min(max(n, lo), hi), min(max(n + 1, lo), hi)}}
                    return [(st.copy(), ("int", int(t))) for t in vals]
                if x[0] == "symint" and getattr(self, "relations", False):
                    ok = {"Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">="}[op]
                    return [(s, ("int", int(c in ok))) for s, c in self.relation(st, a, b)]
                return [(st, TOP)]
            return [(s, ("int", int({"Lt": c < 0, "Le": c <= 0, "Gt": c > 0, "Ge": c >= 0}[op]))) for s, c in self.cmp3(st, a, b)] \
                if a[0] in ("int", "ge", "lin", "len") and b[0] in ("int", "ge", "lin", "len") else [(st, TOP)]
        if op in ("BitAnd", "BitOr", "BitXor"):
            if a[0] == "int" and b[0] == "int":
                return [(st, ("int", {"BitAnd": a[1] & b[1], "BitOr": a[1] | b[1], "BitXor": a[1] ^ b[1]}[op]))]
            if op == "BitAnd" and ("int", 0) in (a, b) or op == "BitOr" and ("int", 1) in (a, b):
                return [(st, ("int", 0 if op == "BitAnd" else 1))]
            return [(st, TOP)]
        return [(st, TOP)]

    def relation(self, st, a, b):
        """how two free numbers compare: list of (st, '<' '=' or '>'), remembered"""
        if a[1] == b[1]:
            return [(st, "=")]
        swap = a[1] > b[1]
        k = "~rel:%s:%s" % tuple(sorted((a[1], b[1])))
        out = []
        for c in ("<", "=", ">"):
            if st.cons.get(k, c) != c:
                continue
            s = st.copy()
            s.cons[k] = c
            out.append((s, {"<": ">", ">": "<"}.get(c, c) if swap else c))
        return out

    def letter_cmp(self, st, op, a, b):
        """order comparisons of a letter with a constant"""
        if a[0] == "int" and b[0] == "ch":
            return self.letter_cmp(st, {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}[op], b, a)
        if a[0] == "ch" and b[0] == "int":
            n = b[1]
            x = 0
            for i in range(128):
                if {"Lt": i < n, "Le": i <= n, "Gt": i > n, "Ge": i >= n}[op]:
                    x |= 1 << i
            if n > 128:
                return [(st, TOP)]
            if op in ("Gt", "Ge"):
                x |= L.NONASCII
            return self.bools(self.refine(st, a[1], x))
        return None

    def equal(self, st, a, b):
        """list of (st, True/False/None)"""
        a, b = self.fix(st, a), self.fix(st, b)
        if a[0] in ("str", "s", "cat", "p", "hom", "trimp", "trimq", "untr", "app", "pc", "homc") \
                or b[0] in ("str", "s", "cat", "p", "hom", "trimp", "trimq", "untr", "app"):
            return self.streq(st, a, b)
        if a[0] == "int" and b[0] in ("ch", "symint", "symb"):
            a, b = b, a
        if a[0] == "symb" and b[0] == "int":
            return [(s, t == bool(b[1])) for s, t in self.truth(st, a)]
        if a[0] == "symint" and b[0] == "int":
            return [(st.copy(), True), (st.copy(), False)]
        if a[0] == "adt" and b[0] == "sym":
            a, b = b, a
        if a[0] == "sym" and b[0] == "adt" and b[1] in self.prog.adts and not b[3] and self.prog.adts[b[1]]["kind"] == "enum":
            out = []
            for vi in range(len(self.prog.adts[b[1]]["v"])):
                if st.cons.get("~v:" + a[1], vi) == vi:
                    s = st.copy()
                    s.cons["~v:" + a[1]] = vi
                    out.append((s, vi == b[2]))
            return out
        if a[0] == "symint" and b[0] == "symint" and getattr(self, "relations", False):
            return [(s, c == "=") for s, c in self.relation(st, a, b)]
        if a[0] == "ch" and b[0] == "int":
            n = b[1]
            sym = st.toks[a[1]][1]
            if sym in (None, "END"):
                return [(st.copy(), True), (st.copy(), False)]
            if n < 128:
                if sym[0] == "IN":
                    return [(st, False)]
                return self.refine(st, a[1], 1 << n)
            lt = L.letter(chr(n)) if a[2] == "c" else L.NONASCII
            out = []
            for s, r in self.refine(st, a[1], lt):
                out += [(s.copy(), True), (s.copy(), False)] if r else [(s, False)]
            return out
        if a[0] == "ch" and b[0] == "ch":
            if a[1] == b[1]:
                return [(st, True)]
            return self.either(st)
        if "qlen" in (a[0], b[0]) and self.qlen(a, b):
            return [(st, False)]
        if a[0] in ("num", "float", "numof", "nf", "f64tape") or b[0] in ("num", "float", "numof", "nf", "f64tape"):
            return self.floateq(st, a, b)
        if a[0] == "adt" and b[0] == "adt":
            if a[2] != b[2]:
                return [(st, False)]
            res = [(st, True)]
            for x, y in zip(a[3], b[3]):
                res = [(s2, (e and r) if r is not None and e is not None else (False if r is False or e is False else None))
                       for s, e in res for s2, r in (self.equal(s, x, y) if e is not False else [(s, False)])]
            return res
        if a[0] in ("int", "lin", "ge") and b[0] in ("int", "lin", "ge"):
            return [(s, c == 0) for s, c in self.cmp3(st, a, b)]
        if a == b and a[0] not in ("top",):
            return [(st, True)]
        return self.either(st)

    def qlen(self, a, b):
        """the length of a text that trimming shortens against the length before"""
        return (a if b[0] == "qlen" else b) == mklin({END: 1, START: -1}, 0, 0)

    def numname(self, v):
        return v[1] if v[0] in ("num", "numof") else None

    def floateq(self, st, a, b):
        if a[0] == "float" and b[0] == "float":
            return [(st, a[1] == b[1])]
        if b[0] in ("num", "numof", "f64tape") or b[0] == "nf" and a[0] == "float":
            a, b = b, a
        n = self.numname(a)
        q = None
        if a[0] == "nf" and a[1] == "fract" and b == ("float", 0.0):
            n, q = a[2], "int"
        elif n is not None and b[0] == "nf" and b[2] == n and b[1] in ("cast", "trunc"):
            q = ("rt", b[3]) if b[1] == "cast" else "int"
        if q is not None:
            f = st.cons.get("#" + n, frozenset())
            if q in f or "z" in f:
                return [(st, True)]
            if ("!", q) in f:
                return [(st, False)]
            return [(self.addfact(st, n, q), True), (self.addfact(st, n, ("!", q)), False)]
        if n is not None and b == ("float", 0.0):
            f = st.cons.get("#" + n, frozenset())
            if "z" in f:
                return [(st, True)]
            if "nz" in f:
                return [(st, False)]
            x, y = st.copy(), st.copy()
            x.cons["#" + n] = f | {"z", "fin"}
            y.cons["#" + n] = f | {"nz"}
            return [(x, True), (y, False)]
        if a == b and n is not None:
            return [(st, True)]
        if "f64tape" in (a[0], b[0]) and ("float", 0.0) in (a, b):
            return self.numfact(st, ("f64tape",), "zero")
        return self.either(st)

    def numfact(self, st, v, fact):
        n = self.numname(v)
        if v[0] == "float":
            import math
            if fact == "fin":
                return [(st, math.isfinite(v[1]))]
            if fact == "nan":
                return [(st, math.isnan(v[1]))]
            return [(st, math.copysign(1.0, v[1]) < 0)]
        if n is None:
            if v[0] == "f64tape":
                # a property of the number read from the whole text: an assumption of the outcome
                x, y = st.copy(), st.copy()
                x.cons["~assume:" + fact] = True
                y.cons["~assume:" + fact] = False
                cur = st.cons.get("~assume:" + fact)
                return [(x, True)] if cur is True else [(y, False)] if cur is False else [(x, True), (y, False)]
            return self.either(st)
        f = st.cons.get("#" + n, frozenset())
        if fact in f:
            return [(st, True)]
        if isinstance(fact, tuple):
            if ("!", fact) in f:
                return [(st, False)]
            return [(self.addfact(st, n, fact), True), (self.addfact(st, n, ("!", fact)), False)]
        if "!" + fact in f:
            return [(st, False)]
        if fact == "nan" and "fin" in f:
            return [(st, False)]
        if fact == "fin" and "nan" in f:
            return [(st, False)]
        x, y = st.copy(), st.copy()
        x.cons["#" + n] = f | {fact}
        y.cons["#" + n] = f | {"!" + fact}
        return [(x, True), (y, False)]

    def deref(self, st, v):
        n = 0
        while v[0] == "ref" and n < 5:
            v = self.load(st, v)
            n += 1
        return v

    def discr(self, st, fr, pl):
        out = []
        for s, v in self.rd(st, fr, pl):
            out += self.variants(s, v, lambda s2, nv: self.wr(s2, fr, pl, nv), self.place_adt(fr, pl))
        return out

    def place_adt(self, fr, pl):
        t = self.Tys[fr.body.locals[pl[0]]]
        for e in pl[1:]:
            if e == "*":
                if t["k"] in ("ref", "ptr") or t["k"] == "adt" and t.get("a"):
                    t = self.Tys[t["a"][0]]
            elif e[0] == "f":
                t = self.Tys[e[2]]
        return t

    def variants(self, s, v, wb, t):
        v = self.deref(s, v)
        if v[0] == "adt":
            return [(s, ("int", self.discrval(v[1], v[2])))]
        if v[0] in ("sym", "top") or v[0] == "app":
            if v[0] == "sym":
                t = self.Tys[v[2]]
            if t is None or t["k"] != "adt":
                return [(s, TOP)]
            ad = self.prog.adts.get(t["p"])
            nv = len(ad["v"]) if ad else {OPT: 2, RES: 2, CF: 2}.get(t["p"], 0)
            if not nv:
                return [(s, TOP)]
            out = []
            for vi in range(nv):
                s2 = s.copy()
                if v[0] == "sym":
                    nf = len(ad["v"][vi]["f"]) if ad else (0 if t["p"] == OPT and vi == 0 else 1)
                    w = ("adt", t["p"], vi, tuple(self.symfield(v, vi, i) for i in range(nf)))
                    k = "~v:" + v[1]
                    if s.cons.get(k, vi) != vi:
                        continue
                    s2.cons[k] = vi
                else:
                    if v[0] == "top" and getattr(self, "free", False):
                        s2.cons["~doubt"] = 1
                    nf = len(ad["v"][vi]["f"]) if ad else 1
                    if self.tape is not None:
                        s2.cons["~doubt"] = 1
                    w = ("adt", t["p"], vi, (TOP,) * nf)
                wb(s2, w)
                out.append((s2, ("int", self.discrval(t["p"], vi))))
            return out
        return [(s, TOP)]

    def discrval(self, path, vi):
        ad = self.prog.adts.get(path)
        if ad and vi < len(ad["v"]):
            d = ad["v"][vi].get("d")
            return int(d) if d is not None else vi
        return vi

    def length(self, st, v):
        v = self.deref(st, v)
        if v[0] == "s":
            return [(st, mklin({v[2]: 1, v[1]: -1} if v[1] != v[2] else {}, 0, 0))]
        if v[0] == "str":
            return [(st, ("int", len(v[1].encode())))]
        if v[0] in ("arr",):
            return [(st, ("int", len(v[1])))]
        if v[0] == "vec" and "*" not in [x[0] for x in v[1]]:
            return [(st, ("int", len(v[1])) if len(v[1]) <= getattr(self, "cap", CAP) else ("ge", getattr(self, "cap", CAP) + 1))]
        if v[0] == "vec" and getattr(self, "trilen", None) and len(v[1]) == 3 and [x[0] == "*" for x in v[1]] == [True, False, True]:
            return [(st, ("symint", "len:" + self.trilen))]
        if v[0] == "vec":
            return [(st, ("ge", min(CAP, sum(x[0] != "*" for x in v[1]))))]
        if v[0] == "p":
            return [(st, ("plen", v[1]))]
        if v[0] in ("trimq", "untr"):
            return [(st, ("qlen", v[0] == "trimq"))]
        if v[0] == "list":
            return [(st, ("symint", "len:" + v[1]) if len(v) == 3 else ("ge", 0))]
        return [(st, ("ge", 0))]

    # ---------------------------------------------------------------- running
    def start_state(self):
        st = St()
        if self.tape is not None:
            self.init_tape(st)
        return st

    def call_body(self, body, args, st):
        """inline a local function: list of (st, value)"""
        if len(self.stack) > self.depthlimit or body.id in self.stack:
            raise Opaque()
        body.analyse()
        self.shared["cov"].add(body.id)
        saved = self.stack, self.pc
        fr = Frame(body, self.stack)
        self.stack = self.stack + (body.id, saved[1])
        fr.pre = "%d:" % len(self.stack)
        try:
            st = st.copy()
            for i, a in enumerate(args):
                st.cells[fr.pre + str(i + 1)] = a
            return self.explore(body, fr, st)
        finally:
            self.stack, self.pc = saved

    def explore(self, body, fr, st):
        an = body._an
        preds = an["preds"]
        visited = set()
        work = [(st, 0)]
        out = []
        n = 0
        while work:
            s, bb = work.pop()
            n += 1
            while True:
                if len(preds.get(bb, ())) > 1 or bb == 0:
                    live = body.live_in.get(bb)
                    if live is not None:
                        for k in [k for k in s.cells if k.startswith(fr.pre) and k[len(fr.pre):].isdigit() and int(k[len(fr.pre):]) not in live
                                  and not self.borrowed(s, k)]:
                            del s.cells[k]
                    self.summarise_cats(s)
                    if self.join_point(s, (self.stack, bb), visited):
                        break
                nxt = self.block(body, fr, s, bb)
                res = []
                for s2, t in nxt:
                    if t == "ret":
                        v = self.fix(s2, s2.cells.get(fr.pre + "0", TOP))
                        v = self.deref(s2, v) if v[0] == "ref" and v[1].startswith(fr.pre) else v
                        if self.tape is not None and self.tape.kind == "S":
                            v = self.as_position(s2, v)
                        for k in [k for k in s2.cells if k.startswith(fr.pre)]:
                            del s2.cells[k]
                        s2.cells["~ret"] = v
                        if not self.join_point(s2, (self.stack, "ret"), visited):
                            v = self.fix(s2, s2.cells.pop("~ret"))
                            out.append((s2, v))
                    else:
                        res.append((s2, t))
                if not res:
                    break
                work += res[1:]
                s, bb = res[0]
        return out

    def as_position(self, st, v):
        """small numbers returned by a function, as positions of the text where those positions are known"""
        if v[0] == "int" and isinstance(v[1], int) and 2 <= v[1] <= CAP:
            cur = st.base
            for _ in range(v[1]):
                cur = st.adjb.get(cur)
                if cur is None:
                    return v
            return mklin({cur: 1, st.base: -1}, 0, v[1])
        if v[0] == "adt" and v[1] in (OPT, RES):
            return v[:3] + (tuple(self.as_position(st, x) for x in v[3]),)
        return v

    def borrowed(self, st, k):
        for v in st.cells.values():
            if self._refs(v, k):
                return True
        return False

    def _refs(self, v, k):
        if v[0] == "ref":
            return v[1] == k
        if v[0] in ("adt", "tup", "clo", "iter", "arr", "vec"):
            for x in v[1:]:
                if isinstance(x, tuple):
                    if x and isinstance(x[0], str):
                        if self._refs(x, k):
                            return True
                    else:
                        for y in x:
                            if isinstance(y, tuple) and y and isinstance(y[0], str) and self._refs(y, k):
                                return True
        return False

    def block(self, body, fr, st, bb):
        bl = body.blocks[bb]
        states = [st]
        self.pc = bb
        for s in bl["s"]:
            if s[0] == "=":
                dt = body.locals[s[1][0]]
                nxt = []
                for x in states:
                    for s2, v in self.rvalue(x, fr, s[2], dt):
                        v = self.fix(s2, v)
                        self.wr(s2, fr, s[1], v)
                        nxt.append(s2)
                states = nxt
            elif s[0] == "sd":
                for x in states:
                    r = self.addr(x, fr, s[1])
                    cur = self.load(x, r)
                    t = self.place_adt(fr, s[1])
                    fs = cur[3] if cur[0] == "adt" else ()
                    self.store(x, r[1], r[2], ("adt", t["p"], s[2], fs))
            elif s[0] == "dead":
                pass
        out = []
        for x in states:
            self.pc = bb
            out += self.term(body, fr, x, bl["t"], bb)
        return out

    def term(self, body, fr, st, t, bb):
        k = t[0]
        if k == "goto":
            return [(st, t[1])]
        if k == "return":
            return [(st, "ret")]
        if k in ("unreachable", "resume"):
            return []
        if k == "drop":
            return [(st, t[2])]
        if k == "assert":
            return [(st, t[4])]
        if k == "switch":
            out = []
            for s, v in self.op(st, fr, t[1]):
                v = self.deref(s, self.fix(s, v))
                if v[0] == "int":
                    for x, b in t[2]:
                        if int(x) == v[1]:
                            out.append((s, b))
                            break
                    else:
                        out.append((s, t[3]))
                elif v[0] == "symb":
                    for s2, r in self.truth(s, v):
                        out.append((s2, next((b for x, b in t[2] if int(x) == int(r)), t[3])))
                elif v[0] == "ch":
                    rest = [s]
                    for x, b in t[2]:
                        nr = []
                        for s1 in rest:
                            for s2, e in self.equal(s1, v, ("int", int(x))):
                                if e:
                                    out.append((s2, b))
                                else:
                                    nr.append(s2)
                        rest = nr
                    out += [(s1, t[3]) for s1 in rest]
                elif v[0] in ("lin", "ge"):
                    rest = [s]
                    for x, b in t[2]:
                        nr = []
                        for s1 in rest:
                            for s2, c in self.cmp3(s1, self.fix(s1, v), ("int", int(x))):
                                if c == 0:
                                    out.append((s2, b))
                                else:
                                    nr.append(s2)
                        rest = nr
                    out += [(s1, t[3]) for s1 in rest]
                else:
                    if self.tape is not None or getattr(self, "free", False):
                        s = s.copy()
                        s.cons["~doubt"] = 1
                    for x, b in t[2]:
                        out.append((s.copy(), b))
                    if t[3] is not None and body.blocks[t[3]]["t"][0] != "unreachable":
                        out.append((s.copy(), t[3]))
            return out
        if k == "call":
            out = []
            for s, args in self.ops(st, fr, t[2]):
                self.pc = bb
                self.cursp = t[5]
                for s2, v in self.do_call(body, fr, s, t, args):
                    if t[4] is None:
                        continue
                    v = self.fix(s2, v)
                    self.wr(s2, fr, t[3], v)
                    out.append((s2, t[4]))
            return out
        if k == "yield":
            raise Unsupported("generator")
        return []

    def do_call(self, body, fr, st, t, args):
        path, c = self.prog.callee(t)
        if path is None:
            fs = self.op(st, fr, t[1])
            out = []
            for s, f in fs:
                out += self.call_value(s, f, args)
            return out
        self.shared["fnc"].setdefault(path, c)
        return self.call(st, path, c, args, t)

    def call_value(self, st, f, args):
        f = self.deref(st, f) if f[0] == "ref" else f
        if f[0] == "clo":
            b = self.prog.bodies.get(f[1])
            if b is not None:
                a = list(args)
                if b.d.get("spread") and b.argc == 2:
                    a = [("tup", tuple(args))]
                envty = self.Tys[b.locals[1]]
                if envty["k"] == "ref" and envty.get("m"):
                    cell = "clo%d:%s" % (len(self.stack), f[1])
                    st = st.copy()
                    st.cells[cell] = f
                    return self.call_body(b, [("ref", cell, ())] + a, st)
                return self.call_body(b, [f] + a, st)
        if f[0] == "fn":
            c = self.shared["fnc"].get(f[1])
            if c and c.get("ctor"):
                return [(st, ("adt", c.get("adt"), c.get("vi") or 0, tuple(args)))]
            if f[1].endswith("Option::Some"):
                return [(st, some(args[0]))]
            if f[1].endswith("Result::Ok"):
                return [(st, ok(args[0]))]
            if f[1].endswith("Result::Err"):
                return [(st, err(args[0]))]
            return self.call(st, f[1], c, args, None)
        return self.unknown_call(st, "<indirect>", args)

    def unknown_call(self, st, path, args):
        self.shared["unk"][path] = self.shared["unk"].get(path, 0) + 1
        st = st.copy()
        for a in args:
            self.havoc(st, a)
        return [(st, TOP)]

    def where(self):
        """function and line of the statement being executed"""
        b = self.prog.bodies.get(next((x for x in reversed(self.stack) if isinstance(x, str)), None))
        sp = self.cursp
        return (b.id.split("::")[-1] if b else "?", sp)

    def havoc(self, st, a):
        if a[0] == "ref":
            cur = self.load(st, a)
            if cur[0] == "sink":
                return
            if cur[0] == "vec":
                if cur[1][-1:] != (("*", "any"),):
                    self.store(st, a[1], a[2], ("vec", cur[1] + (("*", "any"),)))
            else:
                self.store(st, a[1], a[2], TOP)
        elif a[0] in ("adt", "tup"):
            for x in (a[3] if a[0] == "adt" else a[1]):
                self.havoc(st, x)
        elif a[0] == "clo":
            for x in a[2]:
                self.havoc(st, x)

    XFORM = {"trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches", "trim_end_matches", "replace", "replacen",
             "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "trim_ascii", "make_ascii_lowercase"}
    XPASS = {"to_string", "to_owned", "clone", "into", "from", "as_str", "deref", "borrow", "as_ref", "into_owned", "into_string", "into_boxed_str"}

    def changed(self, st, path, args):
        """a text taken from the line that went through an operation which does not keep every text"""
        if path in self.prog.bodies:
            return None
        n = path.rsplit("::", 1)[-1]
        v = self.deref(st, self.fix(st, args[0])) if args else TOP
        if v[0] == "xf" and (n in self.XPASS or n in self.XFORM):
            return [(st, v)]
        if n in self.XFORM and (v[0] == "src" or v[0] == "s" and self.exact(st, v) is None and n in ("replace", "replacen")):
            return [(st, ("xf", n))]
        return None

    def call(self, st, path, c, args, t):
        h = self.hooks.get(path)
        if h is not None:
            r = h(self, st, args)
            if r is not None:
                return r
        b = self.prog.bodies.get(path)
        if b is not None and b.d.get("derived") and path.rsplit("::", 1)[-1] == "clone" and len(args) == 1:
            return [(st, self.fix(st, self.deref(st, args[0])))]
        if b is not None and path not in self.opaque:
            r = self.local_call(b, args, st)
            if r is not None:
                return r
            return self.unknown_call(st, path, args)
        if c and c.get("ctor"):
            return [(st, ("adt", c.get("adt"), c.get("vi") or 0, tuple(args)))]
        from . import tmodels
        m = tmodels.find(path)
        if m is not None:
            self.T_args = t
            if self.tape is not None and self.tape.kind == "S":
                r = self.changed(st, path, args)
                if r is not None:
                    return r
            unk = self.tape is not None and any(self.deref(st, a) == TOP for a in args)
            r = m(self, st, path, c, args, t)
            if r is not None:
                if unk and len(r) > 1:
                    r = [(s.copy(), v) for s, v in r]
                    for s, v in r:
                        s.cons["~doubt"] = 1
                return r
        elif self.tape is not None and self.tape.kind == "S":
            r = self.changed(st, path, args)
            if r is not None:
                return r
        return self.unknown_call(st, path, args)

    def tapeish(self, v):
        return v[0] in ("p", "s", "hom", "pc", "homc", "trimp") or any(
            isinstance(x, tuple) and ((x and isinstance(x[0], str) and self.tapeish(x)) or
                                      any(isinstance(y, tuple) and y and isinstance(y[0], str) and self.tapeish(y) for y in x)) for x in v[1:])

    def int_piece(self, l):
        pc = self.tape.pieces[int(l[1][4:])]
        return l[0] == "lang" and bool(pc[2]) and pc[2][0] == "int"

    def ret_is_string(self, b):
        return self.Tys[b.locals[0]]["s"] == "alloc::string::String"

    def is_blur(self, st, v):
        v = self.deref(st, v)
        if v[0] == "adt":
            return any(self.is_blur(st, x) for x in v[3])
        l = self.lang_of(st, v) if v[0] == "s" else None
        return l is not None and l[0] in ("lang", "hom") and self.tape.pieces[int(l[1][4:])][5:] in [(n,) for n in self.blur]

    def local_call(self, b, args, st):
        # building text from symbolic values: one application, analysed by itself
        if self.tape is None and not getattr(self, "jsonq", False) and self.stack and self.ret_is_string(b) and not any(a[0] == "ref" for a in args) and b.id not in self.hooks:
            args2 = tuple(self.freeze(st, self.deref(st, a)) for a in args)
            self.shared.setdefault("apps", {})[(b.id, args2)] = None
            return [(st, ("app", b.id, args2))]
        pure = not any(a[0] == "ref" for a in args)
        pieces = [(i, self.lang_of(st, self.deref(st, a))) for i, a in enumerate(args)]
        pieces = [(i, p) for i, p in pieces if p is not None]
        if self.blur and self.stack and any(self.is_blur(st, a) for a in args):
            self.blurred.append((b.id, tuple(args)))
            return None
        if self.tape is not None and self.tape.kind == "S" and pure and len(pieces) == 1 and pieces[0][1][0] in ("lang", "hom") \
                and not self.int_piece(pieces[0][1]):
            r = self.try_summary(b, args, st, pieces[0])
            if r is not None and not any(lossy(v) for s, v in r):
                return r
        if self.tape is None and pure and len(pieces) == 1:
            try:
                return self.call_body(b, args, st)
            except (NeedScan, Opaque):
                r = self.try_summary(b, args, st, pieces[0])
                if r is not None:
                    return r
                if self.stack:
                    raise NeedScan(None, b.id)
                return None
        try:
            return self.call_body(b, args, st)
        except Opaque:
            return None
        except Unsupported as e:
            if pure and self.stack and self.tape is not None and self.tape.kind == "R" and self.mode_t is None and len(pieces) == 1 \
                    and pieces[0][1][0] == "tape":
                r = self.try_summary(b, args, st, pieces[0])
                if r is not None:
                    return r
            if pure and self.stack and self.tape is not None:
                self.shared["notes"].add("%s left uninterpreted: %s" % (b.id.split("::")[-1], e))
                return None
            raise

    # ---------------------------------------------------------------- languages of whole values
    def lang_of(self, st, v):
        """('lang', constraint name) / ('hom', name, hom, constraint) when the value is exactly one whole text"""
        v = self.fix(st, v)
        if v[0] == "p":
            return ("lang", v[1])
        if v[0] == "hom":
            return ("hom", v[1], v[2])
        if v[0] == "s" and self.tape is not None:
            if self.tape.kind == "R":
                if v[1] == START and v[2] == END:
                    return ("tape", "~tape")
                return None
            o = self.exact(st, v)
            if o is not None:
                pc = self.tape.pieces[o]
                if pc[0] == "lang":
                    return ("lang", "own:%d" % o)
                if pc[0] == "hom":
                    return ("hom", "own:%d" % o, pc[2])
        return None

    def exact(self, st, v):
        """the piece a slice covers exactly, if any"""
        a, b = v[1], v[2]
        if a == END or a not in st.toks:
            return None
        na = st.toks[a][0]
        nb = "END" if b == END or st.toks[b][1] == "END" and b != START else st.toks[b][0]
        for o, pc in enumerate(self.tape.pieces):
            if pc and pc[3] == na and (pc[4] == nb or nb == "END" and pc[4] in self.tape.accs and len(self.tape.accs) == 1):
                if not self.tape.nodes[na].cyc:
                    return o
        return None

    def cons_dfa(self, st, name):
        d = st.cons.get(name)
        if d is not None:
            return d
        if name.startswith("own:"):
            return self.tape.pieces[int(name[4:])][1]
        return UNIV

    def split_lang(self, st, name, dfa):
        """fork on the text being in the language: list of (st, bool)"""
        if name == "~tape" and st.cons.get("~trim"):
            pass
        cur = self.cons_dfa(st, name)
        if name == "~tape" and st.cons.get("~trim"):
            cur = cur & TRIMS[st.cons["~trim"]]
        a, b = cur & dfa, cur - dfa
        out = []
        if not a.empty():
            s = st.copy()
            s.cons[name] = a
            out.append((s, True))
        if not b.empty():
            s = st.copy()
            s.cons[name] = b
            out.append((s, False))
        return out

    def pred_lang(self, st, v, dfa):
        l = self.lang_of(st, v)
        if l is None or l[0] == "hom":
            return None
        return self.split_lang(st, l[1], dfa)

    def freeze(self, st, v):
        """values put into built text keep what is known about them now"""
        v = self.fix(st, v)
        if v[0] == "p":
            return ("pc", v[1], self.cons_dfa(st, v[1]))
        if v[0] == "hom":
            return ("homc", v[1], v[2], self.cons_dfa(st, v[1]))
        if v[0] == "numi":
            return ("numic", v[1], v[2], self.keeps(st, v), "~doubt" in st.cons)
        if v[0] == "num":
            return ("numc", v[1], st.cons.get("#" + v[1], frozenset()))
        if v[0] == "adt":
            return v[:3] + (tuple(self.freeze(st, x) for x in v[3]),)
        if v[0] in ("tup", "arr"):
            return (v[0], tuple(self.freeze(st, x) for x in v[1]))
        if v[0] == "ref":
            return self.freeze(st, self.load(st, v))
        return v

    # ---------------------------------------------------------------- summaries of functions of one string
    def try_summary(self, b, args, st, piece):
        i, l = piece
        others = tuple(self.deref(st, a) for j, a in enumerate(args) if j != i)
        if any(o[0] not in ("int", "str", "float") for o in others):
            return None
        if l[0] == "hom":
            k = (b.id, i, others, "verify", l[2])
            if k not in self.shared["sum"]:
                self.shared["sum"][k] = self.verify(b, i, args, st, l[2])
            r = self.shared["sum"][k]
            if r is None:
                return None
            w, = r
            nm = l[1]
            return [(st, self.subst_out(w, ("src", nm)))]
        k = (b.id, i, others)
        if k not in self.shared["sum"]:
            self.shared["sum"][k] = self.summarise(b, i, args, st)
        sm = self.shared["sum"][k]
        if sm is None:
            return None
        out = []
        cur = self.cons_dfa(st, l[1])
        fin = self.known_number(st, l[1])
        for o in sm:
            if fin and o.assume.get("fin") is False or fin and o.assume.get("nan") is True:
                continue
            d = cur & o.dfa
            if d.empty():
                continue
            s = st.copy()
            s.cons[l[1]] = d
            if l[1] == "~tape":
                for a, x in o.assume.items():
                    s.cons["~assume:" + a] = x
            out.append((s, self.subst_out(o.val, ("p", l[1]) if not l[1].startswith(("own:", "~tape")) else self.fix(s, self.deref(s, args[i])))))
        return out

    def known_number(self, st, name):
        if name.startswith("own:"):
            pc = self.tape.pieces[int(name[4:])]
            return pc[2] is not None and pc[2][0] == "num"
        return False

    def subst_out(self, v, x):
        if v == ("whole",):
            return x
        if v[0] == "homof":
            return ("hom", x[1], v[1]) if x[0] == "p" else TOP
        if v[0] == "adt":
            return v[:3] + (tuple(self.subst_out(y, x) for y in v[3]),)
        if v[0] in ("tup", "arr"):
            return (v[0], tuple(self.subst_out(y, x) for y in v[1]))
        return v

    def sub_exec(self, P, **k):
        e = Exec(self.prog, self.rtape(), P=P, shared=self.shared, limit=k.pop("limit", self.shared.get("sumlimit", 12000)), hooks=self.hooks, opaque=self.opaque, **k)
        e.stack = ()
        return e

    def rtape(self):
        t = Tape("R")
        t.finish()
        t.accs = set()
        return t

    def summarise(self, b, i, args, st):
        """outcomes of b on every string (other arguments as given), or None"""
        for mode in (("extract", None) if self.ret_is_string(b) else (None,)):
            P = [L.ALL]
            pres = [None]
            for _ in range(40):
                try:
                    r, outs = True, {}
                    for pre in pres:
                        e = self.sub_exec(P)
                        e.mode_t = mode
                        e.summarising = True
                        r = e.run_r(b, i, args, st, pre)
                        if r is None:
                            break
                        for o in r:
                            k = (o.val, tuple(sorted(o.assume.items())))
                            outs[k] = Outcome(o.val, o.dfa | outs[k].dfa, o.assume) if k in outs else o
                    if r is not None:
                        return list(outs.values())
                    break
                except TrimSplit as ts:
                    if pres != [None] or mode is not None:
                        self.shared["notes"].add("%s not summarised (%s): trim after reading" % (b.id.split("::")[-1], mode or "recogniser"))
                        break
                    pres = [("in", ts.kind), ("out", ts.kind)]
                except Split as sp:
                    P = refineP(P, sp.mask)
                except (Unsupported, Opaque, NeedScan) as x:
                    self.shared["notes"].add("%s not summarised (%s): %s" % (b.id.split("::")[-1], mode or "recogniser", x))
                    break
        return None

    def run_r(self, b, i, args, st0, pre=None):
        st = self.start_state()
        if pre is not None:
            d = TRIMS[pre[1]]
            st.cons["~tape"] = d if pre[0] == "in" else d.comp()
            st.cons["~untrim"] = pre[1] if pre[0] == "out" else None
        a = list(args)
        a[i] = ("s", START, END)
        a = [self.deref(st0, x) if j != i else x for j, x in enumerate(a)]
        if self.mode_t == "extract":
            st.expect = ("T", 0, ())
        start = ("start",)
        st.origin = (start, "EPS")
        res = self.call_body(b, a, st)
        fin = {}
        for n, (s, v) in enumerate(res):
            if s.cells.get("~front", ("s", START, START))[1] == END:
                ended = True
            else:
                ended = False
            v = self.outval(s, v)
            if v is None:
                return None
            if self.mode_t == "extract":
                if not ended:
                    return None
                self.hom.setdefault(s.expect[1], set()).add(s.expect[2])
            node = ("fin", n)
            self.rec_edge(s, node)
            cons = s.cons.get("~tape", UNIV)
            assume = tuple(sorted((k[8:], x) for k, x in s.cons.items() if k.startswith("~assume:")))
            fin.setdefault((v, assume, cons, s.cons.get("~trim"), s.cons.get("~tape0", UNIV)), []).append((node, ended))
        outs = {}
        for (v, assume, cons, trim, outer), nodes in fin.items():
            d = self.language(start, [n for n, e in nodes if e], [n for n, e in nodes if not e])
            d = d & cons
            if trim:
                d = pad(d & TRIMS[trim], trim) & outer
            k = (v, assume)
            outs[k] = outs[k] | d if k in outs else d
        if self.mode_t == "extract":
            hom = {}
            for p, ws in self.hom.items():
                if p == 0:
                    if ws - {()}:
                        return None
                    continue
                if len(ws) != 1:
                    return None
                hom[p] = next(iter(ws))
            hid = tuple(sorted(hom.items()))
            nouts = []
            for (v, assume), d in outs.items():
                if v != ("out",):
                    return None
                nouts.append(Outcome(("homof", hid), d, dict(assume)))
            return nouts
        return [Outcome(v, d, dict(assume)) for (v, assume), d in outs.items() if not d.empty()]

    def outval(self, s, v):
        """values an outcome may carry"""
        if self.mode_t and v == ("str", ""):
            return ("out",)
        if v[0] in ("int", "str", "float", "top", "ge"):
            return v
        if v == ("untr",):
            return ("whole",)
        if v[0] == "s":
            if v[1] == START and v[2] == END and not s.cons.get("~trim"):
                return ("whole",)
            return TOP
        if v == ("out",):
            return v
        if v[0] == "adt":
            fs = tuple(self.outval(s, x) for x in v[3])
            return None if None in fs else v[:3] + (fs,)
        if v[0] == "tup":
            fs = tuple(self.outval(s, x) for x in v[1])
            return None if None in fs else ("tup", fs)
        return TOP

    def language(self, start, ended, open_):
        """automaton of the recorded exploration"""
        # eliminate EPS edges; letter edges carry masks; END edges lead to states that have seen the end
        eps = {}
        edges = {}
        for n, es in self.edges.items():
            for sym, m_ in es:
                if sym == "EPS":
                    eps.setdefault(n, set()).add(m_)

        def clo(n):
            seen, w = {n}, [n]
            while w:
                x = w.pop()
                for y in eps.get(x, ()):
                    if y not in seen:
                        seen.add(y)
                        w.append(y)
            return seen
        idx = {start: 0}
        order = [start]
        E = {}
        final, anyf = [], []
        eset, oset = set(ended), set(open_)
        endc = {}
        for n in order:
            c = clo(n)
            es = []
            for x in c:
                for sym, y in self.edges.get(x, ()):
                    if sym == "EPS":
                        continue
                    if sym == "END":
                        if y not in endc:
                            endc[y] = clo(y)
                        if endc[y] & eset:
                            final.append(idx[n])
                        continue
                    if y not in idx:
                        idx[y] = len(order)
                        order.append(y)
                    es.append((sym, idx[y]))
            E[idx[n]] = es
            if c & oset:
                anyf.append(idx[n])
            if c & eset:
                final.append(idx[n])
        return from_nfa(0, E, final, anyf)

    # verify: the output over the expanded text is exactly the source
    def verify(self, b, i, args, st, hid):
        """b applied to hom(w) for every w returns a value holding exactly w: the value with ('whole',), as a 1-tuple, or None"""
        P = [L.ALL]
        for p, w in hid:
            P = refineP(P, p)
        classes = {}
        for _ in range(40):
            units = {}
            for p in P:
                for q, w in hid:
                    if p & q:
                        if p & ~q:
                            break
                        units[p] = w
            e = self.sub_exec(P, units=lambda p: units[p])
            e.mode_t = "verify"
            e.summarising = True
            try:
                s0 = e.start_state()
                s0.expect = ()
                s0.origin = (("start",), "EPS")
                a = list(args)
                a[i] = ("s", START, END)
                a = [e.deref(st, x) if j != i else x for j, x in enumerate(a)]
                vals = set()
                for s, v in e.call_body(b, a, s0):
                    if s.expect:
                        return None
                    if s.cells.get("~front", ("s", START, START))[1] != END:
                        return None
                    v = e.outval(s, v)
                    vals.add(v)
                if len(vals) != 1:
                    return None
                v = next(iter(vals))
                return (self.out2whole(v),) if v is not None and "out" in repr(v) else None
            except Split as sp:
                P = refineP(P, sp.mask)
            except (Unsupported, Opaque, NeedScan, TrimSplit) as x:
                self.shared["notes"].add("%s not verified as the inverse: %s" % (b.id.split("::")[-1], x))
                return None
        return None

    def out2whole(self, v):
        if v == ("out",):
            return ("whole",)
        if v[0] == "adt":
            return v[:3] + (tuple(self.out2whole(x) for x in v[3]),)
        return v

    def summarise_cats(self, st):
        for k, v in st.cells.items():
            if v[0] == "cat":
                st.cells[k] = norm_cat(v[1])


UNIV = L.universal()
TRIMMED = L.trimmed()


class TrimSplit(Exception):
    """texts that trimming changes and those it does not have to be looked at separately"""

    def __init__(self, kind):
        self.kind = kind


TRIMS = {"trim": TRIMMED, "trim_start": L.starts(L.WS).comp(), "trim_end": L.ends(L.WS).comp()}


def lossy(v):
    """a result in which something is unknown (errors aside)"""
    if v[0] in ("top", "any"):
        return True
    if v[0] == "adt":
        return not (v[1] == RES and v[2] == 1) and any(lossy(x) for x in v[3])
    if v[0] in ("tup", "arr"):
        return any(lossy(x) for x in v[1])
    return False


def shift_lins(v, adj):
    """positions written as `token + k` move to the token k letters on, as far as the letters between are known"""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == "lin":
        if v[2] <= 0:
            return v
        pos = [t for t, c in v[1] if c == 1]
        if len(pos) != 1 or pos[0] not in adj:
            return v
        d = dict(v[1])
        t, k = pos[0], v[2]
        while k > 0 and t in adj:
            del d[t]
            t = adj[t]
            d[t] = d.get(t, 0) + 1
            d = {x: c for x, c in d.items() if c}
            k -= 1
            if d.get(t) != 1:
                break
        return mklin(d, k, v[3])
    new = tuple(shift_lins(x, adj) for x in v)
    return new if any(a is not b for a, b in zip(new, v)) else v


def pad(d, kind="trim"):
    """white space, a word of d, white space"""
    n = len(d.tr)
    E = {i: [(x, t) for x, t in d.tr[i]] for i in range(n)}
    E[n] = ([(L.WS, n)] if kind != "trim_end" else []) + [(x, t) for x, t in d.tr[0]]
    fin = list(d.acc)
    if kind == "trim_start":
        return from_nfa(n, E, fin + ([n] if 0 in d.acc else []))
    E[n + 1] = [(L.WS, n + 1)]
    for i in d.acc:
        E[i] = E[i] + [(L.WS, n + 1)]
    if 0 in d.acc:
        fin.append(n)
    return from_nfa(n, E, fin + [n + 1])


def refineP(P, mask):
    out = []
    for p in P:
        if p & mask:
            out.append(p & mask)
        if p & ~mask:
            out.append(p & ~mask)
    return out


def norm_cat(items):
    """normal form of built text: constants merged, repetitions folded"""
    out = []
    for x in items:
        if x[0] == "cat":
            for y in x[1]:
                out.append(y)
        elif x == ("str", ""):
            continue
        else:
            out.append(x)
    if sum(1 for x in out if x == ("any",)) > 1:
        # arbitrary text with anything in between is arbitrary text
        i = out.index(("any",))
        j = len(out) - 1 - out[::-1].index(("any",))
        out[i:j + 1] = [("any",)]
    # fold E S E S E ... into a star, and runs of one character
    ch = True
    while ch:
        ch = False
        for i in range(len(out)):
            x = out[i]
            if x[0] == "str" and i + 1 < len(out) and out[i + 1][0] == "str":
                out[i:i + 2] = [("str", x[1] + out[i + 1][1])]
                ch = True
                break
            if x[0] == "rep" and i + 1 < len(out) and out[i + 1] in (("str", x[1]), x):
                out[i:i + 2] = [x]
                ch = True
                break
            if x[0] == "str" and x[1] == "  " and len(set(x[1])) == 1:
                out[i] = ("rep", x[1][0])
                ch = True
                break
            if x[0] == "str" and i + 1 < len(out) and out[i + 1] == ("rep", x[1]):
                out[i:i + 2] = [out[i + 1]]
                ch = True
                break
            if i + 2 < len(out) and x[0] in ("app",) and out[i + 2] == x and out[i + 1][0] == "str":
                out[i:i + 3] = [("star", x, out[i + 1])]
                ch = True
                break
            if x[0] == "star" and i + 2 < len(out) and out[i + 1] == x[2] and out[i + 2] == x[1]:
                out[i:i + 3] = [x]
                ch = True
                break
    if not out:
        return ("str", "")
    if len(out) == 1:
        return out[0]
    return ("cat", tuple(out))
