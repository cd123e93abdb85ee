"""Abstract interpreter for text-handling code over regular input languages.

A *tape* is an arbitrary word of a regular language given as an automaton; positions in it are tokens, each at one
automaton node, whose letter is chosen when the code looks at it.  The interpreter explores the MIR of the functions under
all words at once (its state space is finite: positions are automaton nodes plus known adjacency and order).

Modes:
 * structured ("S"): the tape is a line the encoder can produce, built from named pieces; results are slices of the tape,
   compared with the pieces they should be.
 * recording ("R"): the tape is an arbitrary string read front to back; the exploration yields the automaton of the words
   on which each result is returned (recogniser), or the output written per letter (transducer).
"""
import itertools

from . import lang as L

START, END = "S", "E"
TOP = ("top",)
UNIT = ("tup", ())
CAP = 3
OPT = "core::option::Option"
RES = "core::result::Result"
NONE = ("adt", OPT, 0, ())


def some(v):
    return ("adt", OPT, 1, (v,))


def ok(v):
    return ("adt", RES, 0, (v,))


def err(v=TOP):
    return ("adt", RES, 1, (v,))


def intv(n):
    return ("int", n)


def s_const(s):
    return ("str", s)


def symarith(op, a, b):
    """sums of a named integer and a constant, products of named integers"""
    def p(x):
        return (x[1], 0) if x[0] == "symint" else (x[1], x[2]) if x[0] == "symadd" else (None, x[1]) if x[0] == "int" else None
    x, y = p(a), p(b)
    if x is not None and y is not None and op in ("Add", "Sub", "Mul"):
        if op == "Mul":
            return ("symmul",) + tuple(sorted([a, b], key=repr))
        if op == "Sub":
            y = (y[0], -y[1])
            if y[0] is not None:
                return ("top",)
        if (x[0] is None) != (y[0] is None) and x[1] + y[1] >= 0:
            n, k = x[0] or y[0], x[1] + y[1]
            return ("symadd", n, k) if k else ("symint", n)
    return ("top",)


class Unsupported(Exception):
    pass


class NeedScan(Exception):
    def __init__(self, piece, why):
        self.piece = piece
        self.why = why


class Split(Exception):
    def __init__(self, mask):
        self.mask = mask


class Node:
    __slots__ = ("tr", "acc", "prev", "cyc", "inm", "preds")

    def __init__(self):
        self.tr = []       # (mask, target, owner)
        self.acc = False
        self.prev = set()  # owners of the letter before this node
        self.cyc = False
        self.preds = []    # (mask, source, owner)


class Tape:
    """automaton + bookkeeping; nodes[0] is the start"""

    def __init__(self, kind="S"):
        self.kind = kind
        self.nodes = [Node()]
        self.start = 0
        self.pieces = []       # descriptions, index = owner

    def add(self):
        self.nodes.append(Node())
        return len(self.nodes) - 1

    def finish(self):
        # prune nodes from which no accepting node is reachable
        N = self.nodes
        good = {i for i, n in enumerate(N) if n.acc}
        ch = True
        while ch:
            ch = False
            for i, n in enumerate(N):
                if i not in good and any(t in good for _, t, _ in n.tr):
                    good.add(i)
                    ch = True
        for n in N:
            n.tr = [(x, t, o) for x, t, o in n.tr if t in good and x]
        self.reach = []
        for i in range(len(N)):
            seen, w = set(), [t for _, t, _ in N[i].tr]
            while w:
                x = w.pop()
                if x not in seen:
                    seen.add(x)
                    w += [t for _, t, _ in N[x].tr]
            self.reach.append(seen)
        for i, n in enumerate(N):
            n.cyc = i in self.reach[i]
        N[0].prev.add(-1)
        for i, n in enumerate(N):
            for x, t, o in n.tr:
                N[t].prev.add(o)
                N[t].preds.append((x, i, o))
        for n in N:
            n.inm = 0
            for x, _, _ in n.preds:
                n.inm |= x
        return self


class St:
    __slots__ = ("cells", "toks", "adj", "adjb", "lt", "cons", "origin", "expect", "trace", "base", "marks", "fwd")

    def __init__(self):
        self.cells = {}
        self.toks = {}
        self.adj = {}
        self.adjb = {}
        self.lt = set()
        self.cons = {}
        self.origin = None
        self.expect = ()
        self.trace = ()
        self.base = START
        self.marks = frozenset()
        self.fwd = {}

    def copy(self):
        s = St()
        s.cells = dict(self.cells)
        s.toks = dict(self.toks)
        s.adj = dict(self.adj)
        s.adjb = dict(self.adjb)
        s.lt = set(self.lt)
        s.cons = dict(self.cons)
        s.origin = self.origin
        s.expect = self.expect
        s.trace = self.trace
        s.base = self.base
        s.marks = self.marks
        s.fwd = dict(self.fwd)
        return s


def walk_toks(v, out):
    k = v[0]
    if k == "s":
        out.append(v[1])
        out.append(v[2])
    elif k == "ch":
        out.append(v[1])
    elif k == "lin":
        out += [t for t, _ in v[1]]
    elif k == "sl":
        out.append(v[1])
        out.append(v[2])
    else:
        for x in v[1:]:
            if isinstance(x, tuple) and x:
                if isinstance(x[0], str):
                    walk_toks(x, out)
                else:
                    for y in x:
                        if isinstance(y, tuple) and y and isinstance(y[0], str):
                            walk_toks(y, out)
                        elif isinstance(y, tuple):
                            walk_toks(("tup", y), out)


def map_toks(v, f):
    k = v[0]
    if k in ("s", "sl"):
        return (k, f(v[1]), f(v[2])) + v[3:]
    if k == "ch":
        return (k, f(v[1])) + v[2:]
    if k == "lin":
        d = {}
        for t, c in v[1]:
            t = f(t)
            d[t] = d.get(t, 0) + c
        return mklin(d, v[2], v[3])
    out = [k]
    for x in v[1:]:
        out.append(_mt(x, f))
    return tuple(out)


def _mt(x, f):
    if isinstance(x, tuple) and x:
        if isinstance(x[0], str):
            return map_toks(x, f)
        return tuple(_mt(y, f) for y in x)
    return x


def mklin(d, k, lo=0):
    d = {t: c for t, c in d.items() if c}
    if not d:
        return ("int", k)
    return ("lin", tuple(sorted(d.items(), key=lambda p: (str(type(p[0])), str(p[0])))), k, lo)


def lin_of(v):
    if v[0] == "int":
        return {}, v[1], v[1]
    if v[0] == "lin":
        return dict(v[1]), v[2], v[3]
    return None


def _hastok(v):
    """cheap: does the value mention tape positions"""
    o = []
    walk_toks(v, o)
    return bool(o)


class Lst:
    """a list of arbitrary length whose elements are described by one generic element"""


class Interp:
    def __init__(self, prog, tape=None, P=None, units=None, limit=60000, opaque=(), hooks=None):
        self.prog = prog
        self.T = prog.types
        self.tape = tape
        self.P = P or [L.ALL]
        self.units = units            # R mode: letter class -> list of ("copy",) / mask
        self.limit = limit
        self.nstates = 0
        self.ntok = 0
        self.edges = {}
        self.finals = []
        self.hom = {}
        self.pc = None
        self.opaque = set(opaque)
        self.hooks = hooks or {}
        self.mode_t = None            # "extract" / "verify" for transducers
        self.covered = set()
        self.unknown = {}
        self.maxint = 0

    # ------------------------------------------------------------------ tokens
    def newtok(self, st, node, sym=None):
        self.ntok += 1
        t = self.ntok
        st.toks[t] = (node, sym)
        return t

    def node(self, st, t):
        return st.toks[t][0]

    def init_tape(self, st):
        tp = self.tape
        st.toks[END] = (None, "END")
        if tp.kind == "R":
            st.toks[START] = (0, None)
            st.cells["~front"] = ("s", START, START)
        else:
            st.toks[START] = (tp.start, None)

    def rename(self, st, a, b):
        """positions a and b are the same"""
        f = lambda t: b if t == a else t
        for k, v in st.cells.items():
            o = []
            walk_toks(v, o)
            if a in o:
                st.cells[k] = map_toks(v, f)
        st.expect = _mt(st.expect, f)
        st.base = f(st.base)
        lt = set()
        for x, y in st.lt:
            x, y = f(x), f(y)
            if x == y:
                return False
            lt.add((x, y))
        st.lt = lt
        for d in (st.adj, st.adjb):
            if a in d:
                t = d.pop(a)
                if b not in d:
                    d[b] = f(t)
            for x in list(d):
                d[x] = f(d[x])
        st.toks.pop(a, None)
        self.ren = (a, b)
        return True

    def add_lt(self, st, a, b):
        below = {x for x, y in st.lt if y == a} | {a}
        above = {y for x, y in st.lt if x == b} | {b}
        for x in below:
            for y in above:
                if x == y:
                    return False
                st.lt.add((x, y))
        return True

    def know(self, st, t):
        """choose the letter at t: list of (state, token) with the letter known (token may have become END)"""
        node, sym = st.toks[t]
        if sym is not None:
            return [(st, t)]
        tp = self.tape
        out = []
        if tp.kind == "R":
            fr = st.cells["~front"][1]
            if t != fr:
                raise Unsupported("a position far behind the reading position is read again")
            n0 = self.rec_here(st)
            for p in self.P + ["END"]:
                s = st.copy()
                s.origin = (n0, p)
                if p == "END":
                    if self.mode_t and not self.t_extend(s, None):
                        continue
                    if not self.rename(s, t, END):
                        continue
                    if START not in s.toks:
                        s.toks[START] = (0, "END")
                    s.cells["~front"] = ("s", END, END)
                    out.append((s, END))
                    continue
                word = self.units(p) if self.units else [("copy",)]
                cur = t
                ok_ = True
                if self.mode_t:
                    if not self.t_extend(s, p):
                        continue
                first = t
                for i, w in enumerate(word):
                    s.toks[cur] = (0, (p if w == ("copy",) else w, None, "copy" if w == ("copy",) else "esc"))
                    nt = self.newtok(s, 0)
                    for x in list(s.toks):
                        if x != nt and x != END:
                            s.lt.add((x, nt))
                    s.adj[cur] = nt
                    if not (s.toks[cur][1][0] & L.NONASCII):
                        s.adjb[cur] = nt
                    cur = nt
                s.cells["~front"] = ("s", cur, cur)
                if self.mode_t == "verify":
                    s.expect = s.expect + ((("tok", ("s", first, first)) if list(word) == [("copy",)] else ("mask", p)),)
                    if len(s.expect) > 4:
                        raise Unsupported("output lags the input by an unbounded amount")
                out.append((s, first))
            return out
        n = tp.nodes[node]
        groups = {}
        for x, tg, o in n.tr:
            groups[(tg, o)] = groups.get((tg, o), 0) | x
        for (tg, o), x in groups.items():
            s = st.copy()
            s.toks[t] = (node, (x, tg, o))
            out.append((s, t))
        if n.acc and not any(a == t and b != END for a, b in st.lt):
            s = st.copy()
            if t == START:
                s.toks[START] = (node, "END")
                if self.rename_end_start(s):
                    out.append((s, START))
            elif self.rename(s, t, END):
                out.append((s, END))
        return out

    def rename_end_start(self, s):
        # the empty word: START is END
        for k, v in s.cells.items():
            s.cells[k] = map_toks(v, lambda t: START if t == END else t)
        return not s.lt

    def t_extend(self, s, p):
        if self.mode_t == "extract":
            # s.expect = ("T", last class, outputs)
            last, outp = s.expect[1], s.expect[2]
            self.hom.setdefault(last, set()).add(outp)
            s.expect = ("T", p if p is not None else 0, ())
        return True

    def rec_here(self, st):
        n = ("x", self.pc, self.key(st))
        self.rec_edge(st, n)
        return n

    def rec_edge(self, st, n):
        if st.origin is not None:
            self.edges.setdefault(st.origin[0], set()).add((st.origin[1], n))

    def ends(self, st, t):
        """is t at the end? list of (state, token, bool)"""
        return [(s, u, s.toks[u][1] == "END") for s, u in self.know(st, t)]

    def mask_of(self, st, t):
        sym = st.toks[t][1]
        if sym == "END":
            return 0
        return sym[0]

    def refine(self, st, t, mask):
        """split on the letter at t being in mask: list of (state, bool)"""
        node, sym = st.toks[t]
        if sym == "END":
            return [(st, False)]
        x = sym[0]
        if x == "IN":
            raise Unsupported("a letter inside a skipped part of the text")
        if x & mask == x:
            return [(st, True)]
        if not x & mask:
            return [(st, False)]
        if self.tape.kind == "R":
            raise Split(mask)
        a, b = st.copy(), st.copy()
        a.toks[t] = (node, (x & mask,) + sym[1:])
        b.toks[t] = (node, (x & ~mask,) + sym[1:])
        return [(a, True), (b, False)]

    def succ(self, st, t, how="b"):
        """position after the letter at t: list of (state, token)"""
        out = []
        for s, u in self.know(st, t):
            node, sym = s.toks[u]
            if sym == "END":
                continue   # past the end: the code would have panicked
            d = s.adj if how == "c" else s.adjb
            if u in d:
                out.append((s, d[u]))
                continue
            if sym[0] == "IN" and self.tape.kind == "R":
                a = s.copy()
                end = a.adj.get(u)
                if end is None or end not in a.toks:
                    raise Unsupported("a position far behind the reading position is stepped again")
                nt = self.newtok(a, 0, sym)
                self.order_new(a, u, nt)
                a.lt.add((nt, end))
                a.adj[nt] = end
                out += [(a, nt), (s, end)]
                continue
            if sym[0] == "IN":
                # inside a multi-byte character
                a = s.copy()
                nt = self.newtok(a, node, sym)
                self.order_new(a, u, nt)
                out.append((a, nt))
                out += self.step(s, u, sym[1], "b")
                continue
            if how == "b" and sym[0] & L.NONASCII:
                if sym[0] & L.ASCII:
                    for s2, isa in self.refine(s, u, L.ASCII):
                        out += self.succ(s2, u, how)
                    continue
                a = s.copy()
                if self.tape.kind == "R":
                    end = a.adj.get(u)
                    if end is None or end not in a.toks:
                        raise Unsupported("a position far behind the reading position is stepped again")
                    nt = self.newtok(a, 0, ("IN", None, None))
                    self.order_new(a, u, nt)
                    a.lt.add((nt, end))
                    a.adj[nt] = end
                    a.adjb[u] = nt
                    out.append((a, nt))
                    continue
                nt = self.newtok(a, node, ("IN", sym[1], sym[2]))
                self.order_new(a, u, nt)
                a.adjb[u] = nt
                out.append((a, nt))
                continue
            if self.tape.kind == "R":
                raise Unsupported("a position far behind the reading position is stepped again")
            out += self.step(s, u, sym[1], how)
        return out

    def order_new(self, st, u, nt):
        for x, y in list(st.lt):
            if y == u:
                st.lt.add((x, nt))
        st.lt.add((u, nt))

    def step(self, s, u, tg, how):
        """new position at node tg right after u, unified with a known one where they coincide"""
        out = []
        s0 = s.copy()
        nt = self.newtok(s0, tg)
        self.order_new(s0, u, nt)

        def setadj(x, v):
            x.adj[u] = v
            x.adjb[u] = v
        setadj(s0, nt)
        nodecyc = self.tape.nodes[tg].cyc
        cands = [y for y, (n, sy) in s.toks.items() if n == tg and y not in (u, START) and not (sy and sy[0] == "IN")]
        if not nodecyc and cands:
            y = cands[0]
            s1 = s.copy()
            setadj(s1, y)
            if self.add_lt(s1, u, y):
                return [(s1, y)]
            return []
        later = [y for a, y in s.lt if a == u and y != END]
        rest = s0
        for y in later:
            if y in cands:
                s1 = s.copy()
                setadj(s1, y)
                # y is the very next position: nothing can lie between
                if not any((u, z) in s.lt and (z, y) in s.lt for z in later):
                    out.append((s1, y))
            if y not in s.toks:
                continue
            rest.lt.add((nt, y))
        ok_ = True
        for y in later:
            if y in s.toks:
                n = s.toks[y][0]
                if n is not None and n != tg and n not in self.tape.reach[tg]:
                    ok_ = False
                if n == tg and not nodecyc:
                    ok_ = False
        if ok_:
            out.append((rest, nt))
        return out

    def pred(self, st, t):
        """position before t: list of (state, token)"""
        for d in (st.adj,):
            for a, b in d.items():
                if b == t and a in st.toks:
                    return [(st, a)]
        out = []
        if t == START:
            return []
        if self.tape.kind == "R":
            raise Unsupported("stepping backwards")
        tp = self.tape
        n = st.toks[t][0]
        srcs = []
        if t == END or n is None:
            for i, nd in enumerate(tp.nodes):
                if nd.acc:
                    srcs += [(x, p, o, i) for x, p, o in nd.preds]
        else:
            srcs = [(x, p, o, n) for x, p, o in tp.nodes[n].preds]
        groups = {}
        for x, p, o, tgt in srcs:
            groups[(p, o, tgt)] = groups.get((p, o, tgt), 0) | x
        for (p, o, tgt), x in groups.items():
            s = st.copy()
            same = [y for y, (nn, sy) in s.toks.items() if nn == p]
            if not tp.nodes[p].cyc and same:
                y = same[0]
                sy = s.toks[y][1]
                if sy is None:
                    s.toks[y] = (p, (x, tgt, o))
                elif sy == "END" or sy[0] == "IN" or sy[1] != tgt or not sy[0] & x:
                    continue
                else:
                    s.toks[y] = (p, (sy[0] & x, tgt, o))
            else:
                y = self.newtok(s, p, (x, tgt, o))
                if p == tp.start and not tp.nodes[p].cyc:
                    y = START
            if t != END:
                if not self.add_lt(s, y, t):
                    continue
            s.adj[y] = t
            if not x & L.NONASCII:
                s.adjb[y] = t
            out.append((s, y))
        return out

    def order(self, st, a, b):
        """'<', '>', '=' or None"""
        if a == b:
            return "="
        if (a, b) in st.lt:
            return "<"
        if (b, a) in st.lt:
            return ">"
        if a == END or b == END:
            x, o = (b, ">") if a == END else (a, "<")
            if x not in st.toks:
                return None
            sy = st.toks[x][1]
            if sy == "END":
                return "="
            if sy is not None:
                return o
            if self.tape.kind == "S" and not self.tape.nodes[st.toks[x][0]].acc:
                return o
            return None
        if a not in st.toks or b not in st.toks:
            return None
        if self.tape.kind == "S":
            na, nb = st.toks[a][0], st.toks[b][0]
            R = self.tape.reach
            if na != nb:
                f, g = nb in R[na], na in R[nb]
                if f and not g:
                    return "<"
                if g and not f:
                    return ">"
            if a == START and na != nb and nb is not None:
                return "<"
            if b == START and na != nb and na is not None:
                return ">"
        return None

    def dist(self, st, a, b, n=24):
        """bytes from a to b when they are linked by known steps"""
        k, cur = 0, a
        while k <= n:
            if cur == b:
                return k
            if cur not in st.adjb:
                return None
            cur = st.adjb[cur]
            k += 1
        return None

    # ------------------------------------------------------------------ numbers
    def simplify(self, st, d, k):
        """cancel pairs of tokens at known distance"""
        ch = True
        while ch:
            ch = False
            pos = [t for t, c in d.items() if c > 0]
            neg = [t for t, c in d.items() if c < 0]
            for p in pos:
                for q in neg:
                    n = self.dist(st, q, p)
                    if n is None:
                        r = self.dist(st, p, q)
                        n = -r if r is not None else None
                    if n is not None:
                        k += n
                        d[p] -= 1
                        d[q] += 1
                        d = {t: c for t, c in d.items() if c}
                        ch = True
                        break
                if ch:
                    break
        return d, k

    def cmp3(self, st, a, b, depth=0):
        """sign of a - b: list of (state, sign)"""
        if a == b:
            return [(st, 0)]
        if a[0] == "ge" or b[0] == "ge" or a[0] not in ("int", "lin") or b[0] not in ("int", "lin"):
            la, ha = self.bounds(a)
            lb, hb = self.bounds(b)
            if la is not None and hb is not None and la > hb:
                return [(st, 1)]
            if ha is not None and lb is not None and ha < lb:
                return [(st, -1)]
            out = [(st, -1), (st, 0), (st, 1)]
            if la is not None and hb is not None and la == hb:
                out = [(st, 0), (st, 1)]
            elif ha is not None and lb is not None and ha == lb:
                out = [(st, -1), (st, 0)]
            return [(s.copy(), x) for s, x in out]
        da, ka, loa = lin_of(a)
        db, kb, lob = lin_of(b)
        d = dict(da)
        for t, c in db.items():
            d[t] = d.get(t, 0) - c
        d = {t: c for t, c in d.items() if c}
        d, k = self.simplify(st, d, ka - kb)
        if not d:
            return [(st, (k > 0) - (k < 0))]
        if len(d) == 2 and sorted(d.values()) == [-1, 1]:
            p = next(t for t, c in d.items() if c == 1)
            q = next(t for t, c in d.items() if c == -1)
            if k != 0:
                if not db and a[0] == "lin" and loa > kb:
                    return [(st, 1)]
                if not da and b[0] == "lin" and lob > ka:
                    return [(st, -1)]
            return self.cmp_pos(st, p, q, k)
        la, ha = self.bounds(a)
        lb, hb = self.bounds(b)
        if la is not None and hb is not None and la > hb:
            return [(st, 1)]
        if ha is not None and lb is not None and ha < lb:
            return [(st, -1)]
        return [(st.copy(), -1), (st.copy(), 0), (st.copy(), 1)]

    def cmp_pos(self, st, p, q, k, depth=0):
        """sign of p - q + k for positions p, q"""
        p, q = self._rt(st, p), self._rt(st, q)
        while k > 0 and p in st.adjb:
            p = st.adjb[p]
            k -= 1
        while k < 0 and q in st.adjb:
            q = st.adjb[q]
            k += 1
        if p == q:
            return [(st, (k > 0) - (k < 0))]
        o = self.order(st, p, q)
        if k == 0:
            if o is not None:
                return [(st, {"<": -1, "=": 0, ">": 1}[o])]
            if END in (p, q):
                x = q if p == END else p
                out = []
                for s, u in self.know(st, x):
                    e = s.toks[u][1] == "END"
                    out.append((s, 0 if e else (1 if p == END else -1)))
                return out
            out = []
            s = st.copy()
            if self.add_lt(s, p, q):
                out.append((s, -1))
            s = st.copy()
            if self.add_lt(s, q, p):
                out.append((s, 1))
            if self.tape.kind == "S" and st.toks[p][0] == st.toks[q][0]:
                s = st.copy()
                sp, sq = s.toks[p][1], s.toks[q][1]
                drop, keep = (q, p) if sp is not None and q != START else (p, q)
                if drop != START and self.rename(s, drop, keep):
                    out.append((s, 0))
                elif drop == START:
                    out.append((s, 0))
            return out
        if o == "=":
            return [(st, 1 if k > 0 else -1)]
        if o == ">" and k > 0:
            return [(st, 1)]
        if o == "<" and k < 0:
            return [(st, -1)]
        if depth > 12:
            return [(st.copy(), x) for x in (-1, 0, 1)]
        # p + k vs q: move the side that has the offset one byte forward
        src = p if k > 0 else q
        step = 1 if k > 0 else -1
        if self.tape.kind == "R" and src != st.cells["~front"][1] and st.toks[src][1] is None:
            return [(st.copy(), x) for x in (-1, 0, 1)]
        out = []
        for s, u in self.know(st, src):
            if s.toks[u][1] == "END":
                out.append((s, step))      # past the end
                continue
            try:
                nxt = self.succ(s, u)
            except Unsupported:
                out += [(s.copy(), x) for x in (-1, 0, 1)]
                continue
            for s2, v in nxt:
                s2 = s2 if s2 is not s else s.copy()
                s2.adjb.setdefault(u, v)
                if k > 0:
                    out += self.cmp_pos(s2, v, q, k - 1, depth + 1)
                else:
                    out += self.cmp_pos(s2, p, v, k + 1, depth + 1)
        return out

    def _ren(self, s, st, v):
        """value v of state st seen in its successor s (a token may have been identified with another)"""
        o = []
        walk_toks(v, o)
        m = {}
        for t in o:
            if t not in s.toks:
                m[t] = END if self.lastren(s, t) is None else self.lastren(s, t)
        return map_toks(v, lambda t: m.get(t, t)) if m else v

    def lastren(self, s, t):
        r = getattr(self, "ren", None)
        return r[1] if r and r[0] == t else None

    def bounds(self, v):
        if v[0] == "int":
            return v[1], v[1]
        if v[0] == "ge":
            return v[1], None
        if v[0] == "lin":
            return v[3], None
        if v[0] in ("len", "symint"):
            return 0, None
        return None, None

    def arith(self, st, op, a, b):
        """list of (state, value)"""
        if a[0] in ("symint", "symadd") or b[0] in ("symint", "symadd"):
            if op == "Sub" and a[0] == "symint" and b[0] == "int" and b[1] > 0 and getattr(self, "trilen", None):
                return [(st, ("symadd", a[1], -b[1]))]
            return [(st, symarith(op, a, b))]
        if op == "Add":
            if a[0] == "int" and b[0] == "int":
                n = a[1] + b[1]
                if n > getattr(self, "cap", CAP) and 0 <= a[1] <= getattr(self, "cap", CAP) and 0 < b[1] <= getattr(self, "cap", CAP):
                    # past the cap an integer is kept as a position of the text being read, when there is one
                    cur, stp = st.base, 0
                    while stp < n and cur in st.adjb:
                        cur = st.adjb[cur]
                        stp += 1
                    if self.tape is not None and st.base in st.toks and cur in st.toks:
                        if stp == n:
                            return [(st, mklin({cur: 1, st.base: -1} if cur != st.base else {}, 0, CAP))]
                        if stp >= a[1] and self.tape.kind == "S" and st.toks[cur][1] not in (None, "END"):
                            return self.normidx(st, {cur: 1, st.base: -1}, n - stp, CAP)
                        if stp >= a[1] and self.tape.kind == "S" and n - stp <= 2:
                            return [(st, mklin({cur: 1, st.base: -1}, n - stp, CAP))]
                    return [(st, ("ge", getattr(self, "cap", CAP) + 1))]
                return [(st, intv(n))]
            if a[0] == "ge" and b[0] in ("int", "ge"):
                return [(st, a)]
            if b[0] == "ge" and a[0] == "int":
                return [(st, b)]
            la, lb = lin_of(a), lin_of(b)
            if la and lb:
                d = dict(la[0])
                for t, c in lb[0].items():
                    d[t] = d.get(t, 0) + c
                lo = min(CAP, max(la[2], 0) + max(lb[2], 0))
                d = {t: c for t, c in d.items() if c}
                k = la[1] + lb[1]
                return self.normidx(st, d, k, lo)
            return [(st, TOP)]
        if op == "Sub":
            la, lb = lin_of(a), lin_of(b)
            if la and lb:
                d = dict(la[0])
                for t, c in lb[0].items():
                    d[t] = d.get(t, 0) - c
                d = {t: c for t, c in d.items() if c}
                d, k = self.simplify(st, d, la[1] - lb[1])
                return [(st, mklin(d, k, 0))]
            return [(st, TOP)]
        if a[0] == "int" and b[0] == "int":
            try:
                r = {"Mul": lambda: a[1] * b[1], "Div": lambda: a[1] // b[1], "Rem": lambda: a[1] % b[1]}[op]()
                return [(st, intv(r))]
            except Exception:
                pass
        return [(st, TOP)]

    def normidx(self, st, d, k, lo):
        """tok - base + k with k > 0: move the token forward where its next positions are known or readable"""
        pos = [t for t, c in d.items() if c == 1]
        if k > 0 and len(pos) == 1 and len(d) == 2 and pos[0] in st.toks:
            t = pos[0]
            while k > 0 and t in st.adjb:
                d = dict(d)
                del d[t]
                t = st.adjb[t]
                d[t] = d.get(t, 0) + 1
                d = {x: c for x, c in d.items() if c}
                k -= 1
            if k > 0 and t != END and self.tape.kind == "S" and st.toks[t][1] not in (None, "END"):
                out = []
                for s, u in self.succ(st, t):
                    d2 = {self._rt(s, x): c for x, c in d.items() if x != t}
                    d2[u] = d2.get(u, 0) + 1
                    d2 = {x: c for x, c in d2.items() if c}
                    out += self.normidx(s, d2, k - 1, lo)
                return out
        if k > 4:
            return [(st, ("ge", max(lo, 0)))]
        return [(st, mklin(d, k, lo))]

    def _rt(self, s, t):
        if t in s.toks:
            return t
        r = self.lastren(s, t)
        return END if r is None else r

    def resolve(self, st, base, idx):
        """position base + idx as a token: list of (state, token)"""
        l = lin_of(idx)
        if l is None:
            raise Unsupported("index of unknown value")
        d = dict(l[0])
        d[base] = d.get(base, 0) + 1
        d = {t: c for t, c in d.items() if c}
        k = l[1]
        if len(d) == 3:
            # p - q + base: look for a known distance
            d, k = self.simplify(st, d, k)
        if len(d) != 1 or list(d.values()) != [1]:
            raise Unsupported("index is not a position of the text it indexes")
        t = next(iter(d))
        cur = [(st, t)]
        while k > 0:
            cur = [y for s, u in cur for y in self.succ(s, u)]
            k -= 1
        while k < 0:
            cur = [y for s, u in cur for y in self.pred(s, u)]
            k += 1
        return cur
