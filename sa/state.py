"""Abstract states: cells -> terms, facts about terms, relational join."""
from .terms import *

ZERO = intc(0)
DEAD = sym(("DEAD",))
EQ = "=="


class Infeasible(Exception):
    pass


class Facts:
    __slots__ = ("var", "at", "cs", "db", "all", "_own")

    def __init__(self):
        self.var = {}
        self.at = {}
        self.cs = {}
        self.db = {}
        self.all = {}

    def copy(self):
        f = Facts.__new__(Facts)
        f.var = dict(self.var)
        f.at = dict(self.at)
        f.cs = dict(self.cs)
        f.db = dict(self.db)
        f.all = dict(self.all)
        return f

    def same(self, o):
        return self.var == o.var and self.at == o.at and self.cs == o.cs and self.db == o.db and self.all == o.all

    def terms(self):
        for d in (self.var, self.at, self.cs, self.all):
            yield from d
        for a, b in self.db:
            yield a
            yield b

    # ---- difference bounds ------------------------------------------------
    @staticmethod
    def vtx(t):
        if t.op == "int":
            return ZERO, t.a[0]
        if t.op == "lin":
            c, p = t.a
            if len(p) == 1 and p[0][1] == 1:
                return p[0][0], c
            if c:
                return lin_make(0, p), c
        return t, 0

    @staticmethod
    def unsigned(t):
        if t is ZERO:
            return True
        if t.op == "lin":
            return False
        return t.ty is None or t.ty[0] == "u" or t.ty in ("char", "bool")

    def sssp(self, x, target=None):
        """{y: w} with x - y <= w"""
        dist = {x: 0}
        adj = {}
        for (a, b), k in self.db.items():
            adj.setdefault(a, []).append((b, k))
        # x - y <= w : edges a->b weight k  (a - b <= k)
        work = [x]
        n = 0
        while work:
            v = work.pop()
            n += 1
            if n > 4000:
                break
            dv = dist[v]
            out = adj.get(v, ())
            if v.op == "app" and v.a[0] in ("rem", "div"):
                # x % n <= x, x % n < n, x / n <= x
                q, c = self.vtx(v.a[1])
                out = list(out) + [(q, c)]
                if v.a[0] == "rem":
                    q, c = self.vtx(v.a[2])
                    out.append((q, c - 1))
            for w, k in out:
                d = dv + k
                if w not in dist or d < dist[w]:
                    if w is x and d < 0:
                        raise Infeasible()
                    dist[w] = d
                    work.append(w)
            # slack for unsigned terms: ZERO - t <= 0 for all t: only handled towards the target and linear sums
            if v is ZERO and target is not None and target is not ZERO and self.unsigned(target):
                if target not in dist or dv < dist[target]:
                    dist[target] = dv
                    work.append(target)
            if v is ZERO:
                for u in adj:
                    if u is not ZERO and self.unsigned(u) and (u not in dist or dv < dist[u]):
                        dist[u] = dv
                        work.append(u)
        return dist

    def bound(self, a, b):
        """least known k with a - b <= k, or None"""
        va, ka = self.vtx(a)
        vb, kb = self.vtx(b)
        if va is vb:
            return ka - kb
        # linear combination on the left: sum of unsigned parts only helps from below
        d = self.sssp(va, vb).get(vb)
        if d is None:
            d2 = self._linbound(va, vb)
            if d2 is None:
                return None
            d = d2
        return d + ka - kb

    def _linbound(self, va, vb):
        """x - y style rewriting for lin vertices: a - b <= k via moving parts to the other side"""
        diff = sub(va, vb)
        c, p = lin_parts(diff)
        pos = [(x, k) for x, k in p if k > 0]
        neg = [(x, -k) for x, k in p if k < 0]
        if not pos:
            return c if all(self.unsigned(x) for x, _ in neg) else None
        if len(pos) <= 2 and all(k == 1 for _, k in pos) and all(k == 1 for _, k in neg):
            # match each positive against a distinct negative (or a constant bound)
            best = None

            def rec(i, used, acc):
                nonlocal best
                if i == len(pos):
                    if all(self.unsigned(x) for j, (x, _) in enumerate(neg) if j not in used):
                        if best is None or acc < best:
                            best = acc
                    return
                x = pos[i][0]
                ds = self.sssp(x)
                if ZERO in ds:
                    rec(i + 1, used, acc + ds[ZERO])
                for j, (y, _) in enumerate(neg):
                    if j not in used and (y is x or y in ds):
                        rec(i + 1, used | {j}, acc + (0 if y is x else ds[y]))
            if len(pos) != len(p) or True:
                if va.op == "lin" or vb.op == "lin":
                    rec(0, frozenset(), c)
            return best
        return None

    def le(self, a, b, k=0):
        """entails a <= b + k ?"""
        try:
            d = self.bound(a, b)
        except Infeasible:
            return True
        if d is not None and d <= k:
            return True
        # 0 <= b
        if a.op == "int" and a.a[0] <= k and self.unsigned(self.vtx(b)[0]) and self.vtx(b)[1] >= 0:
            return True
        return False

    def add_le(self, a, b, k):
        va, ka = self.vtx(a)
        vb, kb = self.vtx(b)
        w = k - ka + kb
        if va is vb:
            if w < 0:
                raise Infeasible()
            return
        if va is ZERO and w >= 0 and self.unsigned(vb):
            return
        d = self.sssp(va, vb).get(vb)
        if d is not None and d <= w:
            return
        r = self.sssp(vb, va).get(va)
        if r is not None and r + w < 0:
            raise Infeasible()
        self.db[(va, vb)] = w
        if va is not ZERO and vb is not ZERO:
            # the difference itself may be a vertex
            l, m = sub(va, vb), sub(vb, va)
            if l.op == "lin" or m.op == "lin":
                for x, y in list(self.db):
                    if l is x or l is y:
                        self.add_le(l, ZERO, w)
                        break
                for x, y in list(self.db):
                    if m is x or m is y:
                        self.add_le(ZERO, m, w)
                        break
        elif va is ZERO and vb.op == "lin" or vb is ZERO and va.op == "lin":
            t = vb if va is ZERO else va
            c, p = lin_parts(t)
            if len(p) == 2 and c == 0 and {k for _, k in p} == {1, -1}:
                x = next(x for x, k in p if k == 1)
                y = next(x for x, k in p if k == -1)
                if va is ZERO:
                    self.add_le(y, x, w)
                else:
                    self.add_le(x, y, w)

    def add_eq(self, a, b):
        self.add_le(a, b, 0)
        self.add_le(b, a, 0)

    def const_of(self, t):
        """integer constant the facts force on t, or None"""
        if t.op == "int":
            return t.a[0]
        v, k = self.vtx(t)
        try:
            hi = self.sssp(v, ZERO).get(ZERO)
            if hi is None:
                return None
            lo = self.sssp(ZERO, v).get(v)
            if lo is None and self.unsigned(v):
                lo = 0
        except Infeasible:
            return None
        if lo is not None and hi == -lo:
            return hi + k
        return None


class State:
    __slots__ = ("cells", "F", "ghost", "trace")

    def __init__(self):
        self.cells = {}
        self.F = Facts()
        self.ghost = {}
        self.trace = None

    def copy(self):
        s = State.__new__(State)
        s.cells = dict(self.cells)
        s.F = self.F.copy()
        s.ghost = dict(self.ghost)
        s.trace = self.trace
        return s

    def same(self, o):
        return self.cells == o.cells and self.ghost == o.ghost and self.F.same(o.F)

    def live_syms(self):
        acc = set()
        seen = set()
        for t in self.cells.values():
            if t.syms and t.id not in seen:
                seen.add(t.id)
                acc |= t.syms
        for t in self.ghost.values():
            acc |= t.syms
        return acc

    def all_syms(self):
        acc = self.live_syms()
        for t in self.F.terms():
            if t.syms:
                acc |= t.syms
        return acc

    def gc(self, keep=()):
        """drop facts about symbols no cell mentions any more"""
        live = self.live_syms()
        F = self.F

        def ok(t):
            for s in t.syms:
                if s not in live and not sticky(s):
                    return False
            return True
        dead = False
        for d in (F.var, F.at, F.cs, F.all):
            ks = [k for k in d if not ok(k)]
            if ks:
                for k in ks:
                    del d[k]
        if F.db:
            bad = {v for e in F.db for v in e if not ok(v)}
            if bad:
                # keep what follows between the remaining vertices
                good = {v for e in F.db for v in e} - bad
                try:
                    nd = {e: k for e, k in F.db.items() if e[0] not in bad and e[1] not in bad}
                    # paths through dead vertices
                    ent = {v for e in F.db for v in e if v in good}
                    if len(bad) * len(good) < 4000:
                        for a in ent:
                            if any(e[0] is a and e[1] in bad for e in F.db):
                                ds = F.sssp(a)
                                for b in good:
                                    if b is not a and b in ds and (b is not ZERO or True):
                                        w = ds[b]
                                        if (a, b) not in nd or w < nd[(a, b)]:
                                            nd[(a, b)] = w
                    F.db = nd
                except Infeasible:
                    raise
        return self


def sticky(s):
    n = s.a[0]
    return isinstance(n, tuple) and n and n[0] in ("in", "K")


def expand_like(t, ref, F):
    """t is symbolic; give it the constructor of `ref` when that is a single-variant struct or a tuple, or its variant is known"""
    if ref.op == "tup":
        if t.op == "sym" or t.op == "app" or t.op == "fld":
            return mk("tup", tuple(mk("fld", t, 0, i) for i in range(len(ref.a[0]))))
        return None
    if ref.op == "adt":
        if t.op not in ("sym", "app", "fld"):
            return None
        path, vi, fs = ref.a
        nv = NVAR.get(path)
        v = F.var.get(t)
        if nv == 1 or (v is not None and v == frozenset((vi,))):
            return mk("adt", path, vi, tuple(mk("fld", t, vi, i) for i in range(len(fs))))
    return None


NVAR = {}  # adt path -> number of variants (filled by the engine)


def refine_pair(a, b, FA, FB, path, out):
    """walk two values; out: list of (path, a, b) leaf pairs; returns a template with leaf paths"""
    if a is b:
        out.append((path, a, b))
        return ("leaf", path)
    if a.op == "cset" and b.op == "cset":
        return ("raw", mk("cset", runion(a.a[0], b.a[0])))
    if a.op == "aset" and b.op == "aset":
        return ("raw", mk("aset", ASETJOIN[0](a.a[0], b.a[0])))
    if (a.op == "cat" and b.op in ("cat", "str", "sym", "app", "fld")) or (b.op == "cat" and a.op in ("str", "sym", "app", "fld")):
        out.append((path, a, b))
        return ("cat", path, a, b, FA, FB)
    if a.op != b.op or a.op in ("adt", "tup", "clo", "arr", "it", "seq"):
        if a.op == "adt" and b.op != "adt" or a.op == "tup" and b.op != "tup":
            e = expand_like(b, a, FB)
            if e is not None:
                b = e
        elif b.op == "adt" and a.op != "adt" or b.op == "tup" and a.op != "tup":
            e = expand_like(a, b, FA)
            if e is not None:
                a = e
    if a.op == b.op and a.op in ("adt", "tup", "clo", "arr", "it", "seq", "mref"):
        if a.op == "adt" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
            return ("adt", a.a[0], a.a[1], [refine_pair(x, y, FA, FB, path + (i,), out) for i, (x, y) in enumerate(zip(a.a[2], b.a[2]))])
        if a.op == "tup" and len(a.a[0]) == len(b.a[0]):
            return ("tup", [refine_pair(x, y, FA, FB, path + (i,), out) for i, (x, y) in enumerate(zip(a.a[0], b.a[0]))])
        if a.op == "clo" and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
            return ("clo", a.a[0], [refine_pair(x, y, FA, FB, path + (i,), out) for i, (x, y) in enumerate(zip(a.a[1], b.a[1]))])
        if a.op == "arr" and len(a.a[0]) == len(b.a[0]):
            return ("arr", [refine_pair(x, y, FA, FB, path + (i,), out) for i, (x, y) in enumerate(zip(a.a[0], b.a[0]))])
        if a.op == "it" and a.a[0] == b.a[0] and len(a.a) == len(b.a):
            if a.a[0] in ("chars", "bytes", "charidx", "slice") and a.a[-1] is not b.a[-1]:
                # one side has an element whose facts are still in the state and the other has folded it: fold both
                a, b = FOLD[0](FA, a), FOLD[0](FB, b)
            subs = []
            for i, (x, y) in enumerate(zip(a.a[1:], b.a[1:])):
                if isinstance(x, Term) and isinstance(y, Term):
                    subs.append(refine_pair(x, y, FA, FB, path + (i,), out))
                elif x == y:
                    subs.append(("raw", x))
                else:
                    subs = None
                    break
            if subs is not None:
                return ("it", a.a[0], subs)
        if a.op == "seq":
            j = seq_template(a, b, FA, FB, path, out)
            if j is not None:
                return j
    out.append((path, a, b))
    return ("leaf", path)


SEQJOIN = [None]
ASETJOIN = [None]
FOLD = [None]
CATJOIN = [None]


def seq_template(a, b, FA, FB, path, out):
    # seq(kind, len, summary): summary is joined by the plugin-independent lattice in SEQJOIN
    if a.a[0] != b.a[0]:
        return None
    sm = SEQJOIN[0](a.a[0], a.a[2], b.a[2], FA, FB)
    return ("seq", a.a[0], refine_pair(a.a[1], b.a[1], FA, FB, path + ("n",), out), sm, refine_pair(a.a[3], b.a[3], FA, FB, path + ("t",), out))


def build(tpl, leaf):
    k = tpl[0]
    if k == "leaf":
        return leaf[tpl[1]]
    if k == "cat":
        return CATJOIN[0](tpl[2], tpl[3], tpl[4], tpl[5], leaf[tpl[1]])
    if k == "raw":
        return tpl[1]
    if k == "adt":
        return mk("adt", tpl[1], tpl[2], tuple(build(x, leaf) for x in tpl[3]))
    if k in ("tup", "arr"):
        return mk(k, tuple(build(x, leaf) for x in tpl[1]))
    if k == "clo":
        return mk("clo", tpl[1], tuple(build(x, leaf) for x in tpl[2]))
    if k == "it":
        return mk("it", tpl[1], *[build(x, leaf) for x in tpl[2]])
    if k == "seq":
        return mk("seq", tpl[1], build(tpl[2], leaf), tpl[3], build(tpl[4], leaf))
    raise AssertionError(k)


def ckey(k):
    return (str(type(k)), str(k))


SETTERM_ATTRS = ("allch", "first", "last")


def scal(F, t):
    """scalar range set known for t, or None"""
    if t.op == "char" or t.op == "int":
        v = t.a[0]
        return ((v, v),) if v >= 0 else None
    r = F.cs.get(t)
    if r is None and t.op == "app" and t.a[0] in SETTERM_ATTRS and t.a[1].op == "str":
        s = t.a[1].a[0]
        if t.a[0] == "allch":
            return rs(s) if s else ()
        if s:
            return rs(s[0] if t.a[0] == "first" else s[-1])
    return r


def variants(F, t):
    if t.op == "adt":
        return frozenset((t.a[1],))
    return F.var.get(t) or lookup_all(F, "var", t)


def lookup_all(F, kind, t):
    """facts of the form: every element of a collection satisfies ..."""
    if not F.all or not t.syms and t.op not in ("fld", "app"):
        return None
    # find an elem(coll, i) inside t
    e = find_elem(t, F.all)
    if e is None:
        return None
    for coll_e in e:
        fs = F.all.get(coll_e.a[1])
        if not fs:
            continue
        pat = subst(t, {coll_e: HOLE})
        for k, p, v in fs:
            if k == kind and p is pat:
                return v
    return None


HOLE = sym(("HOLE",))


def find_elem(t, colls, depth=0):
    out = []
    if t.op == "app" and t.a[0] == "elem" and t.a[1] in colls:
        out.append(t)
    if depth < 6:
        for x in t.a:
            if isinstance(x, Term):
                out += find_elem(x, colls, depth + 1) or []
    return out


def pfx_of(F, s, i, d=0):
    """set of byte values that may occur in s before offset i (None: unknown)"""
    if i is ZERO:
        return ()
    r = F.cs.get(mk("app", "pfx", s, i))
    if r is not None:
        return r
    if i.op == "app" and i.a[0] == "len" and i.a[1] is s:
        r = F.cs.get(mk("app", "allch", s))
        if r is not None:
            return runion(rinter(r, ((0, 127),)), ((128, 255),) if r[-1:] and r[-1][1] > 127 else ())
    if i.op == "int":
        if i.a[0] > 4:
            return None
        j = mk("int", i.a[0] - 1)
    elif d < 4:
        c, parts = lin_parts(i)
        if c <= 0:
            return None
        j = add(i, mk("int", -1))
    else:
        return None
    e = scal(F, mk("app", "elem", mk("app", "bytes", s), j))
    if e is None:
        return None
    b = pfx_of(F, s, j, d + 1)
    return None if b is None else runion(b, e)


def isbyte(t):
    return t.op == "app" and t.a[0] == "elem" and t.a[1].op == "app" and t.a[1].a[0] == "bytes"


def past_end(F, t):
    """t = byte of a string at an offset not below its length: whatever is said about it holds vacuously"""
    return isbyte(t) and F.le(mk("app", "len", t.a[1].a[1]), t.a[2])


def join(A, B, point, keep=None, widen=0, plugin=None, scalar_hook=None):
    """A: stored/older state, B: incoming.  Returns the joined state (A itself when nothing changes)."""
    if A is B or A.same(B):
        return A
    FA, FB = A.F, B.F
    keys = [k for k in A.cells if k in B.cells and (keep is None or keep(k))]
    leaves = []
    tpls = {}
    for k in keys:
        a, b = A.cells[k], B.cells[k]
        tpls[k] = refine_pair(a, b, FA, FB, (k,), leaves)
    gt = {}
    for k in A.ghost:
        if k in B.ghost:
            gt[k] = refine_pair(A.ghost[k], B.ghost[k], FA, FB, (("g", k),), leaves)
    # group differing leaves by the pair of values
    groups = {}
    defined = set()
    same = []
    for path, a, b in leaves:
        if a is b:
            same.append((path, a))
        else:
            g = groups.get((a, b))
            if g is None:
                groups[(a, b)] = [path]
            else:
                g.append(path)

    def pname(paths):
        # prefer the name already used on the A side when it is this point's own phi for one of the paths
        best = min(paths, key=ckey)
        return sym(("phi", point, best))

    phis = {}
    for (a, b), paths in groups.items():
        phis[(a, b)] = None
    changed = True
    while changed:
        changed = False
        defined = {pname(p) for p in groups.values()}
        rest = []
        for path, t in same:
            if t.syms and not defined.isdisjoint(t.syms):
                # mentions an old instance of a symbol that is about to be redefined
                g = groups.get((t, t))
                if g is None:
                    groups[(t, t)] = [path]
                else:
                    g.append(path)
                changed = True
            else:
                rest.append((path, t))
        same = rest
    leafval = {p: t for p, t in same}
    SA, SB = {}, {}
    # terms that differ only in values joined elsewhere keep their structure (elem(v, i) / elem(v, j) with i, j joined to k is elem(v, k))
    elim = {g for g in groups if g[0] is not g[1] and g[0].op == g[1].op and g[0].op in ("app", "fld")}
    if elim and len(elim) < len(groups):
        used = []

        def lgg(x, y, top):
            if x is y:
                if not x.syms or x.syms.isdisjoint(defined):
                    return x
                g = groups.get((x, y))
                return pname(g) if g and (x, y) not in elim else None
            g = groups.get((x, y))
            if g and not top and (x, y) not in elim:
                used.append(1)
                return pname(g)
            if x.op != y.op or x.op not in ("app", "fld") or len(x.a) != len(y.a):
                return None
            out = []
            for u, v in zip(x.a, y.a):
                if isinstance(u, Term) and isinstance(v, Term):
                    w = lgg(u, v, False)
                    if w is None:
                        return None
                    out.append(w)
                elif u == v:
                    out.append(u)
                else:
                    return None
            return rebuild(x.op, tuple(out))
        for g in sorted(elim, key=lambda g: (g[0].id, g[1].id)):
            used.clear()
            r = lgg(g[0], g[1], True)
            if r is not None and used:
                r.ty = r.ty or g[0].ty or g[1].ty
                for x in groups.pop(g):
                    leafval[x] = r
    for (a, b), paths in groups.items():
        p = pname(paths)
        if a.op != "sym" or not p.ty:
            p.ty = p.ty or a.ty or b.ty or _opty(a) or _opty(b)
        for x in paths:
            leafval[x] = p
        SA[p] = a
        SB[p] = b
    R = State()
    R.trace = A.trace
    for k in keys:
        R.cells[k] = build(tpls[k], leafval)
    for k in gt:
        R.ghost[k] = build(gt[k], leafval)
    live = R.live_syms()

    invA = inverse(SA)
    invB = inverse(SB)
    for p in SA:
        invA.setdefault(p, DEAD)
        invB.setdefault(p, DEAD)
    mA, mB = {}, {}

    def trA(t):
        return subst(t, invA, mA)

    def trB(t):
        return subst(t, invB, mB)

    sA, sB = {}, {}

    def toA(t):
        return subst(t, SA, sA)

    def toB(t):
        return subst(t, SB, sB)

    def okt(t):
        if DEAD in t.syms:
            return False
        for s in t.syms:
            if s not in live and not sticky(s):
                return False
        return True
    F = R.F
    # enum variants, scalar sets, atoms
    for src, tr, other, to, kind in ((FA, trA, FB, toB, "A"), (FB, trB, FA, toA, "B")):
        for t, v in src.var.items():
            j = tr(t)
            if j in F.var or not okt(j):
                continue
            w = variants(other, to(j))
            if w is not None:
                n = v | w
                F.var[j] = n
        for t, v in src.cs.items():
            j = tr(t)
            if j in F.cs or not okt(j):
                continue
            w = scal(other, to(j))
            if w is None and t.op == "app" and t.a[0] in SETTERM_ATTRS and scalar_hook:
                w = scalar_hook(other, to(j))
            if w is None and t.op == "app":
                if t.a[0] == "pfx":
                    x = to(j)
                    w = pfx_of(other, x.a[1], x.a[2])
                elif past_end(other, to(j)):
                    w = ()
            if w is not None:
                F.cs[j] = runion(v, w)
        for t, v in src.at.items():
            j = tr(t)
            if j in F.at or not okt(j):
                continue
            w = evalb(other, to(j))
            if w is not None and w == v:
                F.at[j] = v
        for t, v in src.all.items():
            j = tr(t)
            if j in F.all or not okt(j):
                continue
            w = other.all.get(to(j))
            if w is None and is_empty_coll(other, to(j)):
                nv = v
            elif w is None:
                continue
            else:
                d = {(k, p): x for k, p, x in w}
                nv = set()
                for k, p, x in v:
                    if (k, p) in d:
                        y = d[(k, p)]
                        if k == "var":
                            nv.add((k, p, x | y))
                        elif k == "cs":
                            nv.add((k, p, runion(x, y)))
                        elif x == y:
                            nv.add((k, p, x))
                nv = frozenset(nv)
            if nv and DEAD not in frozenset().union(*[p.syms for _, p, _ in nv]):
                F.all[j] = nv
    strs = set()
    for src in (FA, FB):
        for t in src.cs:
            if isbyte(t):
                strs.add(t.a[1].a[1])
            elif t.op == "app" and t.a[0] == "pfx":
                strs.add(t.a[1])
    if strs:
        for p in SA:
            if not (_isint(SA[p]) and _isint(SB[p])):
                continue
            for s in sorted(strs, key=lambda x: x.id):
                if not okt(s) or s.syms & SA.keys():
                    continue
                ca, cb = pfx_of(FA, s, SA[p]), pfx_of(FB, s, SB[p])
                if ca is not None and cb is not None:
                    F.cs[mk("app", "pfx", s, p)] = runion(ca, cb)
    for p in SA:
        va, vb = variants(FA, SA[p]), variants(FB, SB[p])
        if va is not None and vb is not None and p not in F.var:
            F.var[p] = va | vb
        ca, cb = scal(FA, SA[p]), scal(FB, SB[p])
        if ca is not None and cb is not None and p not in F.cs and (SA[p].op == "char" or SB[p].op == "char" or SA[p] in FA.cs or SB[p] in FB.cs):
            F.cs[p] = runion(ca, cb)
        if scalar_hook:
            for at in SETTERM_ATTRS:
                j = mk("app", at, p)
                if j in F.cs:
                    continue
                ca = scalar_hook(FA, mk("app", at, SA[p]))
                if ca is None:
                    continue
                cb = scalar_hook(FB, mk("app", at, SB[p]))
                if cb is not None:
                    F.cs[j] = runion(ca, cb)
        for at in UNARY:
            j = mk("app", at, p)
            if j not in F.at and evalb(FA, mk("app", at, SA[p])) is True and evalb(FB, mk("app", at, SB[p])) is True:
                F.at[j] = True
    # difference bounds
    joindb(A, B, R, SA, SB, toA, toB, trA, trB, okt, widen)
    if R.same(A):
        return A
    return R


def _opty(t):
    if t.op == "int":
        return "usize"
    if t.op == "char":
        return "char"
    if t.op == "lin":
        return "usize"
    return None


def is_empty_coll(F, t):
    return F.le(mk("app", "len", t), ZERO) if t.op != "str" else t.a[0] == ""


def inverse(S):
    inv = {}
    for p in sorted(S, key=lambda x: ckey(x.a[0])):
        v = S[p]
        if v.op in ("int", "bool", "char", "str", "fn", "adt", "tup", "bytes"):
            continue
        if v not in inv:
            inv[v] = p
    return inv


def evalb(F, t):
    if t.op == "bool":
        return t.a[0]
    if t in F.at:
        return F.at[t]
    if t.op == "app" and t.a[0] == "not":
        v = evalb(F, t.a[1])
        return None if v is None else not v
    if t.op == "app" and t.a[0] in ("lt", "le", "ieq"):
        return EVALCMP[0](F, t)
    if t.op == "app" and t.a[0] == "bnd":
        return EVALBND[0](F, t) if EVALBND else None
    if t.op == "app" and t.a[0] in UNARY:
        return UNARY[t.a[0]](F, t)
    if t.op == "app" and t.a[0] == "eq":
        r = F.at.get(mk("app", "eq", t.a[2], t.a[1]))
        if r is not None:
            return r
        if t.a[1] is t.a[2]:
            return True
        x, y = t.a[1], t.a[2]
        if x.op == "str" and y.op == "str":
            return x.a[0] == y.a[0]
        return None
    r = lookup_all(F, "at", t)
    return r


EVALCMP = [None]
EVALBND = []
UNARY = {}      # attribute name -> evaluator; an attribute both sides have survives for the joined value


def joindb(A, B, R, SA, SB, toA, toB, trA, trB, okt, widen):
    FA, FB = A.F, B.F
    F = R.F
    if not FA.db and not FB.db and not any(_isint(SA[p]) and _isint(SB[p]) for p in SA):
        return
    cands = set()
    verts = set()
    for src, tr in ((FA, trA), (FB, trB)):
        for (a, b), k in src.db.items():
            x, y = tr(a), tr(b)
            if okt(x):
                verts.add(Facts.vtx(x)[0])
            if okt(y):
                verts.add(Facts.vtx(y)[0])
            if okt(x) and okt(y):
                cands.add((Facts.vtx(x)[0], Facts.vtx(y)[0]))
    iphis = [p for p in SA if _isint(SA[p]) and _isint(SB[p])]
    verts.add(ZERO)
    for p in iphis:
        for v in verts | set(iphis):
            if v is not p:
                cands.add((p, v))
                cands.add((v, p))
    if not cands:
        return
    cacheA, cacheB = {}, {}

    def dist(Fx, to, cache, x, y):
        tx, ty = to(x), to(y)
        vx, kx = Facts.vtx(tx)
        vy, ky = Facts.vtx(ty)
        if vx is vy:
            return kx - ky
        ds = cache.get(vx)
        if ds is None:
            try:
                ds = Fx.sssp(vx)
            except Infeasible:
                ds = "inf"
            cache[vx] = ds
        if ds == "inf":
            return -10**9
        d = ds.get(vy)
        if ZERO in ds and Facts.unsigned(vy) and (d is None or ds[ZERO] < d):
            d = ds[ZERO]
        if d is None:
            return None
        return d + kx - ky
    for x, y in sorted(cands, key=lambda e: (e[0].id, e[1].id)):
        if x is y:
            continue
        da = dist(FA, toA, cacheA, x, y)
        if da is None:
            continue
        db = dist(FB, toB, cacheB, x, y)
        if db is None:
            continue
        w = max(da, db)
        if widen and db > da:
            # unstable bound: only keep it when it is one of a few landmarks
            lm = [c for c in (-1, 0, 1) if c >= w]
            if not lm or widen > 3:
                continue
            w = lm[0]
        if x is ZERO and w >= 0 and Facts.unsigned(y):
            continue
        if w <= -10**8:
            continue
        F.db[(x, y)] = w
    # drop edges implied by others through a common vertex (keeps the graphs small)
    if len(F.db) > 12:
        for e in sorted(F.db, key=lambda e: (e[0].id, e[1].id)):
            k = F.db.pop(e)
            try:
                d = F.sssp(e[0], e[1]).get(e[1])
            except Infeasible:
                d = None
            if d is None or d > k:
                F.db[e] = k


def _isint(t):
    if t.op in ("int", "lin"):
        return True
    if t.op in ("sym", "app", "fld"):
        return t.ty is not None and (t.ty[0] in "ui" and t.ty != "unit") and t.ty not in ("u8",) or t.op == "app" and t.a[0] == "len"
    return False
