"""Text round trip: what the encoder writes for keys, field names and values is read back by the decoder as the same thing."""
import itertools

from .. import lang as L
from ..tape import *
from .. import texec
from .. import tmodels      # noqa: F401  (registers the models)
from ..texec import Exec, norm_cat, UNIV

EMPTYW = L.literal("")


class Ctx:
    def __init__(self, prog):
        self.prog = prog
        self.sh = {"sum": {}, "hom": {}, "notes": set(), "unk": {}, "fnc": {}, "cov": set()}
        self.memo = {}

    def body(self, name):
        c = [b for k, b in self.prog.bodies.items() if k.split("::")[-1] == name and "{closure" not in k and b.d["kind"] != "closure"]
        return c[0] if len(c) == 1 else None

    # ------------------------------------------------------------------ encoder: what is written
    def thaw(self, ex, st, v):
        if v[0] == "pc":
            st.cons[v[1]] = v[2]
            return ("p", v[1])
        if v[0] == "homc":
            st.cons[v[1]] = v[3]
            return ("hom", v[1], v[2])
        if v[0] == "numc":
            st.cons["#" + v[1]] = v[2]
            return ("num", v[1])
        if v[0] == "adt":
            return v[:3] + (tuple(self.thaw(ex, st, x) for x in v[3]),)
        if v[0] in ("tup", "arr"):
            return (v[0], tuple(self.thaw(ex, st, x) for x in v[1]))
        return v

    def run_sym(self, bid, args):
        """outcomes of a function on symbolic arguments: list of (frozen value, facts, state)"""
        k = (bid, args)
        if k not in self.memo:
            ex = Exec(self.prog, shared=self.sh)
            st = ex.start_state()
            a = [self.thaw(ex, st, x) for x in args]
            b = self.prog.bodies[bid]
            try:
                r = ex.call_body(b, a, st)
            except NeedScan as e:
                r = None
                for i, x in enumerate(a):
                    l = ex.lang_of(st, x)
                    if l is not None:
                        r = ex.try_summary(b, a, st, (i, l))
                        break
                if r is None:
                    raise Unsupported("%s: %s" % (bid.split("::")[-1], e.why))
            self.memo[k] = [(ex.freeze(s, v), s.cons) for s, v in r]
        return self.memo[k]

    def texts(self, v, facts=None):
        """all ways the text v can be written: list of (flat items, facts)"""
        facts = facts or {}
        if v[0] == "cat":
            res = [((), facts)]
            for x in v[1]:
                res = [(its + i2, f2) for its, f in res for i2, f2 in self.texts(x, f)]
            return res
        if v[0] == "app":
            out = []
            for w, cons in self.run_sym(v[1], v[2]):
                f = merge(facts, cons)
                if f is not None:
                    out += self.texts(w, f)
            return out
        if v == ("str", ""):
            return [((), facts)]
        if v[0] == "any" or v[0] == "top":
            raise Unsupported("text the analysis could not follow")
        return [((v,), facts)]

    # ------------------------------------------------------------------ encoder: the lines
    def recursive(self, entry):
        """functions reachable from entry that can reach themselves"""
        cg = self.prog.callgraph()
        succ = {}
        todo = [entry]
        while todo:
            x = todo.pop()
            if x in succ:
                continue
            succ[x] = {p for p, c, sp, how in cg.get(x, ()) if p in self.prog.bodies}
            todo += succ[x]
        rec = set()
        for x in succ:
            seen, todo = set(), list(succ[x])
            while todo:
                y = todo.pop()
                if y not in seen:
                    seen.add(y)
                    todo += succ[y]
            if x in seen:
                rec.add(x)
        return rec, set(succ)

    def lines(self, entry, delim):
        """every text the encoder appends as a line: list of (text, where, facts)"""
        rec, reach = self.recursive(entry)
        sinks = [x for x in sorted(rec) if any(self.linevec(t) for t in self.prog.bodies[x].locals[1:1 + self.prog.bodies[x].argc])]
        found = {}
        self.sh["delim"] = delim
        for root in [entry] + sinks:
            b = self.prog.bodies[root]
            ex = Exec(self.prog, shared=self.sh, opaque=rec)
            self.sh["lines"] = {}
            st = ex.start_state()
            args = []
            for i in range(b.argc):
                ti = b.locals[1 + i]
                if self.linevec(ti):
                    st.cells["out"] = ("sink", "out")
                    args.append(("ref", "out", ()))
                else:
                    args.append(ex.symval("a%d" % i, ti))
            r = ex.call_body(b, args, st)
            for d in self.sh["lines"].values():
                for v, (w, cons) in d.items():
                    found.setdefault(v, (w, cons))
            if root == entry:
                for s, v in r:
                    if v[0] != "vec":
                        raise Unsupported("the encoder's result is not a list of lines")
                    for x in v[1]:
                        if x[0] == "*" and x[1] == "any":
                            continue
                        x = x[1] if x[0] == "*" else x
                        found.setdefault(ex.freeze(s, x), ((b.id.split("::")[-1], None), dict(s.cons)))
        return found

    def top_of(self, v, ti, n):
        """an unknown argument becomes a named arbitrary value of its type"""
        ty = self.prog.types
        while ti is not None and ty[ti]["k"] == "ref":
            ti = ty[ti]["a"][0]
        ex = Exec(self.prog, shared=self.sh)
        s = ty[ti]["s"] if ti is not None else ""
        if s in ("str", "alloc::string::String"):
            if v[0] == "cat" and any(x[0] in ("any", "top") for x in v[1]) or v[0] in ("top", "any"):
                return ("pc", "?%d" % next(n), UNIV)
            return v
        if v[0] == "top" or (v[0] == "ge" and s == "usize"):
            x = ex.symval("?%d" % next(n), ti)
            return x
        if v[0] == "vec" and ti is not None and ty[ti].get("a"):
            return ("vec", tuple((y if y[0] != "*" else y) if y[0] not in ("top",) and not (y[0] == "*" and y[1] in (TOP, "any"))
                                 else (self.top_of(TOP, ty[ti]["a"][0], n) if y[0] == "top" else ("*", self.top_of(TOP, ty[ti]["a"][0], n)))
                                 for y in v[1]))
        if v[0] == "adt" and v[1] == OPT and v[2] == 1 and ti is not None and ty[ti].get("a"):
            return v[:3] + (tuple(self.top_of(y, ty[ti]["a"][0], n) for y in v[3]),)
        return v

    def named(self, v, n):
        """unknown arguments of the functions applied in v get names"""
        if v[0] == "app":
            b = self.prog.bodies[v[1]]
            return ("app", v[1], tuple(self.named(self.top_of(x, b.locals[1 + i], n), n) for i, x in enumerate(v[2])))
        if v[0] == "cat":
            return ("cat", tuple(self.named(x, n) for x in v[1]))
        return v

    def linevec(self, ti):
        t = self.prog.types[ti]
        return t["k"] == "ref" and bool(t.get("m")) and self.prog.types[t["a"][0]]["s"].startswith("alloc::vec::Vec<alloc::string::String")

    def ways(self, v):
        """texts(v) with the alternatives that differ only in which words a piece stands for taken together"""
        return union_texts(self.texts(v))

    def elem_dfa(self, v):
        """language of one element of a list"""
        k = ("elem", v, self.sh.get("delim"))
        if k not in self.memo:
            d = L.nothing()
            for its, _ in self.ways(v):
                for y in itertools.product(*[self.nonempty(z) for z in its]):
                    d = d | self.items_dfa([z for z in y if z[0] != "gone"])
            self.memo[k] = L.minimize(d)
        return self.memo[k]

    def items_dfa(self, items):
        tp = Tape("S")
        y = tp.add()
        self.chain(tp, 0, y, items, "B")
        return L.from_nfa(0, {i: [(m, t) for m, t, o in n.tr] for i, n in enumerate(tp.nodes)}, [y])

    def list_dfa(self, star):
        E = self.elem_dfa(star[1])
        edges = {q: list(r) for q, r in enumerate(E.tr)}
        n = len(E.tr)
        for q in E.acc:
            cur = q
            for i, ch in enumerate(star[2][1]):
                nx = 0 if i == len(star[2][1]) - 1 else n
                n += nx == n
                edges.setdefault(cur, []).append((L.letter(ch), nx))
                cur = nx
        return L.minimize(L.from_nfa(0, edges, list(E.acc)))

    def coarse(self, l):
        """lines with a list written in them: the list as one piece; ways of writing covered by it are dropped"""
        l = [(tuple(("pc", "~list", self.list_dfa(x)) if x[0] == "star" else x for x in its), f) for its, f in l]
        out = []
        for i, (its, f) in enumerate(l):
            gone = False
            for j, (i2, f2) in enumerate(l):
                p = [k for k, x in enumerate(i2) if x[:2] == ("pc", "~list")]
                if i == j or len(p) != 1 or ("pc", "~list") in [x[:2] for x in its]:
                    continue
                p, q = p[0], len(i2) - p[0] - 1
                if len(its) > p + q and its[:p] == i2[:p] and (not q or its[-q:] == i2[-q:]):
                    mid = its[p:len(its) - q]
                    if all(y and self.items_dfa(y) <= i2[p][2] for y in
                           [[z for z in c if z[0] != "gone"] for c in itertools.product(*[self.nonempty(z) for z in mid])]):
                        gone = True
            if not gone:
                out.append((its, f))
        return out

    # ------------------------------------------------------------------ tapes
    def tapes(self, items, focus=True):
        """automata of all texts of a flat item list: list of (tape, notes) where notes: source name -> 'empty' """
        # variants: possibly empty pieces present or absent, elements before / after the one in focus
        opts = []
        for x in items:
            if x[0] in ("pc", "homc"):
                d = x[-1]
                o = []
                if not (d - EMPTYW).empty():
                    o.append(x[:-1] + (d - EMPTYW,))
                if not (d & EMPTYW).empty():
                    o.append(("gone", x[1]))
                opts.append(o)
            elif x[0] == "rep":
                opts.append([x])
            elif x[0] == "star":
                o = []
                for b, a in itertools.product((0, 1), (0, 1)):
                    for its, f in self.ways(x[1]):
                        for y in itertools.product(*[self.nonempty(z) for z in its]):
                            o.append(("focus", b, a, y, f, x))
                opts.append(o)
            else:
                opts.append([x])
        out = []
        for combo in itertools.product(*opts):
            out.append(self.tape(combo))
        return out

    def nonempty(self, x):
        if x[0] in ("pc", "homc"):
            d = x[-1]
            o = []
            if not (d - EMPTYW).empty():
                o.append(x[:-1] + (d - EMPTYW,))
            if not (d & EMPTYW).empty():
                o.append(("gone", x[1]))
            return o
        return [x]

    def tape(self, combo):
        tp = Tape("S")
        tp.focus = None
        notes = {}
        cur = 0
        for x in combo:
            if x[0] == "gone":
                notes[x[1]] = "empty"
                continue
            if x[0] == "focus":
                _, b, a, its, f, star = x
                sep = star[2][1]
                notes["~focus"] = f
                E = self.elem_dfa(star[1])
                if b:
                    e = tp.add()
                    self.lang(tp, cur, e, E, "B", None)
                    m = tp.add()     # start of a further element before
                    nx = tp.add()    # start of the focus element
                    self.lit(tp, e, m, sep, "B")
                    self.lang(tp, m, e, E, "B", None)
                    tp.pieces.append(None)
                    self.lit(tp, e, nx, sep, len(tp.pieces) - 1)
                    tp.pieces[-1] = ("lit", sep, None, e, nx)
                    cur = nx
                fs = cur
                fe = tp.add()
                ys = [z for z in its if z[0] != "gone"]
                for z in its:
                    if z[0] == "gone":
                        notes[z[1]] = "empty"
                p0 = len(tp.pieces)
                self.chain(tp, cur, fe, ys, None)
                tp.focus = (fs, fe, range(p0, len(tp.pieces)))
                cur = fe
                if a:
                    s0 = tp.add()
                    tp.pieces.append(("lit", sep, None, cur, s0))
                    self.lit(tp, cur, s0, sep, len(tp.pieces) - 1)
                    e = tp.add()
                    self.lang(tp, s0, e, E, "A", None)
                    m = tp.add()
                    self.lit(tp, e, m, sep, "A")
                    self.lang(tp, m, e, E, "A", None)
                    # leave the loop: the last element ends in its own node
                    z = tp.add()
                    self.lang(tp, s0, z, E, "A", None)
                    self.lang(tp, m, z, E, "A", None)
                    cur = z
                continue
            nx = tp.add()
            self.chain(tp, cur, nx, [x], None)
            cur = nx
        tp.nodes[cur].acc = True
        tp.accs = {cur}
        tp.finish()
        own = {}

        def owners(a, b):
            if (a, b) not in own:
                b2 = cur if b is None else b
                o = set()
                for i in {a} | tp.reach[a]:
                    for x, t, w in tp.nodes[i].tr:
                        if t == b2 or b2 in tp.reach[t]:
                            o.add(w)
                own[(a, b)] = o
            return own[(a, b)]
        tp.owners = owners
        return tp, notes

    def lit(self, tp, x, y, text, owner):
        cur = x
        for i, ch in enumerate(text):
            nx = y if i == len(text) - 1 else tp.add()
            tp.nodes[cur].tr.append((L.letter(ch), nx, owner))
            cur = nx

    def chain(self, tp, x, y, items, owner):
        cur = x
        if not items:
            raise Unsupported("an element may be written as nothing")
        for i, it in enumerate(items):
            nx = y if i == len(items) - 1 else tp.add()
            o = owner
            if o is None:
                o = len(tp.pieces)
                tp.pieces.append(None)
            self.item(tp, cur, nx, it, o, owner is None)
            cur = nx

    def item(self, tp, x, y, it, o, rec):
        k = it[0]
        if k == "str":
            self.lit(tp, x, y, it[1], o)
            d = ("lit", it[1], None, x, y)
        elif k == "pc":
            self.lang(tp, x, y, it[2], o, None)
            d = ("lang", it[2], None, x, y, it[1])
        elif k == "homc":
            self.lang(tp, x, y, it[3], o, it[2])
            d = ("hom", it[3], it[2], x, y, it[1])
        elif k == "fmt" and it[1][0] == "numc":
            if "z" in it[1][2]:
                raise Unsupported("Display of zero")
            if not {"fin"} & set(it[1][2]) and "!fin" in it[1][2]:
                raise Unsupported("Display of a non-finite number")
            self.lang(tp, x, y, L.f64_display(), o, None)
            d = ("lang", L.f64_display(), ("num", it[1][1]), x, y, it[1][1])
        elif k == "fmt" and it[1][0] == "numic":
            self.lang(tp, x, y, L.dec_int(), o, None)
            d = ("lang", L.dec_int(), ("num", it[1][1]), x, y, it[1][1])
        elif k == "fmt" and it[1][0] == "symint":
            self.lang(tp, x, y, L.dec_uint(), o, None)
            d = ("lang", L.dec_uint(), ("int", it[1][1]), x, y, it[1][1])
        elif k == "rep":
            m = tp.add()
            c = L.letter(it[1])
            tp.nodes[x].tr += [(c, m, o), (c, y, o)]
            tp.nodes[m].tr += [(c, m, o), (c, y, o)]
            d = ("rep", it[1], None, x, y)
        else:
            raise Unsupported("a piece of text of kind %s" % k)
        if rec:
            tp.pieces[o] = d

    def lang(self, tp, x, y, d, o, hid):
        n = {}
        d = d.useful() if False else d
        # states from which a non-empty continuation is accepted
        prod = set()
        ch = True
        while ch:
            ch = False
            for q in range(len(d.tr)):
                if q not in prod and any(t in prod or t in d.acc for m_, t in d.tr[q]):
                    prod.add(q)
                    ch = True

        def node(q):
            if q not in n:
                n[q] = tp.add()
                work.append(q)
            return n[q]
        work = []

        def out(src, q):
            for m_, t in d.tr[q]:
                tg = ([node(t)] if t in prod else []) + ([y] if t in d.acc else [])
                for z in tg:
                    if hid is None:
                        tp.nodes[src].tr.append((m_, z, o))
                        continue
                    words = [tuple(p & m_ if u == ("copy",) else u for u in w) for p, w in hid if p & m_]
                    ch = True
                    while ch:
                        ch = False
                        for a, b in itertools.combinations(words, 2):
                            if len(a) == len(b) and sum(x != y for x, y in zip(a, b)) <= 1:
                                words = [w for w in words if w not in (a, b)] + [tuple(x | y for x, y in zip(a, b))]
                                ch = True
                                break
                    for w in words:
                        cur = src
                        for i, u in enumerate(w):
                            nx = z if i == len(w) - 1 else tp.add()
                            tp.nodes[cur].tr.append((u, nx, o))
                            cur = nx
        out(x, 0)
        while work:
            q = work.pop()
            out(n[q], q)

    # ------------------------------------------------------------------ decoder runs
    def decode(self, bid, tp, notes, args, limit=30000, facts=None):
        """run a function on the tape: list of (state, value)"""
        ex = Exec(self.prog, tp, shared=self.sh, limit=limit)
        st = ex.start_state()
        for k, v in (facts or {}).items():
            if k.startswith("#"):
                st.cons[k] = v
        a = []
        for x in args:
            a.append(x(ex, st) if callable(x) else x)
        r = ex.call_body(self.prog.bodies[bid], a, st)
        return ex, r


def union_texts(l):
    groups = {}
    for its, f in l:
        sk = tuple(x[:-1] if x[0] in ("pc", "homc") else x for x in its)
        names = {x[1] for x in its if x[0] in ("pc", "homc")}
        fk = tuple(sorted(((k, v) for k, v in f.items() if not isinstance(v, L.Dfa)), key=repr))
        groups.setdefault((sk, fk), []).append((its, f, names))
    out = []
    for (sk, fk), g in groups.items():
        its, f, names = g[0]
        its = list(its)
        f = dict(f)
        for i2, f2, _ in g[1:]:
            for k in range(len(its)):
                if its[k][0] in ("pc", "homc"):
                    its[k] = its[k][:-1] + ((its[k][-1] | i2[k][-1]),)
            for k in list(f):
                if isinstance(f[k], L.Dfa):
                    if isinstance(f2.get(k), L.Dfa):
                        f[k] = f[k] | f2[k]
                    else:
                        del f[k]
        # escaped text: the claim is made for every text, not only for those that need quoting
        its = [x[:-1] + (UNIV if EMPTYW <= x[-1] else UNIV - EMPTYW,) if x[0] == "homc" else x for x in its]
        out.append((tuple(its), f))
    return out


def merge(a, b):
    r = dict(a)
    for k, v in b.items():
        if k in r and r[k] != v:
            if isinstance(v, L.Dfa):
                d = r[k] & v
                if d.empty():
                    return None
                r[k] = d
                continue
            if isinstance(v, frozenset):
                r[k] = r[k] | v
                continue
            return None
        r[k] = v
    return r


WHOLE = lambda ex, st: ("s", START, END)
