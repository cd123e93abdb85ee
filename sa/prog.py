"""Program model over the MIR dump: bodies, types, resolved call graph, CFG facts."""
import collections


class Body:
    def __init__(self, prog, d):
        self.prog = prog
        self.d = d
        self.id = d["id"]
        self.kind = d["kind"]
        self.argc = d["argc"]
        self.locals = d["locals"]
        self.blocks = d["blocks"]
        self.span = d["span"]
        self.file = d["span"].split(":")[0]
        self.reach = d["reach"]
        self.exported = d["exported"]
        self.derived = d.get("derived", 0)
        self._an = None

    def __repr__(self):
        return f"<Body {self.id}>"

    # ---- CFG -------------------------------------------------------------
    @staticmethod
    def succs_of(t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [b for _, b in t[2]] + [t[3]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "drop":
            return [t[2]]
        if k == "assert":
            return [t[4]]
        if k == "yield":
            return [t[2]]
        return []

    def analyse(self):
        if self._an:
            return self._an
        n = len(self.blocks)
        succ = []
        for b in self.blocks:
            t = b["t"]
            s = []
            for x in self.succs_of(t):
                if x is not None and x not in s:
                    s.append(x)
            succ.append(s)
        # prune blocks which are unreachable terminators ("unreachable")
        order, seen = [], set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        onstack = {0}
        back = set()
        while stack:
            v, it = stack[-1]
            for w in it:
                if w in onstack:
                    back.add((v, w))
                elif w not in seen:
                    seen.add(w)
                    onstack.add(w)
                    stack.append((w, iter(succ[w])))
                    break
            else:
                stack.pop()
                onstack.discard(v)
                order.append(v)
        rpo = list(reversed(order))
        idx = {b: i for i, b in enumerate(rpo)}
        preds = collections.defaultdict(list)
        for v in rpo:
            for w in succ[v]:
                preds[w].append(v)
        heads = {w for _, w in back}
        # natural loops
        loops = {}
        for v, h in back:
            body = loops.setdefault(h, {h})
            st = [v]
            while st:
                x = st.pop()
                if x not in body:
                    body.add(x)
                    st.extend(preds[x])
        self._an = dict(succ=succ, rpo=rpo, idx=idx, preds=preds, back=back, heads=heads, loops=loops)
        self._live()
        return self._an

    # ---- liveness + flags ------------------------------------------------
    def _live(self):
        an = self._an
        use, dfn = {}, {}
        mut_taken = set()
        assigned_nonconst = set()
        assigned = collections.Counter()

        def pl_uses(p, acc, is_def):
            if not is_def or len(p) > 1:
                acc.add(p[0])
            for e in p[1:]:
                if isinstance(e, list) and e[0] == "i":
                    acc.add(e[1])

        def op_uses(o, acc):
            if o[0] in ("c", "m"):
                pl_uses(o[1], acc, False)

        for b in an["rpo"]:
            bl = self.blocks[b]
            u, d = set(), set()

            def U(f, *a):
                acc = set()
                f(*a, acc) if f is op_uses else f(a[0], acc, a[1])
                u.update(acc - d)

            for s in bl["s"]:
                if s[0] == "=":
                    rv = s[2]
                    k = rv[0]
                    if k in ("use", "repeat"):
                        U(op_uses, rv[1])
                    elif k in ("ref", "rawptr"):
                        U(pl_uses, rv[1], False)
                        if (k == "rawptr" or rv[2] == "mut") and "*" not in rv[1][1:]:
                            mut_taken.add(rv[1][0])
                    elif k == "cast":
                        U(op_uses, rv[2])
                    elif k == "bin":
                        U(op_uses, rv[2])
                        U(op_uses, rv[3])
                    elif k == "un":
                        U(op_uses, rv[2])
                    elif k == "discr":
                        U(pl_uses, rv[1], False)
                    elif k == "agg":
                        for o in rv[2]:
                            U(op_uses, o)
                    U(pl_uses, s[1], True)
                    if len(s[1]) == 1:
                        d.add(s[1][0])
                        assigned[s[1][0]] += 1
                        if not (k == "use" and rv[1][0] == "k"):
                            assigned_nonconst.add(s[1][0])
                    else:
                        assigned_nonconst.add(s[1][0])
                elif s[0] == "sd":
                    U(pl_uses, s[1], True)
                elif s[0] == "dead":
                    d.add(s[1])
            t = bl["t"]
            if t[0] == "switch":
                U(op_uses, t[1])
            elif t[0] == "call":
                U(op_uses, t[1])
                for o in t[2]:
                    U(op_uses, o)
                U(pl_uses, t[3], True)
                if len(t[3]) == 1:
                    d.add(t[3][0])
                assigned_nonconst.add(t[3][0])
            elif t[0] == "assert":
                U(op_uses, t[1])
            elif t[0] == "drop":
                pass  # dropping is not a use for the analysis (typestate plugins look at the cell if present)
                U(pl_uses, t[1], False)
            elif t[0] == "yield":
                U(op_uses, t[1])
            elif t[0] == "return":
                u.add(0)
            use[b], dfn[b] = u, d
        live_in = {b: set() for b in an["rpo"]}
        ch = True
        while ch:
            ch = False
            for b in reversed(an["rpo"]):
                o = set()
                for s in an["succ"][b]:
                    o |= live_in.get(s, set())
                n = use[b] | (o - dfn[b])
                if n != live_in[b]:
                    live_in[b] = n
                    ch = True
        named = set()
        for pl, _ in self.d["names"]:
            if pl:
                named.add(pl[0])
        T = self.prog.types
        self.flags = {
            l for l in assigned
            if l > self.argc and l not in assigned_nonconst and l not in named and l not in mut_taken
            and T[self.locals[l]]["k"] == "bool" and assigned[l] >= 2 and l != 0
        }
        # a real drop flag is only read by switches guarding drops
        self.flags = {l for l in self.flags if self._is_dropflag(l)}
        self.live_in = live_in
        self.mut_taken = mut_taken

    def _is_dropflag(self, l):
        an = self._an
        for b in an["rpo"]:
            bl = self.blocks[b]
            for s in bl["s"]:
                if s[0] == "=":
                    def has(o):
                        return o[0] in ("c", "m") and o[1][0] == l
                    rv = s[2]
                    if rv[0] in ("use",) and has(rv[1]):
                        return False
                    if rv[0] in ("bin",) and (has(rv[2]) or has(rv[3])):
                        return False
                    if rv[0] == "un" and has(rv[2]):
                        return False
            t = bl["t"]
            if t[0] == "switch" and t[1][0] in ("c", "m") and t[1][1][0] == l:
                ok = False
                for s in an["succ"][b]:
                    if self.blocks[s]["t"][0] == "drop" and not any(x[0] == "=" for x in self.blocks[s]["s"]):
                        ok = True
                if not ok:
                    return False
        return True


class Program:
    def __init__(self, dump):
        self.types = dump["types"]
        self.adts = dump["adts"]
        self.statics = dump["statics"]
        self.skipped = dump["skipped"]
        self.bodies = {}
        for d in dump["bodies"]:
            self.bodies[d["id"]] = Body(self, d)
        self.through_into(dump["bodies"])
        self._cg = None

    def through_into(self, x):
        """`Into::into` of the blanket impl calls the crate's own `From::from`: name that body as the callee"""
        todo = [x]
        while todo:
            x = todo.pop()
            if isinstance(x, dict):
                if x.get("c") == "fn" and x.get("n") == "into" and len(x.get("a", ())) == 2:
                    p = "<%s as core::convert::From<%s>>::from" % (self.types[x["a"][1]]["s"], self.types[x["a"][0]]["s"])
                    if p in self.bodies:
                        x["r"] = p
                todo.extend(v for v in x.values() if isinstance(v, (dict, list)))
            elif isinstance(x, list):
                todo.extend(v for v in x if isinstance(v, (dict, list)))

    def ty(self, i):
        return self.types[i]

    def tys(self, i):
        return self.types[i]["s"]

    def callee(self, t):
        """(resolved path, fn const) of a call terminator, or (None, None) for indirect calls."""
        f = t[1]
        if f[0] == "k" and f[1].get("c") == "fn":
            c = f[1]
            return c.get("r") or c["p"], c
        return None, None

    def consts_in(self, body):
        """all constants mentioned in a body (operands), as (const, span)"""
        out = []

        def op(o, sp):
            if o[0] == "k":
                out.append((o[1], sp))

        for bl in body.blocks:
            if bl["u"]:
                continue
            for s in bl["s"]:
                if s[0] == "=":
                    rv = s[2]
                    for x in rv[1:]:
                        if isinstance(x, list) and x and x[0] in ("c", "m", "k"):
                            op(x, s[3])
                    if rv[0] == "agg":
                        for o in rv[2]:
                            op(o, s[3])
            t = bl["t"]
            if t[0] == "call":
                op(t[1], t[5])
                for o in t[2]:
                    op(o, t[5])
            elif t[0] in ("switch", "assert"):
                op(t[1], t[-1])
        return out

    def callgraph(self):
        """edges: body id -> list of (callee path, fnconst, span, how) where how in call/ref/closure/type."""
        if self._cg is not None:
            return self._cg
        cg = {}
        for bid, b in self.bodies.items():
            es = []
            for bl in b.blocks:
                if bl["u"]:
                    continue
                t = bl["t"]
                if t[0] == "call":
                    p, c = self.callee(t)
                    if c is not None:
                        es.append((p, c, t[5], "call"))
                        # closures handed over by type argument
                        for ti in list(c.get("a", [])) + list(c.get("ra", [])):
                            ty = self.types[ti]
                            if ty["k"] in ("closure", "fndef"):
                                es.append((ty["p"], None, t[5], "type"))
                    else:
                        es.append((None, t[1], t[5], "indirect"))
                elif t[0] == "drop":
                    es.append(("drop:" + self.tys(t[3]), None, t[4], "drop"))
                for s in bl["s"]:
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1].get("k") == "closure":
                        es.append((s[2][1]["p"], None, s[3], "closure"))
            for c, sp in self.consts_in(b):
                self._const_fns(c, sp, es)
            cg[bid] = es
        # closures/nested bodies belong to their parent's flow even when stored
        self._cg = cg
        return cg

    def _const_fns(self, c, sp, es):
        if not isinstance(c, dict):
            return
        if c.get("c") == "fn":
            es.append((c.get("r") or c["p"], c, sp, "ref"))
        if c.get("c") in ("closure", "zst") and "t" in c:
            ty = self.types[c["t"]]
            if ty["k"] in ("closure", "fndef"):
                es.append((ty["p"], None, sp, "ref"))
        if "from" in c and c["from"] in self.bodies:
            es.append((c["from"], None, sp, "const"))
        for k in ("v", "f"):
            x = c.get(k)
            if isinstance(x, dict):
                self._const_fns(x, sp, es)
            elif isinstance(x, list):
                for y in x:
                    if isinstance(y, dict):
                        self._const_fns(y, sp, es)

    def trait_impls(self):
        """method name -> local impl body ids, for unresolved trait calls: {(trait, name): [ids]}"""
        m = collections.defaultdict(list)
        for bid, b in self.bodies.items():
            tr = b.d.get("impl_trait")
            if tr:
                m[(tr.split("<")[0], bid.rsplit("::", 1)[1])].append(bid)
        return m

    def reachable(self, roots):
        """local bodies reachable from roots -> {id: (parent id, span)}; unresolved trait calls go to every local impl."""
        cg = self.callgraph()
        impls = self.trait_impls()
        seen = {}
        st = []
        for r in roots:
            if r in self.bodies and r not in seen:
                seen[r] = None
                st.append(r)
        children = collections.defaultdict(list)
        while st:
            x = st.pop()
            for p, c, sp, how in cg.get(x, []):
                tg = []
                if p in self.bodies:
                    tg.append(p)
                elif c is not None and isinstance(c, dict) and c.get("trait"):
                    tg += impls.get((c["trait"].split("<")[0], c.get("n")), [])
                for y in tg:
                    if y not in seen:
                        seen[y] = (x, sp)
                        st.append(y)
        return seen

    def path_to(self, seen, x):
        out = []
        while x is not None:
            p = seen.get(x)
            out.append(x)
            x = p[0] if p else None
        return list(reversed(out))
