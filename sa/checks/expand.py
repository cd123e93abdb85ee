"""Path expansion: what a dotted key turns into, what happens to the others, and how deep it recurses (C16, C17)."""
from ..texec import Exec, Unsupported, TOP, OPT, RES, Opaque, NeedScan
from .roundtrip import Gone
from .. import lang as L
from .layout import NONE, some
from .fold import the, bare

HEAD = L.ALPHA | L.m("_")
TAIL = HEAD | L.DIGIT
IDENT = L.from_nfa(0, {0: [(HEAD, 1)], 1: [(TAIL, 1)]}, [1])
UNIT = ("tup", ())
ok = lambda v: ("adt", RES, 0, (v,))
ERR = ("adt", RES, 1, (("mk", "E"),))
DEEP = 256


class X:
    def __init__(self, C, O):
        self.C, self.O, self.prog = C, O, C.prog
        self.ad = {}
        for n in ("NodeValue", "ObjectNode"):
            x = [x for x in C.prog.adts if x.endswith("::" + n)]
            if len(x) != 1:
                raise Gone(n)
            self.ad[n] = x[0]
        if [v["name"] for v in C.prog.adts[self.ad["NodeValue"]]["v"]] != ["Primitive", "Array", "Object"]:
            raise Gone("NodeValue")
        self.of = [f[0] for f in C.prog.adts[self.ad["ObjectNode"]]["v"][0]["f"]]
        if set(self.of) != {"entries", "quoted_keys"}:
            raise Gone("ObjectNode")

    def node(self, k, v):
        return ("adt", self.ad["NodeValue"], k, (v,))

    def on(self, entries, quoted=("wild",)):
        return ("adt", self.ad["ObjectNode"], 0, tuple(entries if f == "entries" else quoted for f in self.of))

    def obj(self, entries, quoted=("wild",)):
        return self.node(2, self.on(entries, quoted))

    def start(self, fn, cuts, ident=False, index=None):
        """fn with the functions in cuts cut off; a cut function's result is cuts[name](args)"""
        self.fn, self.b = fn, the(self.C, fn)
        ex = self.ex = Exec(self.prog, shared=self.C.sh, opaque=set())
        ex.free = ex.freeeq = True
        ex.recursion = []
        self.calls = []
        for n, res in cuts.items():
            def h(ex, st, args, n=n, res=res, body=the(self.C, n)):
                s = st.copy()
                a = tuple(bare(ex.freeze(s, ex.deref(s, x))) for i, x in enumerate(args)
                          if not self.prog.types[body.locals[1 + i]]["s"].startswith("&mut"))
                self.calls.append((n, a))
                s.cells["~q"] = ("q", self.add(s.cells["~q"][1], (n,) + a))
                out = []
                f = s.copy()
                f.cells["~failed"] = ("int", 1)
                v = res(ex, s, args)
                return [(s, v), (f, ERR)]
            ex.hooks[the(self.C, n).id] = h
        if ident:
            def hi(ex, st, a):
                v = bare(ex.freeze(st, ex.deref(st, a[0])))
                out = []
                for t in (True, False):
                    s = st.copy()
                    if v[0] != "p":
                        s.cons["~doubt"] = 1
                    elif s.cons.get("ident:" + v[1], t) != t:
                        continue
                    else:
                        s.cons["ident:" + v[1]] = t
                    out.append((s, ("int", int(t))))
                return out
            ex.hooks[the(self.C, "is_identifier_segment").id] = hi
        if index is not None:
            ex.hooks[the(self.C, "find_entry_index").id] = lambda ex, st, a: [(st, index)]
        elif fn == "expand_object":
            def hf(ex, st, a):
                k = "~at:" + repr(ex.freeze(st, ex.deref(st, a[-1])))
                out = []
                for b in (True, False):
                    if st.cons.get(k, b) == b:
                        s = st.copy()
                        s.cons[k] = b
                        out.append((s, some(("int", 0)) if b else NONE))
                return out
            ex.hooks[the(self.C, "find_entry_index").id] = hf
        self.names = {pl[0]: n for pl, n in self.b.d["names"] if len(pl) == 1 and pl[0] <= self.b.argc}

    def add(self, q, e):
        if e in q:
            return q
        if len(q) > 20:
            raise Unsupported("too many calls")
        return q + (e,)

    def go(self, prop, what, roles, judge, strict=("symb", "strict"), depth=3):
        """roles: values in the order of the remaining parameters"""
        key = "%s, %s" % (self.fn, what)
        st = self.ex.start_state()
        st.cells["~q"] = ("q", ())
        st.cells["~failed"] = ("int", 0)
        args, it = [], iter(roles)
        try:
            for i in range(self.b.argc):
                s = self.prog.types[self.b.locals[1 + i]]["s"]
                if s == "bool":
                    args.append(strict)
                elif s == "usize":
                    args.append(("int", depth))
                else:
                    v = next(it)
                    if s.startswith("&mut"):
                        st.cells["tgt"] = v
                        v = ("ref", "tgt", ())
                    args.append(v)
            if next(it, None) is not None:
                raise StopIteration
        except StopIteration:
            self.O.add(prop, key, None, "the parameters have changed", None)
            return
        where = (self.fn, self.b.d.get("span"))
        try:
            r = self.ex.call_body(self.b, args, st)
        except (Unsupported, Opaque, NeedScan) as e:
            self.O.add(prop, key, None, "not analysed: %s" % e, None)
            return
        res, txt, n = True, "", 0
        for s, v in r:
            v = bare(self.ex.freeze(s, v))
            if v[0] != "adt" or v[1] != RES:
                w = "?"
            else:
                got = bare(self.ex.freeze(s, s.cells["tgt"])) if "tgt" in s.cells else None
                failed = s.cells["~failed"] == ("int", 1)
                if failed and v[2] == 1:
                    n += 1
                    continue
                q = s.cells["~q"][1]
                w = "an error of a step below is dropped" if failed else judge(s, v, got, q)
                lost = [e for e in q if e[0] in FNS and strict not in e[1:]]
                if w is None and prop in ("C17", "C18") and lost:
                    w = "?" if "top" in repr(lost) else "strict mode is not handed on"
            n += 1
            if w is None:
                continue
            if w != "?" and "~doubt" not in s.cons:
                res, txt = False, w
                break
            res, txt = None, "not decided (%s)" % w
        self.O.add(prop, key, res if n else None, txt or "%d ways" % n, where)


def like(got, want):
    if want == ("wild",):
        return True
    if isinstance(got, tuple) and isinstance(want, tuple):
        if got[:1] == want[:1] == ("vec",) and any(x[0] == "*" for x in want[1]):
            # the elements before and behind the one in focus may be none, one or many
            a, b = ([z[1] if z[0] == "*" else z for z in w[1]] for w in (want, got))
            must = {z for z, w in zip(a, want[1]) if z == w}
            b = [z for k, z in enumerate(b) if z in must or k == 0 or b[k - 1] != z]
            return must <= set(b) and b == [z for z in a if z in b]
        return len(got) == len(want) and all(like(x, y) for x, y in zip(got, want))
    return got == want


def cmp(got, want, why):
    if like(got, want):
        return None
    t = repr(got)
    return "?" if "top" in t or "any" in t or "'ge'" in t else why


def trip(f):
    return ("vec", (("*", f("B")), f("F"), ("*", f("A"))))


def members3():
    """any number of members with plain keys, the one in focus, and one more"""
    m = lambda k, v: ("tup", (k, ("mk", v)))
    return ("vec", (("*", m(("str", "b"), "B.v")), m(("p", "F.k"), "F.v"), m(("str", "a"), "A.v")))


def new(ex, st, args):
    v = ex.deref(st, args[0])
    return ok(("mk", "new:" + v[1])) if v[0] == "mk" else ok(TOP)


FNS = ("expand_paths_safe_inner", "expand_object", "insert_path_entries", "insert_literal_entry", "merge_objects")


mk_done = ("mk", "done")


def grown(ex, st, args):
    """a cut insertion marks the entries it was given"""
    r = args[0]
    n = 0
    while r[0] == "ref" and ex.load(st, r)[0] == "ref" and n < 4:
        r, n = ex.load(st, r), n + 1
    if r[0] == "ref":
        v = ex.fix(st, ex.load(st, r))
        if v[0] == "vec" and mk_done in v[1]:
            pass
        elif v[0] == "vec":
            ex.store(st, r[1], r[2], ("vec", v[1] + (mk_done,)))
        elif v[0] == "adt":
            ex.store(st, r[1], r[2], ("mk", "merged:" + v[3][0][1] if v[3][0][0] == "mk" else "merged"))
    return ok(UNIT)


def cuts_for(fn, inner=new):
    c = {n: (lambda ex, st, a: grown(ex, st, a)) for n in ("insert_path_entries", "insert_literal_entry", "merge_objects") if n != fn}
    c["expand_paths_safe_inner"] = inner
    c["expand_object"] = inner
    return c


def expansion(C, O):
    S = X(C, O)
    mk = lambda n: ("mk", n)
    text = lambda n: ("p", n)

    def each(f):
        try:
            f()
        except Gone as e:
            [O.add(p, f.__name__, None, "%s is not there" % e, None) for p in ("C17", "C18")]

    def args_of(q, n):
        return [e[1:] for e in q if e[0] == n]

    def tree():
        S.start("expand_paths_safe_inner", cuts_for(""))
        S.go("C17", "the elements of an array", [S.node(1, trip(mk))], lambda s, v, g, q: "an error out of nothing" if v[2] else
             cmp(v[3][0], S.node(1, trip(lambda p: mk("new:" + p))), "an element of an array is lost, moved or not expanded"))
        S.start("expand_paths_safe_inner", cuts_for(""))
        S.go("C17", "an object", [S.node(2, mk("O"))], lambda s, v, g, q: "an error out of nothing" if v[2] else
             cmp(v[3][0], S.node(2, mk("new:O")), "an object is not expanded"))
        S.start("expand_paths_safe_inner", cuts_for(""))
        S.go("C17", "a primitive", [S.node(0, mk("P"))], lambda s, v, g, q: "an error out of nothing" if v[2] else
             cmp(v[3][0], S.node(0, mk("P")), "a primitive is changed"))

    def members():
        S.start("expand_object", cuts_for("expand_object"), ident=True)
        e = members3()

        def judge(s, v, g, q):
            if v[2]:
                return "an error out of nothing"
            mine = [e for e in q if "F." in repr(e[1:])]
            ins = [e for e in mine if e[0] in ("insert_path_entries", "insert_literal_entry")]
            if "top" in repr(mine) or "any" in repr(ins):
                return "?"
            if [e for e in mine if e[0] == "expand_paths_safe_inner"] != mine[:1]:
                return "?"
            if not ins:
                return "a member of an object is dropped"
            if len(ins) > 1:
                return "a member of an object is added twice"
            if not [e for e in q if e[0] == "insert_literal_entry" and ("str", "a") in e and mk("new:A.v") in e]:
                return "the members behind this one are left out"
            x = ins[0][1:]
            if not [y for y in x if y == mk("new:F.v")]:
                return "?" if not [y for y in x if y == mk("F.v")] else "a member is added without its own value being expanded"
            quoted = s.cons.get("~in:Q:F.k")
            ids = [s.cons.get("ident:F.k/" + z) for z in "BFA"]
            if ins[0][0] == "insert_literal_entry":
                if text("F.k") not in x:
                    return "?"
                if quoted is False and False not in ids and True in ids:
                    return "an unquoted key all of whose segments are identifiers is not expanded"
                return None
            if quoted is not False:
                return "a quoted key is expanded"
            if [y for y in x if y[0] == "vec"] != [trip(lambda z: text("F.k/" + z))]:
                return "?"
            if ids[1] is not True:
                return "a key is expanded although not every segment is an identifier"
            return None
        S.go("C17", "every member once, as its key says", [S.on(e, mk("Q"))], judge)

    P, L, Oo = S.node(0, mk("p")), S.node(1, mk("l")), S.obj(mk("m"), mk("mq"))
    P2, L2, O2 = S.node(0, mk("p2")), S.node(1, mk("l2")), S.obj(mk("m2"), mk("mq2"))
    rest, last = ("tup", (text("r"), mk("R"))), ("tup", (text("z"), mk("Z")))

    def entry(fn):
        src = (lambda k, v: [text(k), v]) if fn == "insert_literal_entry" else (lambda k, v: [S.on(("vec", (("tup", (text(k), v)),)))])
        tgt = (lambda es: ("vec", es)) if fn == "insert_literal_entry" else (lambda es: S.on(("vec", es)))
        cuts = {n: grown for n in ("merge_objects", "insert_path_entries")}
        for nm, v in (("primitive", P2), ("array", L2), ("object", O2)):
            S.start(fn, cuts, index=NONE)
            S.go("C17", "a new key with an %s" % nm if nm[0] in "ao" else "a new key with a %s" % nm, [tgt((rest,))] + src("K", v),
                 lambda s, r, g, q, v=v: "refused" if r[2] else cmp(g, tgt((rest, ("tup", (text("K"), v)))), "the member is not added at the end"))
            for n0, v0 in (("primitive", P), ("array", L), ("object", Oo)):
                for strict in (0, 1):
                    both = n0 == nm == "object"
                    S.start(fn, cuts, index=some(("int", 1)))

                    def judge(s, r, g, q, v=v, strict=strict, both=both):
                        if strict and not both:
                            return None if r[2] else "a conflict is accepted in strict mode"
                        if r[2]:
                            return "refused without strict mode" if not both else "two objects are refused"
                        if both:
                            c = args_of(q, "merge_objects")
                            if not c:
                                return "two objects under one key are not merged"
                            if len(c) > 1 or "'m2'" not in repr(c):
                                return "?"
                            return cmp(g, tgt((rest, ("tup", (text("K"), S.node(2, mk("merged:m")))), last)), "two objects under one key are not merged in place")
                        return cmp(g, tgt((rest, ("tup", (text("K"), v)), last)), "the later value does not replace the earlier one")
                    S.go("C18", "%s on top of %s, %s" % (nm, n0, "strict" if strict else "lenient"), [tgt((rest, ("tup", (text("K"), v0)), last))] + src("K", v), judge,
                         strict=("int", strict))

    def literal():
        entry("insert_literal_entry")

    def merge():
        entry("merge_objects")

    def path():
        fn = "insert_path_entries"
        seg = ("vec", (text("s1"), text("s2")))
        cut = {fn: grown, "insert_literal_entry": grown}

        def below(q, n):
            c = args_of(q, n)
            if len(c) != 1 or "top" in repr(c):
                return "?"
            if mk("V") not in c[0]:
                return "the value is not handed on"
            if n == fn:
                vs = [x for x in c[0] if x[0] in ("vec", "arr") and "s" in repr(x) and mk("done") not in x[1]]
                return None if [x for x in vs if x[1] == (text("s2"),)] else "?"
            return None if text("s2") in c[0] else "?"

        S.start(fn, cut, index=NONE)
        S.go("C17", "the last segment", [("vec", (rest,)), ("vec", (text("s2"),)), mk("V")],
             lambda s, r, g, q: "refused" if r[2] else below(q, "insert_literal_entry") or cmp(g, ("vec", (rest, mk("done"))), "the value is put elsewhere"))
        S.start(fn, cut, index=NONE)
        S.go("C17", "a new segment", [("vec", (rest,)), seg, mk("V")],
             lambda s, r, g, q: "refused" if r[2] else below(q, fn) or
             cmp(g, ("vec", (rest, ("tup", (text("s1"), S.obj(("vec", (mk("done"),))))))), "a segment does not become an object that holds the rest of the path"))
        for n0, v0 in (("primitive", P), ("array", L), ("object", S.obj(("vec", (rest,))))):
            for strict in (0, 1):
                S.start(fn, cut, index=some(("int", 1)))

                def judge(s, r, g, q, n0=n0, strict=strict):
                    if strict and n0 != "object":
                        return None if r[2] else "a conflict is accepted in strict mode"
                    if r[2]:
                        return "refused"
                    inner = (rest, mk("done")) if n0 == "object" else (mk("done"),)
                    return below(q, fn) or cmp(g, ("vec", (rest, ("tup", (text("s1"), S.obj(("vec", inner)))), last)), "the path does not lead into the object that is there")
                S.go("C18", "a segment that is there as %s, %s" % (n0, "strict" if strict else "lenient"),
                     [("vec", (rest, ("tup", (text("s1"), v0)), last)), seg, mk("V")], judge, strict=("int", strict))
    for f in (tree, members, literal, merge, path):
        each(f)


def bounded(C, O):
    S = X(C, O)
    v = ("mk", "V")
    roles = {"expand_paths_safe_inner": [[S.node(1, trip(lambda p: ("mk", p)))], [S.node(2, v)]],
             "expand_object": [[S.on(members3(), ("mk", "Q"))]],
             "insert_path_entries": [[("vec", (("*", ("mk", "r")),)), ("vec", (("p", "a"), ("p", "b"))), v], [("vec", ()), ("vec", (("p", "a"),)), v]],
             "insert_literal_entry": [[("vec", (("tup", (("p", "a"), S.obj(("mk", "m"), ("mk", "q")))),)), ("p", "a"), S.obj(("mk", "n"), ("mk", "q"))]],
             "merge_objects": [[S.on(("vec", (("tup", (("p", "a"), S.obj(("mk", "m"), ("mk", "q")))),))), S.on(("vec", (("tup", (("p", "a"), S.obj(("mk", "n"), ("mk", "q")))),)))]]}
    still = {}              # calls that do not count the depth
    for fn in FNS:
        for i, r in enumerate(roles[fn]):
            for index in (NONE, some(("int", 0))):
                for depth in (3, DEEP):
                    try:
                        S.start(fn, cuts_for(""), ident=True, index=index)
                    except Gone as e:
                        O.add("C16", "%s, depth" % fn, None, "%s is not there" % e, None)
                        continue

                    def judge(s, r, g, q):
                        if depth == DEEP:
                            return "the recursion does not stop at a depth of %d" % DEEP if r[2] == 0 or q else None
                        for e in q:
                            if e[0] in FNS:
                                d = [x[1] for x in e[1:] if x[0] in ("int", "ge")]
                                if not d:
                                    return "?"
                                if max(d) <= depth:
                                    still.setdefault(fn, set()).add(e[0])
                        return None
                    S.go("C16", "%s at depth %d%s" % ("case %d" % (i + 1), depth, "" if index == NONE else ", key there"), r, judge, depth=depth)
    for fn in FNS:
        seen, todo = set(), [fn]
        while todo:
            for y in still.get(todo.pop(), ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        w = (fn, the(C, fn).d.get("span")) if [x for x in C.prog.bodies if x.split("::")[-1] == fn] else None
        O.add("C16", "%s comes back to itself only with a larger depth" % fn, fn not in seen,
              "the depth is not counted on the way %s" % " -> ".join([fn] + sorted(seen)) if fn in seen else "", w)


def identifiers(C, O, prop):
    """is_identifier_segment accepts a letter or _ followed by letters, digits and _, and nothing else"""
    fn = "is_identifier_segment"
    b = the(C, fn)
    where = (fn, b.d.get("span"))
    yes, no, doubt = L.nothing(), L.nothing(), False
    for v, cons in C.run_sym(b.id, (("p", "seg"),)):
        d = cons.get("seg", L.universal())
        if v not in (("int", 0), ("int", 1)) or "~doubt" in cons:
            doubt = True
            continue
        if v[1]:
            yes = yes | d
        else:
            no = no | d
    for what, bad in (("accepts only identifiers", yes - IDENT), ("refuses no identifier", no & IDENT)):
        w = None if bad.empty() else bad.witness()
        res = None if doubt or (w is not None and not (yes & no).empty()) else w is None
        O.add(prop, "%s %s" % (fn, what), res, "" if w is None else "e.g. %r" % (w,), where)


def lookup(C, O, prop):
    """find_entry_index gives an entry that has the key, and none only if no entry has it"""
    fn = "find_entry_index"
    b = the(C, fn)
    where = (fn, b.d.get("span"))
    ex = Exec(C.prog, shared=C.sh, opaque=set())
    ex.free = ex.freeeq = True
    ex.cap = 5
    es = ("vec", tuple(("tup", (("p", "e%d" % i), ("mk", "v%d" % i))) for i in range(3)))
    args = [("p", "pivot") if C.prog.types[b.locals[1 + i]]["s"].endswith("str") else es for i in range(b.argc)]
    res, txt, n = True, "", 0
    for s, v in ex.call_body(b, args, ex.start_state()):
        v = bare(ex.freeze(s, v))
        n += 1
        eq = [s.cons.get("~eq:e%d" % i) for i in range(3)]
        good = v == NONE and eq == [False] * 3 or v[0] == "adt" and v[1] == OPT and v[2] == 1 and v[3][0][0] == "int" and eq[v[3][0][1]] is True
        if not good:
            sure = "~doubt" not in s.cons and v[0] == "adt" and "top" not in repr(v) and "'ge'" not in repr(v)
            res, txt = (False, "an entry with another key, or none although one has it") if sure else (None, "not decided")
            if sure:
                break
    O.add(prop, "%s over three entries" % fn, res if n else None, txt or "%d ways" % n, where)
