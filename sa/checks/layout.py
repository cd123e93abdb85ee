"""The lines of the encoder: every member once, in order, one level below its parent.

Each function of the encoder's recursion is run on a symbolic value whose list is "the elements before, one element in
focus, the elements behind", with the other functions of the recursion cut off; the lines it appends and the calls it makes
(with the value, key and depth handed on) are compared with what the format asks for.
"""
from .. import tmodels as M
from ..texec import Exec, Unsupported, TOP, OPT, Opaque, NeedScan
from . import text as T
from .roundtrip import Gone

LINE = ("indented_line", "indented_key_value_line", "indented_key_colon_line", "indented_list_item", "indented_list_item_key_value",
        "indented_list_item_key_colon", "indented_list_item_key_header")


class Seq:
    """one function of the recursion with the rest cut off; what it does is a sequence of events per way through it"""

    def __init__(self, C, rec, fn, parts=(), hooks=None):
        self.C, self.prog, self.parts = C, C.prog, parts
        b = [x for x in C.prog.bodies if x.split("::")[-1] == fn]
        if len(b) != 1:
            raise Gone(fn)
        self.b = C.prog.bodies[b[0]]
        self.soft = set()
        ex = self.ex = Exec(C.prog, shared=C.sh, opaque=set())
        ex.free = True
        ex.monitor = lambda ex, st, name, v: self.event(st, self.line(st, ex.freeze(st, v)))
        self.hooks = dict(hooks or {})
        for r in rec:
            n = r.split("::")[-1]
            if n != "{closure#0}" and n not in self.hooks:
                self.hooks[n] = self.cut(n)
        for n in [n for n, h in self.hooks.items() if h is None]:
            self.hooks[n] = self.cut(n)
        for n, h in self.hooks.items():
            k = [x for x in C.prog.bodies if x.split("::")[-1] == n]
            if len(k) != 1:
                raise Gone(n)
            ex.hooks[k[0]] = h
        self.top = True
        self.st = ex.start_state()
        self.st.cells["out"] = ("sink", "out")
        self.st.cells["~q"] = ("q", ())

    def cut(self, n):
        b = [self.prog.bodies[x] for x in self.prog.bodies if x.split("::")[-1] == n]
        if b and not any(self.C.linevec(t) for t in b[0].locals[1:1 + b[0].argc]):
            return lambda ex, st, args: [(st, TOP)]

        def h(ex, st, args):
            return self.event(st, (n,) + tuple(self.short(st, a) for a in args))
        return h

    def short(self, st, a):
        ex = self.ex
        v = ex.deref(st, a)
        if v[0] == "sink":
            return "out"
        return self.term(st, v)

    def term(self, st, v):
        if v[0] == "ref":
            v = self.ex.deref(st, v)
        if v[0] == "app":
            return (v[1].split("::")[-1],) + tuple(self.term(st, x) for x in v[2])
        if v[0] == "adt" and v[1] == OPT:
            return ("Some", self.term(st, v[3][0])) if v[2] == 1 else "None"
        if v[0] in ("sym", "list", "symint", "symb", "p", "mk"):
            return v[1]
        if v[0] == "symadd":
            return "%s+%d" % (v[1], v[2])
        if v[0] == "pc":
            return v[1]
        if v[0] == "vec":
            return ("vec",) + tuple(("*", self.term(st, x[1])) if x[0] == "*" and x[1] != "any" else "any" if x[0] == "*" else self.term(st, x) for x in v[1])
        if v[0] == "adt":
            n = self.prog.adts[v[1]]["v"][v[2]]["name"] if v[1] in self.prog.adts else v[1]
            return (n,) + tuple(self.term(st, x) for x in v[3])
        if v[0] == "tup":
            return ("tup",) + tuple(self.term(st, x) for x in v[1])
        if v[0] == "cat":
            return ("cat",) + tuple(self.term(st, x) for x in v[1])
        if v[0] in ("int", "str"):
            return v[1]
        return "?"

    def line(self, st, v):
        return ("push", self.term(st, v))

    def event(self, st, e):
        s = st.copy()
        q = s.cells["~q"][1]
        star = parts(e) and "F" not in parts(e)
        run = len(q)
        while star and run and parts(q[run - 1]) == parts(e):
            run -= 1
        if e not in q[run:]:
            if len(q) > 20:
                raise Unsupported("a sequence of lines that grows without end: %s" % (q[-3:],))
            s.cells["~q"] = ("q", q + (e,))
        return [(s, M.UNIT)]

    def run(self, args):
        if self.b.argc != len(args):
            raise Gone(self.b.id)
        a = []
        for i, x in enumerate(args):
            if x is None:
                x = self.ex.symval("a%d" % i, self.b.locals[1 + i])
            a.append(x)
        C = self.C
        C.sh["lines"] = {}
        return [(s.cells["~q"][1], s, v) for s, v in self.ex.call_body(self.b, a, self.st)]


def parts(e):
    """the parts of the list an event is about"""
    if isinstance(e, str):
        e = e[4:] if e.startswith("len:") else e
        if "[]" in e:
            return {"[]"}
        return {e[0]} if e[:1] in ("B", "F", "A") and e[1:2] in ("", ".") else set()
    if not isinstance(e, tuple):
        return set()
    if e and e[0] == "vec":
        return {x[5] for y in e[1:] for x in (y if isinstance(y, tuple) else (y,)) if isinstance(x, str) and x.startswith("cell:")}
    return set().union(*[parts(x) for x in e])


OUT = ("ref", "out", ())
NONE = ("adt", OPT, 0, ())


def some(v):
    return ("adt", OPT, 1, (v,))


def setup(C):
    entry = [b for b in C.prog.bodies if b.endswith("encoders::encode_json_value")]
    if len(entry) != 1:
        raise Gone("encode_json_value")
    C.sh["delim"] = ","
    return C.recursive(entry[0])[0]


def atoms(e, out=None):
    """the names an event mentions, the names inside lists apart"""
    out = [] if out is None else out
    if isinstance(e, str):
        out.append(e)
    elif isinstance(e, tuple) and e and e[0] == "vec":
        out.append(e)
    elif isinstance(e, tuple):
        for x in e:
            atoms(x, out)
    return out


class Want:
    """what one event has to be: names it mentions, its depth"""

    def __init__(self, names, plus, opt=False, line=None):
        self.names, self.depth, self.opt, self.line = set(names), "-" if plus is None else "D" if not plus else "D+%d" % plus, opt, line

    def __repr__(self):
        return "%s at %s" % (" ".join(sorted(map(pretty, self.names))) or "a line", self.depth.replace("D", "depth"))


def pretty(x):
    if isinstance(x, tuple):
        return "<the list %s>" % " ".join(map(pretty, x[1:])) if x and x[0] == "vec" else "(%s)" % " ".join(map(pretty, x))
    return str(x)


ALL = set("KPLEFBAHR")


def fits(e, w):
    """True, a reason, or None when the event is not known well enough"""
    at = atoms(e)
    d = [x for x in at if isinstance(x, str) and (x == "D" or x.startswith("D+"))]
    own = {x for x in at if isinstance(x, tuple) or x.split(".")[0].split("[")[0].replace("len:", "") in MARK}
    miss = [x for x in w.names if not any(same(x, y) for y in at)]
    if miss:
        return None if "?" in at else "%s instead of %s" % (brief(e), w)
    foreign = [y for y in own if isinstance(y, str) and not y.startswith("len:") and not any(same(x, y) or x == "K" for x in w.names)]
    if foreign and e[0] != "push":
        pass
    if not d and w.depth != "-":
        return None
    if d and set(d) != {w.depth}:
        return "%s is at %s instead of %s" % (brief(e), " ".join(d).replace("D", "depth"), w.depth.replace("D", "depth"))
    if w.line is not None and (e[0] == "push") != w.line:
        return None
    return True


MARK = {"K", "P", "L", "E", "F", "B", "A", "H", "R", "FK", "FP", "FL", "E2"}


def same(x, y):
    if isinstance(x, str) and isinstance(y, str):
        return y == x or y.startswith(x + ".") or y == "len:" + x
    if isinstance(x, tuple) and isinstance(y, tuple) and x[:1] == y[:1] == ("vec",):
        # the elements before and behind the one in focus may be none, one or many
        a, b = ([z[1] if isinstance(z, tuple) and z[0] == "*" else z for z in w[1:]] for w in (x, y))
        must = {z for z, w in zip(a, x[1:]) if z == w}
        b = [z for k, z in enumerate(b) if z in must or k == 0 or b[k - 1] != z]
        return must <= set(b) and b == [z for z in a if z in b]
    return x == y


def flat(x):
    return [z for y in x for z in (y if isinstance(y, tuple) else (y,)) if isinstance(z, str)]


def brief(e):
    n = [pretty(x) for x in atoms(e) if isinstance(x, tuple) or x.split(".")[0].split("[")[0] in MARK]
    return ("a line for %s" if e[0] == "push" else e[0] + " for %s") % (" ".join(n) or "?")


def judge(q, wants, i=0, j=0):
    """does the sequence of events match: True / None / reason"""
    if i == len(q) and j == len(wants):
        return True
    if j < len(wants) and i == len(q):
        return judge(q, wants, i, j + 1) if wants[j].opt else "nothing is written for %s" % wants[j]
    if j == len(wants):
        return "%s is written too much" % brief(q[i])
    r = fits(q[i], wants[j])
    if r is True:
        x = judge(q, wants, i + 1, j + 1)
        if x is True or not wants[j].opt:
            return x
        for y in (judge(q, wants, i, j + 1), judge(q, wants, i + 1, j)):
            if y is True:
                return y
        return x
    if wants[j].opt:
        y = judge(q, wants, i, j + 1)
        return y if not isinstance(y, str) or isinstance(r, str) else None
    return r


class Sc:
    """scenarios of one run of the rule"""

    def __init__(self, C, O):
        self.C, self.O, self.prog = C, O, C.prog
        self.rec = setup(C)
        jv = [x for x in C.prog.adts if x.endswith("::JsonValue") and C.prog.adts[x]["local"]]
        if len(jv) != 1 or [v["name"] for v in C.prog.adts[jv[0]]["v"]] != ["Primitive", "Array", "Object"]:
            raise Gone("JsonValue")
        self.jv = jv[0]
        self.tp = [f[1] for v in C.prog.adts[jv[0]]["v"] for f in v["f"]]
        T_ = C.prog.types
        self.telem = T_[self.tp[1]]["a"][0]                     # JsonValue
        ent = T_[self.tp[2]]["a"][0]
        self.tkey = T_[ent]["a"][0]

    def prim(self, n):
        return ("adt", self.jv, 0, (self.ex.symval(n, self.tp[0]),))

    def arr(self, v):
        return ("adt", self.jv, 1, (v,))

    def obj(self, v):
        return ("adt", self.jv, 2, (v,))

    def lst(self, n):
        return self.ex.symval(n, self.tp[1])

    def ents(self, n):
        return self.ex.symval(n, self.tp[2])

    def any(self, n):
        return self.ex.symval(n, self.telem)

    def key(self, n):
        return self.ex.symval(n, self.tkey)

    def entry(self, p):
        return ("tup", (self.key(p + ".k"), self.any(p + ".v")))

    def trip(self, f):
        return ("vec", (("*", f("B")), f("F"), ("*", f("A"))))

    def start(self, fn, hooks=None):
        self.W = Seq(self.C, self.rec, fn, hooks=hooks)
        self.ex = self.W.ex
        self.fn = fn
        self.names = {pl[0]: n for pl, n in self.W.b.d["names"] if len(pl) == 1 and pl[0] <= self.W.b.argc}

    def indented(self, e):
        """a line is indented with the indent of the options"""
        at = atoms(e)
        if e[0] != "push" or not any(isinstance(x, str) and (x == "D" or x.startswith("D+")) for x in at):
            return True
        opt = [i for i in range(self.W.b.argc) if self.prog.types[self.W.b.locals[1 + i]]["s"].endswith("EncodeOptions")]
        fs = [x for x in self.prog.adts if x.endswith("::ResolvedEncodeOptions")]
        if len(opt) != 1 or len(fs) != 1:
            return None
        k = [f[0] for f in self.prog.adts[fs[0]]["v"][0]["f"]].index("indent")
        if "a%d.0.%d" % (opt[0], k) in at:
            return True
        return None if "?" in at else "a line is not indented by the indent option"

    def go(self, what, wants, check=None, prop="C34", ret=False, **roles):
        """run with the arguments in their roles and compare every way through with what is wanted"""
        W, T_ = self.W, self.prog.types
        W.st = self.ex.start_state()
        W.st.cells["out"] = ("sink", "out")
        W.st.cells["~q"] = ("q", ())
        args, used = [], set()
        us = [i for i in range(W.b.argc) if T_[W.b.locals[1 + i]]["s"] == "usize"]
        dep = [i for i in us if self.names.get(1 + i) == "depth"] or us[:1]
        for i in range(W.b.argc):
            ti = W.b.locals[1 + i]
            s = T_[ti]["s"]
            if self.C.linevec(ti):
                args.append(OUT)
                continue
            r = None
            if dep and i == dep[0]:
                args.append(("symint", "D"))
                continue
            if s.endswith("Vec<(alloc::string::String, %s)>" % self.jv) or s.endswith("[(alloc::string::String, %s)]" % self.jv):
                r = "entries"
            elif s.endswith("Vec<%s>" % self.jv) or s.endswith("[%s]" % self.jv):
                r = "list"
            elif s.endswith(self.jv):
                r = "value"
            elif s.endswith("Option<&str>") and self.names.get(1 + i) in (None, "key"):
                r = "okey"
            elif s == "&str" and self.names.get(1 + i) in (None, "key"):
                r = "key"
            elif s == "&[alloc::string::String]":
                r = "fields"
            if r in roles:
                args.append(roles[r])
                used.add(r)
            else:
                args.append(None)
        if set(roles) - used:
            raise Gone("%s: no parameter for %s" % (self.fn, ", ".join(sorted(set(roles) - used))))
        res, txt, n = True, "", 0
        key = "%s, %s" % (self.fn, what)
        try:
            ways = W.run(args)
        except (Unsupported, Opaque, NeedScan) as e:
            self.O.add(prop, key, None, "not analysed: %s" % e, None)
            return
        for q, s, v in ways:
            if ret is False:
                j0 = [x for x in map(self.indented, q) if x is not True]
            if ret:
                q = q + (("push", W.term(s, self.ex.freeze(s, v))),)
            j = judge(q, wants) if wants is not None else True
            if check is not None and j is True:
                j = check(q, s, v)
            if j is True and not ret and prop == "C34" and j0:
                j = j0[0]
            if isinstance(j, str) and "~doubt" not in s.cons:
                res, txt = False, j
                break
            if j is not True and res:
                res, txt = None, "not decided (%s)" % (j or brief(q[0]) if q else "no line")
            n += 1
        if not ways:
            res, txt = None, "no way through the function was found"
        self.O.add(prop, key, res, txt or "%d ways" % n, (self.fn, self.W.b.d.get("span")))


def parts_of(names, plus):
    """B*, F, A* one after the other"""
    return [Want(names("B"), plus, True), Want(names("F"), plus), Want(names("A"), plus, True)]


WHOLE = ("vec", ("*", "B"), "F", ("*", "A"))


def encoder(C, O):
    S = Sc(C, O)

    def each(f):
        try:
            f(S)
        except Gone as e:
            O.add("C34", f.__name__, None, "%s is not there" % e, None)
    for f in (indentation, root, inline, lengths, members, pair, folded, array, nested, mixed, table, tabular, rows, hyphen, item):
        each(f)


def members(S):
    S.start("encode_object_lines")
    S.go("members in order", parts_of(lambda p: [p + ".k", p + ".v"], 0), entries=S.trip(S.entry))


def only(C, O, *names):
    S = Sc(C, O)
    for n in names:
        globals()[n](S)


def siblings(S):
    """folding a key is decided with all keys of the object in view"""
    S.start("encode_object_lines")

    def check(q, s, v):
        want = ("vec", ("*", "B.k"), "F.k", ("*", "A.k"))
        for e in q:
            ls = [x for x in e if isinstance(x, tuple) and x[:1] == ("vec",)]
            if want in ls:
                continue
            return "the keys beside a key handed on are not those of the object" if len(ls) == 1 and "?" not in repr(ls) and "any" not in repr(ls) else None
        return True
    S.go("all keys are handed on as siblings", None, check, prop="C19", entries=S.trip(S.entry))


def pair(S):
    S.start("encode_key_value_pair_lines", {"try_fold_key_chain": lambda ex, st, a: [(st, NONE)]})
    k = S.key("K")
    S.go("primitive", [Want(["K", "P"], 0)], key=k, value=S.prim("P"))
    S.go("array", [Want(["K", "L"], 0)], key=k, value=S.arr(S.lst("L")))
    S.go("empty object", [Want(["K"], 0), Want([("vec",)], 1, True)], key=k, value=S.obj(("vec", ())))
    S.go("object", [Want(["K"], 0), Want([("vec", "E")], 1)], key=k, value=S.obj(("vec", (S.key("E"),))))


def folded(S):
    ad = [x for x in S.prog.adts if x.endswith("::FoldResult")]
    if len(ad) != 1:
        raise Gone("FoldResult")
    fs = [f[0] for f in S.prog.adts[ad[0]]["v"][0]["f"]]
    cur = {}

    def fold(ex, st, a):
        return [(st, some(("adt", ad[0], 0, tuple(cur.get(f, TOP) for f in fs))))]
    S.start("encode_key_value_pair_lines", {"try_fold_key_chain": fold})
    k, e = S.key("K"), S.obj(("vec", (S.key("E"),)))
    for what, rem, leaf, wants in (
            ("folded to a primitive", NONE, S.prim("FP"), [Want(["FK", "FP"], 0)]),
            ("folded to an array", NONE, S.arr(S.lst("FL")), [Want(["FK", "FL"], 0)]),
            ("folded to an empty object", NONE, S.obj(("vec", ())), [Want(["FK"], 0)]),
            ("folded, the rest nested", some(S.obj(("vec", (S.key("E2"),)))), TOP, [Want(["FK"], 0), Want([("vec", "E2")], 1)])):
        cur.clear()
        cur.update(folded_key=S.key("FK"), remainder=rem, leaf_value=leaf, segment_count=("symint", "seg"))
        S.go(what, wants, key=k, value=e)


def kinds(k):
    def check(q, s, v):
        """an inline line only for primitives, a table only for objects"""
        r = repr(q)
        f = s.cons.get("~v:F")
        if "encode_inline_array_line" in r and f is not None and f != 0:
            return "elements that are no primitives are written inline"
        if "encode_inline_array_line" in r and f is None:
            return None
        return True
    return check


def array(S):
    S.start("encode_array_lines", {"encode_array_of_arrays_as_list_items_lines": None, "encode_array_of_objects_as_tabular_lines": None,
                                   "encode_mixed_array_as_list_items_lines": None})
    for kn, k in (("no key", NONE), ("key", some(S.key("K")))):
        own = ["K"] if kn == "key" else []
        S.go("empty, " + kn, [Want(own + [0] if False else own, 0)], list=("vec", ()), okey=k)
        S.go("every form, " + kn, [Want(own + [WHOLE], 0)], kinds(k), list=S.trip(S.any), okey=k)


def nested(S):
    S.start("encode_array_of_arrays_as_list_items_lines")
    S.go("header and items in order", [Want(["K"], 0)] + parts_of(lambda p: [p], 1), list=S.trip(lambda p: S.arr(S.lst(p))), okey=some(S.key("K")))


def mixed(S):
    S.start("encode_mixed_array_as_list_items_lines")
    S.go("header and items in order", [Want(["K"], 0)] + parts_of(lambda p: [p], 1), list=S.trip(S.any), okey=some(S.key("K")))


def table(S):
    S.start("encode_array_of_objects_as_tabular_lines", {"write_tabular_rows_lines": None})
    S.go("header and rows", [Want(["K", ("vec", "H")], 0), Want(["L", ("vec", "H")], 1)], list=S.lst("L"), okey=some(S.key("K")),
         fields=("vec", (S.key("H"),)))


def tabular(S):
    """a table is only written for rows that have exactly the columns of its header, all primitive"""
    fn = "is_tabular_array"

    def get(ex, st, a):
        e, k = ex.deref(st, a[0]), ex.deref(st, a[1])
        n = "get:%s/%s" % (S.W.term(st, e), S.W.term(st, k))
        out = []
        for has in (True, False):
            if st.cons.get("has:" + n, has) == has:
                s = st.copy()
                s.cons["has:" + n] = has
                out.append((s, some(S.any(n)) if has else NONE))
        return out

    def run(what, rows, head, keys, test):
        S.start(fn, {"object_get": get})
        S.ex.relations = True
        key = "%s, %s" % (fn, what)
        W, T_ = S.W, S.prog.types
        W.st = S.ex.start_state()
        W.st.cells["~q"] = ("q", ())
        args = []
        for i in range(W.b.argc):
            s = T_[W.b.locals[1 + i]]["s"]
            args.append(rows() if s.endswith("Vec<%s>" % S.jv) or s.endswith("[%s]" % S.jv) else head() if s == "&[alloc::string::String]" else None)
        if len(args) != 2 or None in args:
            raise Gone(fn)
        try:
            ways = W.run(args)
        except (Unsupported, Opaque, NeedScan) as e:
            S.O.add("C34", key, None, "not analysed: %s" % e, None)
            return
        res, txt, n = True, "", 0
        seen = any(k in s.cons for q, s, v in ways for k in keys)
        for q, s, v in ways:
            if v == ("int", 0):
                continue
            t = test(s) if v == ("int", 1) and seen else None
            n += 1
            if t is False and "~doubt" not in s.cons:
                res, txt = False, "a table is written for rows where that is not so"
                break
            if t is not True and res:
                res, txt = None, "not decided"
        S.O.add("C34", key, res if n else None, txt or "%d ways" % n, (fn, W.b.d.get("span")))

    def obj_f(p):
        return S.obj(S.ents(p)) if p == "F" else S.any(p)
    run("every row has as many members as the header", lambda: S.trip(obj_f), lambda: S.ex.symval("H", [t for t in S.W.b.locals[1:3] if S.prog.types[t]["s"] == "&[alloc::string::String]"][0]),
        ["~rel:len:F:len:H"], lambda s: (s.cons.get("~rel:len:F:len:H") == "="))
    run("every row is an object", lambda: S.trip(lambda p: S.any(p)), lambda: ("vec", (S.key("H"),)), ["~v:F"], lambda s: s.cons.get("~v:F") == 2)
    run("every column is there and primitive", lambda: ("vec", (S.obj(S.ents("F")),)), lambda: S.trip(lambda p: S.key("H" + p)),
        ["has:get:F/HF"], lambda s: s.cons.get("has:get:F/HF") is True and s.cons.get("~v:get:F/HF") == 0)


def rows(S):
    def get(ex, st, a):
        e, k = ex.deref(st, a[0]), ex.deref(st, a[1])
        n = "cell:%s/%s" % (S.W.term(st, e), S.W.term(st, k))
        return [(st, some(("adt", S.jv, 0, (("mk", n),))))]

    S.start("write_tabular_rows_lines", {"object_get": get})
    cells = lambda p, h: ("vec",) + tuple(("*", "cell:%s/H%s" % (p, x)) if len(h) == 3 and x != "F" else "cell:%s/H%s" % (p, x) for x in h)
    S.go("rows in order", parts_of(lambda p: [cells(p, "BA")], 0), list=S.trip(lambda p: S.obj(S.ents(p))), fields=("vec", (S.key("HB"), S.key("HA"))))
    S.go("cells in order", [Want([cells("F", "BFA")], 0)], list=("vec", (S.obj(S.ents("F")),)), fields=S.trip(lambda p: S.key("H" + p)))


def hyphen(S):
    S.start("encode_object_as_list_item_lines", {"write_tabular_rows_lines": None, "extract_tabular_header": lambda ex, st, a: [(st, NONE)]})
    k = S.key("K")
    rest = [Want([("vec", ("*", ("tup", "B.k", "B.v")), ("tup", "F.k", "F.v"), ("*", ("tup", "A.k", "A.v")))], 1)]

    def go(what, v, wants):
        S.go(what + ", more members", wants + rest, entries=("vec", (("tup", (k, v)),) + S.trip(S.entry)[1]))
        S.go(what + ", only member", wants, entries=("vec", (("tup", (k, v)),)))
    S.go("empty object", [Want([], 0)], entries=("vec", ()))
    go("primitive", S.prim("P"), [Want(["K", "P"], 0)])
    go("empty array", S.arr(("vec", ())), [Want(["K"], 0)])
    go("object", S.obj(("vec", (S.key("E"),))), [Want(["K"], 0), Want([("vec", "E")], 2)])
    go("empty object", S.obj(("vec", ())), [Want(["K"], 0), Want([("vec",)], 2, True)])
    go("array of primitives", S.arr(S.trip(lambda p: S.prim(p))), [Want(["K"], 0)])
    go("array of objects", S.arr(S.trip(lambda p: S.obj(S.ents(p)))), [Want(["K"], 0)] + parts_of(lambda p: [p], 2))
    go("array of arrays", S.arr(S.trip(lambda p: S.arr(S.lst(p)))), [Want(["K"], 0)] + parts_of(lambda p: [p], 2))
    S.start("encode_object_as_list_item_lines", {"write_tabular_rows_lines": None,
                                                 "extract_tabular_header": lambda ex, st, a: [(st, some(("vec", (S.key("H"),))))]})
    go("table", S.arr(S.trip(lambda p: S.obj(S.ents(p)))), [Want(["K", ("vec", "H")], 0), Want([("vec", "H")], 2)])


def item(S):
    S.start("encode_list_item_value_lines")
    S.go("primitive", [Want(["P"], 0)], value=S.prim("P"))
    S.go("object", [Want(["E"], 0)], value=S.obj(S.ents("E")))
    S.go("array of primitives", [Want([("vec", ("*", ("Primitive", "B")), ("Primitive", "F"), ("*", ("Primitive", "A")))], 0)], value=S.arr(S.trip(lambda p: S.prim(p))))
    S.go("array of arrays", [Want([], 0)] + parts_of(lambda p: [p], 1), value=S.arr(S.trip(lambda p: S.arr(S.lst(p)))))
    S.go("array of objects", [Want([], 0)] + parts_of(lambda p: [p], 1), value=S.arr(S.trip(lambda p: S.obj(S.ents(p)))))


def root(S):
    S.start("encode_json_value")
    for what, v, w in (("primitive", S.prim("P"), [Want([("vec", ("encode_primitive", "P", "?"))], None)]),
                       ("array", S.arr(S.lst("L")), [Want(["L"], None)]),
                       ("object", S.obj(S.ents("E")), [Want(["E"], None)])):
        def check(q, s, x, what=what):
            r = S.W.term(s, S.ex.freeze(s, x))
            if what == "primitive":
                t = repr(r)
                return True if "'encode_primitive', 'P" in t or r == ("vec",) else None if "?" in t or "any" in t else "the primitive is not written"
            e = q[0]
            d = [x for x in e[1:] if x == 0]
            return True if d else "the document does not start at depth 0" if any(isinstance(x, int) for x in e[1:]) else None
        S.go(what, None if what == "primitive" else w, check, value=v)


def inline(S):
    S.start("encode_inline_array_line")
    all_ = ("vec", ("*", "B"), "F", ("*", "A"))
    S.go("elements in order", [Want([all_], None)], ret=True, list=S.trip(lambda p: S.prim(p)))


def headers(e, out):
    if isinstance(e, tuple):
        if e and e[0] == "format_header":
            out.append(e)
        for x in e:
            headers(x, out)
    return out


def lengths(S):
    """the length in a header is the number of elements of the array it stands for"""
    def check(q, s, v):
        h = headers(q, [])
        for x in h:
            if x[1] == "len:L" or x[1] == 0 and s.cons.get("empty:L") is True:
                continue
            if mk is None and isinstance(x[1], int) or x[1] == "?":
                return None
            return "a header is written with the length %s" % (x[1],)
        return True if h or not any(e[0] == "push" and "('encode_inline_array_line', 'L'" not in repr(e) for e in q) else None
    k = some(S_key(S, "K"))
    P, A_, O_, N_ = (lambda p: S.prim(p)), (lambda p: S.arr(S.lst(p))), (lambda p: S.obj(S.ents(p))), (lambda p: S.any(p))
    for fn, roles, ret, kinds in (("encode_array_of_arrays_as_list_items_lines", dict(okey=k), False, (A_,)), ("encode_mixed_array_as_list_items_lines", dict(okey=k), False, (N_,)),
                                  ("encode_array_of_objects_as_tabular_lines", dict(okey=k), False, (O_,)), ("encode_inline_array_line", {}, True, (P,)),
                                  ("encode_array_lines", dict(okey=k), False, (A_, O_)), ("encode_list_item_value_lines", None, False, (A_, O_)),
                                  ("encode_object_as_list_item_lines", 1, False, (A_, O_))):
      for what, mk in [("length in the header", None)] + [("length in the header, list of " + dict(P="primitives", A="arrays", O="objects", N="values")[n_], k_) for n_, k_ in zip("PAON", (P, A_, O_, N_)) if k_ in kinds]:
        try:
            S.start(fn, {"encode_array_of_arrays_as_list_items_lines": None, "encode_array_of_objects_as_tabular_lines": None,
                         "encode_mixed_array_as_list_items_lines": None, "write_tabular_rows_lines": None})
            S.ex.trilen = "L"
            L_ = S.lst("L") if mk is None else S.trip(mk)
            if roles is None:
                a = dict(value=S.arr(L_))
            elif roles == 1:
                a = dict(entries=("vec", (("tup", (S.key("K"), S.arr(L_))),)))
            else:
                a = dict(roles, list=L_)
            S.go(what, None, check, prop="C33", ret=ret, **a)
        except Gone as e:
            S.O.add("C33", "%s, %s" % (fn, what), None, "%s is not there" % e, None)


def S_key(S, n):
    S.start("encode_json_value")
    return S.key(n)


def indentation(S):
    """each helper that makes a line begins it with depth times indent spaces"""
    for fn in LINE:
        b = [x for x in S.prog.bodies if x.split("::")[-1] == fn]
        key = "%s, depth times indent spaces" % fn
        if len(b) != 1:
            S.O.add("C34", key, None, "%s is not there" % fn, None)
            continue
        b = S.prog.bodies[b[0]]
        ex = Exec(S.prog, shared=S.C.sh, opaque=set())
        ex.counts = set()
        st = ex.start_state()
        args, nums = [], []
        for i in range(b.argc):
            v = ex.symval("a%d" % i, b.locals[1 + i])
            if v[0] == "symint":
                nums.append(v)
            args.append(v)
        try:
            r = ex.call_body(b, args, st)
        except (Unsupported, Opaque, NeedScan) as e:
            S.O.add("C34", key, None, "not analysed: %s" % e, None)
            continue
        where = (fn, b.d.get("span"))
        want = ("symmul",) + tuple(sorted(nums, key=repr))
        ends = {e for w, e in ex.counts}
        lead = []
        for s, v in r:
            v = ex.freeze(s, v)
            t = v[1][0] if v[0] == "cat" and v[1] else v
            lead.append("rep" if t == ("rep", " ") else "sp" if t[0] == "str" and t[1].startswith(" ") else "none" if t[0] in ("str", "pc", "app", "p") else "?")
        if len(nums) != 2 or "?" in lead or any(e == TOP for e in ends) or not r:
            S.O.add("C34", key, None, "not decided", where)
        elif ends != {want} or len(ex.counts) != 1:
            S.O.add("C34", key, False, "the line is not begun with depth times indent spaces", where)
        elif "none" not in lead or not {"rep", "sp"} & set(lead):
            S.O.add("C34", key, False, "the line begins with other spaces than its indentation", where)
        else:
            S.O.add("C34", key, True, "%d ways" % len(r), where)
