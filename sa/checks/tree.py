"""Value to events, events to value, value to value: every member once, in order (C08, C36)."""
from .. import tmodels as M
from ..texec import Exec, Unsupported, TOP, OPT, RES, Opaque, NeedScan
from .roundtrip import Gone
from .layout import Seq, Want, judge, OUT, NONE, some, same, brief


class Ev(Seq):
    """as Seq, with a vector of events in the place of the lines"""

    def __init__(self, C, rec, fn, hooks=None):
        class Cx:
            pass
        cx = Cx()
        cx.prog, cx.sh = C.prog, C.sh
        cx.linevec = lambda ti: C.prog.types[ti]["k"] == "ref" and bool(C.prog.types[ti].get("m")) and "JsonStreamEvent" in C.prog.types[ti]["s"]
        super().__init__(cx, rec, fn, hooks=hooks)


def jvalue(C):
    jv = [x for x in C.prog.adts if x.endswith("::JsonValue") and C.prog.adts[x]["local"]]
    if len(jv) != 1 or [v["name"] for v in C.prog.adts[jv[0]]["v"]] != ["Primitive", "Array", "Object"]:
        raise Gone("JsonValue")
    T_ = C.prog.types
    tp = [f[1] for v in C.prog.adts[jv[0]]["v"] for f in v["f"]]
    return jv[0], tp, T_[tp[1]]["a"][0], T_[T_[tp[2]]["a"][0]]["a"][0]


def trip(f):
    return ("vec", (("*", f("B")), f("F"), ("*", f("A"))))


def emitted(C, O):
    """the event stream of a value"""
    jv, tp, tel, tk = jvalue(C)
    fn = "emit_events"
    me = [x for x in C.prog.bodies if x.split("::")[-1] == fn]
    if len(me) != 1:
        raise Gone(fn)

    def go(what, mkv, wants, check=None):
        W = Ev(C, me, fn)
        args = []
        v = mkv(W.ex)
        for i in range(W.b.argc):
            ti = W.b.locals[1 + i]
            args.append(OUT if W.C.linevec(ti) else v if C.prog.types[ti]["s"].endswith(jv) else None)
        res, txt, n = True, "", 0
        try:
            ways = W.run(args)
        except (Unsupported, Opaque, NeedScan) as e:
            O.add("C08", "events of " + what, None, "not analysed: %s" % e, None)
            return
        for q, s, r in ways:
            j = judge(q, wants)
            if j is True and check is not None:
                j = check(q)
            if isinstance(j, str) and "~doubt" not in s.cons:
                res, txt = False, j
                break
            if j is not True and res:
                res, txt = None, "not decided"
            n += 1
        if not ways:
            res, txt = None, "no way through"
        O.add("C08", "events of " + what, res, txt or "%d ways" % n, (fn, W.b.d.get("span")))
    any_ = lambda ex, n: ex.symval(n, tel)
    ev = lambda *n: Want(n, None)
    opt = lambda *n: Want(n, None, True)
    go("a primitive", lambda ex: ("adt", jv, 0, (ex.symval("P", tp[0]),)), [ev("Primitive", "P")])
    go("an array", lambda ex: ("adt", jv, 1, (trip(lambda p: any_(ex, p)),)),
       [ev("StartArray"), opt(fn, "B"), ev(fn, "F"), opt(fn, "A"), ev("EndArray")])
    go("an array: its length", lambda ex: ("adt", jv, 1, (ex.symval("L", tp[1]),)), [ev("StartArray", "len:L"), opt(fn, "L[]"), ev("EndArray")])
    go("an empty array", lambda ex: ("adt", jv, 1, (("vec", ()),)), [ev("StartArray"), ev("EndArray")])
    go("an object", lambda ex: ("adt", jv, 2, (trip(lambda p: ("tup", (ex.symval(p + ".k", tk), any_(ex, p + ".v")))),)),
       [ev("StartObject"), opt("Key", "B.k"), opt(fn, "B.v"), ev("Key", "F.k"), ev(fn, "F.v"), opt("Key", "A.k"), opt(fn, "A.v"), ev("EndObject")])
    go("an empty object", lambda ex: ("adt", jv, 2, (("vec", ()),)), [ev("StartObject"), ev("EndObject")])


def mapped(C, O, prop, fn, kind):
    """a function that maps a tree to a tree: every member once, in order, under its own key"""
    jv, tp, tel, tk = jvalue(C)
    b = [x for x in C.prog.bodies if x.split("::")[-1] == fn]
    if len(b) != 1:
        raise Gone(fn)
    b = C.prog.bodies[b[0]]
    ad = jv
    if kind == "node":
        ad = [x for x in C.prog.adts if x.endswith("::NodeValue")]
        on = [x for x in C.prog.adts if x.endswith("::ObjectNode")]
        if len(ad) != 1 or len(on) != 1 or [v["name"] for v in C.prog.adts[ad[0]]["v"]] != ["Primitive", "Array", "Object"]:
            raise Gone("NodeValue")
        ad, on = ad[0], on[0]
    for what in ("array", "object"):
        ex = Exec(C.prog, shared=C.sh, opaque=set())
        ex.free = True

        def h(ex, st, args):
            v = ex.deref(st, args[0])
            return [(st, ("mk", "new:" + v[1] if v[0] == "mk" else "?"))]
        ex.hooks[b.id] = h
        st = ex.start_state()
        if what == "array":
            v = ("adt", ad, 1, (trip(lambda p: ("mk", p)),))
        else:
            es = trip(lambda p: ("tup", (ex.symval(p + ".k", tk), ("mk", p))))
            if kind == "node":
                fs = [f[0] for f in C.prog.adts[on]["v"][0]["f"]]
                es = ("adt", on, 0, tuple(es if f == "entries" else TOP for f in fs))
            v = ("adt", ad, 2, (es,))
        key = "%s of an %s" % (fn, what)
        where = (fn, b.d.get("span"))
        try:
            r = ex.call_body(b, [v], st)
        except (Unsupported, Opaque, NeedScan) as e:
            O.add(prop, key, None, "not analysed: %s" % e, None)
            continue
        res, txt = True, "%d ways" % len(r)
        W = type("W", (), {})()
        for s, x in r:
            t = Seq.term(type("Z", (), {"ex": ex, "prog": C.prog, "term": lambda self, st, v: Seq.term(self, st, v)})(), s, ex.freeze(s, x))
            want = ("vec",) + tuple(("*", e) if p != "F" else e for p in "BFA" for e in (("new:" + p if what == "array" else ("tup", p + ".k", "new:" + p)),))
            lists = [y for y in flatten(t) if isinstance(y, tuple) and y[:1] == ("vec",)]
            if len(lists) == 1 and same(want, lists[0]) and t[0] == ("Array" if what == "array" else "Object"):
                continue
            if "?" in repr(t) or "any" in repr(t) or "~doubt" in s.cons:
                if res:
                    res, txt = None, "not decided"
                continue
            res, txt = False, "the %s becomes %s" % (what, t)
            break
        if not r:
            res, txt = None, "no way through"
        O.add(prop, key, res, txt, where)


def alike(got, want):
    if want == ("wild",):
        return True
    if isinstance(got, tuple) and isinstance(want, tuple):
        return len(got) == len(want) and all(alike(x, y) for x, y in zip(got, want))
    return got == want


def finished(C, O, empty, below, mk):
    """what is left of the state when the events are over"""
    b = [x for x in C.prog.bodies if x.split("::")[-1] == "finalize_state"]
    if len(b) != 1:
        raise Gone("finalize_state")
    b = C.prog.bodies[b[0]]
    where = ("finalize_state", b.d.get("span"))
    for what, st0, want in (("a complete tree", empty(some(mk)), mk), ("no event at all", empty(), None),
                            ("a container left open", below, None)):
        ex = Exec(C.prog, shared=C.sh, opaque=set())
        key = "the end of the events after " + what
        try:
            r = ex.call_body(b, [st0], ex.start_state())
        except (Unsupported, Opaque, NeedScan) as x:
            O.add("C36", key, None, "not analysed: %s" % x, None)
            continue
        res, txt = True, "%d ways" % len(r)
        for s, v in r:
            v = ex.freeze(s, v)
            if v[0] != "adt" or v[1] != RES or "~doubt" in s.cons:
                res, txt = None, "not decided"
            elif (v[2] == 1) != (want is None):
                res, txt = False, "refused" if v[2] == 1 else "accepted"
                break
            elif want is not None and v[3][0] != want:
                res, txt = (None, "not decided") if "top" in repr(v) else (False, "the result is not the tree that was built")
        O.add("C36", key, res if r else None, txt, where)


def leaves(C, O, fn, kind):
    """primitives pass unchanged"""
    jv, tp, tel, tk = jvalue(C)
    b = [x for x in C.prog.bodies if x.split("::")[-1] == fn]
    if len(b) != 1:
        raise Gone(fn)
    b = C.prog.bodies[b[0]]
    pp = C.prog.types[tp[0]]["p"]
    src = jv
    if kind == "node":
        src = [x for x in C.prog.adts if x.endswith("::NodeValue")][0]
    for i, vn in enumerate(C.prog.adts[pp]["v"]):
        if kind == "json" and vn["name"] == "Number":
            continue
        ex = Exec(C.prog, shared=C.sh, opaque=set())
        pv = ("adt", pp, i, tuple(ex.symval("P", f[1]) for f in vn["f"]))
        key = "%s of a %s" % (fn, vn["name"].lower())
        try:
            r = ex.call_body(b, [("adt", src, 0, (pv,))], ex.start_state())
        except (Unsupported, Opaque, NeedScan) as x:
            O.add("C36", key, None, "not analysed: %s" % x, None)
            continue
        res, txt = True, "%d ways" % len(r)
        for s, v in r:
            v = ex.freeze(s, v)
            if v == ex.freeze(s, ("adt", jv, 0, (pv,))):
                continue
            if "top" in repr(v) or "~doubt" in s.cons:
                res, txt = None, "not decided"
                continue
            if __import__("os").environ.get("DBG"):
                print(v, pv)
            res, txt = False, "the value is changed"
            break
        O.add("C36", key, res if r else None, txt, (fn, b.d.get("span")))


def flatten(t):
    out = []
    if isinstance(t, tuple):
        out.append(t)
        if t[:1] != ("vec",):
            for x in t:
                out += flatten(x)
    return out


def built(C, O):
    """one event applied to a partly built tree: what it adds, and where"""
    b = [x for x in C.prog.bodies if x.split("::")[-1] == "apply_event"]
    if len(b) != 1:
        raise Gone("apply_event")
    b = C.prog.bodies[b[0]]
    A = {}
    for n in ("BuildState", "BuildContext", "NodeValue", "ObjectNode", "JsonStreamEvent"):
        x = [x for x in C.prog.adts if x.endswith("::" + n)]
        if len(x) != 1:
            raise Gone(n)
        A[n] = x[0]

    def mkadt(n, var=None, **kw):
        vs = C.prog.adts[A[n]]["v"]
        i = [v["name"] for v in vs].index(var) if var else 0
        fs = [f[0] for f in vs[i]["f"]]
        if set(kw) - set(fs):
            raise Gone("%s::%s" % (n, var))
        return ("adt", A[n], i, tuple(kw.get(f, ("mk", "rest:" + f)) for f in fs))
    E, J = (("*", ("mk", "e")),), (("*", ("mk", "j")),)

    def obj(key):
        return mkadt("BuildContext", "Object", entries=("vec", E), current_key=key, quoted_keys=("mk", "quoted"))

    def arr(items=J):
        return mkadt("BuildContext", "Array", items=("vec", items))
    K = some(("mk", "K"))

    def state(*stack, root=NONE):
        return mkadt("BuildState", stack=("vec", (("*", ("mk", "below")),) + stack if stack is not None else ()), root=root)

    def empty(root=NONE, stack=()):
        return mkadt("BuildState", stack=("vec", tuple(stack)), root=root)
    prim = mkadt("NodeValue", "Primitive", **{C.prog.adts[A["NodeValue"]]["v"][0]["f"][0][0]: ("mk", "P")})
    f1 = C.prog.adts[A["NodeValue"]]["v"][1]["f"][0][0]
    f2 = C.prog.adts[A["NodeValue"]]["v"][2]["f"][0][0]
    narr = mkadt("NodeValue", "Array", **{f1: ("vec", J)})
    nobj = mkadt("NodeValue", "Object", **{f2: mkadt("ObjectNode", entries=("vec", E), quoted_keys=("mk", "quoted"))})
    put = lambda v: E + (("tup", (("mk", "K"), v)),)
    obj2 = lambda v: mkadt("BuildContext", "Object", entries=("vec", put(v)), current_key=NONE, quoted_keys=("mk", "quoted"))
    ev = lambda n, **kw: mkadt("JsonStreamEvent", n, **kw)
    pe = ev("Primitive", value=("mk", "P"))
    new = mkadt("BuildContext", "Array", items=("vec", ()))
    fresh = lambda x: x
    cases = [
        ("a primitive in an array", state(arr()), pe, state(arr(J + (prim,)))),
        ("a primitive in an object", state(obj(K)), pe, state(obj2(prim))),
        ("a primitive as the root", empty(), pe, empty(some(prim))),
        ("the end of an array in an array", state(arr(), arr()), ev("EndArray"), state(arr(J + (narr,)))),
        ("the end of an array in an object", state(obj(K), arr()), ev("EndArray"), state(obj2(narr))),
        ("the end of an object in an array", state(arr(), obj(NONE)), ev("EndObject"), state(arr(J + (nobj,)))),
        ("the end of an object in an object", state(obj(K), obj(NONE)), ev("EndObject"), state(obj2(nobj))),
        ("the end of the root array", empty(NONE, (arr(),)), ev("EndArray"), empty(some(narr))),
        ("the end of the root object", empty(NONE, (obj(NONE),)), ev("EndObject"), empty(some(nobj))),
        ("the start of an array", state(arr()), ev("StartArray"), state(arr(), new)),
        ("a key", state(obj(NONE)), ev("Key", key=("mk", "K"), was_quoted=("int", 0)), state(obj(K))),
        ("the start of an object", state(arr()), ev("StartObject"), state(arr(), mkadt("BuildContext", "Object", entries=("vec", ()), current_key=NONE, quoted_keys=("wild",)))),
        ("a quoted key", state(obj(NONE)), ev("Key", key=("mk", "K"), was_quoted=("int", 1)),
         state(mkadt("BuildContext", "Object", entries=("vec", E), current_key=K, quoted_keys=("wild",)))),
        ("a second primitive without a key", state(obj(NONE)), pe, None),
        ("a primitive key in an array", state(arr()), ev("Key", key=("mk", "K"), was_quoted=("int", 0)), None),
        ("the end of an object that is an array", state(arr()), ev("EndObject"), None),
        ("the end of an array that is an object", state(obj(NONE)), ev("EndArray"), None),
    ]
    try:
        finished(C, O, empty, state(arr()), narr)
    except Gone as e:
        O.add("C36", "the end of the events", None, "%s is not there" % e, None)
    for what, st0, e, want in cases:
        ex = Exec(C.prog, shared=C.sh, opaque=set())
        st = ex.start_state()
        st.cells["bs"] = st0
        where = ("apply_event", b.d.get("span"))
        try:
            r = ex.call_body(b, [("ref", "bs", ()), e], st)
        except (Unsupported, Opaque, NeedScan) as x:
            O.add("C36", what, None, "not analysed: %s" % x, None)
            continue
        res, txt = True, "%d ways" % len(r)
        for s, v in r:
            er = v[0] == "adt" and v[1] == RES and v[2] == 1
            got = s.cells["bs"]
            if want is None and er or want is not None and not er and alike(got, want):
                continue
            if "top" in repr(got) or v == TOP or "any" in repr(got) or "~doubt" in s.cons:
                res, txt = None, "not decided"
                if __import__("os").environ.get("DBG"):
                    print(what, "\n  ", got, "\n  ", want)
                continue
            res, txt = False, "refused" if er and want is not None else "accepted" if want is None else "the tree is not what the event says"
            if __import__("os").environ.get("DBG"):
                print(what, "\n  ", got, "\n  ", want)
            break
        if not r:
            res, txt = None, "no way through"
        O.add("C36", what, res, txt, where)


# ---------------------------------------------------------------------- the checks
RULES = {
    "C19": "a folded key is the keys of a chain of single-member objects joined with dots, it stands for the value they lead to, and it collides with nothing",
    "C16": "every function of path expansion refuses to go on at the depth limit and counts the depth in every call of another",
    "C17": "a dotted key is expanded exactly when it is unquoted and all its segments are identifiers; its value ends up below its segments; every other member keeps its key",
    "C18": "a conflict is an error in strict mode; otherwise the later value replaces the earlier one, and two objects are merged",
    "C24": "of all floating-point numbers, those that are not finite become null, both zeros become zero, every other stays what it is",
    "C37": "every entry point runs its stages in order, each once, with the options given or their documented defaults",
    "C23": "the text of a container is its bracket, every member once in order (quoted key, colon, value one level deeper), commas between and nowhere else, and its bracket",
    "C31": "the replacer is asked once per value, in order, with its key and path; its answers, normalised and replaced below, take the values' places",
    "C34": "every member of a value is written exactly once, in order, with its own key and value, indented one level below its parent",
    "C08": "the events of a value are its members in order, each key followed by its own value, every container closed",
    "C36": "an event adds exactly what it says to the tree being built, and tree-to-tree conversions keep every member in order",
}
EXPL = ("The functions are run abstractly on symbolic values whose lists are 'the elements before, one element in focus, the elements behind', "
        "with the calls of the recursion cut off; what they append, call or return is compared with what the rule asks for. One obligation "
        "covers lists of every length, values of every kind and every depth.")


def obligations(C, O, pid):
    from . import layout, fold, expand, replace, jsontext, entries
    C.sh["delim"] = ","
    C.sh["lines"] = {}
    jobs = {"C24": [(entries.normal, ())], "C37": [(entries.decoding, ()), (entries.encoding, ()), (entries.wrappers, ())], "C23": [(jsontext.texts, ()), (jsontext.streamed, ()), (jsontext.quoting, ()), (jsontext.entry, ())], "C31": [(replace.replaces, ())], "C19": [(expand.identifiers, ("C19",)), (fold.folds, ()), (layout.only, ("siblings",))], "C16": [(expand.bounded, ())], "C17": [(expand.expansion, ()), (expand.identifiers, ("C17",)), (expand.lookup, ("C17",))],
            "C18": [(expand.expansion, ()), (expand.lookup, ("C18",))],
            "C34": [(layout.encoder, ())], "C08": [(emitted, ())],
            "C36": [(mapped, ("C36", "normalize_json_value", "json")), (mapped, ("C36", "node_to_json", "node")), (built, ()), (entries.converted, ()),
                    (leaves, ("normalize_json_value", "json")), (leaves, ("node_to_json", "node"))]}
    for f, a in jobs[pid]:
        try:
            f(C, O, *a)
        except Gone as e:
            O.add(pid, f.__name__, None, "%s is not there" % e, None)
        except (Unsupported, RecursionError, NeedScan, Opaque) as e:
            O.add(pid, f.__name__, None, "not analysed: %s" % (e,), None)
        except (KeyError, IndexError, TypeError, ValueError, AttributeError) as e:      # a construct the analysis does not know
            O.add(pid, f.__name__, None, "not analysed: internal %r" % (e,), None)


def check(pid):
    def f(_id=None):
        import sys
        from .. import extract
        from ..prog import Program
        from ..report import Check
        from . import text as T
        from .roundtrip import Obl
        sys.setrecursionlimit(20000)
        ck = Check(pid, RULES[pid], EXPL, ["the models of the standard library in sa/tmodels.py", "rustc's MIR"])
        C = T.Ctx(Program(extract.extract("all")["lib"]))
        O = Obl()
        obligations(C, O, pid)
        und = []
        for prop, key, res, txt, where in O.l:
            if prop != pid:
                continue
            if res is None:
                und.append("%s: %s" % (key, txt))
            elif res:
                ck.ok(key, txt)
            else:
                ck.bad(key, "%s %s" % where if where else "-", "%s: %s" % (key, txt))
        if not ck.obl:
            ck.ok("none", "no obligation could be decided")
        ck.cov["undecided"] = sorted(und)
        for x in und[:5]:
            print("  undecided:", x[:300])
        return ck.finish()
    return f


folding = check("C19")
bounds, expansion, conflicts = check("C16"), check("C17"), check("C18")
replacer = check("C31")
json_text = check("C23")
entry_points = check("C37")
numbers = check("C24")
layout_, events, build = check("C34"), check("C08"), check("C36")
