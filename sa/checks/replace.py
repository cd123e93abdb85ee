"""The replacer of the encoder: what it is asked about, with which key and path, and what becomes of its answers (C31)."""
from ..texec import Exec, Unsupported, OPT, Opaque, NeedScan
from .roundtrip import Gone
from .layout import NONE, some
from .fold import the, bare
from .tree import jvalue

N = 3


def replaces(C, O):
    jv, tp, tel, tk = jvalue(C)
    ps = [x for x in C.prog.adts if x.endswith("::PathSegment")]
    if len(ps) != 1:
        raise Gone("PathSegment")
    vn = [v["name"] for v in C.prog.adts[ps[0]]["v"]]
    if set(vn) != {"Key", "Index"}:
        raise Gone("PathSegment")
    seg = lambda n, x: ("adt", ps[0], vn.index(n), (x,))
    mk = lambda n: ("mk", n)
    P = (mk("p0"), mk("p1"))

    def run(fn, what, cut, value, path, want):
        b = the(C, fn)
        ex = Exec(C.prog, shared=C.sh, opaque=set())
        ex.free = ex.freeeq = True
        ex.cap = 6
        ex.recursion = []

        def note(st, e):
            q = st.cells["~q"][1]
            if len(q) > 30:
                raise Unsupported("too many calls")
            s = st.copy()
            s.cells["~q"] = ("q", q + (e,))
            return s

        def val(st, x):
            return bare(ex.freeze(st, ex.deref(st, x)))

        def normalize(ex, st, a):
            v = val(st, a[0])
            return [(st, mk("n:" + (v[1] if v[0] == "mk" else "?")))]

        def children(ex, st, a):
            r, ts = {}, [C.prog.types[kids.locals[1 + i]]["s"] for i in range(kids.argc)]
            for t, x in zip(ts, a):
                r["v" if t.endswith(jv) else "p" if "PathSegment]" in t or "PathSegment>" in t and "Fn" not in t else "f"] = val(st, x)
            v = r.get("v", ("top",))
            n = "t:" + (v[1] if v[0] == "mk" else v[3][0][1] if v[0] == "adt" and v[3][0][0] == "mk" else "?")
            odd = 1 + sum(e[0] == "below" for e in st.cells["~q"][1]) % 2
            return [(note(st, ("below", v, r.get("p"), x)), x) for x in (mk(n), ("adt", jv, odd, (("vec", ()),)))]

        def user(ex, st, a):
            a = [val(st, x) for x in a]
            out = []
            s = note(st, ("asked",) + tuple(a))
            for keep in (True, False):
                s2 = s.copy()
                s2.cells["~q"] = ("q", s.cells["~q"][1][:-1] + (s.cells["~q"][1][-1] + (keep,),))
                out.append((s2, some(mk("r:" + (a[1][1] if a[1][0] == "mk" else a[1][3][0][1] if a[1][0] == "adt" and a[1][3][0][0] == "mk" else "?"))) if keep else NONE))
            return out
        ex.userfn = user
        kids = the(C, "transform_children")
        ex.hooks[the(C, "normalize_json_value").id] = normalize
        if cut:
            ex.hooks[kids.id] = children
        st = ex.start_state()
        st.cells["~q"] = ("q", ())
        args = []
        for i in range(b.argc):
            t = C.prog.types[b.locals[1 + i]]["s"]
            if t.endswith(jv):
                args.append(value)
            elif "Fn(" in t:
                args.append(mk("REPLACER"))
            elif "PathSegment" in t:
                args.append(("vec", path))
            else:
                raise Gone("a parameter of " + fn)
        where = (fn, b.d.get("span"))
        key = "%s, %s" % (fn, what)
        try:
            r = ex.call_body(b, args, st)
        except (Unsupported, Opaque, NeedScan) as e:
            O.add("C31", key, None, "not analysed: %s" % e, None)
            return
        res, txt, n = True, "", 0
        for s, v in r:
            n += 1
            v, q = bare(ex.freeze(s, v)), s.cells["~q"][1]
            w = want(v, q)
            if w is None:
                continue
            lost = "~doubt" in s.cons or "top" in repr((v, q)) or "'ge'" in repr((v, q)) or "any" in repr((v, q)) or "?" in repr((v, q)) or w == "?"
            res, txt = (None, "not decided (%s)" % w) if lost else (False, w)
            if res is False:
                break
        O.add("C31", key, res if n else None, txt or "%d ways" % n, where)

    def calls(q, keys, vals, paths):
        """the order of the questions and of what follows an answer"""
        asked = [e for e in q if e[0] == "asked"]
        if [e[2] for e in asked] != [v if isinstance(v, tuple) else mk(v) for v in vals]:
            return "not every value is put to the replacer once, in order"
        for e, k, p in zip(asked, keys, paths):
            if e[1] != k:
                return "the replacer is given another key"
            if e[3] not in (("vec", p), ("arr", p)):
                return "the replacer is given another path"
        return None

    def below(q, want):
        got = [e[1:] for e in q if e[0] == "below"]
        got = [(v, p[1] if p is not None and p[0] in ("vec", "arr") else None) for v, p, x in got]
        if got != want:
            return "the children of an answer are replaced with another path or from another value"
        return None

    def came(q):
        return [e[3] for e in q if e[0] == "below"]

    def root(v, q, val0):
        w = calls(q, [("str", "")], [val0], [()])
        if w:
            return w
        keep = [e for e in q if e[0] == "asked"][0][4]
        n = "n:r:R" if keep else "R"
        return below(q, [(mk(n) if keep else val0, ())]) or (None if v == came(q)[0] else "the answer for the root is lost")

    def elements(kind):
        name = lambda i: "e%d" % i
        keys = [("str", str(i)) for i in range(N)] if kind == 1 else [("p", "k%d" % i) for i in range(N)]
        paths = [P + (seg("Index", ("int", i)) if kind == 1 else seg("Key", keys[i]),) for i in range(N)]

        def want(v, q):
            w = calls(q, keys, [name(i) for i in range(N)], paths)
            if w:
                return w
            keep = [e[4] for e in q if e[0] == "asked"]
            k = [i for i in range(N) if keep[i]]
            w = below(q, [(mk("n:r:" + name(i)), paths[i]) for i in k])
            if w:
                return w
            es = tuple(x if kind == 1 else ("tup", (keys[i], x)) for i, x in zip(k, came(q)))
            if v[0] != "adt" or v[1] != jv or v[2] != kind:
                return "the kind of the value changes"
            return None if v[3][0] in (("vec", es), ("arr", es)) else "an answer is lost, moved or doubled, or a dropped member is kept"
        return keys, want
    for kind, nm in enumerate(("a primitive", "an array", "an object")):
        val0 = ("adt", jv, kind, (mk("R"),))
        run("apply_replacer", "%s as the root" % nm, True, val0, (), lambda v, q, val0=val0: root(v, q, val0))
    for kind, nm in ((1, "the elements of an array"), (2, "the members of an object")):
        keys, want = elements(kind)
        es = tuple(mk("e%d" % i) if kind == 1 else ("tup", (keys[i], mk("e%d" % i))) for i in range(N))
        run("transform_children", nm, True, ("adt", jv, kind, (("vec", es),)), P, want)
        run("transform_children", nm + ", none", True, ("adt", jv, kind, (("vec", ()),)), P,
            lambda v, q, kind=kind: None if not q and v[0] == "adt" and v[2] == kind and v[3][0][1] == () else "something out of nothing")
    run("transform_children", "a primitive", True, ("adt", jv, 0, (mk("P"),)), P,
        lambda v, q: None if not q and v == ("adt", jv, 0, (mk("P"),)) else "a primitive is changed")
