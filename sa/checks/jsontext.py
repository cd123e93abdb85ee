"""The JSON text the command line writes: brackets, commas, colons, line breaks and members (C23)."""
from ..texec import Exec, Unsupported, TOP, RES, Opaque, NeedScan
from ..tmodels import norm_cat
from .roundtrip import Gone
from .fold import the, bare
from .layout import NONE, some
from .tree import jvalue


def texts(C, O):
    jv, tp, tel, tk = jvalue(C)
    fn = "stringify_value_to_buf"
    b = the(C, fn)
    where = (fn, b.d.get("span"))
    mk = lambda n: ("mk", n)
    ty = lambda i: C.prog.types[b.locals[1 + i]]["s"]
    order = [i for i in range(b.argc) if ty(i) == "usize"]
    names = {pl[0]: n for pl, n in b.d["names"] if len(pl) == 1 and pl[0] <= b.argc}
    if b.argc != 4 or len(order) != 2 or {names.get(1 + i) for i in order} != {"depth", "indent"}:
        raise Gone("parameters of " + fn)
    pos = {names[1 + i]: i for i in order}
    pos["buf"] = next(i for i in range(4) if ty(i).startswith("&mut"))
    pos["value"] = next(i for i in range(4) if ty(i).endswith(jv))

    def run(what, kind, content, depth, indent, want):
        ex = Exec(C.prog, shared=C.sh, opaque=set())
        ex.free = ex.freeeq = True
        ex.cap = 40
        ex.jsonq = True

        def put(st, r, x):
            n = 0
            while r[0] == "ref" and ex.load(st, r)[0] == "ref" and n < 4:
                r, n = ex.load(st, r), n + 1
            if r[0] != "ref":
                raise Unsupported("the buffer is not there")
            s = st.copy()
            ex.store(s, r[1], r[2], norm_cat([ex.load(s, r), x]))
            return s

        def val(st, x):
            return bare(ex.freeze(st, ex.deref(st, x)))

        def inner(ex, st, a):
            v, d, i = val(st, a[pos["value"]]), val(st, a[pos["depth"]]), val(st, a[pos["indent"]])
            if v[0] != "adt" or d[0] != "int" or i[0] != "int":
                s = put(st, a[pos["buf"]], ("p", "?"))
                s.cons["~doubt"] = 1
                return [(s, ("tup", ()))]
            return [(put(st, a[pos["buf"]], ("cat", tuple(written(v, d[1], i[1])))), ("tup", ()))]
        js = the(C, "push_json_string")
        sb = next(i for i in range(js.argc) if C.prog.types[js.locals[1 + i]]["s"].startswith("&mut"))

        def quoted(ex, st, a):
            v = val(st, a[1 - sb])
            return [(put(st, a[sb], ("cat", (("str", '"'), ("p", "quoted %s" % (v[1] if v[0] == "p" else "?")), ("str", '"')))), ("tup", ()))]
        ex.hooks[b.id] = inner
        ex.hooks[js.id] = quoted
        st = ex.start_state()
        st.cells["buf"] = ("p", "before")
        args = [None] * 4
        args[pos["value"]] = ("adt", jv, kind, (content,))
        args[pos["depth"]], args[pos["indent"]] = ("int", depth), ("int", indent)
        args[pos["buf"]] = ("ref", "buf", ())
        key = "%s, depth %d, indent %d" % (what, depth, indent)
        try:
            r = ex.call_body(b, args, st)
        except (Unsupported, Opaque, NeedScan) as e:
            O.add("C23", key, None, "not analysed: %s" % e, None)
            return
        want = bare(norm_cat([("p", "before")] + want))
        res, txt, n = True, "", 0
        for s, v in r:
            n += 1
            got = bare(ex.freeze(s, s.cells["buf"]))
            if got == want:
                continue
            if "~doubt" in s.cons or "top" in repr(got) or "any" in repr(got) or "?" in repr(got) or "'ge'" in repr(got):
                res, txt = None, "not decided"
                continue
            res, txt = False, "the text is %s" % show(got)
            break
        O.add("C23", key, res if n else None, txt or "%d ways" % n, where)

    def show(v):
        return "".join(x[1] if x[0] == "str" else "<%s>" % (x[1],) for x in (v[1] if v[0] == "cat" else (v,)))[:200]

    def text(t):
        return ("str", t)
    def label(v):
        return "<%s>" % (v[2:],)

    def written(v, d, i):
        if v[2] and v[3] == (("vec", ()),):
            return [text("[]" if v[2] == 1 else "{}")]
        l, r = '""' if not v[2] else "[]" if v[2] == 1 else "{}"
        return [text(l), ("p", "%s at %d by %d" % (label(v), d, i)), text(r)]

    kinds = [lambda i: ("adt", jv, 0, (mk("e%d" % i),)), lambda i: ("adt", jv, 1, (("vec", ()),)), lambda i: ("adt", jv, 2, (("vec", ()),)),
             lambda i: ("adt", jv, 1, (mk("a%d" % i),)), lambda i: ("adt", jv, 2, (mk("o%d" % i),))]
    for depth, indent, turn in [(d, i, 0) for d in (0, 1, 2, 17) for i in (0, 1, 2)] + [(1, i, t) for i in (0, 2) for t in (1, 2, 3, 4)]:
        el = lambda i: kinds[(i + turn) % 5](i)
        nl = lambda d: text("\n" + " " * (d * indent)) if indent else text("")
        for n in range(4):
            for kind, (l, r) in ((1, "[]"), (2, "{}")):
                want = [text(l)]
                for i in range(n):
                    want += [nl(depth + 1)]
                    if kind == 2:
                        want += [text('"'), ("p", "quoted k%d" % i), text('"'), text(": " if indent else ":")]
                    want += written(el(i), depth + 1, indent) + ([text(",")] if i + 1 < n else [])
                want += ([nl(depth)] if n else []) + [text(r)]
                es = tuple(el(i) if kind == 1 else ("tup", (("p", "k%d" % i), el(i))) for i in range(n))
                run("%s of %d%s" % ("an array" if kind == 1 else "an object", n, ", kinds turned by %d" % turn if turn else ""), kind, ("vec", es), depth, indent, want)
    # primitives
    pt = [x for x in C.prog.adts if x.endswith("::StringOrNumberOrBoolOrNull")]
    if len(pt) != 1:
        raise Gone("the primitive type")
    vs = [v["name"] for v in C.prog.adts[pt[0]]["v"]]
    for name, content, want in (("Null", (), [text("null")]), ("Bool", (("int", 1),), [text("true")]), ("Bool", (("int", 0),), [text("false")]),
                                ("String", (("p", "s"),), [text('"'), ("p", "quoted s"), text('"')]), ("Number", (("mk", "finite"),), [("p", "number")])):
        run("%s %s" % (name, content[0][1] if content else ""), 0, ("adt", pt[0], vs.index(name), content), 1, 2, want)


def streamed(C, O):
    """the same text from the events of the value"""
    jv, tp, tel, tk = jvalue(C)
    fn = "json_stream_from_events"
    b = the(C, fn)
    where = (fn, b.d.get("span"))
    ev = [x for x in C.prog.adts if x.endswith("::JsonStreamEvent") and C.prog.adts[x]["local"]]
    pt = [x for x in C.prog.adts if x.endswith("::StringOrNumberOrBoolOrNull")]
    if len(ev) != 1 or len(pt) != 1 or b.argc != 2:
        raise Gone("the events")
    ev, pt = ev[0], pt[0]
    evs = {v["name"]: (i, [f[0] for f in v["f"]]) for i, v in enumerate(C.prog.adts[ev]["v"])}
    pvs = [v["name"] for v in C.prog.adts[pt]["v"]]

    def event(name, **kw):
        i, fs = evs[name]
        if set(kw) - set(fs):
            raise Gone("the fields of " + name)
        return ("adt", ev, i, tuple(kw.get(f, ("mk", "rest:" + f)) for f in fs))

    def prim(p):
        if p == "number":
            return ("adt", pt, pvs.index("Number"), (("mk", "finite"),))
        return ("adt", pt, pvs.index("String"), (("p", p),)) if p not in ("null", "true", "false") else \
            ("adt", pt, pvs.index("Null"), ()) if p == "null" else ("adt", pt, pvs.index("Bool"), (("int", int(p == "true")),))

    def events(t):
        if isinstance(t, str):
            return [event("Primitive", value=prim(t))]
        if isinstance(t, list):
            return [event("StartArray", length=("int", len(t)))] + [e for x in t for e in events(x)] + [event("EndArray")]
        return [event("StartObject")] + [e for k, x in t for e in [event("Key", key=("p", k), was_quoted=("int", 0))] + events(x)] + [event("EndObject")]

    def text(t, d, n):
        if isinstance(t, str):
            return [("str", t) if t in ("null", "true", "false") else ("p", t) if t == "number" else ("p", "quoted " + t)]
        l, r = "[]" if isinstance(t, list) else "{}"
        out = [("str", l)]
        nl = lambda d: [("str", "\n" + " " * (d * n))] if n else []
        for i, x in enumerate(t):
            out += nl(d + 1)
            if isinstance(t, tuple):
                out += [("p", "quoted " + x[0]), ("str", ": " if n else ":")]
                x = x[1]
            out += text(x, d + 1, n) + ([("str", ",")] if i + 1 < len(t) else [])
        return out + (nl(d) if t else []) + [("str", r)]

    def run(t, n, evl=None, broken=False):
        what = "the events of %s%s, indent %d" % (shape(t) if t is not None else "nothing", broken or "", n)
        ex = Exec(C.prog, shared=C.sh, opaque=set())
        ex.free = ex.freeeq = True
        ex.cap = 60
        ex.jsonq = True
        st = ex.start_state()
        try:
            r = ex.call_body(b, [("vec", tuple(evl if evl is not None else events(t))), ("int", n)], st)
        except (Unsupported, Opaque, NeedScan) as e:
            O.add("C23", what, None, "not analysed: %s" % e, None)
            return
        want = None if broken else bare(norm_cat(text(t, 0, n)))
        res, txt, k = True, "", 0
        for s, v in r:
            k += 1
            v = ex.freeze(s, ex.deref(s, v))
            if broken:
                if v[0] == "adt" and v[1] == RES and v[2] == 1:
                    continue
            elif v[0] == "adt" and v[1] == RES and v[2] == 0 and v[3][0][0] == "vec":
                got = bare(norm_cat(list(v[3][0][1])))
                if got == want:
                    continue
                if "~doubt" not in s.cons and not any(q in repr(got) for q in ("top", "any", "'ge'", "?", "'*'")):
                    res, txt = False, "the text is %s" % show(got)
                    break
            elif v[0] == "adt" and v[1] == RES and v[2] == 1 and "~doubt" not in s.cons:
                res, txt = False, "refused"
                break
            if broken and "~doubt" not in s.cons and v[0] == "adt" and v[1] == RES and v[2] == 0:
                res, txt = False, "accepted"
                break
            res, txt = None, "not decided"
            if __import__("os").environ.get("DBG"):
                print(what, s.cons, v)
        O.add("C23", what, res if k else None, txt or "%d ways" % k, where)
    p = "s"
    inner = ["s", [], (), ["a"], (("m", "b"),), "number"]
    trees = ["s", "null", "true", "false", "number", [], ()]
    trees += [[x] for x in inner] + [(("k", x),) for x in inner]
    trees += [[x, y] for x in inner for y in inner] + [(("k", x), ("l", y)) for x in inner for y in inner]
    trees += [["a", [["b", "c"], "d"], "e"], (("k", (("l", (("m", "a"), ("n", [])),), )), ("o", "b"), ("q", ["c", "d"])), [[[[]]]], [[], [], []], [[[[[[[[[[[[["a"]]]]]]]]]]]], "b"], [(("k", [(), "a"]), ("l", "b")), ["c"]]]
    for m in range(32):
        t = "x"
        for j in range(5):
            t = ["a%d" % j, t, "b%d" % j] if m >> j & 1 else (("k%d" % j, "a%d" % j), ("l%d" % j, t), ("m%d" % j, "b%d" % j))
        trees.append(t)
    for n in (0, 2):
        for t in trees:
            run(t, n)
    for t in (["a"], (("k", "a"),), [["a"], "b"]):
        run(t, 1)
        run(t, 3)
    for t, l, why in ((["a"], events(["a"])[:-1], " without its end"), ((), events(()) + [event("EndObject")], " with another end"), ([], [event("StartArray"), event("EndObject")], " with the end of an object"),
                      ((), [event("StartObject"), event("EndArray")], " with the end of an array")):
        run(t, 0, l, why)


def shape(t):
    return t if isinstance(t, str) else "[%s]" % " ".join(map(shape, t)) if isinstance(t, list) else "{%s}" % " ".join("%s:%s" % (k, shape(x)) for k, x in t)


def show(v):
    return "".join(x[1] if x[0] == "str" else "<%s>" % (x[1],) for x in (v[1] if v[0] == "cat" else (v,)))[:200]


def quoting(C, O):
    """every character of a string, in quotes: as itself, as its short escape or as \\u and its number"""
    fn = "push_json_string"
    b = the(C, fn)
    where = (fn, b.d.get("span"))
    sb = next(i for i in range(b.argc) if C.prog.types[b.locals[1 + i]]["s"].startswith("&mut"))
    short = {8: "b", 9: "t", 10: "n", 12: "f", 13: "r", 34: '"', 92: chr(92), 47: "/"}

    def run(what, s):
        ex = Exec(C.prog, shared=C.sh, opaque=set())
        ex.free = ex.freeeq = ex.jsonq = True
        ex.cap = 0x110000
        st = ex.start_state()
        st.cells["buf"] = ("str", "before")
        args = [None, None]
        args[sb], args[1 - sb] = ("ref", "buf", ()), ("str", s)
        try:
            r = ex.call_body(b, args, st)
        except (Unsupported, Opaque, NeedScan) as e:
            O.add("C23", what, None, "not analysed: %s" % e, None)
            return
        res, txt = True, "%d ways" % len(r)
        for st, v in r:
            got = bare(ex.freeze(st, st.cells["buf"]))
            if got[0] == "str" and reads(got[1], s):
                continue
            if "~doubt" in st.cons or got[0] != "str":
                res, txt = None, "not decided"
                continue
            res, txt = False, "written as %r" % got[1]
            break
        O.add("C23", what, res if r else None, txt, where)

    def reads(got, s):
        import json
        try:
            return got.startswith("before") and json.loads(got[6:]) == s
        except ValueError:
            return False
    for c in list(range(0x20)) + [0x22, 0x2f, 0x5c, 0x41, 0x75, 0x7f, 0x80, 0x9f, 0xa0, 0xe9, 0x2028, 0x4e2d, 0xfffd, 0x1f600]:
        for n, s in (("alone", chr(c)), ("in a text", "a" + chr(c) + "b"), ("twice", chr(c) * 2), ("after a backslash", chr(92) + chr(c)), ("before a quote", chr(c) + '"')):
            run("the character U+%04X %s" % (c, n), s)
    run("the empty text", "")


def entry(C, O):
    """the whole text is the value's, at depth 0"""
    jv, tp, tel, tk = jvalue(C)
    fn = "json_stringify_lines"
    b, v = the(C, fn), the(C, "stringify_value_to_buf")
    ty = lambda b, i: C.prog.types[b.locals[1 + i]]["s"]
    names = {n: pl[0] - 1 for pl, n in v.d["names"] if len(pl) == 1 and pl[0] <= v.argc}
    if b.argc != 2 or not {"depth", "indent"} <= set(names):
        raise Gone("parameters of " + fn)
    buf = next(i for i in range(4) if ty(v, i).startswith("&mut"))
    val = next(i for i in range(4) if ty(v, i).endswith(jv))
    for n in (0, 2, 7):
        ex = Exec(C.prog, shared=C.sh, opaque=set())
        ex.free = ex.freeeq = ex.jsonq = True
        ex.cap = 40

        def inner(ex, st, a):
            r = a[buf]
            while r[0] == "ref" and ex.load(st, r)[0] == "ref":
                r = ex.load(st, r)
            x = [bare(ex.freeze(st, ex.deref(st, a[names[k]]))) for k in ("depth", "indent")] + [bare(ex.freeze(st, ex.deref(st, a[val])))]
            if r[0] != "ref" or any(y[0] != "int" for y in x[:2]) or x[2] != ("mk", "V"):
                raise Unsupported("the value's text is not asked for as expected")
            s = st.copy()
            ex.store(s, r[1], r[2], norm_cat([ex.load(s, r), ("p", "the value at %d by %d" % (x[0][1], x[1][1]))]))
            return [(s, ("tup", ()))]
        ex.hooks[v.id] = inner
        st = ex.start_state()
        st.cells["v"] = ("mk", "V")
        args = [None, None]
        i = next((i for i in range(2) if ty(b, i) == "usize"), None)
        if i is None:
            raise Gone("parameters of " + fn)
        args[i], args[1 - i] = ("int", n), ("ref", "v", ())
        what = "the whole text, indent %d" % n
        try:
            r = ex.call_body(b, args, st)
        except (Unsupported, Opaque, NeedScan) as e:
            O.add("C23", what, None, "not analysed: %s" % e, None)
            continue
        res, txt = True, "%d ways" % len(r)
        for s, w in r:
            w = ex.freeze(s, ex.deref(s, w))
            got = bare(norm_cat(list(w[1]))) if w[0] == "vec" else w
            if got == ("p", "the value at 0 by %d" % n):
                continue
            if "~doubt" in s.cons or any(q in repr(got) for q in ("top", "any", "'ge'", "'*'")):
                res, txt = None, "not decided"
                continue
            res, txt = False, "the text is %s" % show(got)
            break
        O.add("C23", what, res if r else None, txt, (fn, b.d.get("span")))
