"""The entry points of the library: the stages in order, each with the options given (C37)."""
from ..texec import Exec, Unsupported, RES, Opaque, NeedScan
from .roundtrip import Gone
from .layout import NONE, some
from .fold import the, bare
from .tree import jvalue

ok = lambda x: ("adt", RES, 0, (x,))
err = lambda x: ("adt", RES, 1, (x,))
mk = lambda n: ("mk", n)


class Run:
    def __init__(self, C, O):
        self.C, self.O = C, O
        self.jv = jvalue(C)[0]

    def adt(self, n):
        x = [x for x in self.C.prog.adts if x.endswith("::" + n) and self.C.prog.adts[x]["local"]]
        if len(x) != 1:
            raise Gone(n)
        return x[0]

    def variant(self, n, v):
        a = self.adt(n)
        return ("adt", a, [x["name"] for x in self.C.prog.adts[a]["v"]].index(v), ())

    def struct(self, n, **kw):
        a = self.adt(n)
        fs = [f[0] for f in self.C.prog.adts[a]["v"][0]["f"]]
        if set(fs) != set(kw):
            raise Gone("the fields of " + n)
        return ("adt", a, 0, tuple(kw[f] for f in fs))

    def fields(self, v, n):
        if v[0] != "adt" or v[1] != self.adt(n):
            return None
        return dict(zip([f[0] for f in self.C.prog.adts[v[1]]["v"][0]["f"]], v[3]))

    def find(self, fn, inside=None):
        b = [x for x in self.C.prog.bodies if x.split("::")[-1] == fn and "::wasm::" not in x and (inside is None or "::%s::" % inside in x)]
        if len(b) != 1:
            raise Gone(fn)
        return self.C.prog.bodies[b[0]]

    def go(self, what, b, args, hooks, want):
        """hooks: body or path -> f(values of the arguments) -> list of results; want: (value) -> True / False / None"""
        ex = Exec(self.C.prog, shared=self.C.sh, opaque=set())
        ex.free = ex.freeeq = ex.jsonq = True
        ex.cap = 1 << 20
        val = lambda st, x: bare(ex.freeze(st, ex.deref(st, x)))

        def hook(f):
            def h(ex, st, a):
                r = f(*[val(st, x) for x in a])
                return [(st.copy(), x) for x in r]
            return h
        for k, f in hooks.items():
            ex.hooks[k] = f if getattr(f, "raw", False) else hook(f)
        st = ex.start_state()
        where = (b.id.split("::")[-1], b.d.get("span"))
        try:
            r = ex.call_body(b, list(args), st)
        except (Unsupported, Opaque, NeedScan) as e:
            self.O.add("C37", what, None, "not analysed: %s" % e, None)
            return
        res, txt, good = True, "%d ways" % len(r), False
        for s, v in r:
            v = bare(ex.freeze(s, ex.deref(s, v)))
            j = want(v)
            good = good or j == "good"
            if j in (True, "good"):
                continue
            if "~doubt" in s.cons or any(q in repr(v) for q in ("top", "any", "'ge'", "'*'", "'app'", "'sym", "?")):
                res, txt = None, "not decided"
                if __import__("os").environ.get("DBG"):
                    print(what, s.cons, v)
                continue
            res, txt = False, "gives %s" % (repr(v)[:300],)
            break
        if res and not good:
            res, txt = None, "no way to a result"
        self.O.add("C37", what, res, txt, where)


def term(v):
    if v[0] == "int":
        return str(v[1])
    if v[0] in ("mk", "p"):
        return v[1]
    if v[0] == "str":
        return repr(v[1])
    if v[0] == "adt" and v[1].endswith("::JsonValue") and v[3][0][0] == "mk":
        return v[3][0][1]
    if v[0] == "vec":
        return "[%s]" % ", ".join(term(x) for x in v[1])
    return "?" + repr(v)[:80]


def decoding(C, O):
    R = Run(C, O)
    core = R.find("decode_stream_sync", "decoders")
    build, expand, tojson = the(C, "build_node_from_events"), the(C, "expand_paths_safe"), the(C, "node_to_json")

    def stages():
        def events(src, opt):
            if opt == NONE:
                i, s = NONE, NONE
            else:
                f = R.fields(opt[3][0], "DecodeStreamOptions")
                if f is None or set(f) != {"indent", "strict"}:
                    return [ok(mk("?"))]
                i, s = f["indent"], f["strict"]
            i = ("int", 2) if i == NONE else i[3][0] if i[0] == "adt" else mk("?")
            s = ("int", 1) if s == NONE else s[3][0] if s[0] == "adt" else mk("?")
            return [ok(mk("events(%s, %s, %s)" % (term(src), term(i), term(s)))), err(mk("e1"))]
        eb = {C.prog.types[expand.locals[1 + i]]["s"] == "bool": i for i in range(expand.argc)}
        if expand.argc != 2 or True not in eb:
            raise Gone("parameters of expand_paths_safe")
        return {core.id: events,
                build.id: lambda e: [ok(mk("node(%s)" % term(e))), err(mk("e2"))],
                expand.id: lambda *a: [ok(mk("expanded(%s, %s)" % (term(a[eb[False]]), term(a[eb[True]])))), err(mk("e3"))],
                tojson.id: lambda n: [mk("json(%s)" % term(n))]}
    errs = [err(mk("e%d" % i)) for i in (1, 2, 3)]

    def expected(t, wrap=lambda x: x):
        return lambda v: "good" if v == wrap(t) else v in errs
    off, safe = R.variant("ExpandPathsMode", "Off"), R.variant("ExpandPathsMode", "Safe")
    o = lambda x: NONE if x is None else some(x)
    num = lambda x: o(None if x is None else ("int", x))
    lines = R.find("try_decode_from_lines")
    combos = [(i, s, x) for i in (None, 0, 3, 1000) for s in (None, 0, 1) for x in (None, off, safe)]

    def options(i, s, x):
        return some(R.struct("DecodeOptions", indent=num(i), strict=num(s), expand_paths=o(x)))

    def word(i, s, x):
        return "indent %s, strict %s, expansion %s" % (i, s, "default" if x is None else "safe" if x == safe else "off")

    def chain(src, i, s, x):
        ii, ss = 2 if i is None else i, 1 if s is None else s
        n = "node(events(%s, %d, %d))" % (src, ii, ss)
        return ("expanded(%s, %d)" % (n, ss) if x == safe else n), ii, "events(%s, %d, %d)" % (src, ii, ss)
    for fn in ("try_decode_from_lines",):
        for c in combos:
            R.go("%s: %s" % (fn, word(*c)), lines, [mk("L"), options(*c)], stages(), expected(ok(mk("json(%s)" % chain("L", *c)[0]))))
        R.go("%s: no options" % fn, lines, [mk("L"), NONE], stages(), expected(ok(mk("json(%s)" % chain("L", None, None, None)[0]))))
    TEXTS = ("", "a", "a\n", "\n", "a\r\nb", "a\n\nb", " a \n\tb\n\n")
    td = R.find("try_decode")
    for t in TEXTS:
        src = term(("vec", tuple(("str", x) for x in t.split("\n"))))
        R.go("try_decode: the text %r" % t, td, [("str", t), NONE], stages(), expected(ok(mk("json(%s)" % chain(src, None, None, None)[0]))))
    for c in combos:
        R.go("try_decode: %s" % word(*c), td, [("str", "a"), options(*c)], stages(), expected(ok(mk("json(%s)" % chain("['a']", *c)[0]))))
    # the command line
    cli = R.find("decode_to_json_chunks")
    sl, sf = the(C, "json_stringify_lines"), the(C, "json_stream_from_events")
    iv = next((i for i in range(2) if C.prog.types[sl.locals[1 + i]]["s"] == "usize"), None)
    ie = next((i for i in range(2) if C.prog.types[sf.locals[1 + i]]["s"] == "usize"), None)
    if iv is None or ie is None:
        raise Gone("parameters of the JSON writers")
    for c in combos + [None]:
        h = stages()
        h[sl.id] = lambda *a: [mk("text(%s, %s)" % (term(a[1 - iv]), term(a[iv])))]
        h[sf.id] = lambda *a: [ok(mk("stream(%s, %s)" % (term(a[1 - ie]), term(a[ie])))), err(mk("e3"))]
        n, i, e = chain("['a']", *(c or (None, None, None)))
        want = {ok(mk("text(json(%s), %d)" % (n, i)))}
        if not c or c[2] != safe:
            want.add(ok(mk("stream(%s, %d)" % (e, i))))
        R.go("decode_to_json_chunks: %s" % (word(*c) if c else "no options"), cli, [("str", "a"), options(*c) if c else NONE], h,
             lambda v, want=want: "good" if v in want else v in errs)
    # defaults of the event decoder
    pl = the(C, "parse_lines_sync")
    names = {n: p[0] - 1 for p, n in pl.d["names"] if len(p) == 1 and p[0] <= pl.argc}
    tys = [C.prog.types[pl.locals[1 + i]]["s"] for i in range(pl.argc)]
    if tys.count("usize") != 1 or tys.count("bool") != 1:
        raise Gone("parameters of parse_lines_sync")
    for i in (None, 0, 3, 1000):
        for s in (None, 0, 1):
            h = {pl.id: lambda *a: [err(mk("at %s, %s" % (term(a[tys.index("usize")]), term(a[tys.index("bool")]))))]}
            w = err(mk("at %d, %d" % (2 if i is None else i, 1 if s is None else s)))
            R.go("decode_stream_sync: indent %s, strict %s" % (i, s), core, [mk("L"), some(R.struct("DecodeStreamOptions", indent=num(i), strict=num(s)))], h,
                 lambda v, w=w: "good" if v == w else False)
    R.go("decode_stream_sync: no options", core, [mk("L"), NONE], {pl.id: h[pl.id]}, lambda v: "good" if v == err(mk("at 2, 1")) else False)


def encoding(C, O):
    R = Run(C, O)
    norm, rep, enc, emit = the(C, "normalize_json_value"), the(C, "apply_replacer"), the(C, "encode_json_value"), the(C, "emit_events")
    vi = [i for i in range(2) if C.prog.types[enc.locals[1 + i]]["s"].endswith(R.jv)]
    ri = [i for i in range(rep.argc) if C.prog.types[rep.locals[1 + i]]["s"].endswith(R.jv)]
    ei = [i for i in range(emit.argc) if C.prog.types[emit.locals[1 + i]]["s"].endswith("&" + R.jv)]
    if len(vi) != 1 or len(ri) != 1 or len(ei) != 1 or emit.argc != 2:
        raise Gone("parameters of the encoder")

    def opts(v):
        f = R.fields(v, "ResolvedEncodeOptions")
        if f is None or set(f) != {"indent", "delimiter", "key_folding", "flatten_depth", "replacer"}:
            return "?"
        return " ".join("%s=%s" % (k, {"replacer": lambda x: "none" if x == NONE else "some", "key_folding": lambda x: str(x[2])}.get(k, term)(x)) for k, x in sorted(f.items()))

    def push(ex, st, a):
        r, n = a[1 - ei[0]], 0
        while r[0] == "ref" and ex.load(st, r)[0] == "ref" and n < 4:
            r, n = ex.load(st, r), n + 1
        cur = ex.load(st, r) if r[0] == "ref" else None
        if cur is None or cur[0] != "vec":
            raise Unsupported("the events are not there")
        s = st.copy()
        ex.store(s, r[1], r[2], ("vec", cur[1] + (mk("events of " + term(bare(ex.freeze(s, ex.deref(s, a[ei[0]]))))),)))
        return [(s, ("tup", ()))]
    push.raw = True
    kind = lambda v, t: v[:3] + ((mk(t),),) if v[0] == "adt" else mk(t)
    h = {norm.id: lambda v: [kind(v, "normalised(%s)" % term(v))],
         rep.id: lambda *a: [mk("replaced(%s, %s)" % (term(a[ri[0]]), term(a[1 - ri[0]])))],
         enc.id: lambda *a: [("vec", (mk("lines(%s; %s)" % (term(a[vi[0]]), opts(a[1 - vi[0]]))), mk("more")))],
         emit.id: push}
    safe, off = R.variant("KeyFoldingMode", "Safe"), R.variant("KeyFoldingMode", "Off")
    o = lambda x: NONE if x is None else some(x)
    num = lambda x: o(None if x is None else ("int", x))
    MAX = (1 << 64) - 1
    combos = [(i, d, k, f, r) for i, d in ((None, None), (0, 124), (7, 9), (1000, 44)) for k in (None, off, safe) for f in (None, 0, 3, 1000) for r in (None, 1)] + [None]
    lines, text, evs = R.find("encode_lines"), R.find("encode"), R.find("encode_stream_events")
    for c in combos:
        i, d, k, f, r = c or (None,) * 5
        arg = NONE if c is None else some(R.struct("EncodeOptions", indent=num(i), delimiter=num(d), key_folding=o(k), flatten_depth=num(f), replacer=o(mk("REP") if r else None)))
        v = "normalised(V)"
        v = "replaced(%s, REP)" % v if r else v
        w = "lines(%s; delimiter=%d flatten_depth=%d indent=%d key_folding=%d replacer=%s)" % (
            v, 44 if d is None else d, MAX if f is None else f, 2 if i is None else i, (k or off)[2], "some" if r else "none")
        word = "no options" if c is None else "indent %s, delimiter %s, folding %s, depth %s, replacer %s" % (i, d, "default" if k is None else "safe" if k == safe else "off", f, bool(r))
        few = c is None or (k, f) in ((None, None), (safe, 3))
        for kn, root in [("", mk("V"))] + [(" of " + n, ("adt", R.jv, j, (mk("V"),))) for j, n in enumerate(("a primitive", "an array", "an object")) if few]:
            R.go("encode_lines%s: %s" % (kn, word), lines, [root, arg], h, lambda x, w=w: "good" if x == ("vec", (mk(w), mk("more"))) else False)
            R.go("encode_stream_events%s: %s" % (kn, word), evs, [root, arg], h, lambda x, v=v: "good" if x == ("vec", (mk("events of " + v),)) else False)
    for n in range(4):
        ls = tuple(("p", "l%d" % j) for j in range(n))
        want = "\n".join("<l%d>" % j for j in range(n))
        show = lambda v: v[1] if v[0] == "str" else "<%s>" % v[1] if v[0] == "p" else "".join(show(x) for x in v[1]) if v[0] == "cat" else repr(v)
        R.go("encode: a text of %d lines" % n, text, [mk("V"), NONE], {lines.id: lambda v, x, ls=ls: [("vec", ls)]}, lambda x, want=want: "good" if show(x) == want else False)
    opt = some(mk("OPTIONS"))
    R.go("encode: the value and the options", text, [mk("V"), opt], {lines.id: lambda v, x: [("vec", (("p", "lines of %s with %s" % (term(v), "the options" if x == opt else "others")),))]},
         lambda x: "good" if x == ("p", "lines of V with the options") else False)


def wrappers(C, O):
    """the one-line entry points: what they are made of, with the arguments given, and failures reported"""
    R = Run(C, O)
    core = R.find("decode_stream_sync", "decoders")
    bad = [err(mk("e1")), err(mk("e2"))]
    opt = some(mk("OPTIONS"))
    o = lambda v: "none" if v == NONE else "options" if v == opt else "?"
    from_json = "<%s as core::convert::From<serde_json::value::Value>>::from" % R.jv
    to_json = "<serde_json::value::Value as core::convert::From<%s>>::from" % R.jv

    def has(b, *paths):
        import json
        t = json.dumps(b.d)
        for p in paths:
            if p not in t and p not in C.prog.bodies:
                raise Gone(p)

    def good(w, *more):
        return lambda v: "good" if v == w else v in more or bool(more) and v[0] == "adt" and v[1] == RES and v[2] == 1

    def lib(name):
        return next((x for x in C.prog.bodies if x.split("::")[-1] == name and "::wasm::" not in x and "decoders" not in x and "async" not in x), None)
    for fn, inner, panics in (("decode", "try_decode", 1), ("decode_from_lines", "try_decode_from_lines", 1), ("decode_stream_sync", "try_decode_stream_sync", 1), ("try_decode_stream_sync", core.id, 0)):
        b, i = lib(fn), inner if inner == core.id else lib(inner)
        if b is None or i is None:
            O.add("C37", fn, None, "not there", None)
            continue
        h = {i: lambda x, y: [ok(mk("%s with %s" % (term(x), o(y)))), err(mk("e1"))]}
        w = mk("X with options")
        R.go("%s: the input and the options" % fn, C.prog.bodies[b], [mk("X"), opt], h, good(w) if panics else good(ok(w), *bad))
    parse = lambda s: [ok(mk("json %s" % term(s))), err(mk("e1"))]
    b = R.find("json_to_toon")
    e = R.find("encode")
    has(b, "serde_json::de::from_str")
    R.go("json_to_toon", b, [mk("T")], {"serde_json::de::from_str": parse, from_json: lambda v: [v], e.id: lambda v, x: [mk("toon of %s with %s" % (term(v), o(x)))]},
         good(ok(mk("toon of json T with none")), *bad))
    b, e = R.find("encode_to_toon_lines"), R.find("encode_lines")
    for x in (opt, NONE):
        R.go("encode_to_toon_lines, %s" % ("options given" if x == opt else "no options"), b, [mk("T"), x],
             {"serde_json::de::from_str": parse, from_json: lambda v: [v], e.id: lambda v, x: [mk("toon of %s with %s" % (term(v), o(x)))]},
             good(ok(mk("toon of json T with %s" % o(x))), *bad))
    b, e = R.find("toon_to_json"), R.find("try_decode")
    R.go("toon_to_json", b, [mk("T")], {e.id: lambda v, x: [ok(mk("value of %s with %s" % (term(v), o(x)))), err(mk("e1"))], to_json: lambda v: [v],
                                       "serde_json::ser::to_string": lambda v: [ok(mk("json of " + term(v))), err(mk("e2"))]},
         good(ok(mk("json of value of T with none")), *bad))


def converted(C, O):
    """between serde_json's values and the library's: every kind to its kind, every member once, in order, under its own key (C36)"""
    R = Run(C, O)
    jv, sv = R.jv, "serde_json::value::Value"
    pt = R.adt("StringOrNumberOrBoolOrNull")
    if sv not in C.prog.adts:
        raise Gone(sv)
    svs, pvs = [v["name"] for v in C.prog.adts[sv]["v"]], [v["name"] for v in C.prog.adts[pt]["v"]]

    def theirs(n, *x):
        return ("adt", sv, svs.index(n), x)

    def prim(n, *x):
        return ("adt", jv, 0, (("adt", pt, pvs.index(n), x),))

    def ours(n, x):
        return ("adt", jv, ["", "Array", "Object"].index(n), (x,))
    back = "<%s as core::convert::From<%s>>::from" % (sv, jv)
    into = "<%s as core::convert::From<%s>>::from" % (jv, sv)
    if back not in C.prog.bodies or into not in C.prog.bodies:
        raise Gone("conversion")
    f64 = [x for x in C.prog.bodies if x.endswith("StringOrNumberOrBoolOrNull::from_f64")]
    cases = []
    key = lambda i: ("p", "k%d" % i)
    told = lambda x: "new:" + repr(x[2:])
    tk = [lambda i: theirs("Null"), lambda i: theirs("String", ("p", "s%d" % i)), lambda i: theirs("Array", ("vec", ())), lambda i: theirs("Object", ("vec", ())),
          lambda i: theirs("Bool", ("int", i % 2)), lambda i: theirs("Number", mk("n%d" % i)), lambda i: theirs("Array", ("vec", (mk("e%d" % i),)))]
    ok_ = [lambda i: prim("Null"), lambda i: prim("String", ("p", "s%d" % i)), lambda i: ours("Array", ("vec", ())), lambda i: ours("Object", ("vec", ())),
           lambda i: prim("Bool", ("int", i % 2)), lambda i: prim("Number", mk("n%d" % i)), lambda i: ours("Array", ("vec", (mk("e%d" % i),)))]
    for n, turn in [(0, 0)] + [(n, t) for n in (1, 2, 4) for t in range(7)]:
        for k in ("Array", "Object"):
            for fn, kinds, src, dst, way in ((into, tk, theirs, ours, "from"), (back, ok_, ours, theirs, "to")):
                x = [kinds[(i + turn) % 7](i) for i in range(n)]
                y = [mk(told(z)) for z in x]
                if k == "Object":
                    x, y = ([("tup", (key(i), z)) for i, z in enumerate(q)] for q in (x, y))
                cases.append((fn, "%s of %d %s JSON, kinds turned by %d" % (k, n, way, turn), src(k, ("vec", tuple(x))), dst(k, ("vec", tuple(y)))))
    for n, x, t, o in [("Null", "null", (), ()), ("Bool", "true", (("int", 1),), (("int", 1),)), ("Bool", "false", (("int", 0),), (("int", 0),)), ("String", "a string", (("p", "s"),), (("p", "s"),))]:
        cases.append((into, "%s from JSON" % x, theirs(n, *t), prim(n, *o)))
        cases.append((back, "%s to JSON" % x, prim(n, *o), theirs(n, *t)))
    cases.append((into, "a number from JSON", theirs("Number", mk("N")), ("adt", jv, 0, (mk("as f64: N"),))))
    cases.append((back, "a number to JSON", prim("Number", mk("finite")), theirs("Number", ("p", "number"))))
    for fn, what, v, want in cases:
        ex = Exec(C.prog, shared=C.sh, opaque=set())
        ex.free = ex.freeeq = ex.jsonq = True
        ex.cap = 40

        def again(ex, st, a):
            x = bare(ex.freeze(st, ex.deref(st, a[0])))
            return [(st, mk(told(x)))] if x != v else None

        def insert(ex, st, a):
            r, n = a[0], 0
            while r[0] == "ref" and ex.load(st, r)[0] == "ref" and n < 4:
                r, n = ex.load(st, r), n + 1
            cur = ex.load(st, r) if r[0] == "ref" else ("top",)
            if cur[0] != "vec":
                raise Unsupported("the map is not there")
            s = st.copy()
            ex.store(s, r[1], r[2], ("vec", cur[1] + (("tup", (ex.freeze(s, a[1]), ex.freeze(s, a[2]))),)))
            return [(s, NONE)]
        ex.hooks[fn] = again
        ex.hooks["serde_json::map::Map::insert"] = insert
        for q in ("new", "with_capacity"):
            ex.hooks["serde_json::map::Map::" + q] = lambda ex, st, a: [(st, ("vec", ()))]
        ex.hooks["serde_json::number::Number::as_f64"] = lambda ex, st, a: [(st, some(mk("f64 of " + term(bare(ex.deref(st, a[0]))))))]
        for q in f64:
            ex.hooks[q] = lambda ex, st, a: [(st, mk("as f64: N" if ex.deref(st, a[0]) == mk("f64 of N") else "?"))]
        b = C.prog.bodies[fn]
        try:
            r = ex.call_body(b, [v], ex.start_state())
        except (Unsupported, Opaque, NeedScan) as e:
            O.add("C36", what, None, "not analysed: %s" % e, None)
            continue
        res, txt = True, "%d ways" % len(r)
        for s, x in r:
            x = bare(ex.freeze(s, ex.deref(s, x)))
            if x == want:
                continue
            if __import__("os").environ.get("DBG"):
                print(what, s.cons, x)
            if "~doubt" in s.cons or any(q in repr(x) for q in ("top", "any", "'ge'", "'*'", "'app'", "'iter'", "?")):
                res, txt = None, "not decided"
                continue
            res, txt = False, "becomes %s" % (repr(x)[:300],)
            break
        O.add("C36", what, res if r else None, txt, (fn, b.d.get("span")))


WITNESS = [float(x) for x in ("nan inf -inf 0 -0.0 5e-324 -5e-324 1e-310 -2e-308 3e-308 1e-300 1e-100 -1e-17 2e-16 1e-9 1e-7 0.1 -0.5 1 -1 1.5 255.5 256 -300 "
                              "65536 2147483648 -2147483649 4294967296 9007199254740991 9007199254740992 9007199254740994 -9007199254740992 1e16 9223372036854775808 "
                              "-9223372036854775808 18446744073709551616 1e20 1e21 1.5e22 -1e100 1e300 1.7976931348623157e308").split()]


def normal(C, O):
    """every number: not finite is null, zero is zero without a sign, everything else itself (C24)"""
    import math
    R = Run(C, O)
    pt = R.adt("StringOrNumberOrBoolOrNull")
    pvs = [v["name"] for v in C.prog.adts[pt]["v"]]
    num, null = pvs.index("Number"), pvs.index("Null")
    bodies = [x for x in C.prog.bodies if x.endswith("StringOrNumberOrBoolOrNull::from_f64") or x.split("::")[-1] == "normalize_primitive"]

    def sub(w):
        return w != 0 and abs(w) < 2.0 ** -1022

    def fits(w, f):
        """does the number have the fact; None: cannot tell"""
        if isinstance(f, str) and f[:1] == "!":
            r = fits(w, f[1:])
            return None if r is None else not r
        if isinstance(f, tuple) and len(f) == 2 and f[0] == "!":
            r = fits(w, f[1])
            return None if r is None else not r
        if f in ("fin", "nan", "z", "nz", "neg", "normal", "inf", "subnormal", "int"):
            return {"fin": lambda: math.isfinite(w), "nan": lambda: math.isnan(w), "z": lambda: w == 0, "nz": lambda: w != 0, "neg": lambda: math.copysign(1, w) < 0,
                    "normal": lambda: math.isfinite(w) and w != 0 and not sub(w), "inf": lambda: math.isinf(w), "subnormal": lambda: math.isfinite(w) and sub(w),
                    "int": lambda: math.isfinite(w) and w == math.trunc(w)}[f]()
        if isinstance(f, tuple) and len(f) == 4 and f[0] == "cmp":
            x = abs(w) if f[1] == "abs" else w
            return {"Lt": x < f[3], "Le": x <= f[3], "Gt": x > f[3], "Ge": x >= f[3]}[f[2]]
        return None

    def text(w):
        return "null" if not math.isfinite(w) else repr(w + 0.0 if w else 0.0)

    for x in sorted(bodies):
        b = C.prog.bodies[x]
        fn = x.split("::")[-1]
        ex = Exec(C.prog, shared=C.sh, opaque=set())
        ex.free = ex.freeeq = ex.jsonq = True
        try:
            r = ex.call_body(b, [("num", "N") if fn == "from_f64" else ("adt", pt, num, (("num", "N"),))], ex.start_state())
        except (Unsupported, Opaque, NeedScan) as e:
            O.add("C24", fn, None, "not analysed: %s" % e, None)
            continue
        for s, v in r:
            F = s.cons.get("#N", frozenset())
            v = ex.fix(s, ex.deref(s, v))
            key = "%s: a number that is %s" % (fn, ", ".join(sorted(map(str, F))) or "any")
            where = (fn, b.d.get("span"))
            out = "null" if v[:3] == ("adt", pt, null) else v[3][0] if v[:3] == ("adt", pt, num) else None
            if __import__("os").environ.get("DBG"):
                print(key, v, s.cons)
            if "~doubt" in s.cons or out is None or out != "null" and out[0] not in ("num", "float"):
                O.add("C24", key, None, "not decided", where)
                continue
            if out[0] == "num":
                out = out[:2]
            bad = None
            for w in WITNESS:
                fs = [fits(w, f) for f in F]
                if all(f is True for f in fs):
                    got = "null" if out == "null" else repr(w) if out[0] == "num" else repr(out[1])
                    if got != text(w):
                        bad = "%r becomes %s" % (w, got)
                        break
            if bad:
                O.add("C24", key, False, bad, where)
            elif out == "null" and ("!fin" in F or "nan" in F or "inf" in F) or out == ("num", "N") and ("fin" in F and "nz" in F or "normal" in F or "subnormal" in F) \
                    or out[0] == "float" and repr(out[1]) == "0.0" and "z" in F:
                O.add("C24", key, True, "becomes %s" % (out if out == "null" else "itself" if out[0] == "num" else "0"), where)
            else:
                O.add("C24", key, None, "not decided %r" % (out,), where)
        if fn == "normalize_primitive":
            for n, c in (("Null", ()), ("Bool", (("int", 1),)), ("Bool", (("int", 0),)), ("String", (("p", "s"),))):
                v = ("adt", pt, pvs.index(n), c)
                ex = Exec(C.prog, shared=C.sh, opaque=set())
                ex.free = ex.freeeq = ex.jsonq = True
                try:
                    r = ex.call_body(b, [v], ex.start_state())
                except (Unsupported, Opaque, NeedScan) as e:
                    O.add("C24", "%s of %s" % (fn, n), None, "not analysed: %s" % e, None)
                    continue
                got = [bare(ex.freeze(s, ex.deref(s, y))) for s, y in r]
                res = True if got and all(g == v for g in got) else None if any("~doubt" in s.cons or "top" in repr(g) for (s, _), g in zip(r, got)) else False
                O.add("C24", "%s of %s %s" % (fn, n, c[0][1] if c else ""), res, "becomes %s" % got[:2], (fn, b.d.get("span")))
