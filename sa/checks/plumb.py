"""From the line to the value: who hands what to whom in the decoder.

The text level (roundtrip.py) shows what the token parsers make of a text.  Here the functions between a parsed
header and the events are run with the token parsers cut off: a list is abstracted to "the elements before, one
element in focus, the elements behind", and every event pushed and every call to a cut-off function is watched.
"""
import os

from .. import tmodels as M
from ..texec import Exec, Unsupported, TOP, OPT, RES, Opaque, NeedScan
from .roundtrip import names, Gone, field, G

# checks of counts and layout that do not change what is read (C10, C11, C14 are about them)
PASS = ("assert_expected_count", "validate_no_blank_lines_in_range", "validate_no_extra_tabular_rows", "validate_no_extra_list_items")
PARTS = ("B", "F", "A")


def adt(prog, end, **kw):
    p = [x for x in prog.adts if x.endswith("::" + end)]
    if len(p) != 1:
        raise Gone(end)
    fs = [f[0] for f in prog.adts[p[0]]["v"][0]["f"]]
    if set(kw) - set(fs):
        raise Gone(end + "." + sorted(set(kw) - set(fs))[0])
    return ("adt", p[0], 0, tuple(kw.get(f, TOP) for f in fs))


def triple(f):
    return ("vec", (("*", f("B")), f("F"), ("*", f("A"))))


class Watch:
    """events pushed and cut-off calls, in order, as an automaton over a state kept in the abstract state"""

    def __init__(self, C, step, cuts):
        self.C, self.prog = C, C.prog
        self.bad, self.soft = {}, set()
        self.step = step
        ex = self.ex = Exec(C.prog, shared=C.sh, opaque=set(G["drec"]), limit=20000)
        ex.monitor = self.push
        for end, h in cuts.items():
            b = [k for k in C.prog.bodies if k.split("::")[-1] == end]
            if len(b) != 1:
                if end in PASS:
                    continue
                raise Gone(end)
            ex.hooks[b[0]] = h
        self.st = ex.start_state()
        self.st.cells["ev"] = ("sink", "ev")
        self.st.cells["~q"] = ("q", "start")

    def go(self, st, what):
        q = st.cells["~q"][1]
        n = self.step(q, what)
        s = st.copy()
        if n is None:
            self.note(st, False, "%s after %s" % (show(what), q))
            n = q
        elif n == "?":
            self.note(st, None, "%s is not known to be right" % show(what))
            n = q
        s.cells["~q"] = ("q", n)
        return s

    def note(self, st, res, text):
        if res is False and "~doubt" not in st.cons:
            self.bad.setdefault(text, self.ex.where())
        else:
            self.soft.add(text)

    def push(self, ex, st, name, v):
        if v[0] != "adt":
            self.note(st, None, "an event that is not known")
            return [(st, M.UNIT)]
        n = self.prog.adts[v[1]]["v"][v[2]]["name"]
        return [(self.go(st, (n,) + tuple(v[3])), M.UNIT)]

    def run(self, body, args):
        self.res = self.ex.call_body(body, args, self.st)
        return self.res

    def ends(self, final):
        """every way out that returns Ok has to end in a final state"""
        for s, v in self.res:
            if v[0] == "adt" and v[1] == RES and v[2] == 1:
                continue
            q = s.cells["~q"][1]
            if q not in final:
                self.note(s, False, "it ends after %s" % q)

    def report(self, O, props, key):
        """props: property -> the violations that concern it"""
        for prop, mine in props.items():
            bad = [x for x in sorted(self.bad.items()) if mine(x[0])]
            if bad:
                O.add(prop, key, False, *bad[0])
            elif self.soft or self.bad:
                O.add(prop, key, None, sorted(set(self.soft) | set(self.bad))[0], None)
            elif not self.res:
                O.add(prop, key, None, "no way through the function was found", None)
            else:
                O.add(prop, key, True, "%d ways through" % len(self.res), None)


def show(what):
    def s(x):
        if x == TOP:
            return "?"
        if x[0] == "mk":
            return NAMES.get(x[1], x[1])
        if x[0] == "adt":
            return "(%s)" % ",".join(s(y) for y in x[3])
        return str(x[1]) if len(x) > 1 else x[0]
    return "%s %s" % (what[0], " ".join(s(x) for x in what[1:])) if len(what) > 1 else what[0]


NAMES = {"cell:B": "<an earlier cell>", "cell:F": "<the cell>", "cell:A": "<a later cell>", "name:B": "<an earlier column>",
         "name:F": "<the column>", "name:A": "<a later column>", "hlen": "<declared length>"}


def mk(n):
    return ("mk", n)


def okv(v):
    return ("adt", RES, 0, (v,))


def somev(v):
    return ("adt", OPT, 1, (v,))


NONEV = ("adt", OPT, 0, ())


def part(v, kind):
    """which part of the list a marker belongs to, 'other' for something else, None when not known"""
    if v[0] == "adt" and len(v[3]) == 1:
        return part(v[3][0], kind)
    if v[0] == "mk":
        return v[1][len(kind) + 1:] if v[1].startswith(kind + ":") else "other"
    return None if v == TOP or v[0] in ("any", "*e") else "other"


def cuts(W, text, bad):
    def split(ex, st, args):
        v, d = ex.deref(st, args[0]), ex.deref(st, args[1])
        if d != mk("hdelim"):
            bad(st, False if d != TOP else None, "a list is split with another delimiter than the one of its header")
        if v != mk(text):
            bad(st, False if v[0] in ("mk", "str") else None, "the text split is not the text of the list")
        return [(st, triple(lambda p: mk("cell:" + p)))]

    def token(ex, st, args):
        v = ex.deref(st, args[0])
        p = [x for x in ex.prog.adts if x.split("::")[-1] == "StringOrNumberOrBoolOrNull"]
        if v[0] == "mk":
            return [(st, okv(("adt", p[0], 0, (v,))))]
        return [(st, okv(TOP))]
    d = {"parse_delimited_values": split, "parse_primitive_token": token}
    for n in PASS:
        d[n] = lambda ex, st, args: [(st, okv(M.UNIT))]
    return d


def header(prog, fields, inline, key=NONEV):
    h = adt(prog, "ArrayHeaderInfo", key=key, key_was_quoted=mk("hq"), length=mk("hlen"), delimiter=mk("hdelim"), fields=fields)
    return adt(prog, "ArrayHeaderParseResult", header=h, inline_values=inline)


def opts(prog, strict):
    return adt(prog, "DecoderContext", indent=("int", 2), strict=("int", int(strict)))


def inline(C, O):
    """decode_array_from_header_sync on an inline array"""
    b = names(C, ["decode_array_from_header_sync"])
    order = {"StartArray": 0}

    def step(q, w):
        n = w[0]
        if n == "StartArray":
            return "open" if q == "start" and w[1] == mk("hlen") else "?" if w[1] == TOP else None
        if n == "Primitive":
            p = part(w[1], "cell")
            if p is None:
                return "?"
            return {("open", "B"): "open", ("open", "F"): "the element", ("the element", "A"): "the element"}.get((q, p))
        if n == "EndArray":
            return {"the element": "end"}.get(q)
        return None
    return run(C, O, b, step, {"end"}, "inline array", header(C.prog, NONEV, somev(mk("text"))), None)


def rows(C, O):
    b = names(C, ["decode_array_from_header_sync"])
    fields = triple(lambda p: adt(C.prog, "FieldName", name=mk("name:" + p), was_quoted=mk("quoted:" + p)))

    def step(q, w):
        n = w[0]
        if n == "StartArray":
            return "open" if q == "start" and w[1] == mk("hlen") else "?" if w[1] == TOP else None
        if n == "StartObject":
            return "row" if q in ("open", "done") else None
        if n == "Key":
            p, u = part(w[1], "name"), part(w[2], "quoted")
            if p is None:
                return "?"
            if u is not None and u != p:
                return None
            return {("row", "B"): "B", ("row", "F"): "F", ("full", "A"): "A"}.get((q, p))
        if n == "Primitive":
            p = part(w[1], "cell")
            if p is None:
                return "?"
            return {("B", "B"): "row", ("F", "F"): "full", ("A", "A"): "full"}.get((q, p))
        if n == "EndObject":
            return {"full": "done"}.get(q)
        if n == "EndArray":
            return {"open": "end", "done": "end"}.get(q)
        return None
    line = adt(C.prog, "ParsedLine", content=mk("text"), depth=("int", 1), line_number=("int", 7), indent=("int", 2))
    return run(C, O, b, step, {"end"}, "table", header(C.prog, somev(fields), NONEV), line)


def run(C, O, b, step, final, what, hdr, line):
    cn = [x for x in C.prog.bodies if x.endswith("StreamingLineCursor::new")]
    if not cn:
        raise Gone("StreamingLineCursor::new")
    out = []
    for strict in (True, False):
        bads = []
        W = Watch(C, step, cuts(None, "text", lambda st, r, t: bads.append((st, r, t))))
        ex, st = W.ex, W.st
        ls = ("vec", (("*", line),) if line else ())
        st.cells["cur"] = ex.call_body(C.prog.bodies[cn[0]], [ls, ("vec", ())], st)[0][1]
        if b.argc != 5:
            raise Gone(what)
        W.run(b, [("ref", "ev", ()), hdr, ("ref", "cur", ()), ("int", 0), opts(C.prog, strict)])
        for st, r, t in bads:
            W.note(st, r, t)
        W.ends(final)
        start = lambda t: t.startswith("StartArray")
        rest = lambda t: not start(t)
        W.report(O, {"C20": rest, "C25": rest, "C33": start, **({"C21": rest} if line else {})},
                 "from header to events: %s, %s" % (what, "strict" if strict else "lenient"))
        out.append(W)
    return out


def hooks_header(R, hdr, bad, want_from=None):
    """cut off parse_array_header_line: it is given the text, and its result goes on unchanged"""
    C = R.C
    seen = []

    def parse(ex, st, args):
        a = ex.deref(st, ex.fix(st, args[0]))
        d = ex.deref(st, args[1])
        if d != ("int", 44):
            bad.append((st, None if d == TOP else False, "a header is read with a default delimiter that is not the comma"))
        return [(st, okv(somev(hdr) if hdr is not None else NONEV))]

    def array(ex, st, args):
        h = [x for x in (ex.deref(st, a) for a in args) if x[0] == "adt" and x[1].endswith("ArrayHeaderParseResult")]
        if not h:
            bad.append((st, None, "an array is decoded without a known header"))
        elif h[0] != hdr:
            bad.append((st, None if "top" in repr(h[0]) else False, "an array is decoded with something else than its own header"))
        push(ex, st, args, "array")
        return [(st, okv(M.UNIT))]

    def push(ex, st, args, what):
        cur = ex.load(st, ("ref", "ev", ()))
        if cur[0] == "vec":
            st.cells["ev"] = ("vec", cur[1] + (("mk", what),))
    return {"parse_array_header_line": parse, "decode_array_from_header_sync": array}


def caller(C, O, text, fn, hdr, events, what):
    """one function that reads a header and passes it on: the events before, the call, the events after"""
    from .roundtrip import Run, WHOLE, evs
    b = names(C, [fn])
    cn = [x for x in C.prog.bodies if x.endswith("StreamingLineCursor::new")]
    if not cn:
        raise Gone("StreamingLineCursor::new")
    for tp, notes in C.tapes(text):
        R = Run(C, tp, {}, set(G["drec"]))
        R.C = C
        bad = []
        ex, st = R.ex, R.st
        for n, h in hooks_header(R, hdr, bad).items():
            k = [x for x in C.prog.bodies if x.split("::")[-1] == n]
            if len(k) != 1:
                raise Gone(n)
            if k[0] != b.id:
                ex.hooks[k[0]] = h
        line = adt(C.prog, "ParsedLine", content=WHOLE, depth=("int", 0), line_number=("int", 1), indent=("int", 0))
        st.cells["ev"] = ("vec", ())
        st.cells["cur"] = ex.call_body(C.prog.bodies[cn[0]], [("vec", (line,)), ("vec", ())], st)[0][1]
        if fn == "decode_key_value_sync":
            args = [("ref", "ev", ()), WHOLE, ("ref", "cur", ()), ("int", 0), opts(C.prog, False)]
        elif fn == "decode_list_item_sync":
            args = [("ref", "ev", ()), ("ref", "cur", ()), ("int", 0), opts(C.prog, False)]
        else:
            args = None
        if args is None or len(args) != b.argc:
            raise Gone(fn)
        r = ex.call_body(b, args, st)
        res, txt = True, "%d ways" % len(r)
        if not r:
            res, txt = None, "no way through the function was found"
        for s, v in r:
            e = evs(s)
            got = [x if x[0] in ("mk", "*") else (C.prog.adts[x[1]]["v"][x[2]]["name"],) + tuple(x[3]) if x[0] == "adt" else x for x in e]
            if v[0] == "adt" and v[1] == RES and v[2] == 1 and "~doubt" not in s.cons:
                res, txt = False, "the line is refused"
            elif [x for x in got if x[0] == "*" or TOP in x] or "~doubt" in s.cons:
                res, txt = (None, "events that are not known") if res else (res, txt)
            elif got != events:
                res, txt = False, "the line gives %s instead of %s" % (" ".join(map(show, got)), " ".join(map(show, events)))
            if res is False:
                break
        for s, q, t in bad:
            if q is False and "~doubt" not in s.cons:
                res, txt = False, t
            elif res:
                res, txt = None, t
        for p in ("C21", "C25", "C33"):
            O.add(p, "from line to header: " + what, res, txt, None)


def callers(C, O):
    import sys
    from .. import lang as L
    anyt = ("pc", "rest", L.contains(L.m("\n\r")).comp())
    fields = triple(lambda p: adt(C.prog, "FieldName", name=mk("name:" + p), was_quoted=mk("quoted:" + p)))
    key = somev(mk("hkey"))
    K = ("Key", mk("hkey"), mk("hq"))
    inl = somev(mk("text"))
    for what, fn, text, hdr, ev in (
            ("key and array header", "decode_key_value_sync", (("str", "k[3]: "), anyt), header(C.prog, NONEV, inl, key), [K, mk("array")]),
            ("key and table header", "decode_key_value_sync", (("str", "k[3]: "), anyt), header(C.prog, somev(fields), NONEV, key), [K, mk("array")]),
            ("array as list item", "decode_list_item_sync", (("str", "- [3]: "), anyt), header(C.prog, NONEV, inl), [mk("array")]),
            ("table header as first field of a list item", "decode_list_item_sync", (("str", "- k[3]: "), anyt), header(C.prog, somev(fields), NONEV, key),
             [("StartObject",), K, mk("array"), ("EndObject",)]),
    ):
        try:
            caller(C, O, text, fn, hdr, ev, what)
        except Gone as e:
            O.add("*", "from line to header: " + what, None, "%s is not there" % e, None)
        except (Unsupported, RecursionError, NeedScan, Opaque) as e:
            O.add("*", "from line to header: " + what, None, "not analysed: %s" % e, None)
