"""What the encoder writes, the decoder reads back: the line level of the format.

The encoder's functions are run on symbolic values; every text they append as a line comes out as a
composition of pieces (literals, the regular language of an unquoted text with the name of the value it came
from, escaped text, numbers, delimiter separated lists).  Each such composition becomes an automaton of all the
lines it stands for, and the decoder's functions are run on that automaton: positions in the text are symbolic,
so one run covers texts of every length.  What comes out has to be the pieces that went in.
"""
import itertools
import multiprocessing
import re
import os
import sys
import time

from .. import extract, texec, lang as L
from ..prog import Program
from ..report import Check
from ..tape import START, END
from ..texec import Exec, Unsupported
from . import text as T

TOP = texec.TOP
DELIMS = {",": "comma", "\t": "tab", "|": "pipe"}
WHOLE = ("s", START, END)
G = {}


class Gone(Exception):
    """a function the rule is anchored in is not there any more"""


def show1(x):
    k = x[0]
    if k == "str":
        return repr(x[1])
    if k == "pc":
        return "<list>" if x[1] == "~list" else "<text %s>" % x[1]
    if k == "homc":
        return "<escaped %s>" % x[1]
    if k == "fmt":
        return "<number %s>" % x[1][1]
    if k == "rep":
        return "%r*" % x[1]
    if k == "star":
        return "(%s ...)*" % show1(x[1])
    return "<%s>" % k


def show(items):
    return " ".join(show1(x) for x in items)


def names_of(items):
    o = []
    for x in items:
        n = x[1] if x[0] in ("pc", "homc") else x[1][1] if x[0] == "fmt" and len(x[1]) > 1 else None
        if isinstance(n, str):
            o.append(n)
    return o


def canon_key(items, facts):
    """shapes that differ only in how an argument is called are one shape"""
    m = {}
    s = repr(tuple((x[0], x[1] if x[0] == "str" else (x[1][0],) + x[1][2:] if x[0] == "fmt" and x[1][0] == "numic" else len(x[-1].tr) if isinstance(x[-1], L.Dfa) else None) for x in items))
    vals = value_of(items, facts, 0)
    return s, vals[0] if vals else None


def value_of(items, facts, frm):
    """the primitive the rest of the line stands for, by the facts under which it was written"""
    out = set()
    pcs = set(names_of(items[frm:]))
    for k, v in facts.items():
        if not k.startswith("~v:"):
            continue
        p = k[3:]
        if v == 1 and "#%s.1.0" % p in facts:
            z = facts["#%s.1.0" % p]
            if "nan" in z or "!fin" in z:
                out.add(("null",))
            elif "z" in z:
                out.add(("zero",))
            else:
                out.add(("num", p + ".1.0"))
        elif v == 2 and isinstance(facts.get(p + ".2.0"), (bool, int)):
            out.add(("bool", bool(facts[p + ".2.0"])))
        elif v == 3:
            out.add(("null",))
        elif v == 0 and p + ".0.0" in pcs:
            out.add(("text", p + ".0.0"))
    return sorted(out) if len(out) == 1 else None


class Shape:
    __slots__ = ("kind", "items", "facts", "where", "delim")

    def __init__(self, kind, items, facts, where, delim):
        self.kind, self.items, self.facts, self.where, self.delim = kind, items, facts, where, delim


def key_part(items):
    """(index after the key, name or '' or None)"""
    if items and items[0][0] == "pc" and items[0][1] != "~list":
        return 1, items[0][1]
    if len(items) > 2 and items[0] == ("str", '"') and items[1][0] == "homc" and items[2][0] == "str" and items[2][1].startswith('"'):
        return 3, items[1][1]
    if items and items[0][0] == "str" and items[0][1].startswith('""'):
        return 1, ""
    if len(items) > 1 and items[0] == ("str", '"') and items[1][0] == "str" and items[1][1].startswith('"'):
        return 2, ""
    return None, None


def shapes(C, delim):
    """every shape of line, without its indentation"""
    e = G["entry"]
    out, stars, nl = {}, {}, []
    for v, (w, cons) in C.lines(e, delim).items():
        v = C.named(v, itertools.count())
        full = C.ways(v)
        for its, f in full:
            for x in its:
                if x[0] == "star":
                    stars.setdefault(repr((showstar(C, x), )), (x, f, w))
        for its, f in C.coarse(full):
            if its and its[0][0] == "str":
                its = (("str", its[0][1].lstrip(" ")),) + its[1:]
            while its and its[0] in (("rep", " "), ("str", " "), ("str", "")):
                its = its[1:]
            if its and its[0][0] == "str" and its[0][1].startswith(" "):
                its = (("str", its[0][1].lstrip(" ")),) + its[1:]
            if not its:
                continue
            lits = [x[1] for x in its if x[0] == "str"]
            h = its[0][1] if its[0][0] == "str" else ""
            if h == "-" or h.startswith("- "):
                kind = "item"
            elif any(":" in x for x in lits):
                kind = "header" if any("[" in x for x in lits) else "kv"
            elif any(x[1] == "~list" for x in its if x[0] == "pc"):
                continue
            else:
                kind = "root"
            out.setdefault((kind,) + canon_key(its, f), Shape(kind, its, f, w, delim))
    return out, stars


def showstar(C, x):
    return tuple(sorted(repr(tuple((y[0], y[1] if y[0] == "str" else None, len(y[-1].tr) if isinstance(y[-1], L.Dfa) else None) for y in its))
                        for its, f in C.ways(x[1]))), x[2]


def recursive(C, root):
    return C.recursive(root)[0]


class Run:
    """one decoder function on one automaton of lines"""

    def __init__(self, C, tp, facts, opaque, limit=30000):
        self.ex = Exec(C.prog, tp, shared=C.sh, limit=limit, opaque=opaque)
        self.ex.blur = ("~list",)
        self.st = self.ex.start_state()
        self.tp = tp
        for k, x in facts.items():
            if k.startswith("#"):
                self.st.cons[k] = x

    def piece(self, s, v):
        """name of the source text a value is exactly, '' for the empty text, None when unknown, ('wrong',…) otherwise"""
        if v[0] == "str":
            return "" if v[1] == "" else ("wrong", "the fixed text %r" % v[1])
        if v[0] == "xf":
            return ("wrong", "the text changed by `%s`" % v[1])
        if v[0] == "src" and v[1].startswith("own:"):
            return self.tp.pieces[int(v[1][4:])][5]
        if v[0] == "s":
            o = self.ex.exact(s, v)
            if o is not None:
                pc = self.tp.pieces[o]
                if pc[0] == "lang":
                    return pc[5]
                return ("wrong", "the text still escaped" if pc[0] == "hom" else "a piece of punctuation")
            return ("wrong", "a slice of the line that is not the text written")
        return None


def prim_problem(R, s, v, want, notes):
    """None: right; False: undecided; text: wrong"""
    if v[0] != "adt":
        return False
    names = [x["name"] for x in R.ex.prog.adts[v[1]]["v"]]
    vn = names[v[2]]
    kind = {"text": "String", "num": "Number", "zero": "Number", "bool": "Bool", "null": "Null"}[want[0]]
    if kind not in names:
        return False
    if vn != kind:
        if vn == "Primitive" and v[3]:
            return prim_problem(R, s, v[3][0], want, notes)
        return "a %s is read back as %s" % (kind.lower(), vn)
    if want[0] == "null":
        return None
    x = v[3][0]
    if want[0] == "bool":
        return None if x == ("int", int(want[1])) else False if x == TOP else "%s is read back as %s" % (want[1], x)
    if want[0] == "zero":
        return None if x[0] == "float" and x[1] == 0.0 or x[0] == "int" and x[1] == 0 else False if x == TOP else "0 is read back as %s" % (x,)
    if want[0] == "num" and x[0] in ("nf", "numi"):
        f = s.cons.get("#" + x[1 if x[0] == "numi" else 2], frozenset())
        return "a number is read back through `%s`, which does not keep every number" % (x[1] if x[0] == "nf" else "as " + x[2]) if not f else False
    if want[0] == "num" and x[0] == "xnum":
        return "a number is read back rounded to %s" % x[1]
    if want[0] == "num":
        return None if x == ("numof", want[1]) else False if x == TOP else "a number is read back as something else (%s)" % (x[0],)
    p = R.piece(s, x)
    if p is None:
        return False
    if isinstance(p, tuple):
        return "a string is read back as %s" % p[1]
    if p == want[1] or p == "" and notes.get(want[1]) == "empty":
        return None
    return "a string is read back as the text of %s" % (p or "the empty string")


def text_problem(R, s, v, want, notes):
    p = R.piece(s, v)
    if p is None:
        return False
    if isinstance(p, tuple):
        return p[1]
    if p == want or p == "" and notes.get(want) == "empty":
        return None
    return "the text of %s" % (p or "the empty string")


def field(prog, v, name):
    for i, f in enumerate(prog.adts[v[1]]["v"][v[2]]["f"]):
        if f[0] == name:
            return v[3][i]
    return None


def unopt(v):
    """(known, present, payload) of an Option value"""
    if v[0] == "adt" and v[1].endswith("Option"):
        return True, v[2] == 1, v[3][0] if v[2] == 1 else None
    return False, None, None


class Obl:
    def __init__(self):
        self.l = []

    def add(self, prop, key, res, text, where):
        """res True held / None undecided / False violated"""
        self.l.append((prop, key, res, text, where))


def is_ok(v):
    return v[0] == "adt" and v[1].endswith("Result") and v[2] == 0


def is_err(v):
    return v[0] == "adt" and v[1].endswith("Result") and v[2] == 1


def outcomes(O, prop, key, R, r, where, judge):
    """judge(state, value) -> None right / False undecided / text wrong; a refusal counts as wrong"""
    und, good = 0, 0
    for s, v in r:
        doubt = bool(s.cons.get("~doubt"))
        if is_err(v):
            j = "the decoder refuses the line"
        elif is_ok(v):
            j = judge(s, v[3][0])
        elif v == TOP:
            j = False
        else:
            j = judge(s, v)
        if j is None:
            good += 1
        elif j is False or doubt:
            if not (is_err(v) and doubt):
                und += 1
        else:
            O.add(prop, key, False, j, where)
            return
    if und or not good:
        O.add(prop, key, None, "not decided (%d of %d ways through the decoder)" % (und or len(r), len(r)), where)
    else:
        O.add(prop, key, True, "%d ways through the decoder" % good, where)


# ---------------------------------------------------------------------- the obligations
def names(C, want):
    for n in want:
        try:
            return C.body(n)
        except Exception:
            continue
    raise Gone(want[0])


def evs(s):
    v = s.cells.get("ev", ("vec", ()))
    return list(v[1]) if v[0] == "vec" else [("*", "any")]


def ev_is(prog, e, name):
    return e[0] == "adt" and prog.adts[e[1]]["v"][e[2]]["name"] == name


def run_kv(C, sh, O):
    b = names(C, ["decode_key_value_sync"])
    i, kn = key_part(sh.items)
    want = value_of(sh.items, sh.facts, i or 0) if i is not None else None
    after = "".join(x[1] for x in sh.items[i:] if x[0] == "str") if i is not None else ""
    for tp, notes in C.tapes(sh.items):
        R = Run(C, tp, sh.facts, G["drec"])
        ex, st = R.ex, R.st
        st.cells["ev"] = ("vec", ())
        st.cells["cur"] = TOP
        r = ex.call_body(b, [("ref", "ev", ()), WHOLE, ("ref", "cur", ()), ("symint", "d"), ex.symval("opt", b.locals[b.argc])], st)
        tag = "%s line %s%s" % (DELIMS[sh.delim], show(sh.items), "" if not notes else " with %s empty" % ",".join(sorted(notes)))

        def key(s, v):
            e = evs(s)
            if not e or e[0][0] == "*":
                return False
            if not ev_is(C.prog, e[0], "Key"):
                return "the line is not read as a key and a value"
            j = text_problem(R, s, e[0][3][0], kn, notes)
            return "the key is read back as " + j if j else j

        def val(s, v):
            e = evs(s)
            if len(e) < 2 or e[1][0] == "*":
                return False
            if not ev_is(C.prog, e[1], "Primitive"):
                return "the value is not read as a primitive"
            return prim_problem(R, s, e[1][3][0], want[0], notes)
        if kn is not None:
            outcomes(O, "C21", "key: " + tag, R, r, sh.where, key)
        if want:
            outcomes(O, "C20", "value: " + tag, R, r, sh.where, val)


def run_item(C, sh, O):
    b = names(C, ["decode_list_item_sync"])
    plp = [p for p in C.prog.adts if p.endswith("::ParsedLine")]
    cn = [x for x in C.prog.bodies if x.endswith("StreamingLineCursor::new")]
    if not plp or not cn:
        raise Gone("ParsedLine / StreamingLineCursor::new")
    rest = sh.items
    rest = (("str", rest[0][1][2:]),) + rest[1:] if rest[0][1].startswith("- ") else ()
    while rest and rest[0] == ("str", ""):
        rest = rest[1:]
    lits = [x[1] for x in rest if x[0] == "str"]
    keyed = any(":" in x for x in lits)
    want = value_of(sh.items, sh.facts, 0) if not keyed else None
    for tp, notes in C.tapes(sh.items):
        R = Run(C, tp, sh.facts, G["drec"], 12000 if keyed and key_part(rest)[1] is None else 30000)
        ex, st = R.ex, R.st
        fs = [WHOLE if f[0] == "content" else ex.symval("L." + f[0], f[1]) if f[0] != "raw" else TOP for f in C.prog.adts[plp[0]]["v"][0]["f"]]
        line = ("adt", plp[0], 0, tuple(fs))
        st.cells["ev"] = ("vec", ())
        st.cells["cur"] = ex.call_body(C.prog.bodies[cn[0]], [("vec", (line, ("*", "any"))), ("vec", (("*", "any"),))], st)[0][1]
        calls = []
        orig = ex.unknown_call

        def unk(s, path, args):
            if path in G["drec"]:
                for a in args:
                    a = ex.deref(s, ex.fix(s, a))
                    if a[0] == "s":
                        calls.append((path, s.toks[a[1]][0] if a[1] in s.toks else None, a[2] == END))
            return orig(s, path, args)
        ex.unknown_call = unk
        r = ex.call_body(b, [("ref", "ev", ()), ("ref", "cur", ()), ("symint", "d"), ex.symval("opt", b.locals[b.argc])], st)
        tag = "%s line %s%s" % (DELIMS[sh.delim], show(sh.items), "" if not notes else " with %s empty" % ",".join(sorted(notes)))

        def val(s, v):
            e = evs(s)
            if os.environ.get("DBG"): print("   ", v, e, {k: x for k, x in s.cons.items() if not isinstance(x,L.Dfa)}, [x for x in sorted(C.sh["notes"])])
            if not e or e[0][0] == "*":
                return False
            if not ev_is(C.prog, e[0], "Primitive"):
                return "the list item is not read as a primitive"
            return prim_problem(R, s, e[0][3][0], want[0], notes)

        def keyed_line(s, v):
            e = evs(s)
            if e and ev_is(C.prog, e[0], "Primitive"):
                return "a list item that holds a key or a header is read as a primitive"
            if not e or e[0][0] == "*":
                return False if not rest or rest[0][0] != "str" or not rest[0][1].startswith("[") else None
            if not ev_is(C.prog, e[0], "StartObject"):
                return False
            # what is read as `key: value` has to be everything behind the hyphen
            for path, n, to_end in calls:
                if n is not None and to_end and not tp.nodes[n].cyc and prefix_text(tp, n) == "- ":
                    continue
                return False
            return None if calls else False

        def empty(s, v):
            e = evs(s)
            if [x for x in e if x[0] == "*"]:
                return False
            if [C.prog.adts[x[1]]["v"][x[2]]["name"] for x in e] != ["StartObject", "EndObject"]:
                return "an empty object in a list is read as something else"
        if want:
            outcomes(O, "C20", "list item: " + tag, R, r, sh.where, val)
        elif keyed:
            outcomes(O, "C21", "list item: " + tag, R, r, sh.where, keyed_line)
        elif not rest:
            outcomes(O, "C20", "list item: " + tag, R, r, sh.where, empty)


def prefix_text(tp, n):
    """the one text that leads from the start of the line to a node, if there is only one"""
    back = {}
    for i, x in enumerate(tp.nodes):
        for m, t, w in x.tr:
            back.setdefault(t, []).append((i, m))
    s, seen = "", set()
    while n != 0:
        if n in seen or len(back.get(n, ())) != 1:
            return None
        seen.add(n)
        n, m = back[n][0]
        if not L.single(m) or L.chr_of(m) is None:
            return None
        s = L.chr_of(m) + s
    return s


def run_header(C, sh, O):
    b = names(C, ["parse_array_header_line"])
    i, kn = key_part(sh.items)
    rest = sh.items[i:] if i is not None else sh.items
    nums = [x[1][1] for x in sh.items if x[0] == "fmt" and x[1][0] == "symint"]
    lst = [x for x in sh.items if x[0] == "pc" and x[1] == "~list"]
    txt = "".join(x[1] if x[0] == "str" else "\0" for x in rest)
    fsp = "{" in txt
    marks = {"\t": "tab", "|": "pipe"}
    one = None
    if fsp and not lst and kn is None:
        k = [j for j, x in enumerate(sh.items) if x[0] == "str" and "{" in x[1]]
        _, one = key_part(sh.items[k[0] + 1:]) if k else (None, None)
        if len([x for x in sh.items if x[0] in ("pc", "homc")]) != 1:
            one = None
    for tp, notes in C.tapes(sh.items):
        R = Run(C, tp, sh.facts, G["drec"])
        ex, st = R.ex, R.st
        r = ex.call_body(b, [WHOLE, ("int", ord(","))], st)
        tag = "%s line %s%s" % (DELIMS[sh.delim], show(sh.items), "" if not notes else " with %s empty" % ",".join(sorted(notes)))

        def info(f):
            def g(s, v):
                k, some, p = unopt(v)
                if not k:
                    return False
                if not some:
                    return "an array header is not recognised"
                if p[0] != "adt" or field(C.prog, p, "header") is None:
                    return False
                h = field(C.prog, p, "header")
                return f(s, h, p) if h[0] == "adt" else False
            return g

        def key(s, h, p):
            k, some, x = unopt(field(C.prog, h, "key") or TOP)
            if not k:
                return False
            if not some:
                return "the key of an array header is lost" if kn is not None else None
            if kn is None:
                return "a header without a key is read with one"
            j = text_problem(R, s, x, kn, notes)
            return "the key of an array header is read back as " + j if j else j

        def length(s, h, p):
            x = field(C.prog, h, "length")
            if x is None or x == TOP:
                return False
            if nums:
                return None if x == ("symint", nums[0]) else "the declared length is not read back as written"
            lit = [m_ for y in sh.items if y[0] == "str" for m_ in re.findall(r"\[(\d+)[]|\t]", y[1])]
            if lit and lit[-1] != "0":
                return None if x == ("int", int(lit[-1])) else False
            return None if x == ("int", 0) else "the declared length 0 is not read back as written" if x[0] == "int" else False

        def delim(s, h, p):
            x = field(C.prog, h, "delimiter")
            if x is None or x[0] != "int":
                return False
            return None if x[1] == ord(sh.delim) else "an array written with the %s delimiter is read with %r" % (DELIMS[sh.delim], chr(x[1]))

        def fields(s, h, p):
            k, some, x = unopt(field(C.prog, h, "fields") or TOP)
            if not k:
                return False
            if some != fsp:
                return "the field list of a header is lost" if fsp else "a header without a field list is read with one"
            if one is None:
                return None
            if x[0] != "vec" or len(x[1]) != 1 or x[1][0][0] != "adt":
                return False if x[0] != "vec" or any(y[0] == "*" for y in x[1]) else "a header with one field is read with %d" % len(x[1])
            j = text_problem(R, s, field(C.prog, x[1][0], "name") or TOP, one, notes)
            return "a field name is read back as " + j if j else j

        def inline(s, h, p):
            x = field(C.prog, p, "inline_values")
            if x is None:
                return False
            k, some, y = unopt(x)
            if not k:
                return False
            if lst and not fsp:
                if not some:
                    return "the values written behind a header are not found"
                if y[0] != "s":
                    return False
                o = ex.exact(s, y)
                if o is not None and tp.pieces[o][5:] == ("~list",):
                    return None
                return "the values written behind a header are not found whole"
            return None
        outcomes(O, "C21", "header key: " + tag, R, r, sh.where, info(key))
        outcomes(O, "C33", "header length: " + tag, R, r, sh.where, info(length))
        if nums or not fsp:
            outcomes(O, "C25", "header delimiter: " + tag, R, r, sh.where, info(delim)) if nums else None
        if fsp:
            outcomes(O, "C21", "header fields: " + tag, R, r, sh.where, info(fields))
        elif lst:
            outcomes(O, "C25", "header values: " + tag, R, r, sh.where, info(inline))


def run_root(C, sh, O):
    b = names(C, ["parse_primitive_token"])
    want = value_of(sh.items, sh.facts, 0)
    if not want:
        return
    for tp, notes in C.tapes(sh.items):
        R = Run(C, tp, sh.facts, ())
        r = R.ex.call_body(b, [WHOLE], R.st)
        tag = "%s token %s%s" % (DELIMS[sh.delim], show(sh.items), "" if not notes else " with %s empty" % ",".join(sorted(notes)))
        outcomes(O, "C20", "value: " + tag, R, r, sh.where, lambda s, v: prim_problem(R, s, v, want[0], notes))


def run_star(C, star, facts, where, delim, O, part):
    b = names(C, ["parse_delimited_values"])
    sep = star[2][1] if star[2][0] == "str" else None
    if sep != delim:
        O.add("C25", "separator: %s list %s" % (DELIMS[delim], show1(star[1])), False, "list elements are separated by %r while the delimiter is %r" % (sep, delim), where)
        return
    tps = C.tapes((star,))
    for k, (tp, notes) in enumerate(tps):
        if k % part[1] != part[0]:
            continue
        notes = dict(notes)
        f = notes.pop("~focus", {})
        R = Run(C, tp, dict(facts, **{a: c for a, c in f.items() if a.startswith("#")}), (), 60000)
        ex = R.ex
        r = ex.call_body(b, [WHOLE, ("int", ord(delim))], R.st)
        fs, fe, rng = tp.focus
        tag = "%s list: one element %s" % (DELIMS[delim], " ".join(map(str, [tp.pieces[i][0] + ":" + str(tp.pieces[i][1] if tp.pieces[i][0] == "lit" else tp.pieces[i][5]) for i in rng])) )
        tag += ", others before" if fs != 0 else ""
        tag += ", others after" if not tp.nodes[fe].acc else ""
        tag += " (%s empty)" % ",".join(sorted(notes)) if notes else ""

        ps = [tp.pieces[i] for i in rng]
        lit = "".join(p[1] for p in ps) if all(p[0] == "lit" for p in ps) else None

        def split(s, v):
            if v[0] != "vec":
                return False
            hit = 0
            for x in v[1]:
                one = x[0] != "*"
                y = x if one else x[1]
                if y == "any" or y == TOP:
                    return False
                if y in ("A", "B"):
                    if (y == "A") != (hit > 0):
                        return "the elements of a list are read in another order"
                    continue
                if y[0] == "str":
                    if y[1] != lit:
                        return "an element of a list is not read back as it was written"
                    full, na = True, fs
                elif y[0] != "s":
                    return False
                else:
                    a, e = y[1], y[2]
                    na = s.toks[a][0] if a in s.toks else None
                    ne = "END" if e == END or e in s.toks and s.toks[e][1] == "END" else s.toks[e][0] if e in s.toks else None
                    full = ne == fe or ne == "END" and tp.nodes[fe].acc
                if na == fs and full:
                    hit += 1
                    if not one:
                        return False
                    continue
                reg = region(tp, na, ne)
                if reg is None:
                    return False
                if reg & set(rng):
                    return "an element of a list is not read back as it was written"
            return None if hit == 1 else "an element of a list is lost" if hit == 0 else "an element of a list is read twice"
        outcomes(O, "C25", "split: " + tag, R, r, where, split)


def region(tp, na, ne):
    """pieces a slice between two nodes can touch"""
    if na is None or ne is None:
        return None
    fwd = {na} | set(tp.reach[na])
    o = set()
    for i in fwd:
        for m, t, w in tp.nodes[i].tr:
            if ne == "END" or t == ne or ne in tp.reach[t]:
                o.add(w)
    return o


# ---------------------------------------------------------------------- driver
def prepare(delim):
    C = T.Ctx(G["prog"])
    sh, st = shapes(C, delim)
    for x, f, w in st.values():
        C.tapes((x,))
    C.sh["sumlimit"] = int(os.environ.get("SUML", "3000"))
    return C, sh, st


_cache = {}


def work(task):
    delim, what, idx = task
    t0 = time.time()
    sys.setrecursionlimit(20000)
    O = Obl()
    name = str(idx)
    try:
        if what == "layout":
            from . import layout
            C = T.Ctx(G["prog"])
            C.sh["delim"], C.sh["lines"] = delim, {}
            layout.lengths(layout.Sc(C, O))
            return task, O.l, time.time() - t0
        if delim not in _cache:
            _cache[delim] = prepare(delim)
        C, sh, stars = _cache[delim]
        if what == "list":
            o = []
            for k, s in enumerate(sorted(sh)):
                o.append((delim, "shape", s, cost(s)))
            for s in sorted(stars):
                x, f, w = stars[s]
                n = len(C.tapes((x,)))
                for k in range(n):
                    o.append((delim, "star", (s, k, n), 5))
            return task, ("tasks", o), time.time() - t0
        if what == "plumb":
            from . import plumb
            getattr(plumb, idx)(C, O)
            return task, O.l, time.time() - t0
        if what == "lines":
            return task, newlines(C, delim), time.time() - t0
        if what == "star":
            x, f, w = stars[idx[0]]
            for its, f2 in C.ways(x[1]):
                casts(its, O, "%s list element %s" % (DELIMS[delim], show(its)))
            run_star(C, x, f, w, delim, O, (idx[1], idx[2]))
            name = "list %s #%d" % (show1(x), idx[1])
        else:
            s = sh[idx]
            name = s.kind + " " + show(s.items)
            casts(s.items, O, "%s line %s" % (DELIMS[delim], show(s.items)))
            {"kv": run_kv, "item": run_item, "header": run_header, "root": run_root}[s.kind](C, s, O)
    except Gone as e:
        O.add("*", "%s: anchor" % (what if what == "plumb" else "") + str(idx), None, "the decoder function %s is not there" % e, None)
    except (Unsupported, RecursionError, texec.NeedScan, texec.Opaque) as e:
        O.add("*", "%s %s" % (DELIMS[delim], name), None, "not analysed: %s" % (e,), None)
    except Exception as e:      # a construct the analysis does not know: no verdict
        if os.environ.get("DBG"):
            raise
        O.add("*", "%s %s" % (DELIMS[delim], name), None, "not analysed: internal %r" % (e,), None)
    return task, O.l, time.time() - t0


def casts(items, O, what):
    for x in items:
        if x[0] == "fmt" and x[1][0] == "numic" and not x[1][3]:
            O.add("C20", "written: " + what, None if x[1][4] else False,
                  "a number is written through a cast to %s that does not keep every number it is applied to" % x[1][2], None)


def cost(k):
    r = repr(k)
    if k[0] == "item":
        return 60 if "'[" in r else 25 if "': '" not in r else 1
    if k[0] == "header":
        return 8
    return 4 if k[0] == "kv" else 2


def newlines(C, delim):
    """no line of the encoder holds a raw line break: list of (key, result, text, where)"""
    NL = L.contains(L.m("\n\r"))
    bad = L.m("\n\r")
    out = {}
    for v, (w, cons) in C.lines(G["entry"], delim).items():
        try:
            ws = C.ways(C.named(v, itertools.count()))
        except Unsupported as e:
            out[("line of %s" % w[0], None, "not analysed: %s" % e, w)] = 1
            continue
        for its, f in ws:
            r, why = True, ""
            todo = list(its)
            while todo:
                x = todo.pop()
                if x[0] == "str" and ("\n" in x[1] or "\r" in x[1]):
                    r, why = False, "the line holds the literal %r" % x[1]
                elif x[0] == "rep" and x[1] in "\r\n":
                    r, why = False, "the line is padded with line breaks"
                elif x[0] == "pc":
                    d = x[2] & NL
                    if not d.empty():
                        r, why = False, "a line break inside %s is written raw (for example in the text %r)" % (x[1], d.witness())
                elif x[0] == "homc":
                    for p, word in x[2]:
                        for u in word:
                            if (p if u == ("copy",) else u) & bad and p & (bad if u == ("copy",) else -1):
                                r, why = False, "escaping %s leaves a line break in" % x[1]
                elif x[0] == "star":
                    todo += [x[2]] if x[2][0] == "str" else []
                    for its2, f2 in C.ways(x[1]):
                        todo += its2
                elif x[0] not in ("str", "fmt", "rep"):
                    r, why = (None, "a piece of text of kind %s" % x[0]) if r else (r, why)
                if r is False:
                    break
            out[("line of %s: %s" % (w[0], show(its)), r, why, w)] = 1
    return list(out)


# ---------------------------------------------------------------------- the checks
PROPS = {
    "C20": ("kv", "item", "root"),
    "C21": ("kv", "item", "header"),
    "C25": ("header", "star"),
    "C33": ("header",),
}


def setup():
    sys.setrecursionlimit(20000)
    prog = Program(extract.extract("all")["lib"])
    G["prog"] = prog
    G["entry"] = ([b for b in prog.bodies if b.endswith("::encode_json_value")] + [None])[0]
    root = ([b for b in prog.bodies if b.endswith("::decode_stream_sync")] + [None])[0]
    if G["entry"] is None or root is None:
        return prog, "encode_json_value / decode_stream_sync"
    G["drec"] = T.Ctx(prog).recursive(root)[0]
    return prog, None


def collect(pid):
    """run all obligations; list of (prop, key, result, text, where), seconds"""
    out = []
    if pid == "C32":
        with multiprocessing.Pool(3) as pool:
            for (d, _, _), r, dt in pool.imap_unordered(work, [(d, "lines", None) for d in DELIMS]):
                out += [("C32", "%s %s" % (DELIMS[d], x[0]), x[1], x[2], x[3]) if len(x) == 4 else x for x in r]
        return out
    kinds = PROPS[pid]
    with multiprocessing.Pool(min(8, os.cpu_count() or 4)) as pool:
        tasks = []
        for t, r, dt in pool.imap_unordered(work, [(d, "list", None) for d in DELIMS]):
            if r and r[0] == "tasks":
                tasks += [x for x in r[1] if (x[1] == "star" and "star" in kinds) or x[1] == "shape" and x[2][0] in kinds]
            else:
                out += r
        tasks += [(",", "plumb", x, 50) for x in ("inline", "rows", "callers") if pid in ("C20", "C21", "C25", "C33")]
        if pid == "C33":
            tasks.append((",", "layout", "lengths", 50))
        tasks.sort(key=lambda x: (-x[3], repr(x)))
        for t, r, dt in pool.imap_unordered(work, [x[:3] for x in tasks], 1):
            if os.environ.get("DBGT") and dt > 3:
                print("  %.1f" % dt, t[0], str(t[2])[:100])
            out += r
    return out


RULE = {
    "C20": "a string, number, boolean or null written on a line by the encoder is read back from that line by the decoder as the same value",
    "C21": "a key or a field name written on a line by the encoder is read back from that line as the same text",
    "C25": "list elements are separated by the delimiter the header announces, and splitting with it gives back exactly the elements",
    "C33": "the length written in an array header is the length read from it",
    "C32": "no line of the encoder holds a raw line feed or carriage return",
}
EXPL = ("Every text the encoder appends as a line is computed as a composition of pieces (literals, the regular language of a text left unquoted, "
        "escaped text, numbers, delimiter separated lists) by running the encoder's functions on symbolic values; the automaton of all lines of "
        "each composition is then run through the decoder's functions with symbolic positions, so one obligation covers texts of every length.")


def check(pid):
    def f(_id=None):
        ck = Check(pid, RULE[pid], EXPL, ["the models of the standard library's text functions in sa/tmodels.py", "rustc's MIR"])
        prog, gone = setup()
        und = []
        n = 0
        if gone:
            und.append("the functions the rule starts from are not there: " + gone)
            ck.ok("anchor", "undecided: %s" % gone)
        else:
            for prop, key, res, txt, where in collect(pid):
                if prop not in (pid, "*"):
                    continue
                n += 1
                w = "%s" % (where[1] or where[0],) if where else "-"
                if res is None:
                    und.append("%s: %s" % (key, txt))
                elif res:
                    ck.ok(key, txt)
                else:
                    ck.bad(key, w, "%s: %s" % (key, txt))
            if not ck.obl:
                ck.ok("none", "no obligation could be decided")
        ck.cov["obligations_seen"] = n
        ck.cov["undecided"] = sorted(und)
        ck.cov["delimiters"] = sorted(DELIMS.values())
        for x in und[:5]:
            print("  undecided:", x[:300])
        if len(und) > 5:
            print("  … %d undecided in all (see the evidence file)" % len(und))
        return ck.finish()
    return f


values, keys, delimiters, lengths, physical = (check(x) for x in ("C20", "C21", "C25", "C33", "C32"))
