"""Models of the standard-library operations used by text-handling code, for texec.Exec."""
import re

from . import lang as L
from .tape import *
from .texec import Exec, Opaque, UNIV, TRIMMED, TRIMS, TrimSplit, CF, norm_cat
from .models import parse_template

M = {}


def model(*names):
    def deco(f):
        for n in names:
            M[n] = f
        return f
    return deco


def find(path):
    return M.get(path) or M.get(path.rsplit("::", 1)[-1])


def one(s, v):
    return [(s, v)]


def strlike(v):
    return v[0] in ("s", "str", "p", "hom", "cat", "app", "trimp", "pc", "homc", "out")


def cmask(v):
    """letters a pattern matches: int char / array of chars / None"""
    if v[0] == "int":
        return L.letter(chr(v[1])) if v[1] < 128 else None
    if v[0] in ("arr", "vec") and all(x[0] == "int" and x[1] < 128 for x in v[1]):
        r = 0
        for x in v[1]:
            r |= 1 << x[1]
        return r
    if v[0] == "str" and len(v[1]) == 1 and ord(v[1]) < 128:
        return 1 << ord(v[1])
    return None


def before(ex, st, a, b):
    """list of (st, bool): is position a strictly before b"""
    a, b = ex._rt(st, a), ex._rt(st, b)
    o = ex.order(st, a, b)
    if o is not None:
        return [(st, o == "<")]
    if b == END:
        return [(s, not e) for s, u, e in ex.ends(st, a)]
    return [(s, c < 0) for s, c in ex.cmp3(st, mklin({a: 1, b: -1}, 0), ("int", 0))]


def piece_text(ex, st, v):
    """constant text of a slice that is exactly a literal piece"""
    if v[0] == "s" and ex.tape is not None and ex.tape.kind == "S":
        o = ex.exact(st, v)
        if o is not None and ex.tape.pieces[o][0] == "lit":
            return ("str", ex.tape.pieces[o][1])
    return v


def canon(ex, st, v):
    v = ex.fix(st, ex.deref(st, v))
    if v[0] == "pc":
        st.cons.setdefault(v[1], v[2])
        v = ("p", v[1])
    if v[0] == "s" and v[1] == v[2]:
        return ("str", "")
    return piece_text(ex, st, v)


# ---- letters -------------------------------------------------------------------------------------
CLS = {
    "is_ascii_digit": L.DIGIT, "is_ascii_alphabetic": L.ALPHA, "is_ascii_alphanumeric": L.ALPHA | L.DIGIT,
    "is_ascii_whitespace": L.ASCIIWS, "is_whitespace": L.WS, "is_ascii": L.ASCII, "is_ascii_uppercase": L.UPPER,
    "is_ascii_lowercase": L.LOWER, "is_ascii_control": L.CONTROL,
    "is_ascii_punctuation": sum(1 << i for i in range(33, 127)) & ~(L.ALPHA | L.DIGIT),
    "is_ascii_graphic": sum(1 << i for i in range(33, 127)),
    "is_ascii_hexdigit": L.DIGIT | L.rng("a", "f") | L.rng("A", "F"),
}


def cls_model(n, mask):
    def f(ex, st, path, c, args, t):
        v = ex.fix(st, ex.deref(st, args[0]))
        if v[0] == "ch":
            if st.toks[v[1]][1] in (None, "END"):
                return None
            if v[2] == "b" and n == "is_whitespace":
                return None
            return ex.bools(ex.refine(st, v[1], mask))
        if v[0] == "int":
            return one(st, ("int", int(bool(L.letter(chr(v[1])) & mask))))
        if strlike(v):
            r = ex.pred_lang(st, v, L.allin(mask))
            return ex.bools(r) if r else None
        return None
    return f


for _n, _m in CLS.items():
    M[_n] = cls_model(_n, _m)


@model("is_alphabetic", "is_alphanumeric", "is_numeric", "is_control", "is_lowercase", "is_uppercase")
def m_uni(ex, st, path, c, args, t):
    n = path.rsplit("::", 1)[-1]
    v = ex.fix(st, ex.deref(st, args[0]))
    asc = {"is_alphabetic": L.ALPHA, "is_alphanumeric": L.ALPHA | L.DIGIT, "is_numeric": L.DIGIT, "is_control": L.CONTROL,
           "is_lowercase": L.LOWER, "is_uppercase": L.UPPER}[n]
    if v[0] == "int" and n == "is_control" and isinstance(v[1], int):
        return one(st, ("int", int(v[1] < 32 or 127 <= v[1] < 160)))
    if v[0] != "ch" or st.toks[v[1]][1] in (None, "END"):
        return None
    out = []
    for s, isa in ex.refine(st, v[1], L.ASCII):
        if isa:
            out += ex.bools(ex.refine(s, v[1], asc))
        else:
            for s2, w in ex.refine(s, v[1], 1 << L.W):
                if w and n != "is_control":
                    out.append((s2, ("int", 0)))
                else:
                    out += [(s2.copy(), ("int", 0)), (s2.copy(), ("int", 1))]
    return out


@model("char::len_utf8", "len_utf8")
def m_lenutf8(ex, st, path, c, args, t):
    v = ex.fix(st, ex.deref(st, args[0]))
    if v[0] == "int":
        return one(st, ("int", len(chr(v[1]).encode())))
    if v[0] == "ch" and st.toks[v[1]][1] not in (None, "END"):
        a = ex._rt(st, v[1])
        return [(s, mklin({s.adj[a]: 1, a: -1}, 0, 1)) for s in [st] if a in s.adj] or None
    return None


# ---- whole-text predicates ------------------------------------------------------------------------
@model("is_empty")
def m_empty(ex, st, path, c, args, t):
    v = canon(ex, st, args[0])
    if v[0] == "str":
        return one(st, ("int", int(v[1] == "")))
    if v[0] == "mk":
        return one(st, ("int", 0)) if v[1] == "text" else None
    if v[0] in ("arr", "vec"):
        its = v[1]
        if any(x[0] != "*" for x in its):
            return one(st, ("int", 0))
        return one(st, ("int", 1)) if not its else [(st.copy(), ("int", 1)), (st.copy(), ("int", 0))]
    if v[0] == "list":
        return ex.bools(ex.truth(st, ("symb", ("empty:" if len(v) == 3 else "emptyrest:") + v[1])))
    r = ex.pred_lang(st, v, L.literal(""))
    if r is not None:
        return ex.bools(r)
    if v[0] == "s":
        return [(s, ("int", int(not b))) for s, b in before(ex, st, v[1], v[2])]
    if v[0] == "cat":
        if any(x[0] in ("str", "ch", "star") and x != ("str", "") for x in v[1]):
            return one(st, ("int", 0))
    if v == ("out",):
        return None
    return [(st.copy(), ("int", 0)), (st.copy(), ("int", 1))] if strlike(v) else None


@model("len")
def m_len(ex, st, path, c, args, t):
    return ex.length(st, canon(ex, st, args[0]))


@model("contains")
def m_contains(ex, st, path, c, args, t):
    v, p = canon(ex, st, args[0]), ex.deref(st, args[1])
    if v[0] in ("arr", "vec") and p[0] == "ch":
        return None
    if v[0] in ("vec", "arr") and getattr(ex, "freeeq", False) and len(v[1]) < 6:
        cur, out = [st], []
        for x in v[1]:
            nxt = []
            for s in cur:
                for s2, b in ex.equal(s, ex.deref(s, x[1] if x[0] == "*" else x), ex.deref(s, p)):
                    if b is None:
                        return None
                    out.append((s2, ("int", 1))) if b else nxt.append(s2)
                if x[0] == "*":
                    nxt.append(s)
            cur = nxt
        return out + [(s, ("int", 0)) for s in cur]
    if v[0] == "mk" and getattr(ex, "freeeq", False):
        out = []
        x = canon(ex, st, args[1])
        k = v[1] + (":" + x[1] if x[0] in ("p", "pc") else "")
        for b in (True, False):
            if st.cons.get("~in:" + k, b) == b:
                s = st.copy()
                s.cons["~in:" + k] = b
                s.cells["~arg:" + v[1]] = ex.freeze(st, canon(ex, st, args[1]))
                out.append((s, ("int", int(b))))
        return out
    if v[0] == "str" and p[0] in ("str", "int"):
        return one(st, ("int", int((p[1] if p[0] == "str" else chr(p[1])) in v[1])))
    if not strlike(v):
        return None
    d = None
    k = cmask(p)
    if k is not None:
        d = L.contains(k)
    elif p[0] == "str":
        d = L.contains_str(p[1])
    elif p[0] == "fn":
        k = CLS.get(p[1].rsplit("::", 1)[-1])
        d = L.contains(k) if k else None
    elif p[0] == "clo":
        k = closure_mask(ex, p)
        d = L.contains(k) if k is not None else None
    elif p[0] == "int":
        # a non-ASCII letter: neither outcome excluded, except on texts without such letters
        r = ex.pred_lang(st, v, L.contains(L.letter(chr(p[1]))))
        if r is not None:
            return [y for s, b in r for y in ([(s.copy(), ("int", 1)), (s.copy(), ("int", 0))] if b else [(s, ("int", 0))])]
    if d is not None:
        r = ex.pred_lang(st, v, d)
        if r is not None:
            return ex.bools(r)
        if v[0] == "s" and k is not None:
            return [(s, ("int", int(x != NONE))) for s, x in do_find(ex, st, v, k)]
    return None


def closure_mask(ex, f):
    """letters on which a closure over one char answers true (or None)"""
    b = ex.prog.bodies.get(f[1])
    if b is None:
        return None
    P = [L.ALL]
    for _ in range(40):
        try:
            e = ex.sub_exec(P)
            st = e.start_state()
            st.origin = (("start",), "EPS")
            r = 0
            for s, u in e.know(st, START):
                sy = s.toks[u][1]
                if sy == "END":
                    continue
                vals = {v for _, v in e.call_value(s, f, [("ch", u, "c")])}
                if vals == {("int", 1)}:
                    r |= sy[0]
                elif vals != {("int", 0)}:
                    return None
            return r
        except Split as sp:
            from .texec import refineP
            P = refineP(P, sp.mask)
        except (Unsupported, Opaque, NeedScan):
            return None
    return None


def pat_mask(ex, p):
    k = cmask(p)
    if k is None and p[0] == "fn":
        k = CLS.get(p[1].rsplit("::", 1)[-1])
    if k is None and p[0] == "clo":
        k = closure_mask(ex, p)
    return k


@model("starts_with")
def m_starts(ex, st, path, c, args, t):
    v, p = canon(ex, st, args[0]), ex.deref(st, args[1])
    if v[0] == "str" and p[0] in ("str", "int"):
        return one(st, ("int", int(v[1].startswith(p[1] if p[0] == "str" else chr(p[1])))))
    if not strlike(v):
        return None
    k = pat_mask(ex, p)
    d = L.starts(k) if k is not None else L.starts_str(p[1]) if p[0] == "str" else None
    if d is None:
        return None
    r = ex.pred_lang(st, v, d)
    if r is not None:
        return ex.bools(r)
    if v[0] == "s":
        if k is not None:
            return first_in(ex, st, v, k)
        return prefix(ex, st, v, p[1])
    if v[0] == "cat" and v[1][0][0] == "str":
        w = p[1] if p[0] == "str" else chr(p[1])
        if len(v[1][0][1]) >= len(w):
            return one(st, ("int", int(v[1][0][1].startswith(w))))
    return None


def first_in(ex, st, v, k):
    out = []
    for s, b in before(ex, st, v[1], v[2]):
        if not b:
            out.append((s, ("int", 0)))
            continue
        for s2, u in ex.know(s, ex.fix(s, v)[1]):
            out += ex.bools(ex.refine(s2, u, k)) if s2.toks[u][1] != "END" else [(s2, ("int", 0))]
    return out


def prefix(ex, st, v, w):
    cur = [(st, ex.fix(st, v)[1])]
    out = []
    for ch in w:
        nxt = []
        for s, a in cur:
            for s1, b in before(ex, s, a, ex.fix(s, v)[2]):
                if not b:
                    out.append((s1, ("int", 0)))
                    continue
                for s2, u in ex.know(s1, ex._rt(s1, a)):
                    if s2.toks[u][1] == "END":
                        out.append((s2, ("int", 0)))
                        continue
                    for s3, m_ in ex.refine(s2, u, L.letter(ch)):
                        if not m_:
                            out.append((s3, ("int", 0)))
                        else:
                            nxt += ex.succ(s3, u, "c")
        cur = nxt
    return out + [(s, ("int", 1)) for s, _ in cur]


@model("strip_prefix")
def m_strip(ex, st, path, c, args, t):
    v, p = canon(ex, st, args[0]), ex.deref(st, args[1])
    w = p[1] if p[0] == "str" else chr(p[1]) if p[0] == "int" else None
    if w is None:
        return None
    if v[0] == "str":
        return one(st, some(("str", v[1][len(w):])) if v[1].startswith(w) else NONE)
    if v[0] != "s":
        return None
    out = []
    for s, r in prefix(ex, st, v, w):
        if not r[1]:
            out.append((s, NONE))
        else:
            a = ex.fix(s, v)[1]
            cur = [(s, a)]
            for ch in w:
                cur = [y for s1, u in cur for y in ex.succ(s1, u, "c")]
            out += [(s1, some(("s", u, ex.fix(s1, v)[2]))) for s1, u in cur]
    return out


@model("ends_with")
def m_ends(ex, st, path, c, args, t):
    v, p = canon(ex, st, args[0]), ex.deref(st, args[1])
    if v[0] == "str" and p[0] in ("str", "int"):
        return one(st, ("int", int(v[1].endswith(p[1] if p[0] == "str" else chr(p[1])))))
    if v[0] == "cat" and p[0] in ("str", "int") and getattr(ex, "jsonq", False) and v[1] and v[1][-1][0] == "str":
        p, x = p[1] if p[0] == "str" else chr(p[1]), v[1][-1][1]
        if len(x) >= len(p) or not p.endswith(x):
            return one(st, ("int", int(x.endswith(p))))
        return None
    if not strlike(v):
        return None
    k = pat_mask(ex, p)
    d = L.ends(k) if k is not None else L.ends_str(p[1]) if p[0] == "str" else None
    if d is None:
        return None
    r = ex.pred_lang(st, v, d)
    if r is not None:
        return ex.bools(r)
    if v[0] == "s" and k is not None and ex.tape.kind == "S":
        out = []
        for s, b in before(ex, st, v[1], v[2]):
            if not b:
                out.append((s, ("int", 0)))
                continue
            for s2, u in ex.pred(s, ex.fix(s, v)[2]):
                out += ex.bools(ex.refine(s2, u, k))
        return out
    return None


# ---- searching and trimming ------------------------------------------------------------------------
def do_find(ex, st, v, k):
    """position of the first letter of k in slice v: list of (st, Option<offset>)"""
    st = st.copy()
    st.cells["m:f0"] = v
    st.cells["m:f"] = v

    def done(s, val):
        v0 = ex.fix(s, s.cells.pop("m:f0"))
        s.cells.pop("m:f")
        if val is None:
            return (s, NONE)
        return (s, some(mklin({val: 1, v0[1]: -1} if val != v0[1] else {}, 0, 0)))

    def step(s):
        out = []
        cur = ex.fix(s, s.cells["m:f"])
        for s1, b in before(ex, s, cur[1], cur[2]):
            if not b:
                out.append(done(s1, None))
                continue
            c1 = ex.fix(s1, s1.cells["m:f"])
            for s2, u in ex.know(s1, c1[1]):
                if s2.toks[u][1] == "END":
                    out.append(done(s2, None))
                    continue
                for s3, hit in ex.refine(s2, u, k):
                    s3 = s3.copy()
                    if hit:
                        out.append(done(s3, u))
                    else:
                        for s4, n in ex.succ(s3, u, "c"):
                            s4 = s4.copy()
                            s4.cells["m:f"] = ("s", n, ex.fix(s4, s4.cells["m:f"])[2])
                            out.append((s4, None))
        return out
    return ex.loop(st, "find", step)


@model("str::find", "find")
def m_find(ex, st, path, c, args, t):
    v, p = canon(ex, st, args[0]), ex.deref(st, args[1])
    if v[0] == "str" and p[0] in ("str", "int"):
        i = v[1].find(p[1] if p[0] == "str" else chr(p[1]))
        return one(st, NONE if i < 0 else some(("int", len(v[1][:i].encode()))))
    if v[0] == "p":
        raise NeedScan(v[1], "find")
    if v[0] != "s":
        return None
    k = pat_mask(ex, p)
    if k is None:
        return None
    return do_find(ex, st, v, k)


def trim_front(ex, st, v, ws=L.WS):
    st = st.copy()
    st.cells["m:t"] = v

    def step(s):
        out = []
        cur = ex.fix(s, s.cells["m:t"])
        for s1, b in before(ex, s, cur[1], cur[2]):
            if not b:
                out.append((s1, ex.fix(s1, s1.cells.pop("m:t"))))
                continue
            for s2, u in ex.know(s1, ex.fix(s1, s1.cells["m:t"])[1]):
                if s2.toks[u][1] == "END":
                    s2 = s2.copy()
                    out.append((s2, ex.fix(s2, s2.cells.pop("m:t"))))
                    continue
                for s3, w in ex.refine(s2, u, ws):
                    s3 = s3.copy()
                    if not w:
                        out.append((s3, ("s", u, ex.fix(s3, s3.cells.pop("m:t"))[2])))
                        continue
                    for s4, n in ex.succ(s3, u, "c"):
                        s4 = s4.copy()
                        s4.cells["m:t"] = ("s", n, ex.fix(s4, s4.cells["m:t"])[2])
                        out.append((s4, None))
        return out
    return ex.loop(st, "trim_start", step)


def trim_back(ex, st, v, ws=L.WS):
    if ex.tape.kind == "R":
        raise Unsupported("trimming the end of a text read front to back")
    st = st.copy()
    st.cells["m:t"] = v

    def step(s):
        out = []
        cur = ex.fix(s, s.cells["m:t"])
        for s1, b in before(ex, s, cur[1], cur[2]):
            if not b:
                s1 = s1.copy()
                out.append((s1, ex.fix(s1, s1.cells.pop("m:t"))))
                continue
            for s2, u in ex.pred(s1, ex.fix(s1, s1.cells["m:t"])[2]):
                for s3, w in ex.refine(s2, u, ws):
                    s3 = s3.copy()
                    cur3 = ex.fix(s3, s3.cells["m:t"])
                    if not w:
                        s3.cells.pop("m:t")
                        out.append((s3, cur3))
                    else:
                        s3.cells["m:t"] = ("s", cur3[1], u)
                        out.append((s3, None))
        return out
    return ex.loop(st, "trim_end", step)


def untrimmed(x):
    if x == ("s", START, END):
        return ("untr",)
    if isinstance(x, tuple) and x and x[0] in ("adt", "tup", "arr", "clo", "vec"):
        y = tuple(tuple(untrimmed(z) if isinstance(z, tuple) else z for z in e) if isinstance(e, tuple) and (not e or isinstance(e[0], tuple)) else e for e in x)
        return y if y != x else x
    return x


@model("str::trim", "str::trim_start", "str::trim_end", "trim", "trim_start", "trim_end", "trim_ascii")
def m_trim(ex, st, path, c, args, t):
    n = path.rsplit("::", 1)[-1]
    v = canon(ex, st, args[0])
    if v[0] == "mk":
        return one(st, v)
    ws = L.ASCIIWS if "ascii" in n else L.WS
    n = n.replace("_ascii", "")
    if v[0] == "str":
        # letters str::trim removes
        f = {"trim": v[1].strip, "trim_start": v[1].lstrip, "trim_end": v[1].rstrip}[n]
        return one(st, ("str", f()))
    if v[0] in ("p", "trimp"):
        if ws == L.WS:
            d = {"trim": TRIMMED, "trim_start": L.starts(L.WS).comp(), "trim_end": L.ends(L.WS).comp()}[n]
            if v[0] == "p":
                cur = ex.cons_dfa(st, v[1])
                return one(st, v if cur <= d else ("trimp", v[1], n))
        return None
    if v[0] != "s":
        return None
    l = ex.lang_of(st, v)
    if l is not None and l[0] == "tape" and ws == L.WS:
        k = st.cons.get("~trim")
        if k in (n, "trim") or ex.cons_dfa(st, "~tape") <= TRIMS[n]:
            return one(st, v)
        if k is None and ex.summarising and ex.mode_t is None and "~untrim" not in st.cons:
            raise TrimSplit(n)
        if k is None and st.toks[START][1] is None and st.cells["~front"][1] == START:
            s = st.copy()
            s.cons["~tape0"] = ex.cons_dfa(st, "~tape")
            s.cons.pop("~tape", None)
            s.cons["~trim"] = n
            if s.cons.get("~untrim") == n:
                # from here on the tape is the trimmed text, which is not the text itself
                for c, x in list(s.cells.items()):
                    if not c.startswith("~"):
                        y = untrimmed(x)
                        if y is not x:
                            s.cells[c] = y
            return one(s, v)
        if st.cons.get("~untrim") == n:
            return one(st, ("trimq", n))
        raise Unsupported("trim after reading")
    if l is not None and l[0] in ("lang",) and ex.cons_dfa(st, l[1]) <= TRIMMED and ws == L.WS:
        return one(st, v)
    out = [(st, v)]
    if n in ("trim", "trim_start"):
        out = [y for s, x in out for y in trim_front(ex, s, ex.fix(s, x), ws)]
    if n in ("trim", "trim_end"):
        out = [y for s, x in out for y in trim_back(ex, s, ex.fix(s, x), ws)]
    return out


@model("trim_start_matches", "trim_end_matches", "trim_matches")
def m_trimm(ex, st, path, c, args, t):
    v, p = canon(ex, st, args[0]), ex.deref(st, args[1])
    k = pat_mask(ex, p)
    if v[0] != "s" or k is None:
        return None
    n = path.rsplit("::", 1)[-1]
    out = [(st, v)]
    if n != "trim_end_matches":
        out = [y for s, x in out for y in trim_front(ex, s, ex.fix(s, x), k)]
    if n != "trim_start_matches":
        out = [y for s, x in out for y in trim_back(ex, s, ex.fix(s, x), k)]
    return out


# ---- equality -------------------------------------------------------------------------------------
def streq(ex, st, a, b):
    a, b = canon(ex, st, a), canon(ex, st, b)
    if a[0] == "str" and b[0] == "str":
        return [(st, a[1] == b[1])]
    if a == b:
        return [(st, True)]
    if "trimq" in (a[0], b[0]) or "untr" in (a[0], b[0]):
        return [(st, False)] if ("s", START, END) in (a, b) else ex.either(st)
    if a[0] == "str":
        a, b = b, a
    if a[0] in ("trimp", "p") and b[0] in ("trimp", "p") and a[1] == b[1]:
        n = a[2] if a[0] == "trimp" else b[2]
        d = {"trim": TRIMMED, "trim_start": L.starts(L.WS).comp(), "trim_end": L.ends(L.WS).comp()}[n]
        return ex.split_lang(st, a[1], d)
    if b[0] == "str":
        r = ex.pred_lang(st, a, L.literal(b[1]))
        if r is not None:
            return r
        if a[0] == "s":
            out = []
            for s, p in prefix(ex, st, a, b[1]):
                if not p[1]:
                    out.append((s, False))
                    continue
                a1 = ex.fix(s, a)
                cur = [(s, a1[1])]
                for ch in b[1]:
                    cur = [y for s1, u in cur for y in ex.succ(s1, u, "c")]
                for s1, u in cur:
                    out += [(s2, not x) for s2, x in before(ex, s1, u, ex.fix(s1, a1)[2])]
            return out
    if getattr(ex, "freeeq", False) and "p" in (a[0], b[0]):
        x = a if a[0] == "p" and a[1] != "pivot" else b
        out = []
        for t in (True, False):
            if st.cons.get("~eq:" + x[1], t) == t:
                s = st.copy()
                s.cons["~eq:" + x[1]] = t
                out.append((s, t))
        return out
    if getattr(ex, "infilter", 0) and a[0] == b[0] == "p":
        return [(st.copy(), True), (st.copy(), False)]      # two texts of the value, which may be equal or not
    return ex.either(st)


Exec.streq = lambda self, st, a, b: streq(self, st, a, b)


@model("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne", "eq", "ne")
def m_eq(ex, st, path, c, args, t):
    ne = path.endswith("ne")
    return [(s, TOP if e is None else ("int", int(e != ne))) for s, e in ex.equal(st, ex.deref(st, args[0]), ex.deref(st, args[1]))]


@model("fract", "abs", "trunc", "floor", "ceil", "round")
def m_fpart(ex, st, path, c, args, t):
    v = ex.deref(st, args[0])
    n = path.rsplit("::", 1)[-1]
    if "f64" in path and v[0] in ("num", "numof"):
        return one(st, ("nf", n if n in ("fract", "abs") else "trunc", v[1]))
    return None


@model("is_nan", "is_finite", "is_sign_negative", "is_infinite", "is_normal", "is_subnormal", "is_sign_positive")
def m_fp(ex, st, path, c, args, t):
    v = ex.deref(st, args[0])
    n = path.rsplit("::", 1)[-1]
    if n in ("is_infinite", "is_normal", "is_subnormal", "is_sign_positive"):
        if not getattr(ex, "jsonq", False) or v[0] != "num":
            return None
        if n == "is_sign_positive":
            return ex.bools([(s, not b) for s, b in ex.numfact(st, v, "neg")])
        return ex.bools(ex.numfact(st, v, {"is_infinite": "inf", "is_normal": "normal", "is_subnormal": "subnormal"}[n]))
    return ex.bools(ex.numfact(st, v, {"is_nan": "nan", "is_finite": "fin", "is_sign_negative": "neg"}[n]))


# ---- conversion -----------------------------------------------------------------------------------
@model("as_str", "as_bytes", "clone", "to_owned", "deref", "as_ref", "borrow", "into_iter", "into", "from", "as_deref", "cloned", "copied",
       "to_vec", "into_boxed_str", "into_string", "as_slice", "deref_mut", "as_mut", "from_utf8_unchecked", "by_ref", "into_owned", "identity")
def m_id(ex, st, path, c, args, t):
    n = path.rsplit("::", 1)[-1]
    v = args[0]
    if n in ("deref_mut", "as_mut", "by_ref"):
        return one(st, v)
    v = ex.fix(st, ex.deref(st, v) if n not in ("into_iter",) or v[0] != "ref" else v)
    if n == "into_iter":
        if args[0][0] == "ref" and ex.deref(st, args[0])[0] in ("list", "vec", "arr") and t is not None and len(t) > 6 and t[6]:
            a = ex.Tys[t[6][0]]
            if a["k"] == "ref" and a.get("m"):
                return None
        return mk_iter(ex, st, v)
    if v[0] == "ref":
        return None
    if n in ("into", "from") and v[0] == "adt" and t is not None and len(t) > 7 and t[7] is not None:
        d = ex.Tys[t[7]]
        if d["k"] == "adt" and d["p"] != v[1]:
            return None
    if n in ("into", "from") and v[0] != "adt" and t is not None and len(t) > 7 and t[7] is not None and ex.Tys[t[7]].get("p") == "serde_json::value::Value":
        return json_from(ex, st, v, ex.Tys[t[7]]["p"], ex.Tys[t[6][0]]["s"] if t[6] else "")
    return one(st, v)


def json_from(ex, st, v, a, src):
    """serde_json's own `Value::from`: the kind follows the type of the source"""
    kind = {"f64": "Number", "alloc::string::String": "String", "&str": "String", "bool": "Bool", "alloc::vec::Vec<serde_json::value::Value>": "Array"}.get(src)
    if kind is None or a not in ex.prog.adts:
        return None
    if kind == "Number":
        if v != ("mk", "finite"):
            return None
        v = ("p", "number")
    return one(st, ("adt", a, [x["name"] for x in ex.prog.adts[a]["v"]].index(kind), (v,)))


@model("to_string", "alloc::string::ToString::to_string")
def m_tostring(ex, st, path, c, args, t):
    v = ex.fix(st, ex.deref(st, args[0]))
    if v[0] == "int" and isinstance(v[1], int) and t is not None and len(t) > 6 and t[6]:
        ti = ex.Tys[t[6][0]]
        while ti["k"] == "ref":
            ti = ex.Tys[ti["a"][0]]
        if ti["s"] == "char":
            return one(st, ("str", chr(v[1])))
        if ti["s"] in ex.INTMAX:
            return one(st, ("str", str(v[1])))
        if ti["s"] == "bool":
            return one(st, ("str", "true" if v[1] else "false"))
    return display(ex, st, v)


def display(ex, st, v):
    if strlike(v):
        return one(st, v)
    if v[0] == "int" and isinstance(v[1], int):
        return None
    if v[0] == "symb":
        return [(s, ("str", "true" if b else "false")) for s, b in ex.truth(st, v)]
    if v[0] in ("num", "symint", "numi"):
        return one(st, ("fmt", ex.freeze(st, v)))
    if v[0] == "ge" and ex.tape is None:        # a count without a name
        return one(st, ("fmt", ("symint", "count")))
    if v[0] == "float" and v[1] == 0.0:
        return None
    return None


@model("new_display", "new_debug", "new_lower_hex", "new_upper_hex")
def m_arg(ex, st, path, c, args, t):
    v = ex.fix(st, ex.deref(st, args[0]))
    ty = None
    if t is not None:
        ti = ex.Tys[t[6][0]] if len(t) > 6 and t[6] else None
        while ti is not None and ti["k"] == "ref":
            ti = ex.Tys[ti["a"][0]]
        ty = ti["s"] if ti else None
    return one(st, ("fmtarg", path.rsplit("::", 1)[-1], v, ty))


@model("core::fmt::Arguments::new")
def m_fmtnew(ex, st, path, c, args, t):
    tpl, av = ex.deref(st, args[0]), ex.deref(st, args[1])
    if tpl[0] == "str":
        tb = tpl[1].encode()
    elif tpl[0] == "arr" and all(x[0] == "int" for x in tpl[1]):
        tb = bytes(x[1] for x in tpl[1])
    else:
        return None
    if av[0] != "arr":
        return None
    res = [(st, ())]
    for x in parse_template(tb):
        if isinstance(x, str):
            res = [(s, its + (("str", x),)) for s, its in res]
            continue
        a = av[1][x[0]] if x[0] < len(av[1]) else TOP
        nxt = []
        for s, its in res:
            if a[0] == "fmtarg" and a[1] == "new_display" and x[1] is None and x[2] is None and x[3] is None:
                v = ex.fix(s, a[2])
                if v[0] == "int" and a[3] == "char":
                    nxt.append((s, its + (("str", chr(v[1])),)))
                    continue
                if v[0] == "int":
                    nxt.append((s, its + (("str", str(v[1])),)))
                    continue
                if v[0] == "ch" and a[3] == "char":
                    nxt.append((s, its + (v,)))
                    continue
                r = display(ex, s, v)
                if r is not None:
                    nxt += [(s2, its + (ex.freeze(s2, w),)) for s2, w in r]
                    continue
            if a[0] == "fmtarg" and a[1] == "new_display" and x[3] is None and x[1] and x[2] and x[1] & ~(1 << 27 | 3 << 29) == 32 | 1 << 24 and a[3] in ex.INTMAX:
                v = ex.fix(s, a[2])
                if v[0] == "int" and isinstance(v[1], int) and v[1] >= 0:
                    nxt.append((s, its + (("str", str(v[1]).rjust(x[2], "0")),)))
                    continue
            if a[0] == "fmtarg" and a[1] in ("new_lower_hex", "new_upper_hex") and x[3] is None and (x[1] or 0) & ~(1 << 24 | 1 << 27 | 3 << 29) == (32 if x[1] else 0):
                v = ex.fix(s, a[2])
                if v[0] == "int" and isinstance(v[1], int) and v[1] >= 0 and ((x[1] or 0) >> 24 & 1 or not x[2]):
                    txt = "%x" % v[1] if a[1] == "new_lower_hex" else "%X" % v[1]
                    nxt.append((s, its + (("str", txt.rjust(x[2] or 0, "0" if (x[1] or 0) >> 24 & 1 else " ")),)))
                    continue
            nxt.append((s, its + (("any",),)))
        res = nxt
    return [(s, norm_cat(its)) for s, its in res]


@model("from_str", "core::fmt::Arguments::from_str", "core::fmt::Arguments::from_str_nonconst")
def m_fromstr(ex, st, path, c, args, t):
    v = ex.deref(st, args[0])
    return one(st, v) if v[0] == "str" else None


@model("format", "alloc::fmt::format")
def m_format(ex, st, path, c, args, t):
    v = ex.deref(st, args[0])
    return one(st, v) if v[0] in ("str", "cat", "app", "fmt", "pc", "homc", "p", "any") else None


@model("must_use", "core::hint::must_use")
def m_must(ex, st, path, c, args, t):
    return one(st, args[0])


FLOATG = L.from_nfa(0, {0: [(L.m("+-"), 1), (L.DIGIT, 2), (L.m("."), 3)], 1: [(L.DIGIT, 2), (L.m("."), 3)], 2: [(L.DIGIT, 2), (L.m("."), 4), (L.m("eE"), 6)],
                        3: [(L.DIGIT, 5)], 4: [(L.DIGIT, 4), (L.m("eE"), 6)], 5: [(L.DIGIT, 5), (L.m("eE"), 6)],
                        6: [(L.m("+-"), 7), (L.DIGIT, 8)], 7: [(L.DIGIT, 8)], 8: [(L.DIGIT, 8)]}, [2, 4, 5, 8])


@model("parse", "str::parse")
def m_parse(ex, st, path, c, args, t):
    v = const_slice(ex, st, canon(ex, st, args[0]))
    ty = None
    if c and c.get("a"):
        ty = ex.Tys[c["a"][-1]]["s"] if isinstance(c["a"][-1], int) else None
    if ty == "f64":
        if v[0] == "str":
            if not re.fullmatch(r"[+-]?(inf|infinity|nan|(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?)", v[1], re.I | re.A):
                return one(st, err())
            return one(st, ok(("float", float(v[1]))))
        l = ex.lang_of(st, v)
        if l is not None and l[0] != "hom":
            if ex.tape is not None and ex.tape.kind == "S":
                pc = ex.tape.pieces[int(l[1][4:])]
                if pc[2] and pc[2][0] == "num":
                    return one(st, ok(("numof", pc[2][1])))
            out = []
            for s, g in ex.split_lang(st, l[1], FLOATG):
                out.append((s, ok(("f64tape",))) if g else (s, TOP if False else err()))
            # "inf", "nan" and friends parse as well
            SPEC = L.from_nfa(0, {0: [(L.ALPHA | L.m("+-"), 1)], 1: [(L.ALPHA, 1)]}, [1])
            res = []
            for s, x in out:
                if x[2] == 1:
                    for s2, g in ex.split_lang(s, l[1], SPEC):
                        if g:
                            res.append((s2.copy(), ok(("f64tape",))))
                        res.append((s2, x))
                else:
                    res.append((s, x))
            return res
        return [(st.copy(), ok(TOP)), (st.copy(), err())]
    if ty in ("usize", "u64", "u32"):
        if v[0] == "str":
            return one(st, ok(("int", int(v[1]))) if v[1].isdigit() else err())
        l = ex.lang_of(st, v)
        if l is not None and l[0] != "hom" and ex.tape is not None and ex.tape.kind == "S":
            pc = ex.tape.pieces[int(l[1][4:])]
            if pc[2] and pc[2][0] == "int":
                return one(st, ok(("symint", pc[2][1])))
        if l is not None and l[0] != "hom":
            num = L.from_nfa(0, {0: [(L.m("+"), 1), (L.DIGIT, 2)], 1: [(L.DIGIT, 2)], 2: [(L.DIGIT, 2)]}, [2])
            out = []
            for s, g in ex.split_lang(st, l[1], num):
                if g:
                    out.append((s.copy(), ok(TOP)))
                out.append((s, err()))
            return out
        if v[0] == "s" and ex.tape.kind == "S":
            return parse_uint_slice(ex, st, v)
        return [(st.copy(), ok(TOP)), (st.copy(), err())]
    return None


def const_slice(ex, st, v):
    """the text of a slice that lies inside written constants"""
    if v[0] != "s" or ex.tape is None or ex.tape.kind != "S":
        return v
    a, b = v[1], v[2]
    if a == END or a not in st.toks:
        return v
    n = st.toks[a][0]
    stop = None if b == END or st.toks[b][1] == "END" else st.toks[b][0]
    out = ""
    for _ in range(40):
        nd = ex.tape.nodes[n]
        if nd.cyc:
            return v
        if n == stop or (stop is None and nd.acc and not nd.tr):
            return ("str", out)
        tg = {(m, t) for m, t, o in nd.tr}
        if len(tg) != 1:
            return v
        m, n = next(iter(tg))
        if not L.single(m) or L.chr_of(m) is None:
            return v
        out += L.chr_of(m)
    return v


def parse_uint_slice(ex, st, v):
    """a number parsed from some other slice: fails when a letter is not a digit"""
    out = []
    for s, x in do_find(ex, st, v, L.ALL & ~(L.DIGIT | L.m("+"))):
        if x == NONE:
            out += [(s.copy(), ok(TOP)), (s, err())]
        else:
            out.append((s, err()))
    return out


# ---- indexing -------------------------------------------------------------------------------------
@model("core::ops::index::Index::index", "index", "get_unchecked", "get")
def m_index(ex, st, path, c, args, t):
    n = path.rsplit("::", 1)[-1]
    v, r = canon(ex, st, args[0]), ex.fix(st, ex.deref(st, args[1]))
    wrap = (lambda x: some(x)) if n == "get" else (lambda x: x)
    if r[0] == "adt" and "range::Range" in r[1]:
        nm = r[1].rsplit("::", 1)[-1]
        lo, hi = None, None
        if nm == "Range":
            lo, hi = r[3]
        elif nm == "RangeFrom":
            lo = r[3][0]
        elif nm == "RangeTo":
            hi = r[3][0]
        elif nm == "RangeFull":
            return one(st, wrap(v))
        else:
            return None
        if v[0] == "str":
            b = v[1].encode()
            x = 0 if lo is None else lo[1] if lo[0] == "int" else None
            y = len(b) if hi is None else hi[1] if hi[0] == "int" else None
            if x is None or y is None:
                return None
            if x > y or y > len(b):
                return one(st, NONE) if n == "get" else []
            try:
                return one(st, wrap(("str", b[x:y].decode())))
            except UnicodeDecodeError:      # not between two characters
                return one(st, NONE) if n == "get" else []
        if v[0] == "p":
            raise NeedScan(v[1], "sliced")
        if v[0] in ("vec", "arr"):
            k = 0 if lo is None else lo[1] if lo[0] == "int" else None
            h = len(v[1]) if hi is None else hi[1] if hi[0] == "int" else None
            if k is None or h is None or any(x[0] == "*" for x in v[1][:k if hi is None else max(k, h)]) or k > h or h > len(v[1]):
                return None
            return one(st, wrap(("vec", v[1][k:h])))
        if v[0] != "s":
            return None
        los = [(st, ex.fix(st, v)[1])] if lo is None else None
        if los is None:
            los = ex.resolve(st, v[1], lo) if lo[0] in ("int", "lin") else None
            if los is None:
                return None
        out = []
        for s, a in los:
            s = s.copy()
            s.cells["m:ix"] = ("s", a, a)
            v1 = ex.fix(s, v)
            if hi is None:
                his = [(s, v1[2])]
            else:
                h = ex.fix(s, hi)
                if h[0] not in ("int", "lin"):
                    return None
                his = ex.resolve(s, v1[1], h)
            for s2, b in his:
                s2 = s2.copy()
                a2 = ex.fix(s2, s2.cells.pop("m:ix"))[1]
                b = ex._rt(s2, b)
                if n == "get":
                    o = ex.order(s2, a2, b)
                    if o == ">":
                        out.append((s2, NONE))
                        continue
                elif ex.order(s2, a2, b) == ">":
                    continue          # panics
                out.append((s2, wrap(("s", a2, b) if a2 != b else ("s", a2, a2))))
        return out
    if v[0] == "vec" and len(v[1]) == 1 and v[1][0][0] == "*" and isinstance(v[1][0][1], tuple) and r[0] != "adt":
        e = v[1][0][1]
        return [(st.copy(), NONE), (st.copy(), some(e))] if n == "get" else one(st, e)
    if v[0] in ("vec", "arr") and r[0] == "int":
        if r[1] < len(v[1]) and all(x[0] != "*" for x in v[1][:r[1] + 1]):
            return one(st, wrap(v[1][r[1]]))
        if any(x[0] == "*" for x in v[1]):
            e = v[1][0][1] if len(v[1]) == 1 and isinstance(v[1][0][1], tuple) else TOP
            return [(st.copy(), NONE), (st.copy(), some(e))] if n == "get" else one(st, e)
        return one(st, NONE) if n == "get" else []
    if v[0] == "s" and r[0] in ("int", "lin") and n == "get":
        out = []
        for s, a in (ex.resolve(st, v[1], r) if not (r[0] == "int" and r[1] == 0) else [(st, v[1])]):
            for s1, b in before(ex, s, a, ex.fix(s, v)[2]):
                if not b:
                    out.append((s1, NONE))
                    continue
                for s2, u in ex.know(s1, ex._rt(s1, a)):
                    out.append((s2, NONE if s2.toks[u][1] == "END" else some(("ch", u, "b"))))
        return out
    if v[0] in ("s",) and r[0] in ("int", "lin"):
        return ex.index(st, v, r)
    if v[0] == "p":
        raise NeedScan(v[1], "indexed")
    if r[0] == "fpos" and focused(v):
        x = v[1][r[1]]
        return one(st, wrap(x[1] if x[0] == "*" else x))
    if v[0] == "list":
        e = elem(ex, v)
        return [(st.copy(), NONE), (st.copy(), some(e))] if n == "get" else one(st, e)
    return None


# ---- building text --------------------------------------------------------------------------------
@model("alloc::string::String::new", "alloc::string::String::with_capacity", "core::default::Default::default")
def m_new(ex, st, path, c, args, t):
    if path.endswith("default"):
        ts = ex.Tys[t[7]]["s"] if t is not None and len(t) > 7 and isinstance(t[7], int) else ""
        if ts != "alloc::string::String":
            return None
    return one(st, ("str", ""))


def append(ex, st, ref, items):
    if ref[0] != "ref":
        return None
    cur = ex.fix(st, ex.load(st, ref))
    s = st.copy()
    if ex.tape is not None and ex.tape.kind == "R" and ex.mode_t:
        if cur not in (("str", ""), ("out",)):
            raise Unsupported("more than one text is built")
        for it in items:
            emit(ex, s, it)
        ex.store(s, ref[1], ref[2], ("out",))
        return one(s, UNIT)
    if ex.tape is not None and ex.tape.kind == "R":
        ex.store(s, ref[1], ref[2], TOP)
        return one(s, UNIT)
    if cur[0] not in ("str", "s", "cat", "app", "pc", "homc", "fmt", "p", "hom", "star", "rep", "ch"):
        return one(s, UNIT)
    its = list(cur[1]) if cur[0] == "cat" else [] if cur == ("str", "") else [cur]
    its = [ex.freeze(s, x) for x in its] if ex.tape is None else its
    for it in items:
        it = ex.freeze(s, it) if ex.tape is None else ex.fix(s, it)
        last = its[-1] if its else None
        if it[0] == "ch":
            u = it[1]
            nx = s.adj.get(u)
            if nx is None:
                nx = s.adjb.get(u)
            if nx is None:
                its.append(("any",))
                continue
            it = ("s", u, nx)
        if it[0] == "s" and last is not None and last[0] == "s" and last[2] == it[1]:
            its[-1] = ("s", last[1], it[2])
        elif it == ("str", ""):
            pass
        else:
            its.append(it)
    if ex.tape is not None:
        if len(its) > 4:
            its = [("any",)]
        v = its[0] if len(its) == 1 else ("str", "") if not its else ("cat", tuple(its))
        if v == ("any",):
            v = TOP
    else:
        v = norm_cat(its)
        if v[0] == "cat" and len(v[1]) > 40:
            v = ("any",)
    ex.store(s, ref[1], ref[2], v)
    return one(s, UNIT)


def emit(ex, s, it):
    if it[0] == "str":
        for ch in it[1]:
            emit1(ex, s, ("mask", L.letter(ch)))
    elif it[0] == "int":
        emit1(ex, s, ("mask", L.letter(chr(it[1]))))
    elif it[0] == "ch":
        emit1(ex, s, ("tok", it[1]))
    else:
        raise Unsupported("text appended that is not a letter")


def emit1(ex, s, w):
    if ex.mode_t == "extract":
        if w[0] == "tok":
            sy = s.toks[w[1]][1]
            # only the letter read last may be copied
            fr = s.cells["~front"][1]
            if s.adj.get(w[1]) != fr:
                raise Unsupported("a letter is copied out of turn")
            if s.expect[1] != sy[0]:
                raise Unsupported("a letter is copied out of turn")
            o = ("copy",)
        else:
            o = w[1]
            if not L.single(o) or o & L.NONASCII:
                raise Unsupported("non-ASCII constant output")
        s.expect = ("T", s.expect[1], s.expect[2] + (o,))
        if len(s.expect[2]) > 16:
            raise Unsupported("unbounded output per letter")
        return
    # verify: the next letter owed
    if not s.expect:
        raise Unsupported("more output than the source text")
    e = s.expect[0]
    if e[0] == "tok":
        want = ex.fix(s, e[1])[1]
        if w[0] == "tok" and w[1] == want:
            s.expect = s.expect[1:]
            return
        sy = s.toks[want][1]
        if w[0] == "mask" and L.single(w[1]) and not w[1] & L.NONASCII and sy[0] == w[1]:
            s.expect = s.expect[1:]
            return
        if L.ASCII & w[1] if w[0] == "mask" else False:
            if sy[0] & w[1] and sy[0] != w[1]:
                raise Split(w[1])
        raise Unsupported("the output differs from the source text")
    if w[0] == "mask" and w[1] == e[1] and L.single(e[1]):
        s.expect = s.expect[1:]
        return
    if w[0] == "mask" and e[1] & w[1] and not L.single(e[1]):
        raise Split(w[1])
    if w[0] == "tok":
        sy = s.toks[w[1]][1]
        if sy[0] == e[1] and L.single(sy[0]) and not sy[0] & L.NONASCII:
            s.expect = s.expect[1:]
            return
    raise Unsupported("the output differs from the source text")


@model("alloc::string::String::push", "alloc::string::String::push_str")
def m_push(ex, st, path, c, args, t):
    v = ex.fix(st, ex.deref(st, args[1]))
    if v[0] == "int":
        v = ("str", chr(v[1]))
    if v[0] == "symb":
        return None
    if not (strlike(v) or v[0] in ("ch", "fmt", "star", "rep", "any")):
        v = ("any",)
    if ex.tape is None:
        v = ex.freeze(st, v)
    return append(ex, st, args[0], list(v[1]) if v[0] == "cat" else [v])


@model("write_fmt", "core::fmt::Write::write_fmt", "write_str", "write_char")
def m_write(ex, st, path, c, args, t):
    r = m_push(ex, st, path, c, args, t)
    return [(s, ok(UNIT)) for s, _ in r] if r else None


@model("extend")
def m_extend(ex, st, path, c, args, t):
    r, it = args[0], ex.fix(st, ex.deref(st, args[1]))
    if r[0] != "ref":
        return None
    cur = ex.load(st, r)
    if not strlike(cur):
        return None
    if it[0] == "iter" and it[1] == "times":
        return append(ex, st.copy(), r, [("str", chr(it[2][1]) * it[3][1])])
    if it[0] == "iter" and it[1] == "repeat" and it[2][0] == "int":
        s = st.copy()
        out = []
        for n in (0, 1, 2):
            out += append(ex, s.copy(), r, [("str", chr(it[2][1]) * n)])
        return out
    return None


@model("repeat", "str::repeat")
def m_repeat(ex, st, path, c, args, t):
    v = ex.deref(st, args[0])
    if len(args) == 2:
        counted(ex, ex.deref(st, args[1]))
    n = ex.fix(st, ex.deref(st, args[1])) if len(args) == 2 else TOP
    if v[0] == "str" and n[0] == "int" and n[1] <= getattr(ex, "cap", -1):
        return one(st, ("str", v[1] * n[1]))
    if len(args) == 2 and v[0] == "str" and len(v[1]) == 1:
        return [(st.copy(), ("str", "")), (st.copy(), ("str", v[1])), (st.copy(), ("rep", v[1]))]
    if len(args) == 1 and v[0] == "int":
        return one(st, ("iter", "repeat", v))
    return None


@model("repeat_n", "core::iter::sources::repeat_n::repeat_n")
def m_repeat_n(ex, st, path, c, args, t):
    v, n = ex.fix(st, ex.deref(st, args[0])), ex.fix(st, ex.deref(st, args[1]))
    if v[0] == "int" and n[0] == "int" and n[1] <= getattr(ex, "cap", -1):
        return one(st, ("iter", "times", v, n))
    return None


@model("take")
def m_take(ex, st, path, c, args, t):
    v = ex.deref(st, args[0])
    if v[0] == "iter" and v[1] == "repeat" and v[2][0] == "int" and getattr(ex, "cap", 0):
        n = ex.fix(st, ex.deref(st, args[1]))
        if n[0] == "int" and n[1] <= ex.cap:
            return one(st, ("iter", "times", v[2], n))
    if v[0] == "iter" and v[1] == "repeat":
        counted(ex, ex.deref(st, args[1]))
        return one(st, v)
    n = ex.deref(st, args[1]) if len(args) > 1 else TOP
    if v[0] == "iter" and v[1] == "seq" and v[3] == ("int", 0) and focused(v[2]) and n[0] == "int" and n[1] >= 16 and getattr(ex, "free", False):
        l = v[2][1]
        return [(st.copy(), v)] + [(st.copy(), ("iter", "seq", (v[2][0], x), ("int", 0))) for x in (l[:2], l[:1])]
    return None


@model("alloc::string::String::clear", "clear")
def m_clear(ex, st, path, c, args, t):
    if args[0][0] != "ref":
        return None
    cur = ex.load(st, args[0])
    s = st.copy()
    if strlike(cur) or cur == TOP and "String" in path:
        ex.store(s, args[0][1], args[0][2], ("str", ""))
        return one(s, UNIT)
    if cur[0] == "vec":
        ex.store(s, args[0][1], args[0][2], ("vec", ()))
        return one(s, UNIT)
    return None


@model("pop")
def m_pop(ex, st, path, c, args, t):
    if args[0][0] != "ref":
        return None
    cur = canon(ex, st, args[0])
    if cur[0] == "str":
        s = st.copy()
        if not cur[1]:
            return one(s, NONE)
        ex.store(s, args[0][1], args[0][2], ("str", cur[1][:-1]))
        return one(s, some(("int", ord(cur[1][-1]))))
    if cur[0] == "s" and ex.tape.kind == "S":
        out = []
        for s, b in before(ex, st, cur[1], cur[2]):
            if not b:
                out.append((s, NONE))
                continue
            for s2, u in ex.pred(s, ex.fix(s, cur)[2]):
                s2 = s2.copy()
                ex.store(s2, args[0][1], args[0][2], ("s", ex.fix(s2, cur)[1], u))
                out.append((s2, some(("ch", u, "c"))))
        return out
    if cur[0] == "vec" and (not cur[1] or cur[1][-1][0] != "*"):
        s = st.copy()
        if not cur[1]:
            return one(s, NONE)
        ex.store(s, args[0][1], args[0][2], ("vec", cur[1][:-1]))
        return one(s, some(cur[1][-1]))
    return None


@model("last", "last_mut")
def m_last(ex, st, path, c, args, t):
    r = args[0]
    if r[0] == "vec" and path.endswith("last") and getattr(ex, "jsonq", False):
        return one(st, some(r[1][-1]) if r[1] else NONE) if not r[1] or r[1][-1][0] != "*" else None
    if r[0] != "ref":
        return None
    v = ex.load(st, r)
    n = 0
    while v[0] == "ref" and n < 4:
        r, v, n = v, ex.load(st, v), n + 1
    if v[0] == "vec" and (not v[1] or v[1][-1][0] != "*"):
        return one(st, some(("ref", r[1], tuple(r[2]) + (("el", len(v[1]) - 1),))) if v[1] else NONE)
    return None


@model("core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut", "core::ops::function::FnOnce::call_once")
def m_userfn(ex, st, path, c, args, t):
    f, a = ex.deref(st, args[0]), ex.fix(st, args[1])
    if f != ("mk", "REPLACER") or a[0] != "tup":
        return None
    return ex.userfn(ex, st, a[1])


@model("core::ops::index::IndexMut::index_mut", "index_mut")
def m_index_mut(ex, st, path, c, args, t):
    r, i = args[0], ex.fix(st, ex.deref(st, args[1]))
    if r[0] != "ref" or i[0] != "int":
        return None
    v = ex.load(st, r)
    n = 0
    while v[0] == "ref" and n < 4:
        r, v, n = v, ex.load(st, v), n + 1
    if v[0] == "vec" and 0 <= i[1] and not any(x[0] == "*" for x in v[1][:i[1] + 1]):
        return one(st, ("ref", r[1], tuple(r[2]) + (("el", i[1]),))) if i[1] < len(v[1]) else []
    return None


@model("core::str::<impl str>::lines", "lines")
def m_strlines(ex, st, path, c, args, t):
    v = canon(ex, st, args[0])
    if not getattr(ex, "jsonq", False) or v[0] != "str":
        return None
    ls = v[1].split("\n")
    ls = ls[:-1] if ls[-1] == "" else ls
    return one(st, ("iter", "seq", ("vec", tuple(("str", x[:-1] if x.endswith("\r") and i + 1 < v[1].count("\n") + 1 else x) for i, x in enumerate(ls))), ("int", 0)))


@model("serde_json::ser::to_string", "serde_json::to_string")
def m_json_string(ex, st, path, c, args, t):
    v = canon(ex, st, args[0])
    if not getattr(ex, "jsonq", False) or v[0] != "p":
        return None
    return one(st, ("adt", RES, 0, (("p", "quoted " + v[1]),)))


@model(*["serde_json::value::Value::is_" + n for n in ("null", "boolean", "number", "string", "array", "object")])
def m_json_kind(ex, st, path, c, args, t):
    v = ex.fix(st, ex.deref(st, args[0]))
    if not getattr(ex, "jsonq", False) or v[0] != "adt":
        return None
    n = [x["name"] for x in ex.prog.adts[v[1]]["v"]][v[2]].lower()
    return one(st, ("int", int(path.rsplit("::is_", 1)[-1] == ("boolean" if n == "bool" else n))))


@model("serde_json::number::Number::from_f64", "serde_json::Number::from_f64")
def m_json_number(ex, st, path, c, args, t):
    v = ex.fix(st, ex.deref(st, args[0]))
    if not getattr(ex, "jsonq", False) or v != ("mk", "finite"):
        return None
    return one(st, some(("p", "number")))


@model("std::collections::hash::set::HashSet::new", "std::collections::hash::set::HashSet::with_capacity")
def m_hsnew(ex, st, path, c, args, t):
    return one(st, ("mk", "no keys")) if getattr(ex, "freeeq", False) else None


@model("core::str::<impl str>::split", "split")
def m_split(ex, st, path, c, args, t):
    v = canon(ex, st, args[0])
    if getattr(ex, "jsonq", False) and v[0] == "str":
        q = ex.fix(st, ex.deref(st, args[1]))
        q = chr(q[1]) if q[0] in ("int", "ch") and isinstance(q[1], int) else q[1] if q[0] == "str" else None
        return one(st, ("iter", "seq", ("vec", tuple(("str", x) for x in v[1].split(q))), ("int", 0))) if q else None
    if not getattr(ex, "freeeq", False) or v[0] != "p":
        return None
    if ex.fix(st, ex.deref(st, args[1])) not in (("int", 46), ("ch", 46), ("str", ".")):
        return None
    f = lambda x: ("p", "%s/%s" % (v[1], x))
    return one(st, ("iter", "seq", ("vec", (("*", f("B")), f("F"), ("*", f("A")))), ("int", 0)))


# ---- vectors --------------------------------------------------------------------------------------
@model("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity")
def m_vnew(ex, st, path, c, args, t):
    return one(st, ("vec", ()))


@model("alloc::vec::Vec::push", "push")
def m_vpush(ex, st, path, c, args, t):
    if args[0][0] != "ref":
        return None
    cur = ex.load(st, args[0])
    if cur[0] == "sink" and ex.monitor is not None:
        v = ex.fix(st, args[1])
        return ex.monitor(ex, st, cur[1], ex.load(st, v) if v[0] == "ref" else v)
    if cur[0] == "sink":
        v = ex.fix(st, args[1])
        v = ex.freeze(st, ex.load(st, v) if v[0] == "ref" else v)
        ex.shared.setdefault("lines", {}).setdefault(cur[1], {})[v] = (ex.where(), dict(st.cons))
        return one(st.copy(), UNIT)
    if cur[0] != "vec":
        return one(st.copy(), UNIT)
    s = st.copy()
    v = ex.fix(s, args[1])
    if v[0] == "ref":
        v = ex.load(s, v)
    ex.store(s, args[0][1], args[0][2], ("vec", vpush(ex, s, cur[1], v)))
    return one(s, UNIT)


def vpush(ex, st, items, v):
    """append to a logged vector; runs of elements in the same region of the text are folded"""
    if ex.tape is not None and ex.tape.kind == "S" and ex.tape.focus is not None:
        x = region(ex, st, v)
        if x is not None:
            v = x
    elif ex.tape is None:
        v = ex.freeze(st, v)
    if v[0] == "*":
        if items and items[-1] == v:
            return items
        return items + (v,)
    if ex.tape is None and not getattr(ex, "jsonq", False) and items and (items[-1] == v or items[-1] == ("*", v)):
        return items[:-1] + (("*", v),)
    if ex.tape is not None and len(items) > 8:
        return items if items[-1] == ("*", "any") else items[:8] + (("*", "any"),)
    return items + (v,)


def region(ex, st, v):
    """('*','B') / ('*','A') for text wholly in the elements before / after the one in focus"""
    if v[0] == "s":
        tp = ex.tape
        a, b = v[1], v[2]
        if a == b:
            return None
        na = st.toks[a][0]
        nb = None if b == END else st.toks[b][0]
        own = tp.owners(na, nb)
        if own and own <= {"B"}:
            return ("*", "B")
        if own and own <= {"A"}:
            return ("*", "A")
        return None
    if v[0] == "adt" and v[3]:
        # a structure made from elements
        r = {region(ex, st, x) for x in v[3] if x[0] in ("s", "adt")}
        r.discard(None)
        if len(r) == 1 and not any(x[0] == "s" and region(ex, st, x) is None for x in v[3]):
            return next(iter(r))
    return None


def elem(ex, lst):
    return ex.symval(lst[1] + "[]", lst[2])


# ---- iterators ------------------------------------------------------------------------------------
def mk_iter(ex, st, v):
    if v[0] == "ref":
        x = ex.load(st, v)
        if x[0] in ("list", "vec", "arr"):
            return one(st, ("iter", "seq", x, ("int", 0)))
        return one(st, v)
    if v[0] in ("iter", "adt"):
        return one(st, v)
    if v[0] in ("list", "vec", "arr"):
        return one(st, ("iter", "seq", v, ("int", 0)))
    return None


@model("iter", "iter_mut", "drain")
def m_iter(ex, st, path, c, args, t):
    if path.endswith("iter_mut"):
        return None
    v = ex.deref(st, args[0])
    if v[0] in ("list", "vec", "arr"):
        return one(st, ("iter", "seq", v, ("int", 0)))
    return None


@model("split_first", "first")
def m_split_first(ex, st, path, c, args, t):
    v = ex.deref(st, args[0])
    n = path.rsplit("::", 1)[-1]
    if v[0] == "list" and len(v) == 3:
        out = []
        for s, e in ex.truth(st, ("symb", "empty:" + v[1])):
            out.append((s, NONE if e else some(elem(ex, v) if n == "first" else ("tup", (elem(ex, v), v + ("rest",))))))
        return out
    if v[0] in ("vec", "arr"):
        out = []
        for j, x in enumerate(v[1]):
            y = x[1] if x[0] == "*" else x
            if not isinstance(y, tuple) or y[0] in ("any", "B", "A"):
                return None
            out.append((st.copy(), some(y if n == "first" else ("tup", (y, (v[0], v[1][j if x[0] == "*" else j + 1:]))))))
            if x[0] != "*":
                return out
        return out + [(st.copy(), NONE)]
    return None


@model("join", "concat")
def m_join(ex, st, path, c, args, t):
    v = ex.deref(st, args[0])
    sep = canon(ex, st, args[1]) if len(args) > 1 else ("str", "")
    if v[0] in ("vec", "arr") and len(args) == 1 and v[1] and not any(x[0] == "*" for x in v[1]):
        parts = [ex.deref(st, x) for x in v[1]]
        if all(x[0] in ("vec", "arr") for x in parts):
            return one(st, ("vec", tuple(y for x in parts for y in x[1])))
    if v[0] not in ("vec", "arr") or sep[0] != "str":
        return None
    its = [x[1] if x[0] == "*" else x for x in v[1]]
    if any(not (isinstance(x, tuple) and strlike(x)) for x in its):
        return None
    if not any(x[0] == "*" for x in v[1]):
        r = []
        for i, x in enumerate(its):
            r += ([sep] if i else []) + [x]
        return one(st, norm_cat(r))
    if any(x != its[0] for x in its) or sep[1] == "":
        return None
    out = [(st.copy(), its[0]), (st.copy(), norm_cat([its[0], sep, its[0], sep, its[0]]))]
    if all(x[0] == "*" for x in v[1]):
        out.append((st.copy(), ("str", "")))
    return out


@model("chars", "bytes", "char_indices")
def m_chars(ex, st, path, c, args, t):
    n = path.rsplit("::", 1)[-1]
    v = canon(ex, st, args[0])
    if v[0] in ("p", "hom", "trimp"):
        raise NeedScan(v[1], n)
    if v[0] == "str":
        return one(st, ("iter", "const", v, ("int", 0), n))
    if v[0] == "s":
        return one(st, ("iter", n, v, v))
    return None


@model("enumerate")
def m_enum(ex, st, path, c, args, t):
    v = ex.deref(st, args[0])
    return one(st, ("iter", "enum", v, ("int", 0))) if v[0] == "iter" else None


@model("map", "core::iter::traits::iterator::Iterator::map")
def m_map(ex, st, path, c, args, t):
    v = ex.deref(st, args[0])
    if v[0] == "iter":
        return one(st, ("iter", "map", v, args[1]))
    return optmap(ex, st, v, args[1], path)


def optmap(ex, st, v, f, path):
    if v[0] == "adt" and v[1] == OPT:
        if v[2] == 0:
            return one(st, NONE)
        return [(s, some(x)) for s, x in ex.call_value(st, f, [v[3][0]])]
    if v[0] == "adt" and v[1] == RES:
        if v[2] == 1:
            return one(st, v)
        return [(s, ok(x)) for s, x in ex.call_value(st, f, [v[3][0]])]
    return None


@model("filter_map", "filter", "skip", "zip", "rev", "peekable", "chain", "take_while", "skip_while", "flat_map")
def m_adapt(ex, st, path, c, args, t):
    n = path.rsplit("::", 1)[-1]
    v = ex.deref(st, args[0])
    if n in ("filter_map", "filter") and v[0] == "iter":
        return one(st, ("iter", n, v, args[1]))
    if n == "skip" and v[0] == "iter" and v[1] == "seq" and v[2][0] == "list" and v[3] == ("int", 0) and args[1] == ("int", 1) and len(v[2]) == 3:
        return one(st, ("iter", "seq", v[2] + ("rest",), ("int", 0)))
    if n == "rev" and v[0] == "iter" and v[1] == "seq" and v[3] == ("int", 0) and getattr(ex, "free", False) and focused(v[2]):
        return one(st, ("iter", "seq", (v[2][0], v[2][1][::-1]), ("int", 0)))
    if n == "skip" and v[0] == "iter" and v[1] == "seq" and v[2][0] in ("vec", "arr") and v[3][0] == "int" and args[1][0] == "int" \
            and not any(x[0] == "*" for x in v[2][1][v[3][1]:v[3][1] + args[1][1]]):
        return one(st, ("iter", "seq", v[2], ("int", min(v[3][1] + args[1][1], len(v[2][1])))))
    if n == "chain" and v[0] == "iter" and v[1] == "seq" and v[3][0] == "int":
        w = ex.deref(st, args[1])
        w = ("iter", "seq", w, ("int", 0)) if w[0] in ("vec", "arr") else w
        if w[0] == "iter" and w[1] == "seq" and w[2][0] in ("vec", "arr") and v[2][0] in ("vec", "arr") and w[3][0] == "int":
            return one(st, ("iter", "seq", ("vec", v[2][1][v[3][1]:] + w[2][1][w[3][1]:]), ("int", 0)))
    if n == "skip" and v[0] == "iter" and v[1] == "chars" and args[1] == ("int", 1):
        return [(s, ex.fix(s, it)) for s, it, x in nexts(ex, st, v)]
    return None


def focused(v):
    """a list with one element in focus"""
    return v[0] == "vec" and len(v[1]) == 3 and v[1][0][0] == "*" and v[1][2][0] == "*" and v[1][1][0] != "*" \
        and len({v[1][0][1], v[1][1], v[1][2][1]}) == 3


def focus_pos(it, x):
    """the part of such a list an element comes from"""
    if it[1] == "seq" and focused(it[2]):
        l = it[2][1]
        return [l[0][1], l[1], l[2][1]].index(x) if x in (l[0][1], l[1], l[2][1]) else None
    return None


def nexts(ex, st, it):
    """advance: list of (st, iterator, Option item)"""
    it = ex.fix(st, it)
    k = it[1]
    if k == "seq":
        v, pos = it[2], it[3]
        if v[0] == "list" and len(v) == 4 and pos == ("int", 0):
            pos = ("int", 1)
            em = st.cons.get("emptyrest:" + v[1])
            if em is True or st.cons.get("empty:" + v[1]) is True:
                return [(st, it, NONE)]
        if v[0] == "list":
            s1, s2 = st.copy(), st.copy()
            nm = v[1] + "[]"
            for x in [x for x in s2.cons if nm in x]:
                del s2.cons[x]
            first = pos == ("int", 0)
            out = [(s2, ("iter", "seq", v, ("int", 1)), some(elem(ex, v)))]
            em = st.cons.get("empty:" + v[1])
            if first:
                if em is not False:
                    s1.cons["empty:" + v[1]] = True
                    out.append((s1, it, NONE))
                if em is True:
                    out = out[1:]
                else:
                    s2.cons["empty:" + v[1]] = False
            else:
                out.append((s1, it, NONE))
            return out
        i = pos[1]
        if i < len(v[1]):
            x = v[1][i]
            if x[0] == "*":
                if ex.tape is None:
                    st = st.copy()
                    for nm in [nm for nm in st.cons if "[]" in nm]:
                        del st.cons[nm]
                y = TOP if x[1] in ("any",) or not isinstance(x[1], tuple) else x[1]
                y = ("*e", x[1]) if x[1] in ("B", "A") else y
                rest = ("iter", "seq", v, ("int", i))
                return [(st.copy(), rest, some(y))] + nexts(ex, st.copy(), ("iter", "seq", v, ("int", i + 1)))
            return [(st, ("iter", "seq", v, ("int", i + 1)), some(x))]
        return [(st, it, NONE)]
    if k in ("chars", "bytes", "char_indices"):
        v0, v = it[2], it[3]
        out = []
        for s, b in before(ex, st, v[1], v[2]):
            v1 = ex.fix(s, v)
            if not b:
                out.append((s, ex.fix(s, it), NONE))
                continue
            for s2, u in ex.know(s, v1[1]):
                if s2.toks[u][1] == "END":
                    out.append((s2, ex.fix(s2, it), NONE))
                    continue
                for s3, n in ex.succ(s2, u, "b" if k == "bytes" else "c"):
                    i2 = ex.fix(s3, it)
                    ch = ("ch", u, "b" if k == "bytes" else "c")
                    if k == "char_indices":
                        ch = ("tup", (mklin({u: 1, i2[2][1]: -1} if u != i2[2][1] else {}, 0), ch))
                    out.append((s3, ("iter", k, i2[2] if k == "char_indices" else ("s", n, n), ("s", n, i2[3][2])), some(ch)))
        return out
    if k == "const":
        i = it[3][1]
        w = it[2][1]
        if it[4] == "bytes":
            w = w.encode(errors="replace")
        if i >= len(w):
            return [(st, it, NONE)]
        x = ("int", w[i] if it[4] == "bytes" else ord(w[i]))
        if it[4] == "char_indices":
            x = ("tup", (("int", len(w[:i].encode(errors="replace"))), x))
        return [(st, it[:3] + (("int", i + 1),) + it[4:], some(x))]
    if k == "enum":
        out = []
        for s, i2, x in nexts(ex, st, it[2]):
            if x == NONE:
                out.append((s, ("iter", "enum", i2, it[3]), NONE))
            else:
                n = it[3]
                q = focus_pos(i2, x[3][0])
                if q is not None:
                    out.append((s, ("iter", "enum", i2, n), some(("tup", (("fpos", q), x[3][0])))))
                    continue
                m_ = ("int", n[1] + 1) if n[0] == "int" and n[1] < getattr(ex, "cap", 1) else ("ge", 1) if n[0] == "int" or n[0] == "ge" else TOP
                out.append((s, ("iter", "enum", i2, m_), some(("tup", (n, x[3][0])))))
        return out
    if k == "map":
        out = []
        for s, i2, x in nexts(ex, st, it[2]):
            if x == NONE:
                out.append((s, ("iter", "map", i2, ex.fix(s, it[3])), NONE))
            else:
                s = s.copy()
                s.cells["m:it%d" % len(ex.stack)] = ("tup", (i2, it[3]))
                for s2, y in ex.call_value(s, ex.fix(s, it[3]), [x[3][0]]):
                    c = ex.fix(s2, s2.cells.pop("m:it%d" % len(ex.stack)))
                    out.append((s2, ("iter", "map", c[1][0], c[1][1]), some(y)))
        return out
    if k in ("filter", "filter_map"):
        st = st.copy()
        cell = "m:ft%d" % len(ex.stack)
        st.cells[cell] = it

        def step(s):
            it = ex.fix(s, s.cells[cell])
            out = []
            for s2, i2, x in nexts(ex, s, it[2]):
                s2 = s2.copy()
                if x == NONE:
                    s2.cells.pop(cell)
                    out.append((s2, ("tup", (("iter", k, i2, it[3]), NONE))))
                    continue
                s2.cells[cell] = ("iter", k, i2, ex.fix(s2, it[3]))
                s2.cells[cell + "x"] = x
                ex.infilter = ex.__dict__.get("infilter", 0) + int(getattr(ex, "free", False))
                try:
                    ys = ex.call_value(s2, ex.fix(s2, it[3]), [x[3][0]])
                finally:
                    ex.infilter = 0
                for s3, y in ys:
                    s3 = s3.copy()
                    x3 = ex.fix(s3, s3.cells.pop(cell + "x"))
                    if k == "filter_map" and y[0] == "adt":
                        if y[2] == 1:
                            out.append((s3, ("tup", (ex.fix(s3, s3.cells.pop(cell)), y))))
                        else:
                            out.append((s3, None))
                    elif k == "filter":
                        for s4, b in ex.truth(s3, y):
                            s4 = s4.copy()
                            if b:
                                out.append((s4, ("tup", (ex.fix(s4, s4.cells.pop(cell)), x3))))
                            else:
                                out.append((s4, None))
                    else:
                        raise Unsupported("filter")
            return out
        return [(s, r[1][0], r[1][1]) for s, r in ex.loop(st, k, step)]
    raise Unsupported("iterator " + k)


@model("core::iter::traits::iterator::Iterator::next", "next")
def m_next(ex, st, path, c, args, t):
    r = args[0]
    if r[0] != "ref":
        return None
    it = ex.fix(st, ex.load(st, r))
    n = 0
    while it[0] == "ref" and n < 4:
        r = it
        it = ex.fix(st, ex.load(st, r))
        n += 1
    if it[0] == "adt" and "range::Range" in it[1]:
        return range_next(ex, st, r, it)
    if it[0] != "iter":
        return None
    out = []
    for s, i2, x in nexts(ex, st, it):
        s = s.copy()
        ex.store(s, r[1], r[2], i2)
        out.append((s, x))
    return out


def counted(ex, end):
    """how often something is repeated, for the rule about indentation"""
    c = getattr(ex, "counts", None)
    if c is not None:
        c.add((ex.where(), end))


def range_next(ex, st, r, it):
    counted(ex, it[3][1] if len(it[3]) == 2 and it[3][0] in (("int", 0), TOP) else TOP)
    if len(it[3]) == 2 and it[3][0][0] == "int" and it[3][1][0] == "int":
        if it[3][0][1] >= it[3][1][1]:
            return one(st, NONE)
        if it[3][1][1] <= getattr(ex, "cap", 0):
            s = st.copy()
            ex.store(s, r[1], r[2], ("adt", it[1], it[2], (("int", it[3][0][1] + 1),) + it[3][1:]))
            return one(s, some(it[3][0]))
    s1, s2 = st.copy(), st.copy()
    ex.store(s2, r[1], r[2], ("adt", it[1], it[2], (TOP,) + it[3][1:]))
    return [(s1, NONE), (s2, some(it[3][0] if it[3][0][0] != "int" or it[3][0][1] < 2 else TOP))]


@model("all", "any", "count", "position")
def m_consume(ex, st, path, c, args, t):
    n = path.rsplit("::", 1)[-1]
    it = args[0]
    if it[0] == "ref":
        it = ex.load(st, it)
        if it[0] == "ref":
            return None
    it = ex.fix(st, it)
    if it[0] != "iter" or it[1] == "repeat":
        return None
    if n == "count" and getattr(ex, "trilen", None):
        if it[1] == "seq" and it[3] == ("int", 0) and focused(it[2]):
            return one(st, ("symint", "len:" + ex.trilen))
        if it[1] == "filter" and it[2][0] == "iter" and it[2][1] == "seq" and it[2][3] == ("int", 0) and focused(it[2][2]):
            out = []
            for s, y in ex.call_value(st, it[3], [it[2][2][1][1]]):
                out += [(s2, ("symint", "len:" + ex.trilen if b else "of only some of the elements")) for s2, b in ex.truth(s, y)]
            return out
    if n == "count" and ex.tape is not None:
        return one(st, ("ge", 0))
    if n == "position" and getattr(ex, "freeeq", False) and it[1] == "seq" and it[2][0] in ("vec", "arr") and it[3] == ("int", 0) \
            and len(it[2][1]) < 6 and not any(x[0] == "*" for x in it[2][1]):
        cur, out = [st], []
        for i, x in enumerate(it[2][1]):
            nxt = []
            for s in cur:
                for s2, y in ex.call_value(s, args[1], [x]):
                    for s3, b in ex.truth(s2, y):
                        out.append((s3, some(("int", i)))) if b else nxt.append(s3)
            cur = nxt
        return out + [(s, NONE) for s in cur]
    if n in ("position",) or n == "count":
        return one(st, TOP)
    st = st.copy()
    cell = "m:al%d" % len(ex.stack)
    st.cells[cell] = ("tup", (it, args[1]))

    def step(s):
        v = ex.fix(s, s.cells[cell])
        out = []
        for s2, i2, x in nexts(ex, s, v[1][0]):
            s2 = s2.copy()
            if x == NONE:
                s2.cells.pop(cell)
                out.append((s2, ("int", int(n == "all"))))
                continue
            s2.cells[cell] = ("tup", (i2, ex.fix(s2, v[1][1])))
            for s3, y in ex.call_value(s2, ex.fix(s2, v[1][1]), [x[3][0]]):
                for s4, b in ex.truth(s3, y):
                    s4 = s4.copy()
                    if b == (n == "any"):
                        s4.cells.pop(cell)
                        out.append((s4, ("int", int(n == "any"))))
                    else:
                        out.append((s4, None))
        return out
    return ex.loop(st, n, step)


@model("for_each", "try_for_each")
def m_for_each(ex, st, path, c, args, t):
    it, f = ex.fix(st, args[0]), args[1]
    if it[0] == "ref":
        it = ex.fix(st, ex.load(st, it))
    if it[0] == "adt" or it[0] != "iter" or it[1] == "repeat":
        return None
    st = st.copy()
    cell = "m:fe%d" % len(ex.stack)
    st.cells[cell] = ("tup", (it, f))

    def step(s):
        v = ex.fix(s, s.cells[cell])
        out = []
        for s2, i2, x in nexts(ex, s, v[1][0]):
            s2 = s2.copy()
            if x == NONE:
                s2.cells.pop(cell)
                out.append((s2, UNIT if path.endswith("::for_each") else ok(UNIT)))
                continue
            s2.cells[cell] = ("tup", (i2, ex.fix(s2, v[1][1])))
            for s3, y in ex.call_value(s2, ex.fix(s2, v[1][1]), [x[3][0]]):
                if path.endswith("::for_each"):
                    out.append((s3, None))
                    continue
                if y[0] != "adt" or y[1] != RES:
                    raise Unsupported("try_for_each")
                s3 = s3.copy()
                if y[2] == 0:
                    out.append((s3, None))
                else:
                    s3.cells.pop(cell)
                    out.append((s3, y))
        return out
    return ex.loop(st, "for_each", step)


def vecref(ex, st, r):
    """the vector behind a reference"""
    n = 0
    while r[0] == "ref" and n < 4:
        v = ex.load(st, r)
        if v[0] != "ref":
            break
        r, n = v, n + 1
    if r[0] != "ref":
        return None, None
    v = ex.fix(st, ex.load(st, r))
    return (r, v) if v[0] == "vec" else (None, None)


@model("alloc::boxed::Box::new_uninit")
def m_uninit(ex, st, path, c, args, t):
    """vec![..] writes its elements through a box"""
    s = st.copy()
    cell = "bx:%d:%s" % (len(ex.stack), ex.cursp)
    s.cells[cell] = ("adt", "MaybeUninit", 0, (TOP, ("adt", "ManuallyDrop", 0, (TOP,))))
    return one(s, ("adt", "Box", 0, (("ref", cell, ()),)))


@model("alloc::boxed::box_assume_init_into_vec_unsafe")
def m_boxvec(ex, st, path, c, args, t):
    v = args[0]
    if v[0] != "adt" or v[1] != "Box" or v[3][0][0] != "ref":
        return None
    v = ex.fix(st, ex.load(st, v[3][0]))
    v = v[3][1][3][0] if v[0] == "adt" and v[1] == "MaybeUninit" and v[3][1][0] == "adt" else TOP
    return one(st, ("vec", v[1])) if v[0] in ("arr", "vec") else None


@model("reverse", "sort", "sort_by", "sort_by_key", "sort_by_cached_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "dedup", "dedup_by",
       "dedup_by_key", "truncate", "retain", "remove", "swap_remove", "split_off")
def m_inplace(ex, st, path, c, args, t):
    """vectors rearranged in place; an element in focus may move or go"""
    n = path.rsplit("::", 1)[-1]
    r, v = vecref(ex, st, args[0])
    if r is None:
        return None
    l = v[1]

    def put(x, res=UNIT, s=None):
        s = (s or st).copy()
        ex.store(s, r[1], r[2], ("vec", x))
        return (s, res)
    a = ex.deref(st, args[1]) if len(args) > 1 else TOP
    if n in ("remove", "split_off") and a[0] == "int" and len(l) > a[1] and not any(x[0] == "*" for x in l[:a[1] + (n == "remove")]):
        return [put(l[:a[1]] + l[a[1] + 1:], l[a[1]])] if n == "remove" else [put(l[:a[1]], ("vec", l[a[1]:]))]
    if n == "truncate" and a[0] == "int" and not any(x[0] == "*" for x in l):
        return [put(l[:a[1]])]
    if not getattr(ex, "free", False) or not focused(v):
        return None
    back = (l[2], l[1], l[0])
    if n == "reverse":
        return [put(back)]
    if n.startswith("sort"):
        return [put(l), put(back)]
    if n.startswith("dedup"):
        return [put(l), put((l[0], l[2]))]
    if n == "truncate" and a[0] == "int" and a[1] >= 16:
        return [put(l), put(l[:2]), put(l[:1])]
    if n == "retain":
        out = []
        ex.infilter = 1
        try:
            ys = ex.call_value(st, args[1], [l[1]])
        finally:
            ex.infilter = 0
        for s, y in ys:
            for s2, b in ex.truth(s, y):
                out.append(put(l if b else (l[0], l[2]), s=s2))
        return out
    return None


def collect_sifted(ex, st, l, fs):
    """as collect_focused, for elements that may be left out"""
    cur = [(st, ())]
    for k, x in enumerate((l[0][1], l[1], l[2][1])):
        nxt = []
        for s, acc in cur:
            vals = [(s, x)]
            for f in fs:
                nv = []
                for s1, v in vals:
                    if v is None:
                        nv.append((s1, v))
                    elif f[0] == "filter":
                        ex.infilter = 1
                        try:
                            ys = ex.call_value(s1, f[1], [v])
                        finally:
                            ex.infilter = 0
                        nv += [(s3, v if b else None) for s2, y in ys for s3, b in ex.truth(s2, y)]
                    elif f[0] == "filter_map":
                        for s2, y in ex.call_value(s1, f[1], [v]):
                            if y[0] != "adt":
                                raise Unsupported("filter_map")
                            nv.append((s2, y[3][0] if y[2] == 1 else None))
                    else:
                        nv += ex.call_value(s1, f, [v])
                vals = nv
            for s1, y in vals:
                nxt.append((s1, acc if y is None else acc + ((y if k == 1 else ("*", y)),)))
        cur = nxt
    return [(s, ("vec", acc)) for s, acc in cur]


def collect_focused(ex, st, l, fs, isres, isopt):
    """the elements before the one in focus, the one in focus, those behind: each kind goes through once"""
    out, cur = [], [(st, ())]
    for k, x in enumerate((l[0][1], l[1], l[2][1])):
        nxt = []
        for s, acc in cur:
            vals = [(s, x)]
            for f in fs:
                vals = [y for s1, v in vals for y in ex.call_value(s1, f, [v])]
            for s1, y in vals:
                if isres or isopt:
                    if y[0] != "adt":
                        out.append((s1.copy(), err() if isres else NONE))
                        y = TOP
                    elif y[2] != (0 if isres else 1):
                        out.append((s1, y))
                        continue
                    else:
                        y = y[3][0]
                if y[0] == "ref":
                    y = ex.load(s1, y)
                nxt.append((s1, acc + (y if k == 1 else ("*", y),)))
        cur = nxt
    for s, acc in cur:
        v = ("vec", acc)
        out.append((s, ok(v) if isres else some(v) if isopt else v))
    return out


@model("collect")
def m_collect(ex, st, path, c, args, t):
    it = ex.fix(st, ex.deref(st, args[0]))
    if it[0] != "iter":
        return None
    ts = ex.Tys[t[7]]["s"] if t is not None and len(t) > 7 and isinstance(t[7], int) else ""
    isres = ts.startswith("core::result::Result")
    isopt = ts.startswith("core::option::Option")
    if "String" in ts.split("<")[0]:
        return None
    if "Vec" not in ts:
        return None
    fs, src = [], it
    while src[1] in ("map", "filter", "filter_map") and (src[1] == "map" or getattr(ex, "free", False) and not isres and not isopt):
        fs.append((src[1], src[3]) if src[1] != "map" else src[3])
        src = src[2]
    if src[1] == "seq" and src[3] == ("int", 0) and focused(src[2]) and [x for x in fs if x[0] in ("filter", "filter_map")]:
        return collect_sifted(ex, st, src[2][1], fs[::-1])
    if src[1] == "seq" and src[3] == ("int", 0) and focused(src[2]) and (fs or not isres):
        return collect_focused(ex, st, src[2][1], fs[::-1], isres, isopt)
    st = st.copy()
    cell = "m:co%d" % len(ex.stack)
    st.cells[cell] = ("tup", (it, ("vec", ())))

    def step(s):
        v = ex.fix(s, s.cells[cell])
        out = []
        for s2, i2, x in nexts(ex, s, v[1][0]):
            s2 = s2.copy()
            acc = ex.fix(s2, v[1][1])
            if x == NONE:
                s2.cells.pop(cell)
                out.append((s2, ok(acc) if isres else some(acc) if isopt else acc))
                continue
            y = x[3][0]
            if isres or isopt:
                if y[0] == "adt":
                    good = 0 if isres else 1
                    if y[2] != good:
                        s2.cells.pop(cell)
                        out.append((s2, y))
                        continue
                    y = y[3][0]
                else:
                    s3 = s2.copy()
                    s3.cells.pop(cell)
                    out.append((s3, err() if isres else NONE))
                    y = TOP
            acc = ("vec", vpush(ex, s2, acc[1], y if y[0] != "*e" else ("*", y[1])))
            s2.cells[cell] = ("tup", (i2, acc))
            out.append((s2, None))
        return out
    return ex.loop(st, "collect", step)


# ---- Option / Result ------------------------------------------------------------------------------
def variant(ex, st, v, path):
    """make an unknown Option/Result definite: list of (st, adt)"""
    v = ex.deref(st, v)
    if v[0] == "adt":
        return [(st, v)]
    if v[0] == "sym" and path == OPT:
        s1, s2 = st.copy(), st.copy()
        k = "~v:" + v[1]
        out = []
        if st.cons.get(k, 0) == 0:
            s1.cons[k] = 0
            out.append((s1, NONE))
        if st.cons.get(k, 1) == 1:
            s2.cons[k] = 1
            out.append((s2, some(ex.symfield(v, 1, 0))))
        return out
    if path == OPT:
        return [(st.copy(), NONE), (st.copy(), some(TOP))]
    return [(st.copy(), ok(TOP)), (st.copy(), err())]


def oty(path):
    return RES if "result::Result" in path else OPT


@model("core::option::Option::ok_or_else", "core::option::Option::ok_or", "core::result::Result::map_err", "core::option::Option::unwrap_or",
       "core::option::Option::unwrap_or_else", "core::option::Option::and_then", "core::result::Result::and_then", "core::option::Option::or_else",
       "core::option::Option::unwrap_or_default", "core::option::Option::is_some", "core::option::Option::is_none", "core::result::Result::is_ok",
       "core::result::Result::is_err", "core::result::Result::ok", "core::option::Option::is_some_and", "core::result::Result::is_ok_and",
       "core::option::Option::map_or", "core::option::Option::unwrap", "core::option::Option::expect", "core::result::Result::unwrap",
       "core::result::Result::expect", "core::result::Result::unwrap_or", "core::option::Option::map", "core::result::Result::map",
       "core::option::Option::filter", "core::option::Option::is_none_or", "core::option::Option::or", "core::option::Option::take",
       "core::option::Option::map_or_else", "core::result::Result::unwrap_or_else", "core::result::Result::unwrap_or_default")
def m_opt(ex, st, path, c, args, t):
    n = path.rsplit("::", 1)[-1]
    ad = oty(path)
    out = []
    if n == "take":
        r = args[0]
        v = ex.load(st, r) if r[0] == "ref" else TOP
        s = st.copy()
        if r[0] == "ref":
            ex.store(s, r[1], r[2], NONE)
        return one(s, v)
    for s, v in variant(ex, st, args[0], ad):
        v = ex.fix(s, v)
        a = [ex.fix(s, x) for x in args]
        good = v[2] == (1 if ad == OPT else 0)
        x = v[3][0] if v[3] else TOP
        cv = lambda f, *b: ex.call_value(s, f, list(b))
        if n in ("ok_or_else", "ok_or"):
            out.append((s, ok(x) if good else err()))
        elif n == "map_err":
            out.append((s, v if good else err()))
        elif n == "ok":
            out.append((s, some(x) if good else NONE))
        elif n in ("unwrap_or",):
            out.append((s, x if good else a[1]))
        elif n in ("unwrap_or_default",):
            out.append((s, x if good else TOP))
        elif n == "unwrap_or_else":
            out += [(s, x)] if good else cv(a[1], *([x] if ad == RES else []))
        elif n == "and_then":
            out += cv(a[1], x) if good else [(s, v)]
        elif n == "or_else":
            out += [(s, v)] if good else cv(a[1], *([x] if ad == RES else []))
        elif n == "or":
            out.append((s, v if good else a[1]))
        elif n in ("is_some", "is_ok"):
            out.append((s, ("int", int(good))))
        elif n in ("is_none", "is_err"):
            out.append((s, ("int", int(not good))))
        elif n in ("is_some_and", "is_ok_and"):
            if not good:
                out.append((s, ("int", 0)))
            elif a[1][0] == "fn" and M.get(a[1][1].rsplit("::", 1)[-1]) is not None:
                out += ex.call(s, a[1][1], None, [x], None)
            else:
                out += cv(a[1], x)
        elif n == "is_none_or":
            out += cv(a[1], x) if good else [(s, ("int", 1))]
        elif n == "map_or":
            out += cv(a[2], x) if good else [(s, a[1])]
        elif n == "map_or_else":
            out += cv(a[2], x) if good else cv(a[1], *([x] if ad == RES else []))
        elif n == "map":
            out += [(s2, some(y) if ad == OPT else ok(y)) for s2, y in cv(a[1], x)] if good else [(s, v)]
        elif n == "filter":
            if not good:
                out.append((s, v))
            else:
                for s2, y in cv(a[1], x):
                    out += [(s3, ex.fix(s3, v) if b else NONE) for s3, b in ex.truth(s2, y)]
        elif n in ("unwrap", "expect"):
            if good:
                out.append((s, x))
    return out


@model("core::ops::try_trait::Try::branch", "branch")
def m_branch(ex, st, path, c, args, t):
    ts = ex.Tys[t[6][0]]["s"] if t is not None and len(t) > 6 and t[6] else ""
    ad = RES if "result::Result" in ts.split("<")[0] else OPT
    out = []
    v0 = ex.deref(st, args[0])
    if v0[0] == "adt":
        ad = v0[1]
    for s, v in variant(ex, st, v0, ad):
        good = v[2] == (1 if ad == OPT else 0)
        out.append((s, ("adt", CF, 0, (v[3][0],)) if good else ("adt", CF, 1, (v,))))
    return out


@model("core::ops::try_trait::FromResidual::from_residual", "from_residual")
def m_resid(ex, st, path, c, args, t):
    v = ex.deref(st, args[0])
    if v[0] == "adt" and v[1] == OPT:
        return one(st, NONE)
    if getattr(ex, "jsonq", False) and v[0] == "adt" and v[1] == RES and v[2] == 1 and v[3][0][0] == "mk":
        return one(st, v)
    return one(st, err())


@model("saturating_add", "saturating_sub", "saturating_mul", "max", "min")
def m_sat(ex, st, path, c, args, t):
    a, b = ex.deref(st, args[0]), ex.deref(st, args[1])
    n = path.rsplit("::", 1)[-1]
    if a[0] == "int" and b[0] == "int":
        f = {"saturating_add": a[1] + b[1], "saturating_sub": max(a[1] - b[1], 0), "saturating_mul": a[1] * b[1], "max": max(a[1], b[1]), "min": min(a[1], b[1])}
        return one(st, ("int", f[n]))
    if n in ("saturating_add", "saturating_mul") and ("symint" in (a[0], b[0]) or "symadd" in (a[0], b[0])):
        return one(st, symarith("Add" if n == "saturating_add" else "Mul", a, b))
    if n == "saturating_sub" and getattr(ex, "free", False) and a[0] == "symint" and b[0] in ("symint", "int") and a != b:
        return one(st, ("symint", "sub:%s:%s" % (a[1], b[1])))
    return one(st, TOP)


@model("core::mem::drop", "drop", "reserve")
def m_drop(ex, st, path, c, args, t):
    return one(st, UNIT)
