"""Transfer functions for core/alloc/std, by resolved path."""
import re
from .terms import *
from . import desugar
from . import state as S
from .state import State, Facts, Infeasible, ZERO, HOLE, variants, scal, evalb
from .engine import (Exit, Limit, mk_len, mk_elem, mk_not, mk_cmp, all_mrefs, contains_mref, tyu, shape_of, base_range, CTORS)

EMPTY = mk("tok", "empty")
OPT = "core::option::Option"
RES = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"
RANGES = {"core::ops::range::Range": "Range", "core::ops::range::RangeFrom": "RangeFrom", "core::ops::range::RangeTo": "RangeTo",
          "core::ops::range::RangeInclusive": "RangeInclusive", "core::ops::range::RangeFull": "RangeFull", "core::ops::range::RangeToInclusive": "RangeToInclusive"}


def seq(kind, n, summ, tok):
    return mk("seq", kind, n, summ, tok)


def cat(*pieces):
    out = []
    for p in pieces:
        if p[0] == "v":
            t = p[1]
            if t.op == "str":
                p = ("l", t.a[0])
            elif t.op == "cat":
                for q in t.a[0]:
                    out.append(q)
                continue
            elif t.op == "char":
                p = ("l", chr(t.a[0]))
        if p[0] == "c" and p[1].op == "char":
            p = ("l", chr(p[1].a[0]))
        if p[0] == "d" and p[1].op == "int":
            p = ("l", str(p[1].a[0]))
        if p[0] == "l":
            if not p[1]:
                continue
            if out and out[-1][0] == "l":
                out[-1] = ("l", out[-1][1] + p[1])
                continue
        out.append(p)
    if len(out) == 0:
        return strc("")
    if len(out) == 1:
        if out[0][0] == "l":
            return strc(out[0][1])
        if out[0][0] == "v":
            return out[0][1]
    return mk("cat", tuple(out))


def pieces(t):
    if t.op == "cat":
        return t.a[0]
    if t.op == "str":
        return (("l", t.a[0]),) if t.a[0] else ()
    return (("v", t),)


REBUILD["cat"] = None


# ---- string attributes -----------------------------------------------------------------
SUBSTR = ("trim", "trim_start", "trim_end", "substr", "splitpart", "strip", "remainder")


def allch(F, t, depth=0):
    """superset of the characters of string t, or None"""
    if t.op == "str":
        return rs(t.a[0]) if t.a[0] else ()
    r = F.cs.get(mk("app", "allch", t))
    if t.op == "cat":
        acc = ()
        for p in t.a[0]:
            q = piece_chars(F, p, depth)
            if q is None:
                return r
            acc = runion(acc, q)
        return acc if r is None else rinter(acc, r)
    if t.op == "app" and depth < 8:
        q = None
        if t.a[0] in SUBSTR:
            q = allch(F, t.a[1], depth + 1)
            if t.a[0] == "splitpart" and t.a[2].op == "char":
                q = rdiff(q or TOP, ((t.a[2].a[0],) * 2,))
        elif t.a[0] == "repeat":
            q = allch(F, t.a[1], depth + 1)
        elif t.a[0] == "lower" or t.a[0] == "upper":
            q = None
        elif t.a[0] == "numstr":
            q = rs("0123456789-+.eE")
        elif t.a[0] == "join":
            a = elem_chars(F, t.a[1])
            b = allch(F, t.a[2], depth + 1)
            if a is not None and b is not None:
                q = runion(a, b)
        if q is not None:
            return q if r is None else rinter(q, r)
    if r is None:
        v = S.lookup_all(F, "cs", mk("app", "allch", t))
        if v is not None:
            return v
    return r


def elem_chars(F, coll):
    if coll.op == "seq":
        return coll.a[2][1] if coll.a[2] and coll.a[2][0] == "S" else None
    return S.lookup_all(F, "cs", mk("app", "allch", mk("app", "elem", coll, HOLE)))


DISPCH = rs("0123456789-+.eE")


def piece_chars(F, p, depth=0):
    if p[0] == "l":
        return rs(p[1])
    if p[0] == "v":
        return allch(F, p[1], depth + 1)
    if p[0] == "c":
        r = scal(F, p[1])
        return r
    if p[0] == "d":
        ty = p[1].ty
        if ty and re.match(r"^[ui](8|16|32|64|128|size)$", ty):
            return DISPCH
        if ty in ("f64", "f32"):
            return rs("0123456789-+.eEinfNa")
        if ty == "bool":
            return rs("truefalse")
        return None
    if p[0] == "rep":
        acc = ()
        for q in p[1]:
            if q[0] == "l":
                acc = runion(acc, rs(q[1]))
            elif q[0] == "s":
                if q[1] is None:
                    return None
                acc = runion(acc, q[1])
        return acc
    if p[0] == "x":   # hex of an integer
        return rs("0123456789abcdef")
    return None


def summarise(F, p):
    """symbol-free summary set of a piece"""
    if p[0] == "rep":
        return p[1]
    if p[0] == "l":
        return frozenset((("l", p[1]),))
    return frozenset((("s", piece_chars(F, p)),))


def joincat(a, b, FA, FB, phi):
    pa, pb = pieces(a), pieces(b)
    i = 0
    while i < len(pa) and i < len(pb) and pa[i] == pb[i] and pa[i][0] == "l":
        i += 1
    acc = frozenset()
    for p in pa[i:]:
        acc |= summarise(FA, p)
    for p in pb[i:]:
        acc |= summarise(FB, p)
    acc = norm_rep(acc)
    return mk("cat", pa[:i] + (("rep", acc, phi),))


def norm_rep(acc):
    """merge the non-literal members into one; keep literals"""
    lits = {q for q in acc if q[0] == "l"}
    if len(lits) > 24:
        u = ()
        for q in lits:
            u = runion(u, rs(q[1]))
        acc = (acc - lits) | {("s", u)}
    ss = [q for q in acc if q[0] == "s"]
    if len(ss) > 1:
        u = ()
        for q in ss:
            if q[1] is None:
                u = None
                break
            u = runion(u, q[1])
        acc = frozenset(q for q in acc if q[0] != "s") | {("s", u)}
    return frozenset(acc)


def scalar_attr(F, t):
    """value of a string attribute term app(attr, s)"""
    if t.op != "app":
        return None
    if t.a[0] == "allch":
        return allch(F, t.a[1])
    r = scal(F, t)
    if r is not None:
        return r
    if t.a[0] in ("first", "last"):
        s = t.a[1]
        if s.op == "str":
            return rs(s.a[0][0] if t.a[0] == "first" else s.a[0][-1]) if s.a[0] else None
        if s.op == "cat":
            p = s.a[0][0 if t.a[0] == "first" else -1]
            if p[0] == "l":
                return rs(p[1][0] if t.a[0] == "first" else p[1][-1])
        a = allch(F, s)
        return a
    return None


def no_byte(F, t, one):
    """the substring t = s[0..E] holds none of the ASCII bytes `one`: consequences for single bytes of s"""
    if not one or t.op != "app" or t.a[0] != "substr" or t.a[2] is not ZERO:
        return
    s, E = t.a[1], t.a[3]
    k = mk("app", "pfx", s, E)
    p = S.pfx_of(F, s, E)
    if p is not None:
        F.cs[k] = rdiff(p, one)
    b = mk("app", "bytes", s)
    at = scal(F, mk("app", "elem", b, E))
    past = F.le(mk_len(s), E)
    for q in list(F.cs):
        if q.op == "app" and q.a[0] == "pfx" and q.a[1] is s:
            i = q.a[2]
            # i < E: no such byte; E < i: byte E lies in what precedes i, excluded when disjoint; E = i: byte E itself
            if F.le(i, E, -1) or past or (at is not None and not rinter(at, one) and (F.le(i, E) or not rinter(at, F.cs[q]))):
                e = mk("app", "elem", b, i)
                cur = scal(F, e)
                F.cs[e] = rdiff(cur if cur is not None else ((0, 255),), one)


def lead_has(F, t, one):
    """one of `one` occurs in t = s[0..E], which holds only bytes of K: it occurs in the leading run of K-bytes of s"""
    if t.op == "app" and t.a[0] == "substr" and t.a[2] is ZERO:
        p = S.pfx_of(F, t.a[1], t.a[3])
        if p is not None:
            F.at[mk("app", "leadhas", t.a[1], strc(repr(one)), strc(repr(p)))] = True


ASCII = ((0, 127),)


def cls_bytes(r):
    """(bytes that occur in chars of class r, bytes that can start a char outside r or are outside r)"""
    a = rinter(r, ASCII)
    hi = rdiff(((128, 0x10FFFF),), r)
    inb = a if not rinter(r, ((128, 0x10FFFF),)) else runion(a, ((128, 255),))
    outb = rdiff(ASCII, a)
    if hi:
        outb = runion(outb, ((128, 255),))
    return inb, outb


def byte_cls(r):
    """a class of bytes as a class of chars, when that makes sense: all or none of 128..=255"""
    if not rinter(r, ((128, 255),)):
        return r
    if not rdiff(((128, 255),), r):
        return runion(rinter(r, ASCII), ((128, 0x10FFFF),))
    return None


def span(F, s, r):
    """length of the longest prefix of s made of chars of class r"""
    p = tyu(mk("app", "span", s, mk("cset", r)))
    F.add_le(p, mk_len(s), 0)
    span_facts(F, s, p, r)
    return p


def span_facts(F, s, p, r):
    inb, outb = cls_bytes(r)
    F.cs[mk("app", "pfx", s, p)] = inb
    e = mk("app", "elem", mk("app", "bytes", s), p)
    cur = F.cs.get(e)
    F.cs[e] = outb if cur is None else rinter(cur, outb)


def str_base(it):
    """the string an iterator walks from its start, as ('c'|'b', s)"""
    if it.op == "it":
        if it.a[0] in ("chars", "bytes") and it.a[2] is ZERO:
            return it.a[0][0], it.a[1]
        if it.a[0] == "slice" and it.a[2] is ZERO and it.a[1].op == "app" and it.a[1].a[0] == "bytes" and it.a[3] is mk_len(it.a[1]):
            return "b", it.a[1].a[1]
    return None


def substr_of(F, s, lo, hi):
    if lo is ZERO and hi is mk_len(s):
        return s
    t = app("substr", s, lo, hi)
    t.ty = "str"
    F.add_eq(mk_len(t), sub(hi, lo))
    return t


# ---- sequence summaries -----------------------------------------------------------------
def elem_summary(F, v):
    """symbol-free abstraction of a pushed element"""
    if v.op in ("str", "cat") or v.ty in ("str", "alloc::string::String"):
        return ("S", allch(F, v))
    return None


def join_summ(a, b):
    if a == b:
        return a
    if a == "bot":
        return b
    if b == "bot":
        return a
    if a and b and a[0] == "S" and b[0] == "S":
        if a[1] is None or b[1] is None:
            return ("S", None)
        return ("S", runion(a[1], b[1]))
    return None


def seqjoin(kind, a, b, FA, FB):
    return join_summ(a, b)


S.SEQJOIN[0] = seqjoin


class Models:
    def __init__(self):
        self.scalar_attr = scalar_attr
        self.push_hooks = []
        self.vec_new = None
        self.vec_param = None

    # ------------------------------------------------------------ engine callbacks
    def on_variant(self, eng, st, t, vi, path):
        pass

    def gen_seq(self, gen, cur, path):
        """generalised vector: unknown length, contents named by a token"""
        sm = cur.a[2] if cur.a[2] != "bot" else None
        return seq(cur.a[0], gen.insym(cur.a[1], path + ("n",), "usize"), sm, gen.insym(cur.a[3], path + ("t",)))

    def param_value(self, eng, ti, name):
        t = eng.T[ti]
        while t["k"] in ("ref", "ptr") or (t["k"] == "adt" and t["p"] == "alloc::boxed::Box"):
            ti = t["a"][0]
            t = eng.T[ti]
        if self.vec_param is not None:
            v = self.vec_param(eng, ti, name)
            if v is not None:
                return v
        if t["k"] == "tuple":
            return mk("tup", tuple(self.param_value(eng, a, name + (i,)) for i, a in enumerate(t["a"])))
        if t["k"] == "adt":
            a = eng.prog.adts.get(t["p"])
            if a and a.get("local") and a["kind"] == "struct" and len(name) < 8 and all(f[1] is not None for f in a["v"][0]["f"]):
                return mk("adt", t["p"], 0, tuple(self.param_value(eng, f[1], name + (f[0],)) for f in a["v"][0]["f"]))
        if t["k"] == "bool":
            return sym(name, "bool")
        return sym(name, t["s"])

    def fold_pending(self, eng, st):
        """move the facts about the element an iterator handed out last into what it has seen"""
        new = None
        for k, v in st.cells.items():
            w = self._fold(eng, st, v)
            if w is not v:
                if new is None:
                    new = st.copy()
                new.cells[k] = w
        return new

    def _fold(self, eng, st, v):
        if v.op == "it":
            k = v.a[0]
            if k in ("chars", "bytes", "charidx"):
                _, s, pos, cset, pend = v.a
                if pend.op != "tup":
                    r = scal(st.F, pend)
                    if r is None:
                        r = base_range(pend)
                    return mk("it", k, s, pos, mk("cset", runion(cset.a[0], r)), UNIT)
                return v
            if k == "slice":
                _, coll, pos, end, aset, pend = v.a
                if pend.op != "tup":
                    return mk("it", k, coll, pos, end, mk("aset", aset_join(aset.a[0], elem_facts(st, pend))), UNIT)
                return v
            subs = []
            ch = False
            for x in v.a:
                if isinstance(x, Term):
                    y = self._fold(eng, st, x)
                    ch |= y is not x
                    subs.append(y)
                else:
                    subs.append(x)
            return mk("it", *subs) if ch else v
        if v.op in ("adt", "tup"):
            fs = v.a[2] if v.op == "adt" else v.a[0]
            if any(x.op == "it" for x in fs):
                nf = tuple(self._fold(eng, st, x) for x in fs)
                if nf != fs:
                    return mk("adt", v.a[0], v.a[1], nf) if v.op == "adt" else mk("tup", nf)
        return v

    def assume(self, eng, st, t, truth):
        """conditions with string content"""
        f = t.a[0]
        F = st.F
        if f == "contains" and t.a[2].op in ("char",):
            s, c = t.a[1], t.a[2]
            cur = allch(F, s)
            one = ((c.a[0], c.a[0]),)
            if cur is not None and not rinter(cur, one):
                return [] if truth else [st]
            if not truth:
                F.cs[mk("app", "allch", s)] = rdiff(cur if cur is not None else TOP, one)
                no_byte(F, s, one)
            else:
                lead_has(F, s, one)
                F.at[t] = True
                F.add_le(intc(1), mk_len(s), 0)
            return [st]
        if f == "containscls":
            s, r = t.a[1], t.a[2]
            cur = allch(F, s)
            if cur is not None and not rinter(cur, r):
                return [] if truth else [st]
            if not truth:
                F.cs[mk("app", "allch", s)] = rdiff(cur if cur is not None else TOP, r)
                no_byte(F, s, rinter(r, ((0, 127),)))
            else:
                lead_has(F, s, r)
                F.at[t] = True
            return [st]
        if f in ("starts_with", "ends_with") and t.a[2].op in ("char", "str"):
            s, p = t.a[1], t.a[2]
            attr = mk("app", "first" if f == "starts_with" else "last", s)
            if p.op == "char":
                one = ((p.a[0], p.a[0]),)
                cur = scalar_attr(F, attr)
                if truth:
                    if cur is not None and not rinter(cur, one):
                        return []
                    F.cs[attr] = one
                    F.add_le(intc(1), mk_len(s), 0)
                else:
                    F.cs[attr] = rdiff(cur if cur is not None else TOP, one)
                F.at[t] = truth
                return [st]
            F.at[t] = truth
            if truth and p.a[0]:
                ch = ord(p.a[0][0] if f == "starts_with" else p.a[0][-1])
                cur = scalar_attr(F, attr)
                if cur is not None and not rinter(cur, ((ch, ch),)):
                    return []
                F.cs[attr] = ((ch, ch),)
                F.add_le(intc(len(p.a[0].encode())), mk_len(s), 0)
            elif not truth and len(p.a[0]) == 1:
                cur = scalar_attr(F, attr)
                F.cs[attr] = rdiff(cur if cur is not None else TOP, ((ord(p.a[0]),) * 2,))
            return [st]
        if f == "eq":
            a, b = t.a[1], t.a[2]
            for x, y in ((a, b), (b, a)):
                if x.op == "str" and y.op in ("sym", "app", "fld", "cat"):
                    if truth:
                        cur = allch(F, y)
                        if cur is not None and x.a[0] and not rsub(rs(x.a[0]), cur):
                            return []
                        F.cs[mk("app", "allch", y)] = rs(x.a[0]) if x.a[0] else ()
                        F.add_eq(mk_len(y), mk_len(x))
                        if x.a[0]:
                            for at, ch in (("first", x.a[0][0]), ("last", x.a[0][-1])):
                                cur = scalar_attr(F, mk("app", at, y))
                                if cur is not None and not rinter(cur, rs(ch)):
                                    return []
                                F.cs[mk("app", at, y)] = rs(ch)
                if x.op == "app" and x.a[0] in ("trim", "trim_start", "trim_end") and x.a[1] is y and truth:
                    for at in {"trim": ("first", "last"), "trim_start": ("first",), "trim_end": ("last",)}[x.a[0]]:
                        k = mk("app", at, y)
                        cur = scalar_attr(F, k)
                        F.cs[k] = rdiff(cur if cur is not None else TOP, WS)
            F.at[t] = truth
            return [st]
        return None

    # ------------------------------------------------------------ dispatch
    def call(self, eng, st, path, c, args, site):
        name = path.rsplit("::", 1)[-1]
        key = norm(path)
        f = TABLE.get(key)
        if f is None:
            f = METHODS.get(name)
        if f is None:
            return None
        r = f(self, eng, st, path, c, args, site)
        return r


def norm(path):
    return path


def one(ret, st):
    return [Exit(ret, st)]


TABLE = {}
METHODS = {}


def model(*names):
    def deco(f):
        for n in names:
            if "::" in n:
                TABLE[n] = f
            else:
                METHODS[n] = f
        return f
    return deco


def V(eng, st, a):
    return eng.load(st, a) if a.op == "mref" else a


# ---- aset: facts true of every element seen so far ------------------------------------------
def elem_facts(st, e):
    """facts in st about terms built on element e, with e replaced by HOLE"""
    out = set()
    F = st.F
    for t, v in F.var.items():
        if mentions(t, e):
            out.add(("var", subst(t, {e: HOLE}), v))
    for t, v in F.cs.items():
        if mentions(t, e):
            out.add(("cs", subst(t, {e: HOLE}), v))
    for t, v in F.at.items():
        if mentions(t, e):
            out.add(("at", subst(t, {e: HOLE}), v))
    es = e.syms
    # facts that also mention other changing symbols are fine: they are terms of this state
    return frozenset(out)


def mentions(t, e, d=0):
    if t is e:
        return True
    if d > 10:
        return False
    if e.syms and not (e.syms <= t.syms):
        return False
    for x in t.a:
        if isinstance(x, Term):
            if mentions(x, e, d + 1):
                return True
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, Term) and mentions(y, e, d + 1):
                    return True
    return False


def aset_join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a == b:
        return a
    d = {(k, p): v for k, p, v in b}
    out = set()
    for k, p, v in a:
        w = d.get((k, p))
        if w is None:
            continue
        if k == "var":
            out.add((k, p, v | w))
        elif k == "cs":
            out.add((k, p, runion(v, w)))
        elif v == w:
            out.add((k, p, v))
    return frozenset(out)


S.ASETJOIN[0] = aset_join


class _OnlyF:
    __slots__ = ("F",)

    def __init__(self, F):
        self.F = F


S.FOLD[0] = lambda F, v: Models._fold(None, None, _OnlyF(F), v)
S.CATJOIN[0] = joincat


# ---- identity-like ---------------------------------------------------------------------
@model("clone", "to_string", "to_owned", "as_str", "deref", "as_ref", "borrow", "as_slice", "must_use", "to_path_buf",
       "into_boxed_slice", "into_boxed_str", "into_string", "as_deref", "cloned", "copied", "as_mut_slice", "by_ref",
       "into_owned", "to_vec", "into_vec", "as_os_str", "as_path", "into_pin", "as_mut_str", "black_box", "identity", "into_inner_string")
def m_ident(M, eng, st, path, c, args, site):
    name = path.rsplit("::", 1)[-1]
    if name in ("by_ref", "as_mut_slice"):
        return one(args[0], st)
    v = V(eng, st, args[0])
    if name == "to_string":
        ty = v.ty or ""
        tt = eng.tyname(site.argtys[0]) if site.argtys else ""
        if v.op in ("str", "cat") or tt in ("str", "alloc::string::String", "alloc::borrow::Cow<'_, str>") or "Cow" in (tt or "") or ty in ("str", "alloc::string::String"):
            return one(v, st)
        if v.op == "char" or tt == "char":
            return one(cat(("c", v)), st)
        if v.op == "bool":
            return one(strc("true" if v.a[0] else "false"), st)
        if tt and re.match(r"^[ui](8|16|32|64|128|size)$|^f(32|64)$|^bool$", tt):
            eng.typed(v, site.argtys[0])
            r = cat(("d", v))
            return one(r, st)
        # Display of some other type
        r = app("disp", v)
        if r.ty is None:
            r.ty = "alloc::string::String"
        return one(r, st)
    if name == "cloned" or name == "copied":
        if v.op == "it":
            return one(v, st)
    if v.op == "it" and name in ("clone",):
        return one(v, st)
    if name == "as_ref" and v.op == "mref":
        return one(v, st)
    return one(v, st)


@model("deref_mut", "as_mut", "borrow_mut", "get_mut_unchecked")
def m_mutident(M, eng, st, path, c, args, site):
    a = args[0]
    if path.rsplit("::", 1)[-1] == "as_mut":
        v = V(eng, st, a)
        if v.op == "adt" and v.a[0] == OPT:
            if v.a[1] == 0:
                return one(NONE, st)
            if a.op == "mref":
                return one(some(mk("mref", a.a[0], a.a[1] + (("f", 1, 0),))), st)
        if a.op == "mref" and (site.destty is not None and eng.T[site.destty].get("p") == OPT):
            return split_opt(eng, st, v, lambda s: some(mk("mref", a.a[0], a.a[1] + (("f", 1, 0),))), lambda s: NONE)
    return one(a, st)


def split_variant(eng, st, v, path, n):
    """[(vi, fields fn, state)] for a symbolic or constructed enum value"""
    if v.op == "adt" and v.a[0] == path:
        return [(v.a[1], v, st)]
    out = []
    cur = variants(st.F, v)
    if cur is None:
        cur = range(n)
    if v.ty is None:
        pass
    for vi in sorted(cur):
        for s in eng.assume_var(st.copy(), v, frozenset((vi,)), True, path):
            out.append((vi, v, s))
    return out


def payload(eng, st, v, vi):
    return eng.field(st, v, vi, 0)


def split_opt(eng, st, v, fsome, fnone):
    out = []
    for vi, x, s in split_variant(eng, st, v, OPT, 2):
        out.append(Exit(fsome(s) if vi == 1 else fnone(s), s))
    return out


# ---- Option / Result --------------------------------------------------------------------
def kind_of(v, path):
    if v.op == "adt":
        return v.a[0]
    if "result::Result" in path:
        return RES
    if "option::Option" in path:
        return OPT
    if v.ty and v.ty.startswith("core::result::Result"):
        return RES
    return OPT


def okidx(kind):
    return 1 if kind == OPT else 0


def ctor(kind, good, x=None):
    if kind == OPT:
        return some(x) if good else NONE
    return okv(x) if good else errv(x)


@model("is_some", "is_ok", "is_none", "is_err")
def m_is(M, eng, st, path, c, args, site):
    v = V(eng, st, args[0])
    n = path.rsplit("::", 1)[-1]
    kind = OPT if n in ("is_some", "is_none") else RES
    want = {"is_some": 1, "is_none": 0, "is_ok": 0, "is_err": 1}[n]
    vs = variants(st.F, v)
    if vs is not None and len(vs) == 1:
        return one(boolc(next(iter(vs)) == want), st)
    return one(app("isvar", v, want, kind), st)


@model("map", "and_then", "map_err", "or_else", "filter", "inspect", "is_some_and", "is_ok_and", "is_none_or")
def m_map(M, eng, st, path, c, args, site):
    n = path.rsplit("::", 1)[-1]
    v = V(eng, st, args[0])
    if v.op == "it" or "iterator::Iterator" in path:
        return m_itadapter(M, eng, st, path, c, args, site)
    if not ("option::Option" in path or "result::Result" in path):
        return None
    kind = kind_of(v, path)
    out = []
    for vi, x, s in split_variant(eng, st, v, kind, 2):
        good = vi == okidx(kind)
        if n in ("is_some_and", "is_ok_and"):
            out += eng.call_value(args[1], [payload(eng, s, x, vi)], s, site) if good else one(FALSE, s)
        elif n == "is_none_or":
            out += eng.call_value(args[1], [payload(eng, s, x, vi)], s, site) if good else one(TRUE, s)
        elif n == "map":
            if good:
                for e in eng.call_value(args[1], [payload(eng, s, x, vi)], s, site):
                    out.append(Exit(ctor(kind, True, e.ret), e.st))
            else:
                out.append(Exit(NONE if kind == OPT else errv(payload(eng, s, x, vi)), s))
        elif n == "and_then":
            if good:
                out += eng.call_value(args[1], [payload(eng, s, x, vi)], s, site)
            else:
                out.append(Exit(NONE if kind == OPT else errv(payload(eng, s, x, vi)), s))
        elif n == "map_err":
            if good:
                out.append(Exit(okv(payload(eng, s, x, vi)), s))
            else:
                for e in eng.call_value(args[1], [payload(eng, s, x, vi)], s, site):
                    out.append(Exit(errv(e.ret), e.st))
        elif n == "or_else":
            if good:
                out.append(Exit(ctor(kind, True, payload(eng, s, x, vi)), s))
            else:
                out += eng.call_value(args[1], [] if kind == OPT else [payload(eng, s, x, vi)], s, site)
        elif n == "filter":
            if good:
                p = payload(eng, s, x, vi)
                for e in eng.call_value(args[1], [p], s, site):
                    for b in (True, False):
                        for s3 in eng.assume(e.st.copy(), e.ret, b):
                            out.append(Exit(some(p) if b else NONE, s3))
            else:
                out.append(Exit(NONE, s))
        else:
            out.append(Exit(v, s))
    return out


@model("unwrap_or", "unwrap_or_else", "unwrap_or_default", "map_or", "map_or_else", "ok_or", "ok_or_else", "ok", "err", "or", "xor",
       "unwrap", "expect", "unwrap_unchecked", "unwrap_err", "expect_err", "flatten", "transpose", "and", "zip_opt", "is_some_or")
def m_unwrap(M, eng, st, path, c, args, site):
    n = path.rsplit("::", 1)[-1]
    if not ("option::Option" in path or "result::Result" in path):
        if n == "flatten":
            return m_itadapter(M, eng, st, path, c, args, site)
        return None
    v = V(eng, st, args[0])
    kind = kind_of(v, path)
    out = []
    for vi, x, s in split_variant(eng, st, v, kind, 2):
        good = vi == okidx(kind)
        p = None
        if good or kind == RES:
            p = payload(eng, s, x, vi)
        if n == "unwrap_or":
            out.append(Exit(p if good else args[1], s))
        elif n == "unwrap_or_else":
            out += one(p, s) if good else eng.call_value(args[1], [] if kind == OPT else [p], s, site)
        elif n == "unwrap_or_default":
            out.append(Exit(p if good else default_of(eng, site.destty), s))
        elif n == "map_or":
            out += eng.call_value(args[2], [p], s, site) if good else one(args[1], s)
        elif n == "map_or_else":
            out += eng.call_value(args[2], [p], s, site) if good else eng.call_value(args[1], [] if kind == OPT else [p], s, site)
        elif n == "ok_or":
            out.append(Exit(okv(p) if good else errv(args[1]), s))
        elif n == "ok_or_else":
            out += one(okv(p), s) if good else [Exit(errv(e.ret), e.st) for e in eng.call_value(args[1], [], s, site)]
        elif n == "ok":
            out.append(Exit(some(p) if good else NONE, s))
        elif n == "err":
            out.append(Exit(NONE if good else some(p), s))
        elif n == "or":
            out.append(Exit(ctor(kind, True, p) if good else args[1], s))
        elif n == "and":
            out.append(Exit(args[1] if good else (NONE if kind == OPT else errv(p)), s))
        elif n in ("unwrap", "expect", "unwrap_unchecked"):
            if good:
                out.append(Exit(p, s))
            else:
                eng.models.on_panic(eng, s, n, site)
        elif n in ("unwrap_err", "expect_err"):
            if not good:
                out.append(Exit(p, s))
            else:
                eng.models.on_panic(eng, s, n, site)
        elif n == "flatten":
            out.append(Exit(p if good else NONE, s))
        elif n == "transpose":
            if kind == OPT:
                if not good:
                    out.append(Exit(okv(NONE), s))
                else:
                    for v2, x2, s2 in split_variant(eng, s, p, RES, 2):
                        q = payload(eng, s2, x2, v2)
                        out.append(Exit(okv(some(q)) if v2 == 0 else errv(q), s2))
            elif not good:
                out.append(Exit(some(errv(p)), s))
            else:
                for v2, x2, s2 in split_variant(eng, s, p, OPT, 2):
                    out.append(Exit(some(okv(payload(eng, s2, x2, 1))) if v2 == 1 else NONE, s2))
        else:
            return None
    return out


def _nopanic(self, eng, st, what, site):
    h = getattr(eng.pl, "on_panic", None)
    if h:
        h(eng, st, what, site)


Models.on_panic = _nopanic


def default_of(eng, ti):
    if ti is None:
        return sym(("K", "default"))
    t = eng.T[ti]
    s = t["s"]
    if s in ("alloc::string::String", "str"):
        return strc("")
    if t["k"] == "int":
        return intc(0)
    if t["k"] == "bool":
        return FALSE
    if t["k"] == "adt" and t["p"] == OPT:
        return NONE
    if t["k"] == "adt" and t["p"] == "alloc::vec::Vec":
        return seq("v", ZERO, "bot", EMPTY)
    if t["k"] == "adt":
        for bid, b in eng.prog.bodies.items():
            if bid.startswith("<" + t["p"]) and bid.endswith("core::default::Default>::default"):
                ex = eng.run_body(b, [], State(), -1, bid)
                if len(ex) == 1 and not ex[0].ret.syms:
                    return ex[0].ret
    return sym(("K", "default", s), s)


@model("default")
def m_default(M, eng, st, path, c, args, site):
    return one(default_of(eng, site.destty), st)


@model("branch")
def m_branch(M, eng, st, path, c, args, site):
    v = args[0]
    kind = kind_of(v, path)
    out = []
    for vi, x, s in split_variant(eng, st, v, kind, 2):
        if vi == okidx(kind):
            out.append(Exit(mk("adt", CF, 0, (payload(eng, s, x, vi),)), s))
        else:
            r = NONE if kind == OPT else errv(payload(eng, s, x, vi))
            out.append(Exit(mk("adt", CF, 1, (r,)), s))
    return out


@model("from_residual")
def m_residual(M, eng, st, path, c, args, site):
    v = args[0]
    if v.op == "adt" and v.a[0] == RES and v.a[1] == 1:
        e = v.a[2][0]
        # the From conversion of `?`
        if site.destty is not None:
            dt = eng.T[site.destty]
            if dt["k"] == "adt" and dt["p"] == RES:
                to = eng.T[dt["a"][1]]
                frm = e.ty
                if e.op == "adt":
                    frm = e.a[0]
                if to["k"] == "adt" and frm and frm.split("<")[0] != to["p"] and site.argtys:
                    at = eng.T[site.argtys[0]]
                    et = eng.T[at["a"][1]] if at.get("a") and len(at["a"]) > 1 else None
                    if et is not None and et["s"] != to["s"]:
                        bid = f"<{to['p']} as core::convert::From<{et['s']}>>::from"
                        b = eng.prog.bodies.get(bid)
                        if b is not None:
                            return [Exit(errv(x.ret), x.st) for x in eng.call_body(b, [e], st, site)]
                        return one(errv(app("from", e)), st)
        return one(v, st)
    return one(v, st)


@model("from_output")
def m_output(M, eng, st, path, c, args, site):
    return one(some(args[0]) if "option::Option" in path else okv(args[0]), st)


@model("take")
def m_take(M, eng, st, path, c, args, site):
    if "option::Option" in path and args[0].op == "mref":
        v = V(eng, st, args[0])
        eng.store(st, args[0], NONE)
        return one(v, st)
    if "mem::take" in path and args[0].op == "mref":
        v = V(eng, st, args[0])
        eng.store(st, args[0], default_of(eng, site.destty))
        return one(v, st)
    if args[0].op == "it" or "iterator::Iterator" in path:
        return m_itadapter(M, eng, st, path, c, args, site)
    return None


@model("core::mem::replace")
def m_replace(M, eng, st, path, c, args, site):
    v = V(eng, st, args[0])
    eng.store(st, args[0], args[1])
    return one(v, st)


@model("core::mem::swap")
def m_swap(M, eng, st, path, c, args, site):
    a, b = V(eng, st, args[0]), V(eng, st, args[1])
    eng.store(st, args[0], b)
    eng.store(st, args[1], a)
    return one(UNIT, st)


@model("core::mem::drop", "core::mem::forget")
def m_drop(M, eng, st, path, c, args, site):
    return one(UNIT, st)


# ---- comparison -----------------------------------------------------------------------
def value_eq(eng, st, a, b):
    a, b = V(eng, st, a), V(eng, st, b)
    if a is b:
        return TRUE
    if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        if not a.a[2]:
            return TRUE
        r = TRUE
        for x, y in zip(a.a[2], b.a[2]):
            e = value_eq(eng, st, x, y)
            if e is FALSE:
                return FALSE
            if r is TRUE:
                r = e
            elif e is not TRUE:
                r = app("band", r, e)
        return r
    for x, y in ((a, b), (b, a)):
        if x.op == "adt" and y.op in ("sym", "app", "fld"):
            vs = variants(st.F, y)
            if vs is not None and x.a[1] not in vs:
                return FALSE
            if not x.a[2] and S.NVAR.get(x.a[0]):
                if vs is not None and len(vs) == 1:
                    return TRUE
                return app("isvar", y, x.a[1], x.a[0])
            if len(x.a[2]) == 1 and S.NVAR.get(x.a[0], 0) > 1:
                p = eng.field(st, y, x.a[1], 0)
                e = value_eq(eng, st, x.a[2][0], p)
                return app("band", app("isvar", y, x.a[1], x.a[0]), e)
    if a.op in ("int", "lin", "char", "bool") or b.op in ("int", "lin", "char", "bool"):
        return mk_cmp("Eq", a, b)
    ty = a.ty or b.ty
    if ty and re.match(r"^([ui](8|16|32|64|128|size)|char|bool)$", ty):
        return mk_cmp("Eq", a, b)
    if a.op == "str" and b.op == "str":
        return boolc(a.a[0] == b.a[0])
    for x, y in ((a, b), (b, a)):
        if x.op == "str" and x.a[0] == "" and y.op != "adt":
            return mk_cmp("Eq", mk_len(y), ZERO)
    if a.id > b.id:
        a, b = b, a
    return app("eq", a, b)


@model("eq", "ne")
def m_eq(M, eng, st, path, c, args, site):
    r = value_eq(eng, st, args[0], args[1])
    if path.rsplit("::", 1)[-1] == "ne":
        r = mk_not(r)
    return one(r, st)


@model("lt", "le", "gt", "ge")
def m_cmp(M, eng, st, path, c, args, site):
    n = path.rsplit("::", 1)[-1]
    a, b = V(eng, st, args[0]), V(eng, st, args[1])
    return one(mk_cmp(n.capitalize(), a, b), st)


@model("max", "min")
def m_max(M, eng, st, path, c, args, site):
    if len(args) != 2:
        return None
    a, b = args
    out = []
    n = path.rsplit("::", 1)[-1]
    for t in (True, False):
        for s in eng.assume(st.copy(), mk_cmp("Le", a, b), t):
            out.append(Exit((b if t else a) if n == "max" else (a if t else b), s))
    return out


@model("saturating_add", "saturating_mul", "wrapping_add", "wrapping_mul", "checked_add", "checked_mul", "checked_sub", "saturating_sub", "wrapping_sub", "pow", "abs_diff", "checked_div", "div_ceil", "next_multiple_of")
def m_sat(M, eng, st, path, c, args, site):
    n = path.rsplit("::", 1)[-1]
    if n == "saturating_sub":
        a, b = args
        out = []
        for t in (True, False):
            for s in eng.assume(st.copy(), mk_cmp("Le", b, a), t):
                out.append(Exit(sub(a, b) if t else ZERO, s))
        return out
    r = app(n, *args)
    eng.typed(r, site.destty)
    return one(r, st)


# ---- char / byte predicates ---------------------------------------------------------------
CLS = {
    "is_ascii_alphabetic": ALPHA, "is_ascii_alphanumeric": ALNUM, "is_ascii_digit": DIGIT, "is_ascii": ASCII,
    "is_control": CONTROL, "is_ascii_control": rs((0, 31), 127), "is_whitespace": WS, "is_ascii_whitespace": rs(9, 10, 12, 13, 32),
    "is_ascii_hexdigit": HEX, "is_ascii_uppercase": rs((65, 90)), "is_ascii_lowercase": rs((97, 122)),
    "is_ascii_punctuation": rs((33, 47), (58, 64), (91, 96), (123, 126)), "is_ascii_graphic": rs((33, 126)),
}


def m_cls(M, eng, st, path, c, args, site):
    n = path.rsplit("::", 1)[-1]
    v = V(eng, st, args[0])
    if path.startswith("str::") or (v.ty in ("str", "alloc::string::String")):
        return one(app("strpred", strc(n), v), st)
    if v.op in ("char", "int"):
        return one(boolc(bool(rinter(CLS[n], ((v.a[0], v.a[0]),)))), st)
    if v.ty is None:
        v.ty = "u8" if path.startswith("u8") else "char"
    cur = scal(st.F, v)
    if cur is not None and cur:
        if rsub(cur, CLS[n]):
            return one(TRUE, st)
        if not rinter(cur, CLS[n]):
            return one(FALSE, st)
    return one(app("cls", v, CLS[n]), st)


for _n in CLS:
    METHODS[_n] = m_cls


@model("is_digit")
def m_isdigit(M, eng, st, path, c, args, site):
    r = {10: DIGIT, 16: HEX}.get(args[1].a[0] if args[1].op == "int" else None)
    if r is None:
        return one(app("is_digit", *args), st)
    v = V(eng, st, args[0])
    return one(app("cls", v, r), st)


@model("len_utf8")
def m_lenutf8(M, eng, st, path, c, args, site):
    v = V(eng, st, args[0])
    r = scal(st.F, v)
    if r and r[-1][1] < 128:
        return one(intc(1), st)
    return one(tyu(app("len_utf8", v)), st)


# ---- strings --------------------------------------------------------------------------------
@model("len")
def m_len(M, eng, st, path, c, args, site):
    v = V(eng, st, args[0])
    if v.op == "it":
        return one(tyu(app("itlen", v)), st)
    return one(mk_len(v), st)


@model("is_empty")
def m_isempty(M, eng, st, path, c, args, site):
    v = V(eng, st, args[0])
    return one(mk_cmp("Eq", mk_len(v), ZERO), st)


def pred_cls(eng, st, f, kind):
    """class of chars (kind 'c') or bytes ('b') a predicate accepts, as a class of chars; None if not exact"""
    if f.op == "mref":
        return None
    if kind == "c":
        return chset_of_pat(eng, st, f)
    r = chset_of_pat(eng, st, f, "u8")
    return None if r is None else byte_cls(rinter(r, ((0, 255),)))


def chset_of_pat(eng, st, p, ty="char"):
    """ranges a char pattern matches: char, [char], &[char], closure over a class"""
    if p.op == "char":
        return ((p.a[0], p.a[0]),)
    if p.op == "arr" and all(x.op == "char" for x in p.a[0]):
        return rs(*[chr(x.a[0]) for x in p.a[0]])
    if p.op == "fnc":
        return CLS.get(p.a[0].rsplit("::", 1)[-1])
    if p.op == "clo":
        g = sym(("patch", p.a[0], ty), ty)
        site = type("X", (), {})()
        acc = ()
        from .engine import Site
        s0 = st.copy()
        s0.cells[(("patpin", p.a[0]), 0)] = g      # keeps facts about g alive
        fr = type("F", (), {"fid": ("pat", p.a[0]), "body": eng.prog.bodies[p.a[0]]})()
        si = Site(fr, 0, "")
        exs = eng.call_value(p, [g], s0, si)
        for e in exs:
            for s in eng.assume(e.st.copy(), e.ret, True):
                r = scal(s.F, g)
                acc = runion(acc, r if r is not None else TOP)
        neg = ()
        for e in exs:
            for s in eng.assume(e.st.copy(), e.ret, False):
                r = scal(s.F, g)
                neg = runion(neg, r if r is not None else TOP)
        if not rinter(acc, neg):
            return acc
        return None
    return None


@model("contains")
def m_contains(M, eng, st, path, c, args, site):
    v = V(eng, st, args[0])
    p = V(eng, st, args[1])
    if "range" in path.lower() and v.op == "adt":
        if "RangeInclusive" in v.a[0] or len(v.a[2]) == 3:
            lo, hi = v.a[2][0], v.a[2][1]
            if p.ty is None and lo.op == "char":
                p.ty = "char"
            return one(app("band", mk_cmp("Le", lo, p), mk_cmp("Le", p, hi)), st)
        if v.a[0].endswith("Range"):
            return one(app("band", mk_cmp("Le", v.a[2][0], p), mk_cmp("Lt", p, v.a[2][1])), st)
        return None
    if not (path.startswith("str::")):
        r = app("member", v, p)
        return one(r, st)
    if p.op in ("char",):
        return one(app("contains", v, p), st)
    if p.op == "str" and len(p.a[0]) == 1:
        return one(app("contains", v, charc(ord(p.a[0]))), st)
    if p.op in ("arr", "fnc", "clo"):
        r = chset_of_pat(eng, st, p)
        if r is not None:
            return one(app("containscls", v, r), st)
    return one(app("contains", v, p), st)


@model("trim_start_matches")
def m_trimmatches(M, eng, st, path, c, args, site):
    if not path.startswith("str::"):
        return None
    v = V(eng, st, args[0])
    r = chset_of_pat(eng, st, V(eng, st, args[1]))
    if r is None:
        return None
    try:
        p = span(st.F, v, r)
        return one(substr_of(st.F, v, p, mk_len(v)), st)
    except Infeasible:
        return []


@model("starts_with", "ends_with")
def m_starts(M, eng, st, path, c, args, site):
    n = path.rsplit("::", 1)[-1]
    v, p = V(eng, st, args[0]), V(eng, st, args[1])
    if v.op == "str" and p.op in ("str", "char"):
        q = p.a[0] if p.op == "str" else chr(p.a[0])
        return one(boolc(v.a[0].startswith(q) if n == "starts_with" else v.a[0].endswith(q)), st)
    if p.op in ("arr", "fnc", "clo"):
        r = chset_of_pat(eng, st, p)
        if r is not None:
            a = mk("app", "first" if n == "starts_with" else "last", v)
            a.ty = "char"
            # an empty string has no first character
            return one(app("band", mk_not(mk_cmp("Eq", mk_len(v), ZERO)), app("cls", a, r)), st)
    return one(app(n, v, p), st)


@model("trim", "trim_start", "trim_end")
def m_trim(M, eng, st, path, c, args, site):
    v = V(eng, st, args[0])
    n = path.rsplit("::", 1)[-1]
    if v.op == "str":
        return one(strc({"trim": v.a[0].strip, "trim_start": v.a[0].lstrip, "trim_end": v.a[0].rstrip}[n]()), st)
    r = app(n, v)
    r.ty = "str"
    st.F.add_le(mk_len(r), mk_len(v), 0)
    return one(r, st)


@model("to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase")
def m_lower(M, eng, st, path, c, args, site):
    v = V(eng, st, args[0])
    n = path.rsplit("::", 1)[-1]
    if v.op == "str":
        return one(strc(v.a[0].lower() if "lower" in n else v.a[0].upper()), st)
    r = app(n, v)
    r.ty = "alloc::string::String"
    return one(r, st)


@model("as_bytes", "into_bytes")
def m_bytes(M, eng, st, path, c, args, site):
    v = V(eng, st, args[0])
    if v.op == "str":
        return one(mk("arr", tuple(intc(b) for b in v.a[0].encode())), st)
    r = app("bytes", v)
    return one(r, st)


REBUILD["bytes"] = lambda v: mk("arr", tuple(intc(b) for b in v.a[0].encode())) if v.op == "str" else None


@model("String::new", "alloc::string::String::new", "alloc::string::String::with_capacity")
def m_strnew(M, eng, st, path, c, args, site):
    return one(strc(""), st)


@model("push", "push_str", "push_back")
def m_push(M, eng, st, path, c, args, site):
    n = path.rsplit("::", 1)[-1]
    cur = V(eng, st, args[0])
    if "string::String" in path:
        x = V(eng, st, args[1])
        if n == "push":
            if x.ty is None and x.op in ("sym", "app", "fld"):
                x.ty = "char"
            new = cat(*pieces(cur), ("c", x))
        else:
            new = cat(*pieces(cur), ("v", x))
        h = getattr(eng.pl, "on_append", None)
        if h:
            h(eng, st, cur, x, new, site)
        eng.store(st, args[0], new)
        return one(UNIT, st)
    return vec_push(M, eng, st, args[0], args[1], site)


def vec_push(M, eng, st, m, x, site):
    cur = V(eng, st, m)
    h = getattr(eng.pl, "on_push", None)
    if h:
        r = h(eng, st, m, cur, x, site)
        if r is not None:
            return r
    eng.store(st, m, pushed(eng, st, cur, x))
    return one(UNIT, st)


def pushed(eng, st, cur, x):
    if cur.op != "seq":
        if cur.op == "arr":
            cur = seq("v", intc(len(cur.a[0])), None, cur)
        else:
            cur = seq("v", mk_len(cur), None, cur)
    sm = join_summ(cur.a[2], elem_summary(st.F, x))
    return seq(cur.a[0], add(cur.a[1], intc(1)), sm, app("push", cur.a[3], x))


@model("insert")
def m_insert(M, eng, st, path, c, args, site):
    cur = V(eng, st, args[0])
    if "HashSet" in path or "hash::set" in path or "BTreeSet" in path:
        new = app("setins", cur, V(eng, st, args[1]))
        eng.store(st, args[0], new)
        r = mk_not(app("member", cur, V(eng, st, args[1])))
        return one(r, st)
    return None


@model("pop", "pop_front", "pop_back")
def m_pop(M, eng, st, path, c, args, site):
    cur = V(eng, st, args[0])
    if "string::String" in path:
        n = eng.fresh(st, ("pop", site.key()), "alloc::string::String")
        a = allch(st.F, cur)
        if a is not None:
            st.F.cs[mk("app", "allch", n)] = a
        s2 = st.copy()
        out = []
        for s in eng.assume(st, mk_cmp("Le", intc(1), mk_len(cur)), True):
            ch = app("last", cur)
            ch.ty = "char"
            eng.store(s, args[0], n)
            out.append(Exit(some(ch), s))
        for s in eng.assume(s2, mk_cmp("Eq", mk_len(cur), ZERO), True):
            out.append(Exit(NONE, s))
        return out
    h = getattr(eng.pl, "on_pop", None)
    if h:
        r = h(eng, st, args[0], cur, site)
        if r is not None:
            return r
    ln = mk_len(cur)
    out = []
    s2 = st.copy()
    for s in eng.assume(s2, mk_cmp("Eq", ln, ZERO), True):
        out.append(Exit(NONE, s))
    for s in eng.assume(st, mk_cmp("Le", intc(1), ln), True):
        x = eng.fresh(s, ("popped", site.key()), None)
        if site.destty is not None and eng.T[site.destty].get("a"):
            eng.typed(x, eng.T[site.destty]["a"][0])
        tok = eng.fresh(s, ("poptok", site.key()), None)
        if cur.op == "seq" and cur.a[3].op == "app" and cur.a[3].a[0] == "push" and path.endswith("::pop"):
            x, tok = cur.a[3].a[2], cur.a[3].a[1]
        new = seq(cur.a[0] if cur.op == "seq" else "v", sub(ln, intc(1)), cur.a[2] if cur.op == "seq" else None, tok)
        eng.store(s, args[0], new)
        out.append(Exit(some(x), s))
    return out


@model("clear", "truncate")
def m_clear(M, eng, st, path, c, args, site):
    if path.endswith("clear"):
        cur = V(eng, st, args[0])
        h = getattr(eng.pl, "on_clear", None)
        if h and h(eng, st, args[0], cur, site):
            return one(UNIT, st)
        eng.store(st, args[0], strc("") if "string::String" in path else seq("v", ZERO, "bot", EMPTY))
        return one(UNIT, st)
    return None


@model("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity", "alloc::collections::vec_deque::VecDeque::new")
def m_vecnew(M, eng, st, path, c, args, site):
    h = getattr(eng.pl, "on_alloc", None)
    if h and path.endswith("with_capacity"):
        h(eng, st, args[0], site)
    if M.vec_new is not None:
        v = M.vec_new(eng, st, site)
        if v is not None:
            return one(v, st)
    return one(seq("v", ZERO, "bot", EMPTY), st)


@model("alloc::boxed::Box::new", "alloc::rc::Rc::new", "alloc::sync::Arc::new", "core::pin::Pin::new", "core::pin::Pin::new_unchecked", "core::cell::RefCell::new")
def m_boxnew(M, eng, st, path, c, args, site):
    return one(args[0], st)


@model("new_uninit")
def m_uninit(M, eng, st, path, c, args, site):
    return one(mk("adt", "#uninit", 0, (sym(("K", "uninit")),)), st)


@model("box_assume_init_into_vec_unsafe")
def m_boxvec(M, eng, st, path, c, args, site):
    v = V(eng, st, args[0])
    # vec![...]: the array was written through the box
    w = v
    for _ in range(6):
        if w.op == "arr":
            break
        if w.op == "adt" and len(w.a[2]) == 1:
            w = w.a[2][0]
        elif w.op == "adt" and len(w.a[2]) > 1:
            nx = [x for x in w.a[2] if x.op in ("arr", "adt")]
            if not nx:
                break
            w = nx[0]
        else:
            break
    if w.op == "arr":
        cur = seq("v", ZERO, "bot", EMPTY)
        if M.vec_new is not None:
            cur2 = M.vec_new(eng, st, site)
            if cur2 is not None:
                cell = (("vecmac", site.key()), 0)
                st.cells[cell] = cur2
                for x in w.a[0]:
                    h = getattr(eng.pl, "on_push", None)
                    h(eng, st, mk("mref", cell, ()), st.cells[cell], x, site)
                return one(st.cells.pop(cell), st)
        for x in w.a[0]:
            cur = pushed(eng, st, cur, x)
        return one(cur, st)
    r = eng.fresh(st, ("vecmac", site.key()), None)
    return one(r, st)


@model("repeat")
def m_repeat(M, eng, st, path, c, args, site):
    if path.startswith("str::") or "str" in path:
        r = app("repeat", V(eng, st, args[0]), args[1])
        r.ty = "alloc::string::String"
        return one(r, st)
    return None


@model("join", "concat")
def m_join(M, eng, st, path, c, args, site):
    if len(args) < 2:
        args = list(args) + [strc("")]
    r = app("join", V(eng, st, args[0]), V(eng, st, args[1]) if len(args) > 1 else strc(""))
    r.ty = "alloc::string::String"
    return one(r, st)


@model("find", "rfind", "position", "rposition", "find_map")
def m_find(M, eng, st, path, c, args, site):
    n = path.rsplit("::", 1)[-1]
    if path.startswith("str::"):
        v, p = V(eng, st, args[0]), V(eng, st, args[1])
        out = []
        if p.op in ("clo", "fnc", "arr"):
            r = chset_of_pat(eng, st, p)
            if r is None:
                return None
            cond = app("containscls", v, r)
        else:
            r = ((p.a[0], p.a[0]),) if p.op == "char" else None
            cond = app("contains", v, p)
        for s in eng.assume(st.copy(), cond, False):
            out.append(Exit(NONE, s))
        for s in eng.assume(st, cond, True):
            pos = tyu(app(n, v, p if r is None or p.op == "char" else mk("cset", r)))
            s.F.add_le(pos, mk_len(v), -1)
            if r is not None and n == "find":
                span_facts(s.F, v, pos, rdiff(TOP, r))
            out.append(Exit(some(pos), s))
        return out
    return m_iter_find(M, eng, st, path, c, args, site)


def rng(v):
    """(lo, hi, inclusive) of a range value; None for open ends"""
    if v.op == "adt":
        n = v.a[0].rsplit("::", 1)[-1]
        f = v.a[2]
        if n == "Range":
            return f[0], f[1], False
        if n == "RangeFrom":
            return f[0], None, False
        if n == "RangeTo":
            return ZERO, f[0], False
        if n == "RangeFull":
            return ZERO, None, False
        if n == "RangeToInclusive":
            return ZERO, add(f[0], intc(1)), False
        if n == "RangeInclusive":
            return f[0], add(f[1], intc(1)), False
    return None


@model("index")
def m_index(M, eng, st, path, c, args, site):
    v, i = V(eng, st, args[0]), V(eng, st, args[1])
    r = rng(i)
    if r is not None:
        lo, hi, _ = r
        ln = mk_len(v)
        h = getattr(eng.pl, "on_slice", None)
        if h:
            h(eng, st, v, lo, hi if hi is not None else ln, path, site)
        isstr = path.startswith("<str") or "string::String" in path or v.ty in ("str", "alloc::string::String")
        try:
            st.F.add_le(lo, hi if hi is not None else ln, 0)
            if hi is not None:
                st.F.add_le(hi, ln, 0)
        except Infeasible:
            return []
        if v.op == "str" and lo.op == "int" and (hi is None or hi.op == "int"):
            b = v.a[0].encode()[lo.a[0]:None if hi is None else hi.a[0]]
            return one(strc(b.decode("utf8", "replace")), st)
        if lo is ZERO and (hi is None or hi is ln):
            return one(v, st)
        t = app("substr" if isstr else "slice", v, lo, hi if hi is not None else ln)
        if isstr:
            t.ty = "str"
        st.F.add_eq(mk_len(t), sub(hi if hi is not None else ln, lo)) if linok(mk_len(t), hi if hi is not None else ln, lo) else None
        return one(t, st)
    h = getattr(eng.pl, "on_index", None)
    if h:
        h(eng, st, v, i, site)
    try:
        st.F.add_le(i, mk_len(v), -1)
    except Infeasible:
        return []
    return one(eng.typed(elem_of(eng, st, v, i), site.destty), st)


def linok(*ts):
    return True


def elem_of(eng, st, v, i):
    if v.op == "seq":
        tok = v.a[3]
        e = app("elem", tok, i)
        t = tok
        # element of a known push chain
        n = v.a[1]
        while t.op == "app" and t.a[0] == "push":
            n = sub(n, intc(1))
            if n is i:
                return t.a[2]
            t = t.a[1]
        if v.a[2] and v.a[2] != "bot" and v.a[2][0] == "S" and v.a[2][1] is not None:
            st.F.cs[mk("app", "allch", e)] = v.a[2][1]
            e.ty = "alloc::string::String"
        return e
    if v.op == "app" and v.a[0] == "slice":
        return elem_of(eng, st, v.a[1], add(v.a[2], i))
    if v.op == "app" and v.a[0] == "vecof":
        return subst(v.a[2], {HOLE: i})
    return mk_elem(v, i)


def _reb_elem(c, i):
    if c.op == "app" and c.a[0] == "vecof":
        return subst(c.a[2], {HOLE: i})
    if c.op == "app" and c.a[0] == "slice":
        return mk_elem2(c.a[1], add(c.a[2], i))
    return mk_elem(c, i)


def mk_elem2(c, i):
    return _reb_elem(c, i)


REBUILD["elem"] = _reb_elem


@model("index_mut", "get_mut", "last_mut", "first_mut")
def m_indexmut(M, eng, st, path, c, args, site):
    n = path.rsplit("::", 1)[-1]
    a = args[0]
    if a.op != "mref":
        return None
    cur = V(eng, st, a)
    ln = mk_len(cur)

    def hand_out(s, i):
        # a reference into the collection: it gets a cell of its own, the collection forgets its contents
        cell = (("el", site.key()), 0)
        k = 0
        while cell in s.cells and k < 8:
            k += 1
            cell = (("el", site.key()), k)
        v = elem_of(eng, s, cur, i)
        s.cells[cell] = v
        tok = eng.fresh(s, ("mtok", site.key()), None)
        h = getattr(eng.pl, "on_elem_mut", None)
        if h:
            r = h(eng, s, a, cur, i, cell, site)
            if r is not None:
                return r
        eng.store(s, a, seq(cur.a[0] if cur.op == "seq" else "v", ln, None if not (cur.op == "seq") else None, tok))
        return mk("mref", cell, ())
    if n == "index_mut":
        i = V(eng, st, args[1])
        if rng(i) is not None:
            return None
        h = getattr(eng.pl, "on_index", None)
        if h:
            h(eng, st, cur, i, site)
        try:
            st.F.add_le(i, ln, -1)
        except Infeasible:
            return []
        r = hand_out(st, i)
        if site.destty is not None:
            t = eng.T[site.destty]
            if t.get("a"):
                eng.typed(st.cells[r.a[0]], t["a"][0])
        return one(r, st)
    out = []
    if n == "get_mut":
        i = V(eng, st, args[1])
        cond = mk_cmp("Lt", i, ln)
    else:
        i = sub(ln, intc(1)) if n == "last_mut" else ZERO
        cond = mk_cmp("Le", intc(1), ln)
    for s in eng.assume(st.copy(), cond, False):
        out.append(Exit(NONE, s))
    for s in eng.assume(st, cond, True):
        r = hand_out(s, i)
        if site.destty is not None:
            t = eng.T[site.destty]
            if t.get("a") and eng.T[t["a"][0]].get("a"):
                eng.typed(s.cells[r.a[0]], eng.T[t["a"][0]]["a"][0])
        out.append(Exit(some(r), s))
    return out


@model("get", "last", "first", "split_first", "split_last", "peek")
def m_get(M, eng, st, path, c, args, site):
    n = path.rsplit("::", 1)[-1]
    v = V(eng, st, args[0])
    if n == "peek":
        return m_peek(M, eng, st, path, c, args, site)
    if "collections::hash" in path or "map::Map" in path:
        return None
    if n == "last" and v.op == "it":
        return None
    ln = mk_len(v)
    if n == "get":
        i = V(eng, st, args[1])
        r = rng(i)
        if r is not None:
            lo, hi, _ = r
            t = app("get_range", v, lo, hi if hi is not None else ln)
            return one(t, st)
        cond = mk_cmp("Lt", i, ln)
    elif n in ("last", "split_last"):
        i = sub(ln, intc(1))
        cond = mk_cmp("Le", intc(1), ln)
    else:
        i = ZERO
        cond = mk_cmp("Le", intc(1), ln)
    out = []
    for s in eng.assume(st.copy(), cond, False):
        out.append(Exit(NONE, s))
    for s in eng.assume(st, cond, True):
        e = elem_of(eng, s, v, i)
        if site.destty is not None and eng.T[site.destty].get("a") and n in ("get", "last", "first"):
            eng.typed(e, eng.T[site.destty]["a"][0])
        if n == "split_first":
            e = mk("tup", (e, app("slice", v, intc(1), ln)))
        elif n == "split_last":
            e = mk("tup", (e, app("slice", v, ZERO, sub(ln, intc(1)))))
        out.append(Exit(some(e), s))
    return out


@model("parse")
def m_parse(M, eng, st, path, c, args, site):
    if not path.startswith("str::"):
        return None
    r = app("parse", V(eng, st, args[0]), strc(eng.tyname(site.destty) or ""))
    r.ty = r.ty or eng.tyname(site.destty)
    return one(r, st)


@model("into", "from", "try_into", "try_from")
def m_into(M, eng, st, path, c, args, site):
    v = V(eng, st, args[0]) if args else UNIT
    if site.destty is None:
        return one(app("from", v), st)
    d = eng.T[site.destty]
    src = eng.T[site.argtys[0]] if site.argtys else None
    while src is not None and src["k"] == "ref":
        src = eng.T[src["a"][0]]
    if d["s"] in ("alloc::string::String",) and src is not None and src["s"] in ("str", "alloc::string::String"):
        return one(v, st)
    if d["s"] == "alloc::string::String" and src is not None and src["s"] == "char":
        return one(cat(("c", v)), st)
    if src is not None and d["s"] == src["s"]:
        return one(v, st)
    if d["k"] == "int" and src is not None and src["k"] in ("int", "char"):
        if v.ty is None:
            v.ty = src["s"]
        return one(v, st)
    if d["k"] == "adt" and d["p"] == OPT and src is not None and eng.T[d["a"][0]]["s"] == src["s"]:
        return one(some(v), st)
    # local From impl behind Into
    if src is not None and d["k"] == "adt":
        bid = f"<{d['p']} as core::convert::From<{src['s']}>>::from"
        b = eng.prog.bodies.get(bid)
        if b is not None:
            return eng.call_body(b, [v], st, site)
    r = app("from", v, strc(d["s"]))
    return one(r, st)


# ---- formatting ------------------------------------------------------------------------------
@model("new_display", "new_debug", "new_lower_hex", "new_upper_hex", "new_lower_exp", "new_upper_exp")
def m_arg(M, eng, st, path, c, args, site):
    n = path.rsplit("::", 1)[-1]
    v = V(eng, st, args[0])
    t = eng.T[site.argtys[0]]
    while t["k"] in ("ref",):
        t = eng.T[t["a"][0]]
    ty = t["s"]
    if v.op in ("sym", "app", "fld") and v.ty is None:
        v.ty = ty
    return one(mk("fmtarg", n, v, ty), st)


def parse_template(b):
    """bytes of core::fmt::Arguments -> list of literal str or (argidx, flags, width, prec)"""
    out = []
    i = 0
    nxt = 0
    while i < len(b):
        x = b[i]
        if x == 0:
            break
        if x < 0x80:
            out.append(b[i + 1:i + 1 + x].decode())
            i += 1 + x
        elif x == 0x80:
            n = b[i + 1] | b[i + 2] << 8
            out.append(b[i + 3:i + 3 + n].decode())
            i += 3 + n
        else:
            i += 1
            fl = w = p = None
            idx = nxt
            if x & 1:
                fl = int.from_bytes(b[i:i + 4], "little")
                i += 4
            if x & 2:
                w = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if x & 4:
                p = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if x & 8:
                idx = int.from_bytes(b[i:i + 2], "little")
                i += 2
            nxt = idx + 1
            out.append((idx, fl, w, p))
    return out


@model("core::fmt::Arguments::new")
def m_fmtnew(M, eng, st, path, c, args, site):
    tpl, av = V(eng, st, args[0]), V(eng, st, args[1])
    if tpl.op == "arr" and av.op == "arr":
        ps = []
        for x in parse_template(bytes(t.a[0] for t in tpl.a[0])):
            if isinstance(x, str):
                ps.append(("l", x))
            else:
                a = av.a[0][x[0]]
                ps.append(fmt_piece(a, x))
        return one(mk("cat0", tuple(ps)), st)
    return one(mk("cat0", (("o", app("fmt?", tpl, av)),)), st)


def fmt_piece(a, spec):
    if a.op != "fmtarg":
        return ("o", a)
    n, v, ty = a.a
    if n == "new_display":
        if ty in ("str", "alloc::string::String") or "Cow<" in ty and "str" in ty:
            if spec[1] is None and spec[2] is None and spec[3] is None:
                return ("v", v)
            return ("v", app("fmtspec", v, str(spec)))
        if ty == "char":
            return ("c", v)
        if v.op == "str":
            return ("v", v)
        if spec[3] is None and spec[2] is None:
            return ("d", v)
        return ("d", app("fmtspec", v, str(spec)))
    if n in ("new_lower_hex", "new_upper_hex"):
        return ("x", v, str(spec))
    return ("o", app("fmtdebug", v, n))


@model("core::fmt::Arguments::from_str")
def m_fmtstr(M, eng, st, path, c, args, site):
    return one(mk("cat0", (("v", V(eng, st, args[0])),)), st)


@model("alloc::fmt::format")
def m_format(M, eng, st, path, c, args, site):
    v = args[0]
    if v.op == "cat0":
        return one(cat(*v.a[0]), st)
    r = app("format", v)
    r.ty = "alloc::string::String"
    return one(r, st)


@model("write_fmt", "write_str", "write_char")
def m_writefmt(M, eng, st, path, c, args, site):
    n = path.rsplit("::", 1)[-1]
    cur = V(eng, st, args[0])
    aty = eng.T[site.argtys[0]] if site.argtys else None
    base = eng.tyname(site.argtys[0]) if site.argtys else ""
    if base == "alloc::string::String":
        v = V(eng, st, args[1])
        if n == "write_char":
            ps = (("c", v),)
        elif v.op == "cat0":
            ps = v.a[0]
        else:
            ps = (("v", v),)
        new = cat(*pieces(cur), *ps)
        h = getattr(eng.pl, "on_append", None)
        if h:
            h(eng, st, cur, mk("cat0", tuple(ps)), new, site)
        eng.store(st, args[0], new)
        return one(okv(UNIT), st)
    return None


# ---- iterators ---------------------------------------------------------------------------------
def it_slice(eng, coll):
    return mk("it", "slice", coll, ZERO, mk_len(coll), mk("aset", None), UNIT)


def coll_of(v):
    if v.op == "seq":
        return v
    return v


@model("iter", "into_iter", "iter_mut", "drain")
def m_iter(M, eng, st, path, c, args, site):
    n = path.rsplit("::", 1)[-1]
    a = args[0]
    v = V(eng, st, a)
    if v.op == "it":
        return one(a if a.op == "mref" and n != "into_iter" else v, st)
    if n == "iter_mut" or (n == "into_iter" and a.op == "mref"):
        if a.op == "mref":
            ln = mk_len(v)
            tok = eng.fresh(st, ("mutiter", site.key()), None)
            eng.store(st, a, seq(v.a[0] if v.op == "seq" else "v", ln, None, tok))
            return one(mk("it", "mutslice", v if v.op != "seq" else v.a[3], ZERO, ln), st)
    if n == "drain" and a.op == "mref":
        eng.store(st, a, eng.fresh(st, ("drained", site.key()), v.ty))
        if len(args) > 1 and rng(args[1]) is not None and args[1].a[0].endswith("RangeFull"):
            eng.store(st, a, seq("v", ZERO, "bot", EMPTY))
            return one(it_slice(eng, v), st)
        return one(mk("it", "unk", eng.fresh(st, ("drain", site.key()))), st)
    if v.op == "adt" and v.a[0] in RANGES:
        r = rng(v)
        return one(mk("it", "range", r[0], r[1] if r[1] is not None else sym(("K", "inf"), "usize")), st)
    if v.op == "adt" and v.a[0] == OPT:
        return one(mk("it", "opt", v), st)
    ty = None
    if site.argtys:
        ty = eng.tyof(site.argtys[0])
    if v.op in ("seq", "arr") or (ty is not None and (ty["k"] in ("slice", "array") or (ty["k"] == "adt" and ty["p"] in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque")))):
        return one(it_slice(eng, v), st)
    if ty is not None and ty["k"] == "adt" and ty["p"] == OPT:
        return one(mk("it", "opt", v), st)
    if ty is not None and ty["k"] == "adt" and "Map" in ty["p"]:
        return one(it_slice(eng, app("mapentries", v)), st)
    if ty is not None and ty["k"] == "adt" and "iter" in ty["p"].lower():
        return one(v, st)
    return one(mk("it", "ext", v, ZERO), st)


@model("chars", "bytes", "char_indices", "split", "lines", "split_whitespace", "rev", "enumerate", "skip", "step_by", "zip", "chain", "peekable", "filter_map",
       "take_while", "skip_while", "flat_map", "scan", "map_while", "fuse", "windows", "chunks", "rsplit", "splitn", "rsplitn", "split_terminator", "cycle", "keys", "values", "entries", "split_inclusive", "split_ascii_whitespace", "matches", "char_indices_rev")
def m_itadapter(M, eng, st, path, c, args, site):
    n = path.rsplit("::", 1)[-1]
    v = V(eng, st, args[0])
    if n == "chars":
        return one(mk("it", "chars", v, ZERO, mk("cset", ()), UNIT), st)
    if n == "char_indices":
        return one(mk("it", "charidx", v, ZERO, mk("cset", ()), UNIT), st)
    if n == "bytes":
        return one(mk("it", "bytes", v, ZERO, mk("cset", ()), UNIT), st)
    if n == "split" and path.startswith("str::"):
        return one(mk("it", "split", v, V(eng, st, args[1]), ZERO), st)
    if n == "enumerate":
        return one(mk("it", "enum", as_iter(eng, v), ZERO), st)
    if n == "map":
        return one(mk("it", "map", as_iter(eng, v), args[1]), st)
    if n == "filter":
        return one(mk("it", "filter", as_iter(eng, v), args[1]), st)
    if n == "filter_map":
        return one(mk("it", "filter_map", as_iter(eng, v), args[1]), st)
    if n in ("take_while", "skip_while"):
        b = str_base(v)
        r = pred_cls(eng, st, args[1], b[0]) if b else None
        if r is not None:
            kind, x = b
            try:
                p = span(st.F, x, r)
                if n == "take_while":
                    t = substr_of(st.F, x, ZERO, p)
                    st.F.cs[mk("app", "allch", t)] = r
                else:
                    t = substr_of(st.F, x, p, mk_len(x))
            except Infeasible:
                return []
            return one(mk("it", {"c": "chars", "b": "bytes"}[kind], t, ZERO, mk("cset", ()), UNIT), st)
    if n == "peekable":
        return one(mk("it", "peek", as_iter(eng, v), mk("nopeek",)), st)
    if n == "skip":
        i = as_iter(eng, v)
        if i.a[0] == "slice":
            return one(mk("it", "slice", i.a[1], add(i.a[2], args[1]), i.a[3], mk("aset", frozenset()), UNIT), st)
        if i.a[0] == "chars" and args[1].op == "int":
            return one(mk("it", "chars", i.a[1], add(i.a[2], args[1]), mk("cset", TOP), UNIT), st)
        return one(mk("it", "skip", i, args[1]), st)
    if n == "take":
        return one(mk("it", "take", as_iter(eng, v), args[1]), st)
    if n == "rev":
        return one(mk("it", "rev", as_iter(eng, v), ZERO), st)
    if n == "zip":
        return one(mk("it", "zip", as_iter(eng, v), as_iter(eng, V(eng, st, args[1]))), st)
    if n == "fuse":
        return one(v, st)
    if n in ("lines", "split_whitespace") or True:
        return one(mk("it", "opq", strc(n), v, *[x for x in args[1:]], ZERO), st)


def as_iter(eng, v):
    if v.op == "it":
        return v
    if (v.op == "adt" and v.a[0] == OPT) or (v.op != "adt" and (v.ty or "").startswith(OPT)):
        return mk("it", "opt", v)
    if v.op in ("seq", "arr"):
        return it_slice(eng, v)
    if v.op == "adt" and v.a[0] in RANGES:
        r = rng(v)
        return mk("it", "range", r[0], r[1] if r[1] is not None else sym(("K", "inf"), "usize"))
    return mk("it", "ext", v, ZERO)


def it_next(M, eng, st, it, site):
    """-> list of (item or None, new iterator, state)"""
    k = it.a[0]
    out = []
    if k == "slice":
        _, coll, pos, end, aset, pend = it.a
        it = M._fold(eng, st, it)
        aset = it.a[4]
        for s in eng.assume(st.copy(), mk_cmp("Lt", pos, end), False):
            if aset.a[0] and not pos.op == "int":
                key = coll.a[3] if coll.op == "seq" else coll
                s.F.all[key] = aset.a[0] | s.F.all.get(key, frozenset())
            try:
                s.F.add_eq(pos, end) if s.F.le(pos, end) else None
            except Infeasible:
                continue
            out.append((None, mk("it", "slice", coll, pos, end, aset, UNIT), s))
        for s in eng.assume(st, mk_cmp("Lt", pos, end), True):
            e = elem_of(eng, s, coll, pos)
            pe = e if e.op == "app" and e.a[0] == "elem" else UNIT
            if pe is UNIT:
                aset2 = mk("aset", frozenset())
            else:
                aset2 = aset
            out.append((e, mk("it", "slice", coll, add(pos, intc(1)), end, aset2, pe), s))
        return out
    if k in ("chars", "charidx", "bytes"):
        it = M._fold(eng, st, it)
        _, s0, pos, cset, pend = it.a
        if k == "bytes":
            end = mk_len(s0)
            e = mk_elem(app("bytes", s0), pos)
        else:
            end = tyu(app("nchars", s0))
            e = app("first", s0) if pos is ZERO else app("chat", s0, pos)
        e.ty = "u8" if k == "bytes" else "char"
        if s0.op == "str" and pos.op == "int":
            if pos.a[0] < len(s0.a[0]):
                ch = charc(ord(s0.a[0][pos.a[0]])) if k != "bytes" else intc(s0.a[0].encode()[pos.a[0]])
                return [(ch, mk("it", k, s0, add(pos, intc(1)), cset, UNIT), st)]
            return [(None, it, st)]
        cond = mk_cmp("Lt", pos, end)
        for s in eng.assume(st.copy(), cond, False):
            if cset.a[0] != TOP:
                key = mk("app", "allch", s0)
                cur = allch(s.F, s0)
                cc = cset.a[0]
                if k == "bytes" and cc and cc[-1][1] >= 128:
                    cc = runion(rinter(cc, ((0, 127),)), ((128, 0x10FFFF),))
                s.F.cs[key] = cc if cur is None else rinter(cur, cc)
            if pos is ZERO:
                try:
                    s.F.add_eq(mk_len(s0), ZERO)
                except Infeasible:
                    continue
            out.append((None, mk("it", k, s0, pos, cset, UNIT), s))
        for s in eng.assume(st, cond, True):
            cur = allch(s.F, s0)
            if cur is not None and k != "bytes":
                old = scal(s.F, e)
                s.F.cs[e] = cur if old is None else rinter(cur, old)
                if not s.F.cs[e]:
                    continue
            try:
                s.F.add_le(intc(1), mk_len(s0), 0)
            except Infeasible:
                continue
            item = e
            if k == "charidx":
                off = ZERO if pos is ZERO else tyu(app("choff", s0, pos))
                s.F.add_le(off, mk_len(s0), -1)
                item = mk("tup", (off, e))
            out.append((item, mk("it", k, s0, add(pos, intc(1)), cset, e), s))
        return out
    if k == "range":
        _, lo, hi = it.a
        for s in eng.assume(st.copy(), mk_cmp("Lt", lo, hi), False):
            out.append((None, it, s))
        for s in eng.assume(st, mk_cmp("Lt", lo, hi), True):
            out.append((lo, mk("it", "range", add(lo, intc(1)), hi), s))
        return out
    if k == "split":
        _, s0, d, pos = it.a
        n = tyu(app("nsplit", s0, d))
        st.F.add_le(intc(1), n, 0)
        for s in eng.assume(st.copy(), mk_cmp("Lt", pos, n), False):
            out.append((None, it, s))
        for s in eng.assume(st, mk_cmp("Lt", pos, n), True):
            e = app("splitpart", s0, d, pos)
            e.ty = "str"
            out.append((e, mk("it", "split", s0, d, add(pos, intc(1))), s))
        return out
    if k == "opt":
        v = it.a[1]
        for vi, x, s in split_variant(eng, st, v, OPT, 2):
            if vi == 1:
                out.append((payload(eng, s, x, 1), mk("it", "opt", NONE), s))
            else:
                out.append((None, mk("it", "opt", NONE), s))
        return out
    if k == "enum":
        for item, it2, s in it_next(M, eng, st, it.a[1], site):
            if item is None:
                out.append((None, mk("it", "enum", it2, it.a[2]), s))
            else:
                out.append((mk("tup", (it.a[2], item)), mk("it", "enum", it2, add(it.a[2], intc(1))), s))
        return out
    if k == "map":
        for item, it2, s in it_next(M, eng, st, it.a[1], site):
            if item is None:
                out.append((None, mk("it", "map", it2, it.a[2]), s))
            else:
                for e in eng.call_value(it.a[2], [item], s, site):
                    out.append((e.ret, mk("it", "map", it2, it.a[2]), e.st))
        return out
    if k == "peek":
        if it.a[2].op != "nopeek":
            v = it.a[2]
            for vi, x, s in split_variant(eng, st, v, OPT, 2):
                out.append((payload(eng, s, x, 1) if vi == 1 else None, mk("it", "peek", it.a[1], mk("nopeek",)), s))
            return out
        for item, it2, s in it_next(M, eng, st, it.a[1], site):
            out.append((item, mk("it", "peek", it2, mk("nopeek",)), s))
        return out
    if k == "zip":
        for a, ia, s in it_next(M, eng, st, it.a[1], site):
            if a is None:
                out.append((None, mk("it", "zip", ia, it.a[2]), s))
                continue
            for b, ib, s2 in it_next(M, eng, s, it.a[2], site):
                out.append((None if b is None else mk("tup", (a, b)), mk("it", "zip", ia, ib), s2))
        return out
    if k == "take":
        for s in eng.assume(st.copy(), mk_cmp("Eq", it.a[2], ZERO), True):
            out.append((None, it, s))
        for s in eng.assume(st, mk_cmp("Le", intc(1), it.a[2]), True):
            for item, i2, s2 in it_next(M, eng, s, it.a[1], site):
                out.append((item, mk("it", "take", i2, sub(it.a[2], intc(1))), s2))
        return out
    if k == "rev" and it.a[1].op == "it" and it.a[1].a[0] == "slice":
        _, coll, pos, end, aset, pend = it.a[1].a
        for s in eng.assume(st.copy(), mk_cmp("Lt", pos, end), False):
            out.append((None, it, s))
        for s in eng.assume(st, mk_cmp("Lt", pos, end), True):
            e2 = sub(end, intc(1))
            out.append((elem_of(eng, s, coll, e2), mk("it", "rev", mk("it", "slice", coll, pos, e2, mk("aset", frozenset()), UNIT), ZERO), s))
        return out
    if k in ("ext", "opq"):
        # an external iterator: its items are unknown, but it is consumed in order
        pos = it.a[-1]
        base = it.a[1:-1]
        n = tyu(app("itcount", *base))
        for s in eng.assume(st.copy(), mk_cmp("Lt", pos, n), False):
            out.append((None, it, s))
        for s in eng.assume(st, mk_cmp("Lt", pos, n), True):
            e = app("elem", app("itbase", *base), pos)
            out.append((e, mk("it", k, *base, add(pos, intc(1))), s))
        return out
    if k == "mutslice":
        _, coll, pos, end = it.a
        for s in eng.assume(st.copy(), mk_cmp("Lt", pos, end), False):
            out.append((None, it, s))
        for s in eng.assume(st, mk_cmp("Lt", pos, end), True):
            cell = (("mi", site.key()), 0)
            s.cells[cell] = elem_of(eng, s, coll, pos)
            out.append((mk("mref", cell, ()), mk("it", "mutslice", coll, add(pos, intc(1)), end), s))
        return out
    if k == "filter":
        for item, it2, s in it_next(M, eng, st, it.a[1], site):
            ni = mk("it", "filter", it2, it.a[2])
            if item is None:
                out.append((None, ni, s))
                continue
            # skipped elements: the position moves on by an unknown amount
            for e in eng.call_value(it.a[2], [item], s, site):
                for s2 in eng.assume(e.st, e.ret, True):
                    x = eng.fresh(s2, ("filt", site.key()), item.ty)
                    fx = elem_facts(s2, item) if item.op in ("app", "sym", "fld") else ()
                    for kk, p, v in fx:
                        t = subst(p, {HOLE: x})
                        if kk == "var":
                            s2.F.var[t] = v
                        elif kk == "cs":
                            s2.F.cs[t] = v
                        else:
                            s2.F.at[t] = v
                    pos2 = eng.fresh(s2, ("fpos", site.key()), "usize")
                    out.append((x, mk("it", "filter", mk("it", "unk", pos2), it.a[2]), s2))
        s0 = st.copy()
        out.append((None, mk("it", "filter", mk("it", "unk", sym(("K", "end"))), it.a[2]), s0))
        return out
    # unknown iterator
    s0 = st.copy()
    x = eng.fresh(st, ("item", site.key()), None)
    ni = mk("it", "unk", eng.fresh(st, ("itst", site.key()), None))
    return [(x, ni, st), (None, ni, s0)]


@model("next")
def m_next(M, eng, st, path, c, args, site):
    a = args[0]
    v = V(eng, st, a)
    if v.op != "it":
        if a.op != "mref":
            return None
        v = as_iter(eng, v)
    out = []
    for item, it2, s in it_next(M, eng, st, v, site):
        if a.op == "mref":
            eng.store(s, a, it2)
        if item is not None and site.destty is not None and eng.T[site.destty].get("a"):
            eng.typed(item, eng.T[site.destty]["a"][0])
        out.append(Exit(NONE if item is None else some(item), s))
    return out


def m_peek(M, eng, st, path, c, args, site):
    a = args[0]
    v = V(eng, st, a)
    if v.op != "it" or v.a[0] != "peek" or a.op != "mref":
        return None
    if v.a[2].op != "nopeek":
        return one(v.a[2], st)
    out = []
    for item, it2, s in it_next(M, eng, st, v.a[1], site):
        o = NONE if item is None else some(item)
        eng.store(s, a, mk("it", "peek", it2, o))
        out.append(Exit(o, s))
    return out


def generic_item(M, eng, st, it, site):
    """(item term over HOLE index symbol g, n, g, states): one arbitrary element of the whole iteration, or None"""
    k = it.a[0]
    g = sym(("g", site.key()), "usize")
    if k == "slice" and it.a[2] is ZERO:
        coll, end = it.a[1], it.a[3]
        e = elem_of(eng, st, coll, g)
        return e, end, g
    if k == "range":
        if it.a[1] is ZERO:
            return g, it.a[2], g
        return add(it.a[1], g), sub(it.a[2], it.a[1]), g
    if k == "enum" and it.a[2] is ZERO:
        r = generic_item(M, eng, st, it.a[1], site)
        if r is None:
            return None
        e, n, g = r
        return mk("tup", (g, e)), n, g
    if k == "split" and it.a[3] is ZERO:
        e = app("splitpart", it.a[1], it.a[2], g)
        e.ty = "str"
        n = tyu(app("nsplit", it.a[1], it.a[2]))
        return e, n, g
    if k == "chars" and it.a[2] is ZERO:
        e = app("chat", it.a[1], g)
        e.ty = "char"
        return e, tyu(app("nchars", it.a[1])), g
    if k == "bytes" and it.a[2] is ZERO:
        e = mk_elem(app("bytes", it.a[1]), g)
        e.ty = "u8"
        return e, mk_len(it.a[1]), g
    if k in ("ext", "opq") and it.a[-1] is ZERO:
        base = it.a[1:-1]
        return app("elem", app("itbase", *base), g), tyu(app("itcount", *base)), g
    return None


def closure_has_mref(f):
    return contains_mref(f)


def havoc_closure(eng, st, f, site):
    for i, m in enumerate(all_mrefs(f)):
        cur = eng.load(st, m)
        h = getattr(eng.pl, "on_havoc", None)
        if h:
            h(eng, st, m, cur, site)
        eng.store(st, m, eng.fresh(st, ("chavoc", site.key(), i), cur.ty))


def run_generic(M, eng, st, it, site):
    """evaluate an iterator for one arbitrary element; -> (list of (item, state), n, g, coll) or None.
    Maps are applied; filters make the length unknown."""
    if it.a[0] == "map":
        r = run_generic(M, eng, st, it.a[1], site)
        if r is None:
            return None
        items, n, g, exact, inner = r
        out = []
        f = it.a[2]
        for item, s in items:
            if closure_has_mref(f):
                havoc_closure(eng, s, f, site)
            for e in eng.call_value(f, [item], s, site):
                out.append((e.ret, e.st))
        return out, n, g, exact, inner
    if it.a[0] in ("filter", "filter_map"):
        r = run_generic(M, eng, st, it.a[1], site)
        if r is None:
            return None
        items, n, g, exact, inner = r
        out = []
        for item, s in items:
            for e in eng.call_value(it.a[2], [item], s, site):
                if it.a[0] == "filter":
                    for s2 in eng.assume(e.st, e.ret, True):
                        out.append((item, s2))
                else:
                    for vi, x, s2 in split_variant(eng, e.st, e.ret, OPT, 2):
                        if vi == 1:
                            out.append((payload(eng, s2, x, 1), s2))
        return out, n, g, False, inner
    r = generic_item(M, eng, st, it, site)
    if r is None:
        return None
    e, n, g = r
    s = st.copy()
    s.F = s.F.copy()
    try:
        s.F.add_le(g, n, -1)
    except Infeasible:
        return [], n, g, True, it
    return [(e, s)], n, g, True, it


def gen_facts(base, s, g):
    """facts added in s (relative to base) about terms that depend on g, as HOLE patterns over the index"""
    out = set()
    for kind, d, b in (("var", s.F.var, base.F.var), ("cs", s.F.cs, base.F.cs), ("at", s.F.at, base.F.at)):
        for t, v in d.items():
            if g in t.syms and b.get(t) != v:
                out.add((kind, t, v))
    return out


def add_all(st, it, facts, g, item):
    """facts about the generic element hold for every element: record them on the collection"""
    if it.a[0] == "enum":
        return add_all(st, it.a[1], facts, g, item)
    if it.a[0] == "slice":
        coll = it.a[1]
        key = coll.a[3] if coll.op == "seq" else coll
        e = None
        el = app("elem", key, g)
        pats = set()
        for k, t, v in facts:
            p = subst(t, {el: HOLE})
            if g not in p.syms:
                pats.add((k, p, v))
        if pats:
            st.F.all[key] = frozenset(pats) | st.F.all.get(key, frozenset())
    if it.a[0] in ("chars", "bytes"):
        el = app("chat", it.a[1], g) if it.a[0] == "chars" else mk_elem(app("bytes", it.a[1]), g)
        for k, t, v in facts:
            if k == "cs" and t is el:
                key = mk("app", "allch", it.a[1])
                cur = allch(st.F, it.a[1])
                st.F.cs[key] = v if cur is None else rinter(cur, v)
    if it.a[0] == "split":
        el = app("splitpart", it.a[1], it.a[2], g)
        pats = set()
        for k, t, v in facts:
            pats.add((k, subst(t, {el: HOLE}), v))
        st.F.all[app("split", it.a[1], it.a[2])] = frozenset(pats)


@model("all", "any")
def m_allany(M, eng, st, path, c, args, site):
    n = path.rsplit("::", 1)[-1]
    it = V(eng, st, args[0])
    if it.op != "it":
        it = as_iter(eng, it)
    b = str_base(it)
    if b and not closure_has_mref(args[1]):
        r = pred_cls(eng, st, args[1], b[0])
        if r is not None:
            if args[0].op == "mref":
                eng.store(st, args[0], mk("it", "unk", eng.fresh(st, ("used", site.key()))))
            q = rdiff(TOP, r) if n == "all" else r
            out = []
            for tv in (True, False):
                for s in eng.assume(st.copy(), app("containscls", b[1], q), tv):
                    out.append(Exit(boolc(tv == (n == "any")), s))
            return out
    r = run_generic(M, eng, st, it, site)
    f = args[1]
    if r is None or closure_has_mref(f):
        r = desugar.run(eng, n, st.copy(), it, None, f, site)
        if r is not None and args[0].op == "mref":
            for e in r:
                eng.store(e.st, args[0], mk("it", "unk", eng.fresh(e.st, ("used", site.key()))))
        return r
    items, cnt, g, exact, inner = r
    if args[0].op == "mref":
        eng.store(st, args[0], mk("it", "unk", eng.fresh(st, ("used", site.key()))))
    yes, no = [], []
    for item, s in items:
        for e in eng.call_value(f, [item], s, site):
            for b in (True, False):
                for s2 in eng.assume(e.st.copy(), e.ret, b):
                    (yes if b else no).append(s2)
    uni, wit = (yes, no) if n == "all" else (no, yes)
    # universal outcome: every element satisfied `uni`
    out = []
    s1 = st.copy()
    fs = None
    for s2 in uni:
        x = gen_facts(st, s2, g)
        fs = x if fs is None else factmeet(fs, x)
    if exact and fs and uni:
        add_all(s1, inner, fs, g, None)
    if exact and not uni:
        # only an empty iteration can end this way
        try:
            s1.F.add_eq(cnt, ZERO)
            out.append(Exit(boolc(n == "all"), s1))
        except Infeasible:
            pass
    else:
        out.append(Exit(boolc(n == "all"), s1))
    w = sym(("w", site.key()), "usize")
    for s2 in wit:
        if len(out) > 6:
            break
        s3 = s2.copy()
        out.append(Exit(boolc(n != "all"), rename_sym(eng, s3, g, eng.fresh(st, ("w", site.key()), "usize"))))
    return out


def factmeet(a, b):
    d = {(k, t): v for k, t, v in b}
    out = set()
    for k, t, v in a:
        w = d.get((k, t))
        if w is None:
            continue
        if k == "var":
            out.add((k, t, v | w))
        elif k == "cs":
            out.add((k, t, runion(v, w)))
        elif v == w:
            out.add((k, t, v))
    return out


def rename_sym(eng, s, g, w):
    m = {g: w}
    memo = {}
    F = s.F
    for name in ("var", "at", "cs"):
        d = getattr(F, name)
        for t in [t for t in d if g in t.syms]:
            d[subst(t, m, memo)] = d.pop(t)
    F.db = {(subst(a, m, memo), subst(b, m, memo)): k for (a, b), k in F.db.items()}
    for k in s.cells:
        if g in s.cells[k].syms:
            s.cells[k] = subst(s.cells[k], m, memo)
    return s


def m_iter_find(M, eng, st, path, c, args, site):
    n = path.rsplit("::", 1)[-1]
    it = V(eng, st, args[0])
    if it.op != "it":
        it = as_iter(eng, it)
    if n not in ("find", "position"):
        return None
    sb = str_base(it)
    if n == "position" and sb and sb[0] == "b" and not closure_has_mref(args[1]):
        r = pred_cls(eng, st, args[1], "b")
        if r is not None:
            if args[0].op == "mref":
                eng.store(st, args[0], mk("it", "unk", eng.fresh(st, ("used", site.key()))))
            x = sb[1]
            out = [Exit(NONE, s) for s in eng.assume(st.copy(), app("containscls", x, r), False)]
            for s in eng.assume(st, app("containscls", x, r), True):
                try:
                    p = span(s.F, x, rdiff(TOP, r))
                    s.F.add_le(p, mk_len(x), -1)
                except Infeasible:
                    continue
                out.append(Exit(some(p), s))
            return out
    r = run_generic(M, eng, st, it, site)
    f = args[1]
    if r is None or closure_has_mref(f):
        r = desugar.run(eng, n, st.copy(), it, None, f, site)
        if r is not None and args[0].op == "mref":
            for e in r:
                eng.store(e.st, args[0], mk("it", "unk", eng.fresh(e.st, ("used", site.key()))))
        return r
    items, cnt, g, exact, inner = r
    if args[0].op == "mref":
        eng.store(st, args[0], mk("it", "unk", eng.fresh(st, ("used", site.key()))))
    yes, no = [], []
    for item, s in items:
        for e in eng.call_value(f, [item], s, site):
            for b in (True, False):
                for s2 in eng.assume(e.st.copy(), e.ret, b):
                    (yes if b else no).append((item, s2))
    out = []
    s1 = st.copy()
    fs = None
    for item, s2 in no:
        x = gen_facts(st, s2, g)
        fs = x if fs is None else factmeet(fs, x)
    if exact and fs:
        add_all(s1, inner, fs, g, None)
    if exact and not no:
        try:
            s1.F.add_eq(cnt, ZERO)
            out.append(Exit(NONE, s1))
        except Infeasible:
            pass
    else:
        out.append(Exit(NONE, s1))
    for item, s2 in yes:
        w = eng.fresh(st, ("w", site.key()), "usize")
        s3 = rename_sym(eng, s2.copy(), g, w)
        val = subst(item, {g: w}) if n == "find" else w
        out.append(Exit(some(val), s3))
    return out


@model("collect", "from_iter")
def m_collect(M, eng, st, path, c, args, site):
    it = V(eng, st, args[0])
    if it.op != "it":
        it = as_iter(eng, it)
    dt = eng.T[site.destty] if site.destty is not None else {"k": "other", "s": ""}
    if any(closure_has_mref(g) for _, g in desugar.chain(it)[1]):
        r = desugar.run(eng, "collect", st.copy(), it, None, None, site)
        if r is not None:
            return r
    r = run_generic(M, eng, st, it, site)
    h = getattr(eng.pl, "on_collect", None)
    if h:
        x = h(eng, st, it, r, dt, site)
        if x is not None:
            return x
    if r is None:
        v = eng.fresh(st, ("collect", site.key()), dt["s"])
        return one(v, st)
    items, n, g, exact, inner = r

    def vec_of(items):
        if len(items) == 1 and exact:
            body = subst(items[0][0], {g: HOLE})
            v = app("vecof", n, body)
            fs = gen_facts(st, items[0][1], g)
            return v, n, None
        v = eng.fresh(st, ("collect", site.key()), None)
        sm = "bot"
        for item, s in items:
            sm = join_summ(sm, elem_summary(s.F, item))
        return v, (n if exact else None), sm

    def wrap(items, s):
        s = s.copy()
        v, cnt, sm = vec_of(items)
        if v.op == "app":
            return v, s
        ln = mk_len(v)
        try:
            if cnt is not None:
                s.F.add_eq(ln, cnt)
            else:
                s.F.add_le(ln, n, 0)
        except Infeasible:
            pass
        if sm and sm != "bot" and sm[0] == "S" and sm[1] is not None:
            s.F.all[v] = frozenset({("cs", mk("app", "allch", HOLE), sm[1])})
        return v, s
    p = dt.get("p")
    if p in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque"):
        v, s = wrap(items, st)
        return one(v, s)
    if p == RES:
        oks, errs = [], []
        for item, s in items:
            for vi, x, s2 in split_variant(eng, s, item, RES, 2):
                (oks if vi == 0 else errs).append((payload(eng, s2, x, vi), s2))
        out = []
        if oks or True:
            v, s = wrap(oks, st) if oks else (seq("v", ZERO, "bot", EMPTY), st.copy())
            inner_t = eng.T[dt["a"][0]]
            if inner_t.get("p") not in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque"):
                v = eng.fresh(st, ("collect", site.key()), inner_t["s"])
            out.append(Exit(okv(v), s))
        for x, s2 in errs[:4]:
            out.append(Exit(errv(x), rename_sym(eng, s2.copy(), g, eng.fresh(st, ("w", site.key()), "usize"))))
        return out
    if dt.get("s") == "alloc::string::String":
        v = eng.fresh(st, ("collect", site.key()), dt["s"])
        acc = ()
        for item, s in items:
            q = scal(s.F, item) if (item.ty == "char" or item.op == "char") else allch(s.F, item)
            if q is None:
                acc = None
                break
            acc = runion(acc, q)
        if acc is not None:
            st.F.cs[mk("app", "allch", v)] = acc
        return one(v, st)
    v = eng.fresh(st, ("collect", site.key()), dt["s"])
    return one(v, st)


REBUILD["len"] = lambda c: c.a[1] if c.op == "app" and c.a[0] == "vecof" else mk_len(c)
_old_mk_len = mk_len


@model("count", "sum", "product", "last_it", "fold", "for_each", "partition", "nth", "max_by_key", "min_by_key", "max_by", "unzip", "try_fold", "try_for_each")
def m_consume(M, eng, st, path, c, args, site):
    n = path.rsplit("::", 1)[-1]
    v = V(eng, st, args[0])
    if n in ("for_each", "try_for_each", "fold", "try_fold") and len(args) == (3 if "fold" in n else 2):
        it = v if v.op == "it" else as_iter(eng, v)
        r = desugar.run(eng, n, st.copy(), it, args[1] if "fold" in n else None, args[-1], site)
        if r is not None:
            if args[0].op == "mref":
                for e in r:
                    eng.store(e.st, args[0], mk("it", "unk", eng.fresh(e.st, ("used", site.key()))))
            return r
    if n in ("for_each", "try_for_each", "fold", "try_fold"):
        for f in args[1:]:
            if closure_has_mref(f):
                havoc_closure(eng, st, f, site)
    if n == "count" and str_base(v):
        k, x = str_base(v)
        r = allch(st.F, x)
        if k == "b" or (r is not None and not rdiff(r, ASCII)):
            return one(mk_len(x), st)
    if n == "count" and v.op == "it" and v.a[0] == "slice":
        return one(sub(v.a[3], v.a[2]), st)
    if n == "count" and v.op == "it" and v.a[0] == "split" and v.a[3] is ZERO:
        return one(tyu(app("nsplit", v.a[1], v.a[2])), st)
    if contains_mref(v):
        return None
    r = app("it_" + n, v, *[x for x in args[1:]])
    eng.typed(r, site.destty)
    if n == "partition":
        return None
    return one(r, st)


@model("extend", "extend_from_slice", "append", "resize", "insert_str", "extend_one")
def m_extend(M, eng, st, path, c, args, site):
    n = path.rsplit("::", 1)[-1]
    h = getattr(eng.pl, "on_extend", None)
    cur = V(eng, st, args[0])
    if h:
        r = h(eng, st, args[0], cur, args, site)
        if r is not None:
            return r
    if "string::String" in path:
        new = eng.fresh(st, ("ext", site.key()), "alloc::string::String")
        x = V(eng, st, args[1])
        if n == "extend_from_slice" or x.op in ("str", "cat"):
            new = cat(*pieces(cur), ("v", x))
        eng.store(st, args[0], new)
        return one(UNIT, st)
    x = V(eng, st, args[1])
    if n in ("extend_from_slice", "append") and args[0].op == "mref":
        ln = add(mk_len(cur), mk_len(x))
        tok = app("extd", cur.a[3] if cur.op == "seq" else cur, x)
        eng.store(st, args[0], seq(cur.a[0] if cur.op == "seq" else "v", ln, None, tok))
        if n == "append" and args[1].op == "mref":
            eng.store(st, args[1], seq("v", ZERO, "bot", EMPTY))
        return one(UNIT, st)
    if args[0].op == "mref" and n == "extend":
        xi = x if x.op == "it" else as_iter(eng, x)
        if xi.a[0] == "opt":
            out = []
            for vi, x, s in split_variant(eng, st, xi.a[1], OPT, 2):
                out += vec_push(M, eng, s, args[0], payload(eng, s, x, 1), site) if vi == 1 else one(UNIT, s)
            return out
        r = run_generic(M, eng, st, xi, site)
        tok = eng.fresh(st, ("ext", site.key()), None) if contains_mref(x) else app("extd", cur.a[3] if cur.op == "seq" else cur, x)
        if r is not None and r[3]:
            ln = add(mk_len(cur), r[1])
        else:
            ln = eng.fresh(st, ("extn", site.key()), "usize")
            st.F.add_le(mk_len(cur), ln, 0)
        eng.store(st, args[0], seq(cur.a[0] if cur.op == "seq" else "v", ln, None, tok))
        return one(UNIT, st)
    return None


@model("reserve", "shrink_to_fit", "reserve_exact")
def m_reserve(M, eng, st, path, c, args, site):
    h = getattr(eng.pl, "on_alloc", None)
    if h and len(args) > 1:
        h(eng, st, args[1], site)
    return one(UNIT, st)


@model("call", "call_mut", "call_once")
def m_fncall(M, eng, st, path, c, args, site):
    f = V(eng, st, args[0])
    a = list(args[1].a[0]) if len(args) > 1 and args[1].op == "tup" else list(args[1:])
    if f.op in ("clo", "fnc"):
        return eng.call_value(f, a, st, site)
    r = eng.pl.on_call(eng, st, "<indirect>", None, [f] + a, site)
    if r is not None:
        return r
    return None


@model("is_finite", "is_nan", "is_infinite", "is_sign_negative", "is_sign_positive", "is_normal")
def m_float(M, eng, st, path, c, args, site):
    v = V(eng, st, args[0])
    return one(app(path.rsplit("::", 1)[-1], v), st)


@model("is_multiple_of")
def m_mult(M, eng, st, path, c, args, site):
    return one(app("ieq", ZERO, tyu(app("rem", args[0], args[1]))) if False else mk_cmp("Eq", tyu(app("rem", args[0], args[1])), ZERO), st)


@model("panic_fmt", "panic", "begin_panic", "panic_display", "unreachable_display", "assert_failed", "panic_explicit")
def m_panic(M, eng, st, path, c, args, site):
    M.on_panic(eng, st, "panic", site)
    return []


@model("strip_prefix", "strip_suffix")
def m_strip(M, eng, st, path, c, args, site):
    n = path.rsplit("::", 1)[-1]
    v, p = V(eng, st, args[0]), V(eng, st, args[1])
    if p.op not in ("char", "str"):
        return None
    cond = app("starts_with" if n == "strip_prefix" else "ends_with", v, p)
    k = intc(len((p.a[0] if p.op == "str" else chr(p.a[0])).encode()))
    out = []
    for s in eng.assume(st.copy(), cond, False):
        out.append(Exit(NONE, s))
    for s in eng.assume(st, cond, True):
        t = app("substr", v, k, mk_len(v)) if n == "strip_prefix" else app("substr", v, ZERO, sub(mk_len(v), k))
        t.ty = "str"
        s.F.add_eq(mk_len(t), sub(mk_len(v), k))
        out.append(Exit(some(t), s))
    return out


# ---- abstract loops over an iterator -----------------------------------------------------------
def abs_loop(M, eng, st, it, step, site, ret=UNIT):
    """run step(state, item) -> [Exit] for every item of `it`, to a fixpoint; -> [Exit(ret, state)]"""
    cell = (("lp", site.key()), 0)
    st = st.copy()
    st.cells[cell] = it
    heads = {}
    work = [st]
    outs = {}
    n = 0
    point = ("lp", site.key())

    def key(s):
        return (eng.pl.ghost_key(s), shape_of(s.cells[cell], s, 0))
    while work:
        s = work.pop()
        n += 1
        if n > 400:
            raise Limit("iterator loop does not stabilise at " + site.where())
        w = M.fold_pending(eng, s)
        if w is not None:
            s = w
        s = s.copy()
        k = key(s)
        old, cnt = heads.get(k, (None, 0))
        if old is not None:
            s = S.join(old, s, point, None, 1 if cnt > 1 else 0, None, M.scalar_attr)
            if s is old:
                continue
        heads[k] = (s, cnt + 1)
        res = []
        for item, it2, s2 in it_next(M, eng, s.copy(), s.cells[cell], site):
            s2.cells[cell] = it2
            if item is None:
                res.append(s2)
            else:
                for e in step(s2, item):
                    work.append(e.st)
        outs[k] = res
    groups = {}
    for k, res in outs.items():
        for s in res:
            s = s.copy()
            s.cells.pop(cell, None)
            groups.setdefault(eng.pl.ghost_key(s), []).append(s)
    out = []
    for k in sorted(groups, key=str):
        cur = None
        for s in groups[k]:
            cur = s if cur is None else S.join(cur, s, point + ("x",), None, 0, None, M.scalar_attr)
        out.append(Exit(ret, cur.copy()))
    return out
