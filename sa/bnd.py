"""UTF-8 boundary reasoning: is byte offset i of string s a character boundary on every path?"""
from .terms import *
from .state import scal, variants
from . import state as S
from .engine import mk_len
from .models import allch

ZERO = intc(0)
CONT = ((0x80, 0xBF),)
NOTCONT = ((0, 0x7F), (0xC0, 0x10FFFF))


def bnd(s, i):
    return mk("app", "bnd", s, i)


def bytesof(s):
    return mk("app", "bytes", s)


def plen(p):
    """byte length of a literal pattern"""
    if p.op == "str":
        return len(p.a[0].encode())
    if p.op == "char":
        return len(chr(p.a[0]).encode())
    if p.op == "cset" and p.a[0] and p.a[0][-1][1] < 0x80:
        return 1
    return None


def suffix(t):
    """(string, offset) when t is a suffix or substring of another string starting at offset"""
    if t.op == "app":
        if t.a[0] == "substr":
            return t.a[1], t.a[2]
        if t.a[0] == "trim_start":
            s = t.a[1]
            return s, sub(mk_len(s), mk_len(t))
    return None


def rdisj(a, b):
    return not rinter(a, b)


def boundary(F, s, i, d=0):
    if d > 8:
        return False
    if i is ZERO:
        return True
    if s.op == "str":
        if i.op == "int":
            b = s.a[0].encode()
            return i.a[0] >= len(b) or (b[i.a[0]] & 0xC0) != 0x80
        return all(ord(c) < 128 for c in s.a[0])
    al = allch(F, s)
    if al is not None and (not al or al[-1][1] < 128):
        return True
    if F.at.get(bnd(s, i)) is True:
        return True
    if F.le(mk_len(s), i):
        return True
    p = S.pfx_of(F, s, i)
    if p is not None and (not p or p[-1][1] < 128):
        return True
    e = S.scal(F, mk("app", "elem", bytesof(s), i))
    if e is not None and rdisj(e, CONT):
        return True
    c, parts = lin_parts(i)
    # the byte before is a complete character
    if c != 0 or i.op == "int":
        j = add(i, intc(-1))
        if not (i.op == "int" and i.a[0] <= 0):
            e = S.scal(F, mk("app", "elem", bytesof(s), j))
            if e is not None and (not e or e[-1][1] < 128):
                return True
    # positions handed out by the library
    for x, k in parts:
        if k == 1 and x.op == "app" and x.a[0] in ("find", "rfind", "choff"):
            rest = sub(i, x)
            s2 = x.a[1]
            off = ZERO
            if s2 is not s:
                r = suffix(s2)
                if r is None or r[0] is not s:
                    continue
                off = r[1]
            extra = sub(rest, off)
            if extra is ZERO:
                return True
            if extra.op == "int" and x.a[0] != "choff" and len(x.a) > 2 and plen(x.a[2]) == extra.a[0]:
                return True
    if i.op == "int":
        for t, v in F.at.items():
            if v is True and t.op == "app" and t.a[0] == "starts_with" and t.a[1] is s and t.a[2].op in ("str", "char"):
                p = t.a[2]
                b = p.a[0].encode() if p.op == "str" else chr(p.a[0]).encode()
                if i.a[0] == len(b) or (i.a[0] < len(b) and (b[i.a[0]] & 0xC0) != 0x80):
                    return True
        if i.a[0] == 1:
            f = S.scal(F, mk("app", "first", s))
            if f is not None and (not f or f[-1][1] < 128):
                return True
    # a boundary of a substring is a boundary of the string it was cut from
    for x, k in parts:
        if x.op == "app" and x.a[0] == "len" and k == 1 and x.a[1] is s:
            # len(s) - len(trim_start(s)) + k
            for y, k2 in parts:
                if k2 == -1 and y.op == "app" and y.a[0] == "len":
                    t = y.a[1]
                    r = suffix(t)
                    if r is not None and r[0] is s:
                        rest = sub(i, sub(x, y))
                        if boundary(F, t, rest, d + 1):
                            return True
    r = suffix(s)
    if r is not None and boundary(F, r[0], add(r[1], i), d + 1):
        return True
    # offsets equal to i by the difference bounds
    for t, v in F.at.items():
        if v is True and t.op == "app" and t.a[0] == "bnd" and t.a[1] is s and t.a[2].op == "sym":
            if F.le(t.a[2], i) and F.le(i, t.a[2]):
                return True
    return False


def note(F, term, ranges):
    """facts worth remembering when the byte at a position becomes known"""
    if term.op == "app" and term.a[0] == "elem" and term.a[1].op == "app" and term.a[1].a[0] == "bytes":
        s, i = term.a[1].a[1], term.a[2]
        if i.op == "int":
            return
        if rdisj(ranges, CONT):
            F.at[bnd(s, i)] = True
        if ranges and ranges[-1][1] < 128:
            F.at[bnd(s, add(i, intc(1)))] = True


def evalbnd(F, t):
    return True if boundary(F, t.a[1], t.a[2]) else None
