"""Hash-consed terms (abstract values) and scalar range sets."""

_tab = {}
_ctr = [0]


class Term:
    __slots__ = ("op", "a", "id", "syms", "_h", "ty")

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)


SYMOPS = {"sym"}


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.a = a
        _ctr[0] += 1
        t.id = _ctr[0]
        t._h = t.id
        t.ty = None
        if op == "sym":
            t.syms = frozenset((t,))
        else:
            s = None
            for x in a:
                s = _collect(x, s)
            t.syms = s if s is not None else _EMPTY
        _tab[k] = t
    return t


_EMPTY = frozenset()


def _collect(x, s):
    if isinstance(x, Term):
        if x.syms:
            return x.syms if s is None else (s if x.syms <= s else s | x.syms)
    elif isinstance(x, tuple):
        for y in x:
            s = _collect(y, s)
    return s


def sym(name, ty=None):
    t = mk("sym", name)
    if ty is not None and t.ty is None:
        t.ty = ty
    return t


UNIT = mk("tup", ())
TRUE = mk("bool", True)
FALSE = mk("bool", False)


def boolc(b):
    return TRUE if b else FALSE


def intc(v):
    return mk("int", v)


def charc(v):
    return mk("char", v)


def strc(s):
    return mk("str", s)


def adt(path, vi, fields):
    return mk("adt", path, vi, tuple(fields))


def some(v):
    return mk("adt", "core::option::Option", 1, (v,))


NONE = mk("adt", "core::option::Option", 0, ())


def okv(v):
    return mk("adt", "core::result::Result", 0, (v,))


def errv(v):
    return mk("adt", "core::result::Result", 1, (v,))


def app(f, *a):
    return mk("app", f, *a)


def show(t, d=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
        return repr(t) if isinstance(t, str) else str(t)
    if d > 8:
        return "…"
    o, a = t.op, t.a
    if o == "sym":
        return "$" + _shname(a[0])
    if o in ("int", "bool"):
        return str(a[0])
    if o == "char":
        return repr(chr(a[0])) if isinstance(a[0], int) else f"'{a[0]}'"
    if o == "str":
        return repr(a[0])
    if o == "adt":
        return f"{a[0].split('::')[-1]}#{a[1]}(" + ", ".join(show(x, d + 1) for x in a[2]) + ")"
    if o == "tup":
        return "(" + ", ".join(show(x, d + 1) for x in a[0]) + ")"
    if o == "fld":
        return f"{show(a[0], d+1)}.{a[1]}.{a[2]}"
    if o == "app":
        return f"{str(a[0]).split('::')[-1]}(" + ", ".join(show(x, d + 1) for x in a[1:]) + ")"
    if o == "lin":
        s = [str(a[0])] if a[0] else []
        for x, c in a[1]:
            s.append((f"{c}*" if c != 1 else "") + show(x, d + 1))
        return "(" + "+".join(s) + ")"
    return o + "(" + ", ".join(show(x, d + 1) for x in a) + ")"


def _shname(n):
    if isinstance(n, tuple):
        return "/".join(_shname(x) for x in n)
    s = str(n)
    return s.split("::")[-1] if "::" in s else s


# ---- integer linear normal form -------------------------------------------------
def lin_parts(t):
    if t.op == "int":
        return t.a[0], ()
    if t.op == "lin":
        return t.a[0], t.a[1]
    return 0, ((t, 1),)


def lin_make(c, parts):
    parts = tuple(sorted(((x, k) for x, k in parts if k), key=lambda p: p[0].id))
    if not parts:
        return intc(c)
    if c == 0 and len(parts) == 1 and parts[0][1] == 1:
        return parts[0][0]
    return mk("lin", c, parts)


def add(a, b, sb=1):
    ca, pa = lin_parts(a)
    cb, pb = lin_parts(b)
    d = dict(pa)
    for x, k in pb:
        d[x] = d.get(x, 0) + sb * k
    return lin_make(ca + sb * cb, d.items())


def sub(a, b):
    return add(a, b, -1)


def mulc(a, k):
    c, p = lin_parts(a)
    return lin_make(c * k, [(x, q * k) for x, q in p])


# ---- substitution ---------------------------------------------------------------
def subst(t, m, memo=None):
    """m: {Term: Term}; replaces maximal occurrences bottom-up on the keys' symbols."""
    if memo is None:
        memo = {}
    keysyms = memo.get("__ks")
    if keysyms is None:
        ks = set()
        anyclosed = False
        for k in m:
            ks |= k.syms
            if not k.syms:
                anyclosed = True
        memo["__ks"] = keysyms = (ks, anyclosed)
    return _subst(t, m, memo, keysyms)


def _subst(t, m, memo, ks):
    if t in m:
        return m[t]
    if not ks[1] and (not t.syms or ks[0].isdisjoint(t.syms)):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    a2 = tuple(_substx(x, m, memo, ks) for x in t.a)
    if a2 == t.a:
        r = t
    elif t.op == "lin":
        r = intc(a2[0])
        for x, k in a2[1]:
            r = add(r, mulc(x, k))
    else:
        r = rebuild(t.op, a2)
    memo[t] = r
    return r


def _substx(x, m, memo, ks):
    if isinstance(x, Term):
        return _subst(x, m, memo, ks)
    if isinstance(x, tuple):
        return tuple(_substx(y, m, memo, ks) for y in x)
    return x


def rebuild(op, a):
    """re-normalise after substitution"""
    if op == "fld":
        b = a[0]
        if b.op == "adt" and b.a[1] == a[1] and a[2] < len(b.a[2]):
            return b.a[2][a[2]]
        if b.op == "tup" and a[2] < len(b.a[0]):
            return b.a[0][a[2]]
    if op == "discr":
        pass
    f = REBUILD.get(a[0]) if op == "app" else None
    if f:
        r = f(*a[1:])
        if r is not None:
            return r
    return mk(op, *a)


REBUILD = {}

# ---- scalar sets: tuple of inclusive ranges ----------------------------------------
TOP = ((0, 0x10FFFF),)
ASCII = ((0, 127),)


def rs(*xs):
    out = []
    for x in xs:
        if isinstance(x, tuple):
            out.append((x[0] if isinstance(x[0], int) else ord(x[0]), x[1] if isinstance(x[1], int) else ord(x[1])))
        elif isinstance(x, int):
            out.append((x, x))
        else:
            for c in x:
                out.append((ord(c), ord(c)))
    return rnorm(out)


def rnorm(l):
    l = sorted(l)
    out = []
    for a, b in l:
        if a > b:
            continue
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return tuple(out)


def runion(a, b):
    if a == b:
        return a
    return rnorm(list(a) + list(b))


def rinter(a, b):
    out = []
    for x in a:
        for y in b:
            lo, hi = max(x[0], y[0]), min(x[1], y[1])
            if lo <= hi:
                out.append((lo, hi))
    return rnorm(out)


def rcompl(a, top=TOP):
    out = []
    lo = top[0][0]
    for x, y in a:
        if x > lo:
            out.append((lo, x - 1))
        lo = max(lo, y + 1)
    if lo <= top[-1][1]:
        out.append((lo, top[-1][1]))
    return rnorm(out)


def rdiff(a, b):
    return rinter(a, rcompl(b, ((0, max(0x10FFFF, a[-1][1] if a else 0)),)))


def rsub(a, b):
    return not rdiff(a, b)


def rshow(r):
    def c(x):
        return chr(x) if 33 <= x < 127 else f"\\x{x:02x}"
    return "[" + "".join(c(a) if a == b else f"{c(a)}-{c(b)}" for a, b in r) + "]"


DIGIT = rs((48, 57))
ALPHA = rs((65, 90), (97, 122))
ALNUM = runion(DIGIT, ALPHA)
CONTROL = rs((0, 31), (127, 159))
WS = rs((9, 13), 32, 0x85, 0xA0, 0x1680, (0x2000, 0x200A), 0x2028, 0x2029, 0x202F, 0x205F, 0x3000)
HEX = rs((48, 57), (65, 70), (97, 102))
