"""Regular languages over characters, as deterministic automata.

Alphabet: the 128 ASCII characters, W (non-ASCII white space) and U (every other non-ASCII character).
A set of letters is a bit mask.
"""

NA = 130
ALL = (1 << NA) - 1
W, U = 128, 129
ASCII = (1 << 128) - 1
NONASCII = ALL & ~ASCII


def m(chars):
    r = 0
    for c in chars:
        r |= 1 << (ord(c) if isinstance(c, str) else c)
    return r


def rng(a, b):
    r = 0
    for i in range(ord(a), ord(b) + 1):
        r |= 1 << i
    return r


DIGIT = rng("0", "9")
UPPER = rng("A", "Z")
LOWER = rng("a", "z")
ALPHA = UPPER | LOWER
WS = m("\t\n\x0b\x0c\r ") | 1 << W
ASCIIWS = m("\t\n\x0c\r ")
CONTROL = ((1 << 32) - 1) | 1 << 127


def single(mask):
    return mask != 0 and mask & (mask - 1) == 0


def chr_of(mask):
    """the character of a singleton ASCII mask"""
    b = mask.bit_length() - 1
    return chr(b) if b < 128 else None


def letter(c):
    o = ord(c) if isinstance(c, str) else c
    if o < 128:
        return 1 << o
    if o in (0x85, 0xA0, 0x1680, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000) or 0x2000 <= o <= 0x200A:
        return 1 << W
    return 1 << U


def show(mask):
    if mask == ALL:
        return "any"
    n = ALL & ~mask

    def one(x):
        out = []
        i = 0
        while i < NA:
            if x >> i & 1:
                j = i
                while j + 1 < 128 and x >> (j + 1) & 1:
                    j += 1
                if i == W:
                    out.append("<space U+0085..>")
                elif i == U:
                    out.append("<non-ASCII>")
                else:
                    out.append(repr(chr(i)) if i == j else f"{chr(i)!r}..{chr(j)!r}")
                i = j + 1
            else:
                i += 1
        return ",".join(out)
    if bin(n).count("1") < bin(mask).count("1"):
        return "not " + one(n)
    return one(mask)


class Dfa:
    __slots__ = ("tr", "acc", "_key")

    def __init__(self, tr, acc):
        self.tr = tr        # per state: list of (mask, target), a partition of the alphabet
        self.acc = acc      # set of states
        self._key = None

    def key(self):
        if self._key is None:
            self._key = (tuple(tuple(x) for x in self.tr), tuple(sorted(self.acc)))
        return self._key

    def step(self, s, mask):
        return {t for x, t in self.tr[s] if x & mask}

    def comp(self):
        return Dfa(self.tr, set(range(len(self.tr))) - set(self.acc))

    def empty(self):
        return not self.acc or self.witness() is None

    def witness(self):
        """a shortest accepted word (letters chosen printable where possible)"""
        from collections import deque
        prev = {0: None}
        q = deque([0])
        while q:
            s = q.popleft()
            if s in self.acc:
                out = []
                while prev[s] is not None:
                    p, x = prev[s]
                    out.append(pick(x))
                    s = p
                return "".join(reversed(out))
            for x, t in self.tr[s]:
                if t not in prev:
                    prev[t] = (s, x)
                    q.append(t)
        return None

    def __and__(self, o):
        return product(self, o, lambda a, b: a and b)

    def __or__(self, o):
        return product(self, o, lambda a, b: a or b)

    def __sub__(self, o):
        return product(self, o, lambda a, b: a and not b)

    def __le__(self, o):
        return (self - o).empty()

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def useful(self):
        """states from which an accepting state can be reached"""
        good = set(self.acc)
        ch = True
        while ch:
            ch = False
            for s, row in enumerate(self.tr):
                if s not in good and any(t in good for _, t in row):
                    good.add(s)
                    ch = True
        return good


PREF = [ord(c) for c in "axb10z-_.:,|\"\\[]{} \n\t\r"]


def pick(mask):
    for o in PREF:
        if mask >> o & 1:
            return chr(o)
    for o in range(32, 127):
        if mask >> o & 1:
            return chr(o)
    for o in range(128):
        if mask >> o & 1:
            return chr(o)
    return "\u2028" if mask >> W & 1 else "\u00e9"


def minimize(d):
    # reachable
    order = [0]
    idx = {0: 0}
    for s in order:
        for x, t in d.tr[s]:
            if t not in idx:
                idx[t] = len(order)
                order.append(t)
    n = len(order)
    tr = [[(x, idx[t]) for x, t in d.tr[s]] for s in order]
    acc = {idx[s] for s in d.acc if s in idx}
    part = [1 if s in acc else 0 for s in range(n)]
    while True:
        sig = {}
        new = []
        for s in range(n):
            row = {}
            for x, t in tr[s]:
                row[part[t]] = row.get(part[t], 0) | x
            k = (part[s], tuple(sorted(row.items())))
            new.append(sig.setdefault(k, len(sig)))
        if len(set(new)) == len(set(part)):
            break
        part = new
    # canonical numbering in breadth-first order by lowest letter
    rep = {}
    for s in range(n):
        rep.setdefault(part[s], s)
    order = [part[0]]
    idx = {part[0]: 0}
    rows = []
    for c in order:
        row = {}
        for x, t in tr[rep[c]]:
            row[part[t]] = row.get(part[t], 0) | x
        items = sorted(((x, t) for t, x in row.items()), key=lambda p: p[0] & -p[0])
        for x, t in items:
            if t not in idx:
                idx[t] = len(order)
                order.append(t)
        rows.append(items)
    tr2 = [[(x, idx[t]) for x, t in row] for row in rows]
    return Dfa(tr2, {idx[c] for c in order if rep[c] in acc})


def product(a, b, f):
    idx = {(0, 0): 0}
    order = [(0, 0)]
    tr = []
    for p, q in order:
        row = {}
        for x, t in a.tr[p]:
            for y, u in b.tr[q]:
                if x & y:
                    k = (t, u)
                    row[k] = row.get(k, 0) | (x & y)
        out = []
        for k, x in row.items():
            if k not in idx:
                idx[k] = len(order)
                order.append(k)
            out.append((x, idx[k]))
        tr.append(out)
    return minimize(Dfa(tr, {i for i, (p, q) in enumerate(order) if f(p in a.acc, q in b.acc)}))


def from_nfa(start, edges, final, anyfinal=()):
    """start: node; edges: {node: [(mask, node)]}; final: nodes accepting at the end of the word;
    anyfinal: nodes from which every continuation is accepted"""
    s0 = frozenset([start])
    idx = {s0: 0}
    order = [s0]
    tr = []
    TOP = "TOP"
    for S in order:
        if S == TOP or (S and S & frozenset(anyfinal)):
            if TOP not in idx:
                idx[TOP] = len(order)
                order.append(TOP)
            tr.append([(ALL, idx[TOP])])
            continue
        es = [e for n in S for e in edges.get(n, ())]
        # partition of the alphabet by the edge masks
        cells = [ALL]
        for x, _ in es:
            nc = []
            for c in cells:
                if c & x:
                    nc.append(c & x)
                if c & ~x:
                    nc.append(c & ~x)
            cells = nc
        row = {}
        for c in cells:
            T = frozenset(t for x, t in es if x & c)
            row[T] = row.get(T, 0) | c
        out = []
        for T, x in row.items():
            if T not in idx:
                idx[T] = len(order)
                order.append(T)
            out.append((x, idx[T]))
        tr.append(out)
    acc = set()
    for S, i in idx.items():
        if S == TOP or S & frozenset(final) or S & frozenset(anyfinal):
            acc.add(i)
    return minimize(Dfa(tr, acc))


def universal():
    return Dfa([[(ALL, 0)]], {0})


def nothing():
    return Dfa([[(ALL, 0)]], set())


def contains(mask):
    return from_nfa(0, {0: [(ALL & ~mask, 0), (mask, 1)]}, [], [1])


def literal(*words):
    edges = {}
    fin = []
    n = 1
    for w in words:
        cur = 0
        for c in w:
            edges.setdefault(cur, []).append((letter(c), n))
            cur = n
            n += 1
        fin.append(cur)
    return from_nfa(0, edges, fin)


def starts(mask):
    return from_nfa(0, {0: [(mask, 1)]}, [], [1])


def starts_str(w):
    edges, cur = {}, 0
    for c in w:
        edges[cur] = [(letter(c), cur + 1)]
        cur += 1
    return from_nfa(0, edges, [], [cur])


def ends(mask):
    return from_nfa(0, {0: [(ALL, 0), (mask, 1)]}, [1])


def ends_str(w):
    edges = {0: [(ALL, 0)]}
    cur = 0
    for i, c in enumerate(w):
        edges.setdefault(cur, []).append((letter(c), i + 1))
        cur = i + 1
    return from_nfa(0, edges, [cur])


def contains_str(w):
    edges = {0: [(ALL, 0)]}
    cur = 0
    for i, c in enumerate(w):
        edges.setdefault(cur, []).append((letter(c), i + 1))
        cur = i + 1
    return from_nfa(0, edges, [], [cur])


def nonempty():
    return from_nfa(0, {0: [(ALL, 1)]}, [], [1])


def trimmed():
    """no leading and no trailing white space"""
    return (starts(WS) | ends(WS)).comp()


def allin(mask):
    return from_nfa(0, {0: [(mask, 0)]}, [0])


def dec_uint():
    nz = rng("1", "9")
    return from_nfa(0, {0: [(m("0"), 1), (nz, 2)], 2: [(DIGIT, 2)]}, [1, 2])


def dec_int():
    nz = rng("1", "9")
    return from_nfa(0, {0: [(m("-"), 1), (m("0"), 2), (nz, 3)], 1: [(nz, 3)], 3: [(DIGIT, 3)]}, [2, 3])


def f64_display():
    """what Display writes for a finite non-zero f64"""
    nz = rng("1", "9")
    return from_nfa(0, {0: [(m("-"), 1), (m("0"), 2), (nz, 3)], 1: [(m("0"), 2), (nz, 3)], 2: [(m("."), 4)], 3: [(DIGIT, 3), (m("."), 4)],
                        4: [(DIGIT, 5)], 5: [(DIGIT, 5)]}, [3, 5])
