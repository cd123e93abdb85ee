"""Iterator consumers that run a closure per item (for_each, fold, try_for_each, try_fold, all, any with side effects)
are interpreted as the loop they stand for: a MIR body is synthesised per call site and inlined like a closure."""
from .prog import Body
from .terms import *

NEXT = {"c": "fn", "p": "core::iter::traits::iterator::Iterator::next", "krate": "core", "a": [], "n": "next",
        "trait": "core::iter::traits::iterator::Iterator"}
CALL = {"c": "fn", "p": "core::ops::function::FnMut::call_mut", "krate": "core", "a": [], "n": "call_mut",
        "trait": "core::ops::function::FnMut"}
TRY = {"core::result::Result": (0, "Ok", 1, "Err"), "core::option::Option": (1, "Some", 0, "None"),
       "core::ops::control_flow::ControlFlow": (0, "Continue", 1, "Break")}


def ty(T, d):
    for i, t in enumerate(T):
        if t == d:
            return i
    T.append(d)
    return len(T) - 1


def fn_sig(eng, f):
    """(argument type indexes, return type index) of a function value"""
    if f.op == "clo":
        b = eng.prog.bodies.get(f.a[0])
        if b is None:
            return None
        a = b.locals[2:b.argc + 1]
        if b.d.get("spread") and len(a) == 1 and eng.T[a[0]]["k"] == "tuple":
            a = eng.T[a[0]]["a"]
        return list(a), b.locals[0]
    if f.op == "fnc":
        b = eng.prog.bodies.get(f.a[0])
        if b is not None:
            return list(b.locals[1:b.argc + 1]), b.locals[0]
    return None


VEC = ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque")
STAGES = ("map", "filter", "filter_map")


def chain(it):
    """(base iterator, [(adaptor, function)] from the inside out)"""
    st = []
    while it.op == "it" and it.a[0] in STAGES:
        st.append((it.a[0], it.a[2]))
        it = it.a[1]
    return it, st[::-1]


class Builder:
    def __init__(self, eng, sp):
        self.eng, self.sp = eng, sp
        T = self.T = eng.T
        self.L, self.B, self.lab = [], [], {}
        self.unit = next((i for i, t in enumerate(T) if t["s"] == "()"), None)
        if self.unit is None:
            self.unit = ty(T, {"k": "tuple", "s": "()", "a": []})
        self.isz = ty(T, next(t for t in T if t["s"] == "isize"))
        self.boo = ty(T, next(t for t in T if t["s"] == "bool"))
        self.unk = ty(T, {"s": "?iter", "k": "param", "a": []})

    def local(self, t):
        self.L.append(t)
        return len(self.L) - 1

    def label(self, n):
        self.lab[n] = len(self.B)

    def blk(self, s, t):
        self.B.append({"s": s, "t": t, "u": 0})

    def asg(self, pl, rv):
        return ["=", pl, rv, self.sp]

    def opt(self, t):
        return ty(self.T, {"s": f"core::option::Option<{self.T[t]['s']}>", "k": "adt", "p": "core::option::Option", "a": [t]})

    def call(self, fl, args, ret):
        """call the function in local fl; -> local with the result"""
        r, rf, tp = self.local(ret), self.local(self.unk), self.local(self.unk)
        self.blk([self.asg([rf], ["ref", [fl], "mut"]), self.asg([tp], ["agg", {"k": "tuple"}, [["m", [a]] for a in args]])],
                 ["call", ["k", CALL], [["m", [rf]], ["m", [tp]]], [r], len(self.B) + 1, self.sp, [self.unk, self.unk], ret])
        return r

    def discr(self, l, t, cases):
        d = self.local(self.isz)
        self.blk([self.asg([d], ["discr", [l], t])], ["switch", ["m", [d]], cases, "bad", self.isz, self.sp])

    def finish(self):
        self.label("bad")
        self.blk([], ["unreachable"])
        fix = lambda x: self.lab.get(x, x) if isinstance(x, str) else x
        for b in self.B:
            t = b["t"]
            if t[0] == "goto":
                t[1] = fix(t[1])
            elif t[0] == "switch":
                t[2] = [[v, fix(x)] for v, x in t[2]]
                t[3] = fix(t[3])
            elif t[0] == "call":
                t[4] = fix(t[4])
        return self.B


def synth(eng, kind, f, stages, site):
    if site.destty is None:
        return None
    T = eng.T
    dt = T[site.destty]
    fold = kind in ("fold", "try_fold")
    sigs = []
    for k, g in stages:
        sg = fn_sig(eng, g)
        if sg is None or len(sg[0]) != 1:
            return None
        sigs.append(sg)
    fsig = None
    if kind != "collect":
        fsig = fn_sig(eng, f)
        if fsig is None or len(fsig[0]) != (2 if fold else 1):
            return None
    elif not sigs:
        return None
    tag = ",".join(f"{k}:{g.a[0]}" for k, g in stages)
    bid = f"<iterator>::{kind}({tag};{f.a[0] if f is not None and f.op in ('clo', 'fnc') else ''})@{site.span}"
    if bid in eng.synth:
        return eng.synth[bid]
    b = Builder(eng, site.span)
    asg = b.asg
    mv = lambda *p: ["m", list(p)]
    unitk = ["k", {"c": "agg", "vi": None, "f": [], "t": b.unit}]
    item0 = sigs[0][0][0] if sigs else fsig[0][-1]
    if T[item0]["k"] == "ref" and stages and stages[0][0] == "filter":
        item0 = T[item0]["a"][0]
    vec = None
    if kind == "collect":
        q, wrap = dt, None
        if q.get("p") in ("core::result::Result", "core::option::Option"):
            wrap = q["p"]
            vt = q["a"][0]
            q = T[vt]
        else:
            vt = site.destty
        if q.get("p") not in VEC:
            return None
        acct = vt
    else:
        acct = fsig[0][0] if fold else b.unit
    ret, it, fl, acc = b.local(site.destty), b.local(b.unk), b.local(b.unk), b.local(acct)
    sl = [b.local(b.unk) for _ in stages]
    if kind == "collect":
        vn = {"c": "fn", "p": "alloc::vec::Vec::new", "krate": "alloc", "a": [], "n": "new"}
        b.blk([], ["call", ["k", vn], [], [acc], 1, site.span, [], vt])
    b.label("loop")
    rit, o = b.local(b.unk), b.local(b.opt(item0))
    b.blk([asg([rit], ["ref", [it], "mut"])], ["call", ["k", NEXT], [mv(rit)], [o], len(b.B) + 1, site.span, [b.unk], b.opt(item0)])
    b.discr(o, b.opt(item0), [[0, "done"], [1, "some"]])
    b.label("some")
    cur = b.local(item0)
    b.blk([asg([cur], ["use", mv(o, ["v", 1, "Some"], ["f", 0, item0])])], ["goto", len(b.B) + 1])
    for i, ((k, g), (ga, gr)) in enumerate(zip(stages, sigs)):
        if k == "map":
            cur = b.call(sl[i], [cur], gr)
        elif k == "filter":
            c = b.local(b.L[cur])
            b.blk([asg([c], ["use", ["c", [cur]]])], ["goto", len(b.B) + 1])
            r = b.call(sl[i], [c], gr)
            b.blk([], ["switch", mv(r), [[0, "loop"]], len(b.B) + 1, b.boo, site.span])
        else:
            r = b.call(sl[i], [cur], gr)
            b.discr(r, gr, [[0, "loop"], [1, f"s{i}"]])
            b.label(f"s{i}")
            it_t = T[gr]["a"][0]
            cur = b.local(it_t)
            b.blk([asg([cur], ["use", mv(r, ["v", 1, "Some"], ["f", 0, it_t])])], ["goto", len(b.B) + 1])

    def push(l):
        ra, ru = b.local(b.unk), b.local(b.unit)
        vp = {"c": "fn", "p": "alloc::vec::Vec::push", "krate": "alloc", "a": [b.L[l], b.unk], "n": "push"}
        b.blk([asg([ra], ["ref", [acc], "mut"])], ["call", ["k", vp], [mv(ra), mv(l)], [ru], "loop", site.span, [vt, b.L[l]], b.unit])

    def agg(p, vi, vn, ops):
        return ["agg", {"k": "adt", "p": p, "vi": vi, "vn": vn}, ops]

    def trysplit(l):
        """continue with the good payload in a new local; stops with the bad one"""
        t = T[b.L[l]]
        if t["k"] != "adt" or t["p"] not in TRY:
            return None
        ci, cn, bi, bn = TRY[t["p"]]
        b.discr(l, b.L[l], [[ci, "good"], [bi, "stop"]])
        b.label("stop")
        if bn == "None":
            ops = []
        else:
            et = t["a"][1] if t["p"] == "core::result::Result" else None
            ops = [mv(l, ["v", bi, bn], ["f", 0, et])]
        b.blk([asg([ret], agg(t["p"], bi, bn, ops))], ["return"])
        b.label("good")
        g = b.local(t["a"][0] if t["p"] != "core::ops::control_flow::ControlFlow" else b.unk)
        b.blk([asg([g], ["use", mv(l, ["v", ci, cn], ["f", 0, b.L[g]])])], ["goto", len(b.B) + 1])
        return g, t["p"], ci, cn
    if kind == "collect":
        if wrap:
            g = trysplit(cur)
            if g is None or g[1] != wrap:
                return None
            push(g[0])
            done = [asg([ret], agg(wrap, g[2], g[3], [mv(acc)]))]
        else:
            push(cur)
            done = [asg([ret], ["use", mv(acc)])]
    else:
        r = b.call(fl, ([acc] if fold else []) + [cur], fsig[1])
        if kind == "for_each":
            b.blk([], ["goto", "loop"])
            done = [asg([ret], ["use", unitk])]
        elif kind == "fold":
            b.blk([asg([acc], ["use", mv(r)])], ["goto", "loop"])
            done = [asg([ret], ["use", mv(acc)])]
        elif kind in ("all", "any"):
            k = kind == "all"
            b.blk([], ["switch", mv(r), [[0, "early" if k else "loop"]], "loop" if k else "early", b.boo, site.span])
            b.label("early")
            b.blk([asg([ret], ["use", ["k", {"c": "bool", "v": 0 if k else 1, "t": b.boo}]])], ["return"])
            done = [asg([ret], ["use", ["k", {"c": "bool", "v": 1 if k else 0, "t": b.boo}]])]
        elif kind in ("try_for_each", "try_fold"):
            g = trysplit(r)
            if g is None:
                return None
            b.blk([asg([acc], ["use", mv(g[0])])] if fold else [], ["goto", "loop"])
            done = [asg([ret], agg(g[1], g[2], g[3], [mv(acc) if fold else unitk]))]
        else:
            return None
    b.label("done")
    b.blk(done, ["return"])
    d = dict(id=bid, kind="Closure", stage="synth", reach=0, exported=0, argc=3 + len(stages), locals=b.L, names=[], span=site.span,
             parent=site.fr.body.id, impl_trait=None, derived=0, unsafe=0, spread=0, blocks=b.finish())
    body = eng.synth[bid] = Body(eng.prog, d)
    return body


def run(eng, kind, st, it, init, f, site):
    """-> exits or None"""
    if f is not None and f.op == "mref":
        f = eng.load(st, f)
    base, stages = chain(it)
    stages = [(k, eng.load(st, g) if g.op == "mref" else g) for k, g in stages]
    b = synth(eng, kind, f, stages, site)
    if b is None:
        return None
    return eng.run_body(b, [base, f if f is not None else UNIT, init if init is not None else UNIT] + [g for _, g in stages], st, site.fr.fid, site.bb)
