"""Key folding: what a folded key stands for (C19)."""
from .. import tmodels as M
from ..texec import Exec, Unsupported, TOP, OPT, Opaque, NeedScan
from .roundtrip import Gone
from .layout import Seq, NONE, some
from .tree import jvalue


def the(C, fn):
    b = [x for x in C.prog.bodies if x.split("::")[-1] == fn]
    if len(b) != 1:
        raise Gone(fn)
    return C.prog.bodies[b[0]]


def bare(x):
    """without what is known about the texts"""
    if isinstance(x, tuple) and x[:1] in (("pc",), ("p",)):
        return ("p", x[1])
    if isinstance(x, tuple) and x[:2] == ("adt", "alloc::borrow::Cow"):
        return bare(x[3][0])
    return tuple(bare(y) for y in x) if isinstance(x, tuple) else x


def folds(C, O):
    fn = "try_fold_key_chain"
    b = the(C, fn)
    jv, tp, tel, tk = jvalue(C)
    fr = [x for x in C.prog.adts if x.endswith("::FoldResult")]
    if len(fr) != 1:
        raise Gone("FoldResult")
    fields = [f[0] for f in C.prog.adts[fr[0]]["v"][0]["f"]]
    if not {"folded_key", "remainder", "leaf_value", "segment_count"} <= set(fields):
        raise Gone("fields of FoldResult")
    names = {pl[0]: n for pl, n in b.d["names"] if len(pl) == 1 and pl[0] <= b.argc}
    ro = [x for x in C.prog.adts if x.endswith("::ResolvedEncodeOptions")]
    mo = [x for x in C.prog.adts if x.endswith("::KeyFoldingMode")]
    if len(ro) != 1 or len(mo) != 1:
        raise Gone("options")
    mode = ("~v:opt.0.%d" % [f[0] for f in C.prog.adts[ro[0]]["v"][0]["f"]].index("key_folding"), [v["name"] for v in C.prog.adts[mo[0]]["v"]].index("Safe"))
    ident = the(C, "is_identifier_segment").id
    where = (fn, b.d.get("span"))

    def obj(*es):
        return ("adt", jv, 2, (("vec", tuple(es)),))

    def run(levels, leafname, depth, prefix=False):
        ex = Exec(C.prog, shared=C.sh, opaque=set())
        ex.free = ex.freeeq = True
        ex.cap = 10

        def h(ex, st, a):
            v = ex.freeze(st, ex.deref(st, a[0]))
            n = v[1] if v[0] in ("p", "pc") else "?"
            out = []
            for t in (True, False):
                s = st.copy()
                if n == "?":
                    s.cons["~doubt"] = 1
                elif s.cons.get("ident:" + n, t) != t:
                    continue
                else:
                    s.cons["ident:" + n] = t
                out.append((s, ("int", int(t))))
            return out
        ex.hooks[ident] = h
        key = lambda n: ex.symval(n, tk)
        leaf = {"primitive": ("adt", jv, 0, (("mk", "P"),)), "array": ("adt", jv, 1, (("mk", "L"),)), "empty object": obj(),
                "object of two": obj(("tup", (key("x"), ("mk", "X"))), ("tup", (key("y"), ("mk", "Y"))))}[leafname]
        vals = [leaf]                       # vals[i]: the value i levels up from the leaf
        for i in range(levels, 0, -1):
            vals.append(obj(("tup", (key("k%d" % i), vals[-1]))))
        value = vals[-1]
        args = []
        for i in range(b.argc):
            n, s = names.get(1 + i), C.prog.types[b.locals[1 + i]]["s"]
            if s == "&str":
                args.append(key("k0"))
            elif s.endswith("&" + jv):
                args.append(value)
            elif s == "&[&str]":
                args.append(("vec", (("*", key("sB")), key("s"), ("*", key("sA")))))
            elif s == "usize":
                args.append(("int", depth) if isinstance(depth, int) else ("symint", "D"))
            elif s.endswith("EncodeOptions"):
                args.append(ex.symval("opt", b.locals[1 + i]))
            elif n == "path_prefix":
                args.append(some(key("PP")) if prefix else NONE)
            elif s.startswith("core::option::Option<&") and "HashSet" in s:
                args.append(some(("mk", "ROOT")) if prefix else NONE)
            else:
                args.append(ex.symval("a%d" % i, b.locals[1 + i]))
        used = max(1, min(levels + 1, depth))
        label = "a chain of %d keys to %s, at most %d folded" % (levels + 1, "an " + leafname if leafname[0] in "aeo" else "a " + leafname, depth)
        if prefix:
            label += ", below a prefix"
        try:
            r = ex.call_body(b, args, ex.start_state())
        except (Unsupported, Opaque, NeedScan) as e:
            O.add("C19", label, None, "not analysed: %s" % e, None)
            return
        res, txt, n = True, "", 0
        want = ("cat", tuple(y for i in range(used) for y in ((("str", "."),) if i else ()) + (key("k%d" % i),)))
        end = vals[levels + 1 - used]
        tail = end[2] == 2 and end[3][0] != ("vec", ())
        for s, v in r:
            v = bare(ex.freeze(s, v))
            if v == NONE:
                continue
            why = None
            if v[0] != "adt" or v[2] != 1 or v[3][0][0] != "adt":
                why = "?"
            else:
                f = dict(zip(fields, v[3][0][3]))
                print(label, f, dict(s.cons)) if __import__("os").environ.get("DBG") else 0
                if used < 2:
                    res, txt = (None, "not decided") if "~doubt" in s.cons else (False, "a single key is folded")
                    break
                bad = [i for i in range(used) if s.cons.get("ident:k%d" % i) is not True]
                if f["folded_key"] != bare(want):
                    why = "?" if "top" in repr(f["folded_key"]) else "the folded key is not the keys joined with dots"
                elif f["segment_count"] != ("int", used):
                    why = "?" if f["segment_count"][0] != "int" else "%s keys are counted instead of %d" % (f["segment_count"][1], used)
                elif tail and f["remainder"] != bare(some(end)) or not tail and f["remainder"] != NONE:
                    why = "?" if "top" in repr(f["remainder"]) else "what is left below the folded keys is not the value they lead to"
                elif not tail and f["leaf_value"] != bare(end):
                    why = "?" if "top" in repr(f["leaf_value"]) else "the value is not the one the keys lead to"
                elif bad:
                    why = "a key that is not an identifier is folded"
                elif s.cons.get("~eq:s") is not False:
                    why = "a key is folded although a sibling may have the same name"
                elif [k for k in s.cons if k.startswith("~v:opt")] and mode not in [(k, s.cons[k]) for k in s.cons]:
                    why = "keys are folded though folding is not asked for"
                elif prefix and s.cons.get("~in:ROOT") is not False:
                    why = "keys are folded to a path the document has as a literal key"
                elif prefix and bare(s.cells["~arg:ROOT"]) != ("cat", (("p", "PP"), ("str", "."))+ bare(want)[1]):
                    why = "?" if s.cells["~arg:ROOT"][0] not in ("cat", "pc", "adt") or "top" in repr(s.cells["~arg:ROOT"]) else "the path looked up among the literal keys is not the prefix and the keys"
            if why and why != "?" and "~doubt" not in s.cons:
                res, txt = False, why
                break
            if why:
                res, txt = None, "not decided (%s)" % why
            n += 1
        if res and not n and levels and depth >= 2:
            res, txt = None, "never folded"
        O.add("C19", label, res, txt or "%d ways" % n, where)
    for levels in range(1, 6):
        for depth in range(2, levels + 3):
            for lf in ("primitive", "array", "empty object", "object of two"):
                for prefix in (False, True):
                    run(levels, lf, depth, prefix)
    for depth in (0, 1):
        run(2, "primitive", depth)
    run(0, "object of two", 5)
    run(0, "object of two", 5, True)
