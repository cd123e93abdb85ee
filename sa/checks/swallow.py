"""C06: no failure of an internal operation is swallowed: a callee's Err forces the caller to fail."""
import re
from .. import extract
from ..engine import Engine, Plugin, Exit, Site, Limit
from ..models import Models
from ..prog import Program
from ..report import Check
from ..state import State, variants
from ..terms import *

ERRS = ("toon::error::ToonError", "std::io::error::Error", "core::io::error::Error", "serde_json::error::Error")
LOCAL_ERRS = ERRS + ("alloc::string::String",)   # error type of the crate's own fallible helpers
RES = "core::result::Result"


def err_result(T, ti, depth=0):
    """the type is (or wraps: Poll/Option/reference/future output) a Result whose error is one of the library's"""
    if ti is None:
        return False
    t = T[ti]
    if t["k"] == "adt":
        if t["p"] == RES:
            e = T[t["a"][1]]
            return e.get("p") in ERRS
        if t["p"] in ("core::task::poll::Poll", "core::option::Option") and depth < 3:
            return err_result(T, t["a"][0], depth + 1)
    return False


class Swallow(Plugin):
    def __init__(self, prog):
        self.prog = prog
        self.calls = {}
        self.ends = []

    def opaque(self, eng, body):
        return body.kind != "Closure"

    def ghost_key(self, st):
        return st.ghost.get("failed", FALSE).a, st.ghost.get("at", FALSE).a

    def on_call(self, eng, st, path, c, args, site):
        T = eng.T
        if site.destty is None:
            return None
        t = T[site.destty]
        if t["k"] != "adt" or t["p"] != RES or T[t["a"][1]].get("p") not in LOCAL_ERRS:
            return None
        b = self.prog.bodies.get(path)
        if b is None:
            if T[t["a"][1]].get("p") not in ERRS:
                return None
            # external: only calls that create the failure (not adapters such as map_err, and_then, Ok)
            if path is None or any(T[x]["k"] == "adt" and T[x].get("p") in (RES,) for x in site.argtys) or re.match(r"core::(result|option|ops|iter|convert)|<core::(result|option)|<I as|<.* as core::(iter|ops)", path):
                return None
            if path.startswith("core::") or path.startswith("<core::"):
                return None
        elif b.kind == "Closure":
            return None
        key = (str(site.span), site.fr.body.id, path)
        self.calls[key] = site
        for i, a in enumerate(args):
            if a.op == "mref":
                eng.store(st, a, eng.fresh(st, ("havoc", site.key(), i), eng.load(st, a).ty))
        s2 = st.copy()
        s2.ghost["failed"] = TRUE
        s2.ghost["at"] = sym(("at",) + key)
        return [Exit(okv(eng.fresh(st, ("ok", site.key()))), st), Exit(errv(sym(("err",) + key)), s2)]


def is_failure(F, r):
    """the returned value reports a failure"""
    if r.op == "adt":
        if r.a[0] == RES:
            return r.a[1] == 1
        return any(is_failure(F, x) for x in r.a[2])
    return variants(F, r) == frozenset({1}) and (r.ty or "").startswith(RES)


# deliberate, documented recoveries: callee -> reason
ALLOWED = {
    "toon::decode::parser::parse_bracket_segment":
        "a malformed bracket segment means the line is not an array header; it is then parsed as an ordinary line",
}
# serialising text or a serde_json::Value into a String cannot fail
INFALLIBLE = re.compile(r"serde_json::ser::to_(string|string_pretty|vec)\b")


def candidates(prog):
    T = prog.types
    for bid, b in sorted(prog.bodies.items()):
        if b.kind in ("Const", "AssocConst", "Static") or b.derived:
            continue
        for bl in b.blocks:
            t = bl["t"]
            if t[0] == "call" and t[7] is not None and T[t[7]]["k"] == "adt" and T[t[7]]["p"] == RES and T[T[t[7]]["a"][1]].get("p") in LOCAL_ERRS:
                yield bid, b
                break


def scan(prog):
    """-> [(function, call key, 'held' | 'escapes' | 'never returns')], undecided functions"""
    out, skipped = [], []
    for bid, b in candidates(prog):
        pl = Swallow(prog)
        eng = Engine(prog, pl, Models())
        eng.budget = 20000
        try:
            e = eng.analyse_root(bid)
        except Limit as x:
            skipped.append((bid, str(x)))
            continue
        res = {}
        for ex in e.exits:
            if ex.st.ghost.get("failed", FALSE) is FALSE:
                continue
            at = ex.st.ghost["at"]
            assert at.op == "sym" and at.a[0][0] == "at", at
            k = at.a[0][1:]
            res[k] = res.get(k, True) and is_failure(ex.st.F, ex.ret)
        for k in sorted(pl.calls):
            out.append((bid, k, {True: "held", False: "escapes", None: "diverges"}[res.get(k)]))
    return out, skipped


def no_swallow(pid):
    ck = Check(pid,
               rule="for every call site of the library and CLI whose result type is Result<_, ToonError | io::Error | serde_json::Error> "
                    "(each function analysed path-sensitively with its callees opaque and its closures inlined), every path on which "
                    "that call yields Err ends with the enclosing function itself returning a failure or not returning",
               explanation="composed over the call graph this means a failure raised anywhere inside an operation reaches the caller of the "
                           "public entry point: no partial result is returned as success after an internal failure",
               trusted=["serde_json::to_string* into a String cannot fail for text and Value",
                        "a malformed bracket segment (parse_bracket_segment) is documented to mean 'not an array header'"])
    dump = extract.extract("all")
    for which in ("lib", "bin"):
        if which not in dump:
            continue
        prog = Program(dump[which])
        n = 0
        out, skipped = scan(prog)
        for bid, why in skipped:
            ck.bad(f"{bid}", bid, f"function could not be analysed: {why}")
        for bid, (span, owner, callee), r in out:
            n += 1
            key = f"{bid}|{callee}|{span}"
            if callee and INFALLIBLE.match(callee):
                ck.ok(key, "infallible serialisation (trusted)")
            elif callee in ALLOWED:
                ck.ok(key, "documented recovery: " + ALLOWED[callee])
            elif r == "held":
                ck.ok(key, f"{bid}: Err of {callee} at {span} always becomes a failure of {bid}")
            elif r == "diverges":
                ck.ok(key, f"{bid}: no path returns after Err of {callee} at {span} (documented panic)")
            else:
                ck.bad(key, span, f"{bid} can return success after {callee} failed", [f"{callee} returns Err at {span}", f"{bid} returns a non-failure"])
        if which == "lib":
            ck.anchor(n >= 40, "the library has fallible call sites")
    return ck.finish()
