"""C29: no reachable panic: every operation that can panic is an obligation, discharged by the abstract state."""
import time
from .. import extract, bnd
from ..engine import Engine, Limit, Plugin, mk_len, evalcmp
from ..models import Models
from ..prog import Program
from ..report import Check
from ..state import evalb, EVALBND
from ..terms import *

if not EVALBND:
    EVALBND.append(bnd.evalbnd)

# external operations that panic on some arguments; the receiver is argument 0
INDEXED = {"remove": 0, "swap_remove": 0, "insert": 1, "split_off": 1}
VECS = ("alloc::vec::Vec::", "alloc::collections::vec_deque::VecDeque::")
STRPOS = {"alloc::string::String::insert", "alloc::string::String::insert_str", "alloc::string::String::truncate", "alloc::string::String::split_off",
          "alloc::string::String::remove", "str::split_at", "alloc::string::String::drain", "alloc::string::String::replace_range", "slice::split_at",
          "slice::copy_from_slice", "slice::clone_from_slice", "slice::swap", "slice::chunks", "slice::windows", "slice::chunks_exact", "slice::split_at_mut",
          "slice::rotate_left", "slice::rotate_right", "alloc::vec::Vec::drain", "alloc::vec::Vec::splice", "core::cell::RefCell::borrow", "core::cell::RefCell::borrow_mut",
          "core::char::methods::to_digit", "core::iter::traits::iterator::Iterator::step_by", "core::num::ilog10", "core::num::pow", "core::num::div_ceil", "core::num::rem_euclid",
          "std::time::Instant::duration_since", "core::cmp::Ord::clamp", "char::from_digit"}


class PanicPlugin(Plugin):
    boundaries = staticmethod(bnd.note)

    def __init__(self, prog):
        self.prog = prog

    def key(self, site, what):
        return (site.fr.body.id, str(site.span), what)

    def on_assert(self, eng, st, t, site):
        kind = t[3][0] if isinstance(t[3], list) else t[3]
        cond = eng.operand(st, site.fr, t[1])
        if kind == "overflow":
            if not (isinstance(t[3], list) and t[3][1] == "Sub"):
                return
            ok = False
            if cond.op == "app" and cond.a[0] == "ovf":
                ok = st.F.le(cond.a[3], cond.a[2])
                txt = f"{show(cond.a[3])[:80]} <= {show(cond.a[2])[:80]}"
            else:
                txt = show(cond)[:80]
            eng.oblige(self.key(site, "subtraction"), ok, txt, site)
            return
        v = evalb(st.F, cond)
        if v is None and cond.op == "app" and cond.a[0] in ("lt", "le"):
            v = True if st.F.le(cond.a[1], cond.a[2], -1 if cond.a[0] == "lt" else 0) else None
        eng.oblige(self.key(site, kind), v is not None and v == bool(t[2]), show(cond)[:160], site)

    def on_slice(self, eng, st, v, lo, hi, path, site):
        F = st.F
        txt = f"{show(v)[:60]}[{show(lo)[:60]}..{show(hi)[:60]}]"
        eng.oblige(self.key(site, "range order"), F.le(lo, hi), txt, site)
        eng.oblige(self.key(site, "range end"), F.le(hi, mk_len(v)), txt, site)
        if path.startswith("<str") or "string::String" in path:
            eng.oblige(self.key(site, "char boundary (start)"), bnd.boundary(F, v, lo), txt, site)
            eng.oblige(self.key(site, "char boundary (end)"), bnd.boundary(F, v, hi), txt, site)

    def on_index(self, eng, st, v, i, site):
        eng.oblige(self.key(site, "index"), st.F.le(i, mk_len(v), -1), f"{show(v)[:80]}[{show(i)[:60]}]", site)

    def on_panic(self, eng, st, what, site):
        eng.oblige(self.key(site, what), False, f"{what} can be reached", site)

    def on_call(self, eng, st, path, c, args, site):
        if path in self.prog.bodies:
            return None
        n = path.rsplit("::", 1)[-1]
        if path.startswith(VECS) and n in INDEXED:
            v = eng.load(st, args[0])
            ok = st.F.le(args[1], mk_len(v), -1 + INDEXED[n])
            if n == "swap_remove_back" or path.startswith(VECS[1]) and n != "insert":
                ok = True
            eng.oblige(self.key(site, n), ok, f"{n} within the vector", site)
        elif path in STRPOS:
            eng.oblige(self.key(site, n), False, f"{path} may panic", site)
        return None


def run(prog, root, secs=60, plugin=None, budget=60000):
    eng = Engine(prog, plugin or PanicPlugin(prog), Models())
    eng.budget = budget
    e = eng.analyse_root(root)
    return eng, e
