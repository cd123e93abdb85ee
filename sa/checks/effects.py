"""C01/C02: effect analysis over the resolved call graph of the type-checked program (MIR)."""
import re
from .. import extract
from ..prog import Program
from ..report import Check

# ---- classification of external callees ------------------------------------
# (regex on the resolved path, effect class).  First match wins.  Anything in `std` that is not listed,
# and any crate that is not listed, is an unclassified effect and reported.
RULES = [
    # ambient I/O and process effects
    (r"\bstd::fs\b", "io:filesystem"),
    (r"\bstd::net\b", "io:network"),
    (r"\bstd::process\b", "io:process"),
    (r"\bstd::os\b", "io:os"),
    (r"\bstd::thread::local\b|LocalKey", "nd:thread-local state"),
    (r"\bstd::thread\b", "io:threads"),
    (r"\bstd::env\b", "nd:environment"),
    (r"\bstd::time\b|SystemTime|Instant", "nd:clock"),
    (r"RandomState|\bstd::hash::random\b|\bstd::random\b|\bcore::random\b", "nd:random seed"),
    (r"\bstd::io::(stdio|_print|_eprint|stdin|stdout|stderr)|\bstd::io::pipe", "io:standard streams"),
    (r"\bstd::panic(king)?::(set_hook|take_hook)|\bstd::alloc::set_", "io:process-wide hooks"),
    (r"console_error_panic_hook", "io:process-wide hooks"),
    (r"\bcore::arch\b|\bstd::arch\b", "nd:cpu state"),
    (r"\bcore::sync::atomic\b|\bstd::sync::(?!arc|lazy_lock)|\bstd::sys\b", "nd:shared mutable state"),
    (r"core::fmt::rt::Argument::new_pointer|::expose_provenance|<\*(const|mut) T>::addr|ptr::(const|mut)_ptr::.*::addr\b", "nd:memory address"),
    (r"core::any::type_name|core::panic::Location|core::intrinsics::caller_location", "pure"),
    (r"\bstd::collections::hash\b", "hash"),
    (r"\bstd::(path|ffi|error|collections|io::(error|cursor|util|impls)|io::Error|panicking::(begin_panic|panic)|ascii|char|string|vec|num|f64|f32|primitive_docs|macros)\b", "pure"),
    (r"^<?&?(mut )?f64::|^f64::|\bstd::(f64|f32)\b|std::num", "pure"),
]
PURE_CRATES = {"core", "alloc", "serde", "serde_core", "serde_json", "thiserror", "indexmap", "itoa", "ryu", "memchr"}
CRATE_OK = [
    # asupersync: the yielding iterator stream and its count() - used as a yield point only
    (r"^(<asupersync::stream::count::Count as .*>::poll|asupersync::stream::StreamExt::count|asupersync::stream::iter::iter)", "pure"),
]
# binding layers: they read the caller's own arguments; allowed inside the module named
BINDING = {"wasm_bindgen": "toon::wasm", "js_sys": "toon::wasm", "serde_wasm_bindgen": "toon::wasm"}
# order-insensitive operations on hash tables
HASH_OK = {"new", "with_capacity", "insert", "contains", "contains_key", "get", "get_mut", "remove", "len", "is_empty",
           "reserve", "clear", "clone", "eq", "ne", "default", "take", "replace", "from_iter", "get_or_insert_with",
           "entry", "or_insert", "or_insert_with", "or_default", "and_modify", "extend", "collect", "from", "shrink_to_fit",
           "capacity", "is_subset", "is_superset", "is_disjoint", "remove_entry", "get_key_value", "key", "borrow", "as_ref",
           "deref", "drop", "into_mut", "try_insert", "try_reserve", "take_if", "is_some", "is_none", "unwrap_or_default", "as_mut", "take", "mem"}
# functions outside the table types that may be handed a table without revealing its order
PASS_OK = {"drop", "take", "replace", "swap", "clone", "eq", "ne", "borrow", "as_ref", "deref", "deref_mut", "as_mut", "clone_from", "from", "into", "must_use", "black_box", "Some", "Ok"}
HASHTY = re.compile(r"collections::hash::|hashbrown::|HashMap|HashSet")
HASHITER = re.compile(r"collections::hash::(map|set)::(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain|ExtractIf|Union|Intersection|Difference|SymmetricDifference)")


def roots(prog):
    out = []
    for bid, b in prog.bodies.items():
        if not b.exported or b.derived or b.kind in ("Const", "AssocConst", "Static"):
            continue
        if bid == "toon::cli::run" or "toon::cli::args" in bid or "wasm_bindgen_generated" in bid or "wasm_bindgen" in bid.split(" as ")[-1]:
            continue
        if bid == "toon::wasm::init_panic_hook":
            continue
        out.append(bid)
    return sorted(out)


def fmt_edges(prog):
    """extra call edges: formatting a local type reaches its Debug/Display impl; to_string reaches Display"""
    extra = {}
    impls = {}
    for bid, b in prog.bodies.items():
        tr = b.d.get("impl_trait") or ""
        m = re.match(r"<(.+?) as (.+)>::fmt$", bid)
        if tr.startswith("core::fmt::") and m:
            impls[(m.group(1).split("<")[0], tr.split("::")[-1].split("<")[0])] = bid
    KIND = {"new_display": "Display", "new_debug": "Debug", "to_string": "Display", "unwrap": "Debug", "expect": "Debug", "unwrap_err": "Debug", "expect_err": "Debug"}

    def strip(ti):
        t = prog.types[ti]
        while t["k"] in ("ref", "ptr"):
            ti = t["a"][0]
            t = prog.types[ti]
        return t

    def mentions(ti, depth=0):
        t = strip(ti)
        yield t
        if depth < 4:
            for a in t.get("a") or []:
                yield from mentions(a, depth + 1)

    for bid, b in prog.bodies.items():
        for bl in b.blocks:
            t = bl["t"]
            if t[0] != "call":
                continue
            p, c = prog.callee(t)
            if c is None:
                continue
            n = (p or "").split("::")[-1]
            if n in KIND:
                for ti in list(c.get("a", [])) + list(c.get("ra", []) or []):
                    for ty in mentions(ti):
                        tgt = impls.get((ty.get("p") or "", KIND[n]))
                        if tgt:
                            extra.setdefault(bid, []).append((tgt, None, t[5], "fmt"))
            for s in bl["s"]:
                if s[0] == "=" and s[2][0] == "cast" and "nsize" in str(s[2][1]):
                    tgt = strip(s[2][3])
                    if tgt["k"] == "dyn":
                        for ty in mentions(s[2][4]):
                            for kind in ("Display", "Debug"):
                                if kind in tgt["s"]:
                                    im = impls.get((ty.get("p") or "", kind))
                                    if im:
                                        extra.setdefault(bid, []).append((im, None, s[3], "fmt"))
    return extra


def classify(path, krate, body_id):
    for rx, cls in RULES:
        if re.search(rx, path):
            return cls
    for rx, cls in CRATE_OK:
        if re.search(rx, path):
            return cls
    if krate in PURE_CRATES:
        return "pure"
    if krate in BINDING and body_id.lstrip("<").startswith(BINDING[krate]):
        return "pure"
    if krate == "std":
        return "unclassified:std " + path
    return f"unclassified:crate {krate}"


def scan(prog, chk, want, cfg):
    cg = prog.callgraph()
    if not getattr(prog, "_fmt_added", 0):
        for k, v in fmt_edges(prog).items():
            cg[k].extend(v)
        prog._fmt_added = 1
    rs = roots(prog)
    chk.anchor(len(rs) > 20, f"exported conversion entry points ({cfg})")
    for must in ("toon::encode::encode", "toon::decode::try_decode", "toon::encode::encode_stream_events",
                 "toon::decode::event_builder::node_to_json", "toon::cli::conversion::encode_to_toon_lines",
                 "toon::cli::conversion::decode_to_json_chunks", "toon::cli::json_stringify::json_stringify_lines"):
        chk.anchor(must in prog.bodies, must)
    seen = prog.reachable(rs)
    ncalls = 0

    def via(x):
        return prog.path_to(seen, x)

    for bid in seen:
        b = prog.bodies[bid]
        for p, c, sp, how in cg[bid]:
            if p is None or how in ("closure", "type", "const"):
                continue
            if p.startswith("drop:"):
                # dropping a file/stream handle is an effect of creating it; creating is what we report
                continue
            if p in prog.bodies or c is None:
                continue
            krate = c.get("rk") or c.get("krate") or p.split("::")[0]
            if krate == "toon":
                continue
            ncalls += 1
            cls = classify(p, krate, bid)
            key = f"{cls}|{p}"
            if cls == "hash":
                if "nd" in want:
                    n = p.split("::")[-1]
                    if n in HASH_OK and not HASHITER.search(p):
                        chk.ok(f"{cfg}:{bid}->{p}", f"order-insensitive hash-table operation at {sp}")
                    else:
                        chk.bad(f"hash-order|{p}|{bid}", f"{sp} in {bid}", f"hash-table iteration order reaches a conversion: call to {p}", via(bid))
                continue
            kind = cls.split(":")[0]
            if kind == "pure":
                chk.ok(f"{cfg}:{bid}->{p}", f"no effect, at {sp}")
            elif kind == "unclassified":
                chk.bad(f"{key}|{bid}", f"{sp} in {bid}", f"call to {p} ({cls}) whose effects are not known to be harmless", via(bid))
            elif kind in want:
                chk.bad(f"{key}|{bid}", f"{sp} in {bid}", f"call to {p}: {cls.split(':',1)[1]}", via(bid))
        # values of hash-table type handed to other external code (collect from a set, Debug of a set, ...)
        if "nd" in want:
            for bl in b.blocks:
                if bl["u"]:
                    continue
                t = bl["t"]
                if t[0] == "call":
                    p, c = prog.callee(t)
                    if c is None or p in prog.bodies or "collections::hash" in p:
                        continue
                    n = p.split("::")[-1]
                    for ti in t[6]:
                        s = prog.tys(ti)
                        if (HASHITER.search(s) or (n not in PASS_OK and is_container(prog, ti))):
                            chk.bad(f"hash-order|{p}|{bid}", f"{t[5]} in {bid}", f"a hash table (or its iterator, {s}) is passed to {p}: its iteration order may reach the result", via(bid))
                for s in bl["s"]:
                    if s[0] == "=":
                        rv = s[2]
                        if rv[0] == "tls":
                            chk.bad(f"tls|{bid}", f"{s[3]} in {bid}", "thread-local state is read", via(bid))
                        if rv[0] == "cast" and "Expose" in str(rv[1]):
                            chk.bad(f"addr|{bid}", f"{s[3]} in {bid}", "a memory address is turned into a number", via(bid))
                        if rv[0] == "cast" and "nsize" in str(rv[1]) and HASHTY.search(prog.tys(rv[4])) and "dyn" in prog.tys(rv[3]) and is_container(prog, rv[4]):
                            chk.bad(f"hash-order|dyn|{bid}", f"{s[3]} in {bid}", "a hash table is formatted or iterated through a trait object", via(bid))
    if "nd" in want:
        for st in prog.statics:
            t = st["p"]
            # LazyLock is fine: its initialiser takes no arguments and is itself analysed for effects
            mut = st["mut"] or re.search(r"\b(Cell|RefCell|UnsafeCell|Mutex|RwLock|Atomic\w*|OnceLock|OnceCell|LocalKey)\b", prog.tys(st["t"]))
            if mut:
                chk.bad(f"static|{t}", t, "mutable global state: results can depend on earlier calls")
            else:
                chk.ok(f"{cfg}:static {t}", "immutable static")
    chk.cov.setdefault("configs", {})[cfg] = dict(entry_points=len(rs), functions_reached=len(seen), external_calls=ncalls)


def is_container(prog, ti):
    t = prog.types[ti]
    while t["k"] in ("ref", "ptr"):
        t = prog.types[t["a"][0]]
    return bool(HASHTY.search(t.get("p") or ""))


TRUST = ["rustc nightly name/trait resolution and MIR", "the effect classes in sa/checks/effects.py for core/alloc/std/serde_json",
         "the caller's own replacer, iterators and JS objects are not part of the library"]


def determinism(pid):
    chk = Check(pid, "no call path from an exported conversion reaches a clock, random seed, environment, thread-local or global mutable "
                "state, memory address, or an order-revealing hash-table operation",
                "whole-crate effect analysis over the resolved MIR call graph, both feature configurations", TRUST)
    for cfg in ("all", "default"):
        d = extract.extract(cfg)
        scan(Program(d["lib"]), chk, {"nd"}, cfg)
    return chk.finish()


def no_ambient_io(pid):
    chk = Check(pid, "no call path from an exported conversion reaches a file, socket, standard stream, process, thread or process-wide hook",
                "whole-crate effect analysis over the resolved MIR call graph, both feature configurations", TRUST)
    for cfg in ("all", "default"):
        d = extract.extract(cfg)
        scan(Program(d["lib"]), chk, {"io"}, cfg)
    return chk.finish()
