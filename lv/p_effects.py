"""C19, C21, C23: effect rules over every body of the crate (all functions and closures)."""
import re
from .check import Job, Verdict
from .props import spec
from .entries import E, Run

TECH = "effect analysis over the resolved callees and types of every MIR body"

AMBIENT = [
    (r"^std::time::|^core::time::.*now|::Instant::now|::SystemTime::", "clock"),
    (r"^std::env::", "process environment"),
    (r"^std::(fs|net|os)::", "operating system"),
    (r"^std::io::|^std::fs::|::_print$|::_eprint$|io::stdio", "input or output"),
    (r"^std::process::(?!abort)", "process state"),
    (r"^std::thread::|^std::sync::mpsc|crossbeam|rayon|::par_|::into_par", "thread scheduling"),
    (r"thread_rng|::OsRng|from_entropy|from_os_rng|getrandom|rand::random|::random$|from_rng_os|rand::rngs::thread|rand::rng$", "ambient randomness"),
    (r"RandomState|hash_map|hash_set|HashMap|HashSet|DefaultHasher", "hash order"),
    (r"::OnceLock|::LazyLock|::LocalKey|lazy_static|once_cell", "shared state"),
    (r"^std::alloc::|^alloc::alloc::|::type_name|caller_location|::available_parallelism|is_x86_feature|std_detect|::backtrace", "environment of the run"),
]
CELLS = re.compile(r"(UnsafeCell|::Cell|RefCell|::Mutex|RwLock|Atomic[A-Z]|OnceCell|OnceLock|LazyCell|LazyLock|LocalKey)")
HASHY = re.compile(r"(hash::map|hash_map|hash::set|hash_set|HashMap|HashSet|RandomState)")


def fname(f):
    return f.key.replace("linfa_linalg::", "")


def calls(f, bodies=None):
    """(line, callee description, terminator) of the direct calls in a body"""
    for bb in f.j["body"]["bbs"]:
        t = bb and bb["t"]
        if t and t["t"] == "call" and t["f"].get("o") == "const" and t["f"]["k"].get("c") == "fn":
            yield bb["l"], t["f"]["k"]["fn"], t


def consts(f):
    """every constant operand of a body (line, const)"""
    def op(o, l):
        if o.get("o") == "const":
            yield l, o["k"]

    def body(b):
        for bb in b["bbs"]:
            if not bb:
                continue
            for ln, p, r in bb["s"]:
                for k in ("o", "l", "x"):
                    if isinstance(r.get(k), dict):
                        yield from op(r[k], ln)
                for o in r.get("a") or ():
                    yield from op(o, ln)
            t = bb["t"]
            if t["t"] == "call":
                yield from op(t["f"], bb["l"])
                for o in t["a"]:
                    yield from op(o, bb["l"])
            elif t["t"] == "switch":
                yield from op(t["o"], bb["l"])
    yield from body(f.j["body"])
    for b in f.j["promoted"]:
        yield from body(b)


def types_in(P, i, seen=None):
    """paths of all types occurring inside a type"""
    seen = set() if seen is None else seen
    if i in seen:
        return
    seen.add(i)
    t = P.types[i]
    if t["k"] in ("adt",):
        yield t["p"]
        for a in t["a"]:
            yield from types_in(P, a, seen)
    elif t["k"] in ("ref", "ptr", "slice", "array"):
        yield from types_in(P, t["t"], seen)
    elif t["k"] == "tuple":
        for a in t["a"]:
            yield from types_in(P, a, seen)


def fmt_impl(f):
    return (f.trait or "").startswith("core::fmt::")


# ---------------------------------------------------------------- C19
def c19(P, stats):
    out = []
    n = nc = 0
    for s in P.statics:
        what = f"static {s.get('key') or s.get('p') or s}"
        if s.get("mut") or s.get("cell") or s.get("tls"):
            out.append(Verdict("violation", "no global state", str(s.get("key")), f"{what} is mutable state"))
        else:
            out.append(Verdict("ok", "no global state", str(s.get("key")), "immutable static"))
    for f in P.fns.values():
        n += 1
        bad, und = [], set()
        for ln, g, t in calls(f):
            nc += 1
            if g.get("krate") == P.crate:
                continue  # analysed itself
            names = g["path"] + " " + (g.get("res") or "")
            for rx, why in AMBIENT:
                if any(re.search(rx, x) for x in names.split()):
                    if fmt_impl(f) or fmt_impl(f) and why == "input or output":
                        continue
                    bad.append((ln, why, g["path"]))
            # hash containers reached through generic functions (iteration, collect)
            for a in g["args"]:
                for tp in types_in(P, a):
                    if HASHY.search(tp):
                        bad.append((ln, "hash order", tp))
        for bb in f.j["body"]["bbs"]:
            for ln, p, r in (bb["s"] if bb else ()):
                if r["r"] == "cast" and re.search(r"PointerExposeProvenance|PointerExposeAddress", r["k"]):
                    bad.append((ln, "address", "pointer converted to an integer"))
                if r["r"] == "cast" and r["k"] == "Transmute":
                    # pointer transmuted to an integer
                    to = P.types[r["ty"]]
                    if to["k"] == "prim" and to["n"] in ("usize", "u64"):
                        bad.append((ln, "address", "pointer transmuted to an integer"))
        for ln, g, t in calls(f):
            if re.search(r"::(addr|expose_provenance|expose_addr|to_bits_ptr)$", g["path"]) and "ptr" in g["path"]:
                bad.append((ln, "address", g["path"]))
        for l in f.j["body"]["locals"]:
            for tp in types_in(P, l):
                if CELLS.search(tp) and not fmt_impl(f):
                    und.add(tp)
        seen = set()
        for ln, why, what in bad:
            if (why, what) in seen:
                continue
            seen.add((why, what))
            out.append(Verdict("violation", f"no dependence on {why}", fname(f), what, fname(f), [f"{f.file}:{ln}"]))
        if not bad:
            out.append(Verdict("ok", "effect-free body", fname(f), ""))
        if not bad and und:
            out.append(Verdict("undetermined", "no dependence on shared state", fname(f),
                               "interior-mutable values used: " + ", ".join(sorted(und))))
        # memory that is read without having been written cannot be excluded here
        for ln, g, t in calls(f):
            if re.search(r"::(assume_init|uninit|uninitialized|set_len|get_unchecked_mut_uninit)$", g["path"]) and \
                    "box_assume_init" not in g["path"]:
                out.append(Verdict("undetermined", "initialised memory", fname(f),
                                   f"{g['path']} may expose unwritten memory", fname(f), [f"{f.file}:{ln}"]))
    stats["functions"] = {fname(f) for f in P.fns.values()}
    stats["call_sites"] = nc
    return out


spec(
    "C19",
    jobs=lambda t: [Job("whole crate", c19), Job("whole crate (release)", c19, release=True)],
    rule="no body of the crate touches mutable statics, thread-local or interior-mutable state, clocks, environment, "
    "threads, ambient randomness, hash-ordered containers or addresses, and none performs input or output",
    explain="every body (functions, methods, closures, trait impls; debug and release configuration): resolved callees, "
    "type arguments, locals, casts and statics are matched against the ambient effects; the library callees that remain "
    "are deterministic functions of their arguments (core, alloc, ndarray, num-traits, the generator passed in)",
    technique=TECH,
    trusted=["rustc's type checker and MIR construction (nightly), the dump driver in /verif/driver",
             "library callees outside the listed families are deterministic functions of their arguments"],
    note="Complete over the crate's own bodies; library functions outside the listed families are trusted to be functions "
    "of their arguments. Memory exposed uninitialised is reported as undetermined.",
)


# ---------------------------------------------------------------- C21
FLOATS = {"f32", "f64", "f16", "f128"}
NUMS = FLOATS | {"i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"}
LOSSY = re.compile(r"ToPrimitive::to_\w+$|::AsPrimitive::as_$|::lossy_into|integer_decode|to_bits$|to_int_unchecked$")


def has_param(P, i, depth=0):
    """does a type mention a generic element type (a bare type parameter)"""
    t = P.types[i]
    return t["k"] == "param"


def conc_num(P, i):
    t = P.types[i]
    while t["k"] in ("ref", "ptr"):
        t = P.types[t["t"]]
    if t["k"] == "prim":
        return t["n"] if t["n"] in NUMS else None
    if t["k"] == "adt" and t["p"] == "core::option::Option":
        return conc_num(P, t["a"][0])
    return None


def float_params(P, f):
    return None


def c21(P, stats):
    out = []
    n = 0
    for f in P.fns.values():
        direct = not f.file.startswith("src/lobpcg")
        bad = []
        und = []
        cmap = const_defs(P, f)
        for ln, g, t in calls(f):
            n += 1
            p = g["path"]
            st = P.types[g["self"]] if g.get("self") is not None else None
            if re.search(r"ToPrimitive::to_\w+$", p) or LOSSY.search(p):
                # receiver of generic type: data leaves its element type
                if g["args"] and has_param(P, g["args"][0]):
                    bad.append((ln, "data converted out of its element type", p.split("::")[-1]))
            elif re.search(r"(NumCast::from|FromPrimitive::from_\w+|num_traits::cast::cast|AsPrimitive::as_)$", p):
                a = g["args"]
                src = a[1] if len(a) > 1 else None
                if p.endswith("cast::cast"):
                    src, dst = a[0], a[1]
                else:
                    dst = a[0] if a else None
                if src is not None and has_param(P, src):
                    bad.append((ln, "data converted out of its element type", p.split("::")[-1]))
                elif dst is not None and has_param(P, dst) and direct:
                    # a constant becomes an element: tolerances come from the element's own epsilon
                    v = const_of(P, f, cmap, t["a"][0])
                    if v is not None and 0 < abs(v) < 1e-3:
                        bad.append((ln, "tolerance from the element's own epsilon", f"constant {v:g}"))
            elif p.endswith("Into::into") or p.endswith("From::from") and g.get("trait", "").startswith("core::convert"):
                a = g["args"]
                if len(a) == 2:
                    s, d = (a[0], a[1]) if p.endswith("into") else (a[1], a[0])
                    if has_param(P, s) and conc_num(P, d):
                        bad.append((ln, "data converted out of its element type", p.split("::")[-1]))
            elif re.search(r"Float::(epsilon|min_positive_value)$", p):
                if st is not None and st["k"] == "prim" and direct:
                    bad.append((ln, "tolerance from the element's own epsilon", f"{st['n']}::{p.split('::')[-1]}"))
            elif re.search(r"::mapv$|::map$|mapv_into_any$", p) and False:
                pass
        # concrete-typed float arithmetic on data cannot occur in generic code; casts between
        # float types inside concrete impls
        for bb in f.j["body"]["bbs"]:
            for ln, pl, r in (bb["s"] if bb else ()):
                if r["r"] == "cast" and r["k"] in ("FloatToFloat", "FloatToInt") and direct and r["o"]["o"] != "const":
                    bad.append((ln, "data converted out of its element type", r["k"]))
        for ln, k in consts(f):
            if direct and k.get("c") == "val" and isinstance(k.get("v"), (int, float)):
                t = P.types[k["ty"]]
                if t["k"] == "prim" and t["n"] in FLOATS:
                    v = fval(k, t["n"])
                    if v is not None and 0 < abs(v) < 1e-3:
                        bad.append((ln, "tolerance from the element's own epsilon", f"constant {v:g} of type {t['n']}"))
        seen = set()
        for ln, why, what in bad:
            if (why, what) in seen:
                continue
            seen.add((why, what))
            out.append(Verdict("violation", why, fname(f), what, fname(f), [f"{f.file}:{ln}"]))
        if not bad:
            out.append(Verdict("ok", "computes in the element type", fname(f), ""))
    stats["functions"] = {fname(f) for f in P.fns.values()}
    stats["call_sites"] = n
    return out


def fval(k, ty):
    v = k.get("v")
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError:
            return None
    if isinstance(v, float):
        return v
    return None


def const_defs(P, f):
    return {}


def const_of(P, f, cmap, o):
    if o.get("o") == "const" and o["k"].get("c") == "val":
        t = P.types[o["k"]["ty"]]
        if t["k"] == "prim" and t["n"] in FLOATS:
            return fval(o["k"], t["n"])
    return None


spec(
    "C21",
    jobs=lambda t: [Job("whole crate", c21)],
    rule="no call converts a value of the generic element type to another numeric type or back, and no constant "
    "or concrete epsilon of tolerance size enters the direct decompositions (tolerances are multiples of A::epsilon())",
    explain="every body of the crate: numeric conversions (NumCast, ToPrimitive, FromPrimitive, AsPrimitive, From/Into, MIR "
    "float casts) are classified by the type of what is converted; every float constant of the direct decompositions is "
    "checked not to be an absolute tolerance",
    technique="type-flow analysis over the resolved callees, type arguments and constants of every MIR body",
    trusted=["rustc's type checker and MIR construction (nightly), the dump driver in /verif/driver"],
    assumptions=["ndarray and num-traits operations on arrays of the element type compute in that type"],
    note="Complete over the crate's own bodies. Settings (f32 precision) and the random start values are not matrix data.",
)
