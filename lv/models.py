"""Abstract semantics of the library functions the crate is built on (ndarray, core, num-traits)."""
from .lin import Lin, L, fresh, app, declare, SYMINFO, FNAX, ZERO, ONE
from . import term as T
from .term import N, mk, F0, F1, read, uid, const
from .values import *
from .interp import OBJ, fcmp, band, merge_same, same_store, join2

BOOL_OPS.add("ball")
TWO = Lin(2)

# ------------------------------------------------------------------ helpers


def ident_axes(dims):
    return tuple((((i, ZERO, 1),), d) for i, d in enumerate(dims))


def is_ident(st, a):
    if len(a.axes) != a.nd or a.fixed:
        return False
    dims = OBJ[a.obj][0]
    return all(
        len(p) == 1 and p[0][0] == k and p[0][1] == ZERO and p[0][2] == 1
        for k, (p, l) in enumerate(a.axes)
    ) and all(x == y or st.facts.ent_eq(x, y) for x, y in zip(a.dims, dims))


def content_of(st, a):
    if is_ident(st, a):
        return st.heap[a.obj]
    return mk("view", st.heap[a.obj], a.axes, a.fixed, a.nd)


def vnode(st, a):
    return mk("view", st.heap[a.obj], a.axes, a.fixed, a.nd)


def arr(ex, st, v):
    v = ex.val(st, v)
    if isinstance(v, SliceV):
        v = v.arr
    if isinstance(v, ArrV):
        return v
    return None


def lin(ex, st, v):
    v = ex.val(st, v)
    return v if isinstance(v, Lin) else None


def axis_of(ex, st, v):
    v = ex.val(st, v)
    if isinstance(v, Agg) and v.f and isinstance(v.f[0], Lin) and v.f[0].is_const():
        return v.f[0].c
    return None


def dims_of(ex, st, v):
    v = ex.val(st, v)
    if isinstance(v, Lin):
        return (v,)
    if isinstance(v, Agg):
        if v.kind in ("tuple", "array") or v.key in ("Dim",):
            out = []
            for x in v.f:
                x = ex.val(st, x)
                if isinstance(x, Agg):
                    d = dims_of(ex, st, x)
                    if d is None:
                        return None
                    out += d
                elif isinstance(x, Lin):
                    out.append(x)
                else:
                    return None
            return tuple(out)
        if v.kind == "adt" and (v.key.endswith("::Dim") or v.key.endswith("Shape") or "Shape" in v.key):
            return dims_of(ex, st, v.f[0])
    return None


def dims_val(dims):
    return dims[0] if len(dims) == 1 else tup(*dims)


def size(dims):
    from .interp import lin_mul

    r = ONE
    for d in dims:
        r = lin_mul(r, d)
    return r


def sub_axis(a, ax, idx):
    """view with axis ax fixed at idx"""
    parts, ln = a.axes[ax]
    fixed = list(a.fixed)
    axes = [x for i, x in enumerate(a.axes) if i != ax]
    for oa, off, stp in parts:
        fixed.append((oa, off + T.mul_step(stp, idx)))
    return ArrV(a.obj, tuple(axes), tuple(sorted(fixed, key=lambda z: z[0])), a.nd, False)


def cut_axis(a, ax, start, ln, step=1):
    parts, _ = a.axes[ax]
    np = tuple(
        (oa, off + T.mul_step(stp, start), mulstep2(stp, step)) for oa, off, stp in parts
    )
    axes = tuple((np, ln) if i == ax else x for i, x in enumerate(a.axes))
    return ArrV(a.obj, axes, a.fixed, a.nd, a.owned)


def mulstep2(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if isinstance(a, int):
        r = b.scale(a)
    elif isinstance(b, int):
        r = a.scale(b)
    else:
        from .interp import lin_mul

        r = lin_mul(a, b)
    return r.c if r.is_const() else r


def clone_val(ex, st, v):
    if isinstance(v, ArrV):
        if v.owned:
            return ex.new_arr(st, v.dims, content_of(st, v), "clone", ("clone", v))
        return v
    if isinstance(v, Agg):
        if v.kind == "closure":
            return v
        return Agg(v.kind, v.key, v.variant, tuple(clone_val(ex, st, x) for x in v.f))
    return v


# ------------------------------------------------------------------ iterator nodes
def to_it(ex, st, v):
    """-> list of (st, It) (ranges may split on emptiness)"""
    v0 = v
    v = v if isinstance(v, It) else ex.val(st, v)
    if isinstance(v, It):
        return [(st, v)]
    if isinstance(v, Agg) and v.kind == "adt":
        k = v.key.split("::")[-1]
        if k in ("Range", "RangeInclusive"):
            lo, hi = v.f[0], v.f[1]
            if isinstance(lo, Lin) and isinstance(hi, Lin):
                if k == "RangeInclusive":
                    hi = hi + 1
                out = []
                t, f = ex.split(st, cge(hi - lo))
                if t is not None:
                    out.append((t, It(("range", lo, hi), ZERO)))
                if f is not None:
                    out.append((f, It(("range", lo, lo), ZERO)))
                return out
        if k == "RangeFrom" and isinstance(v.f[0], Lin):
            return [(st, It(("rangefrom", v.f[0]), ZERO))]
        if v.key == OPTION:
            return [(st, It(("list", v.f), ZERO))]
    if isinstance(v, Seq):
        return [(st, It(v.node if not isinstance(v0, (Ref, VRef)) else ("seqref", v.node), ZERO))]
    if isinstance(v, Agg) and v.kind == "array":
        if isinstance(v0, (Ref, VRef)):
            return [(st, It(("list", tuple(VRef(x) for x in v.f)), ZERO))]
        return [(st, It(("list", v.f), ZERO))]
    if isinstance(v, SliceV):
        return [(st, It(("elems", v.arr), ZERO))]
    if isinstance(v, ArrV):
        if v.owned and not isinstance(v0, (Ref, VRef)):
            return [(st, It(("cloned", ("elems", v)), ZERO))]
        return [(st, It(("elems", v), ZERO))]
    return None


def node_len_pure(ex, st, n):
    k = n[0]
    if k == "range":
        return n[2] - n[1]
    if k == "elems":
        return size(n[1].dims)
    if k == "lanes":
        return n[1].dims[n[2]]
    if k in ("rev", "enum", "cloned", "seqref", "map", "inspect"):
        return node_len_pure(ex, st, n[1])
    if k == "zip":
        return n[3]
    if k == "chain":
        a, b = node_len_pure(ex, st, n[1]), node_len_pure(ex, st, n[2])
        return None if a is None or b is None else a + b
    if k == "list":
        return Lin(len(n[1]))
    if k == "lam":
        return n[3]
    if k == "perm":
        return node_len_pure(ex, st, n[1])
    if k == "filt":
        return n[3]
    if k == "repeat":
        return n[2]
    if k == "skip":
        a = node_len_pure(ex, st, n[1])
        return None if a is None else a - n[2]
    if k == "take":
        return n[2]
    if k == "indexed":
        return size(n[1].dims)
    if k == "opq":
        return n[2]
    return None


def node_len(ex, st, n):
    r = node_len_pure(ex, st, n)
    if r is None:
        ex.taint(st, f"length of iterator {n[0]}")
        return L(fresh("len"))
    return r


def flat_index(ex, st, a, k):
    """multi-index of the k-th element in logical order"""
    if len(a.axes) == 1:
        return (k,)
    if len(a.axes) == 0:
        return ()
    # exactly one non-unit axis?
    dims = [st.facts.canon(d) for d in a.dims]
    big = [i for i, d in enumerate(dims) if d != ONE]
    if len(big) <= 1:
        return tuple(k if [i] == big else ZERO for i in range(len(dims)))
    out = []
    for i, d in enumerate(dims):
        s = app(f"mi{i}", k, *dims)
        out.append(L(s))
    f = st.facts
    for o, d in zip(out, dims):
        g = f.add_ge(o)
        f = g if g is not None else f
        g = f.add_ge(d - o - 1)
        f = g if g is not None else f
    st.facts = f
    return tuple(out)




def node_elem(ex, st, n, k):
    """k-th element -> list of (st, value)"""
    kd = n[0]
    if kd == "range":
        return [(st, n[1] + k)]
    if kd == "rangefrom":
        return [(st, n[1] + k)]
    if kd == "elems":
        a = n[1]
        return [(st, ERef(a, flat_index(ex, st, a, k)))]
    if kd == "indexed":
        a = n[1]
        ix = flat_index(ex, st, a, k)
        return [(st, tup(dims_val(ix), ERef(a, ix)))]
    if kd == "lanes":
        return [(st, sub_axis(n[1], n[2], k))]
    if kd == "rev":
        ln = node_len(ex, st, n[1])
        return node_elem(ex, st, n[1], ln - 1 - k)
    if kd == "enum":
        return [(s, tup(k, v)) for s, v in node_elem(ex, st, n[1], k)]
    if kd == "zip":
        out = []
        for s, v in node_elem(ex, st, n[1], k):
            for s2, w in node_elem(ex, s, n[2], k):
                out.append((s2, tup(v, w)))
        return out
    if kd == "cloned":
        return [(s, clone_val(ex, s, ex.val(s, v))) for s, v in node_elem(ex, st, n[1], k)]
    if kd == "seqref":
        return [(s, VRef(v)) for s, v in node_elem(ex, st, n[1], k)]
    if kd == "map":
        out = []
        for s, v in node_elem(ex, st, n[1], k):
            out += ex.call_value(s, n[2], [v])
        return out
    if kd == "inspect":
        return node_elem(ex, st, n[1], k)
    if kd == "chain":
        la = node_len(ex, st, n[1])
        t, f = ex.split(st, cge(la - k - 1))
        out = []
        if t is not None:
            out += node_elem(ex, t, n[1], k)
        if f is not None:
            out += node_elem(ex, f, n[2], k - la)
        return out
    if kd == "list":
        k = st.facts.canon(k)
        if k.is_const() and 0 <= k.c < len(n[1]):
            return [(st, n[1][k.c])]
        out = []
        cur = st
        for i, v in enumerate(n[1]):
            t, f = ex.split(cur, ceq(k - i))
            if t is not None:
                out.append((t, v))
            cur = f
            if cur is None:
                break
        return out
    if kd == "lam":
        return [(st, subst_val(n[2], n[1], k))]
    if kd == "perm":
        ln = node_len(ex, st, n[1])
        p = perm_at(st, n[2], k, ln)
        return node_elem(ex, st, n[1], p)
    if kd == "filt":
        ln = node_len(ex, st, n[1])
        p = sel_at(st, n[2], k, ln)
        return node_elem(ex, st, n[1], p)
    if kd == "repeat":
        return [(st, n[1])]
    if kd == "skip":
        return node_elem(ex, st, n[1], n[2] + k)
    if kd == "take":
        return node_elem(ex, st, n[1], k)
    if kd == "opq" and len(n) > 3:
        if n[3] == "f":
            return [(st, mk("fapp", n[1], k))]
        if n[3] == "b":
            return [(st, mk("bapp", n[1], k))]
    ex.taint(st, f"element of iterator {kd}")
    return [(st, Opq(f"element of {kd}"))]


def elem_kind(ex, st, n):
    """'f' / 'b' when the elements are plain numbers / booleans"""
    s = st.copy()
    s.taint = frozenset()
    k = fresh("q")
    ln = node_len(ex, s, n)
    f = s.facts.add_ge(ln - L(k) - 1)
    if f is None:
        return "any"
    s.facts = f
    ex.pure += 1
    mark = len(ex.events)
    try:
        res = node_elem(ex, s, n, L(k))
    finally:
        ex.pure -= 1
        del ex.events[mark:]
    vs = [ex.val(s2, v) for s2, v in res]
    if vs and all(is_float(v) for v in vs):
        return "f"
    if vs and all(is_bool(v) for v in vs):
        return "b"
    return None


def perm_at(st, name, k, ln):
    FNAX.setdefault("perm:" + name, lambda a, s: [a[1] - L(s) - 1])
    p = L(app("perm:" + name, st.facts.canon(k), st.facts.canon(ln)))
    f = st.facts.add_ge(p)
    f = f.add_ge(ln - p - 1) if f is not None else None
    if f is not None:
        st.facts = f
    return p


def sel_at(st, name, k, ln):
    FNAX.setdefault("pick:" + name, lambda a, s: [a[1] - L(s) - 1])
    p = L(app("pick:" + name, st.facts.canon(k), st.facts.canon(ln)))
    f = st.facts.add_ge(p)
    f = f.add_ge(ln - p - 1) if f is not None else None
    if f is not None:
        st.facts = f
    return p


def subst_val(v, q, k):
    m = {q: k}

    def w(x):
        if isinstance(x, Lin):
            return x.subst(m)
        if isinstance(x, N):
            return T.subst(x, m)
        if isinstance(x, Agg):
            return Agg(x.kind, x.key, x.variant, tuple(w(y) for y in x.f))
        if isinstance(x, VRef):
            return VRef(w(x.v))
        if isinstance(x, ERef):
            return ERef(w(x.arr), tuple(i.subst(m) for i in x.idx))
        if isinstance(x, ArrV):
            return ArrV(x.obj, w(x.axes), w(x.fixed), x.nd, x.owned)
        if isinstance(x, tuple):
            return tuple(w(y) for y in x)
        if isinstance(x, Seq):
            return Seq(w(x.node))
        return x

    return w(v)


def generic_elem(ex, st, n, want_val=False):
    """evaluate the element at a generic position: (qsym, st', value) with st' the state after a
    side-effect free evaluation (facts of the element dropped), or None if it is not describable"""
    q = fresh("q")
    ln = node_len(ex, st, n)
    s = st.copy()
    f = s.facts.add_ge(ln - L(q) - 1)
    if f is None:
        return (q, None, ln)
    s.facts = f
    ex.pure += 1
    try:
        res = node_elem(ex, s, n, L(q))
    finally:
        ex.pure -= 1
    for s2, _ in res:
        for o, c in st.heap.items():
            if s2.heap.get(o) is not c:
                return None
        for fid, fr in st.frames.items():
            if s2.frames.get(fid) != fr:
                return None
        st.taint = st.taint | s2.taint
        for o, c in s2.heap.items():
            st.heap.setdefault(o, c)
    if not res:
        return (q, None, ln)
    vals = [ex.val(s2, v) if want_val else v for s2, v in res]
    if len(res) == 1 or all(v == vals[0] for v in vals):
        return (q, vals[0], ln)
    # several outcomes: conditional value, else an opaque function of the position
    if all(is_float(v) for v in vals):
        v = unite(f, [(s2.facts, v) for (s2, _), v in zip(res, vals)])
        if v is not None:
            return (q, v, ln)
    nm = uid("gen")
    from .interp import beyond
    ex.gens[nm] = (q, [(beyond(s2.facts, f), v) for (s2, _), v in zip(res, vals)])
    if all(is_bool(v) for v in vals):
        return (q, mk("bapp", nm, L(q)), ln)
    if all(is_float(v) for v in vals):
        return (q, mk("fapp", nm, L(q)), ln)
    return None


def iter_next(ex, st, it):
    """-> list of (st, It', value or None)"""
    n, pos = it.node, it.pos
    if n[0] == "filter":
        # position of the next accepted element is some later position
        inner = n[1]
        ln = node_len(ex, st, inner)
        out = []
        s2 = st.copy()
        p = L(fresh("fp"))
        f = s2.facts.add_ge(p - pos)
        f = f.add_ge(ln - p - 1) if f is not None else None
        if f is not None:
            s2.facts = f
            for s3, v in node_elem(ex, s2, inner, p):
                for s4, b in ex.call_value(s3, n[2], [VRef(v)]):
                    if isinstance(b, bool) or is_bool(b):
                        t, _ = ex.split(s4, b)
                        if t is not None:
                            out.append((t, It(n, p + 1), v))
                    else:
                        ex.taint(s4, "filter predicate")
                        out.append((s4, It(n, p + 1), v))
        out.append((st, It(n, ln), None))
        return out
    if n[0] == "rangefrom":
        return [(s, It(n, pos + 1), v) for s, v in node_elem(ex, st, n, pos)]
    ln = node_len(ex, st, n)
    t, f = ex.split(st, cge(ln - pos - 1))
    out = []
    if t is not None:
        for s, v in node_elem(ex, t, n, pos):
            out.append((s, It(n, pos + 1), v))
    if f is not None:
        out.append((f, it, None))
    return out


def run_over(ex, st, it, acc, body, tag):
    """generic loop: body(state, acc, elem) -> list of (state, 'cont'|'stop', acc)
    returns list of (state, acc, stopped)"""
    from .loops import run_loop

    ex.fid += 1
    fid = ex.fid
    st.frames[fid] = {0: it, 1: acc}
    stack = list(ex.stack)

    def step(s):
        backs, outs = [], []
        for s2, it2, v in iter_next(ex, s, s.frames[fid][0]):
            if v is None:
                outs.append(("done", s2))
                continue
            s2.frames[fid][0] = it2
            for s3, how, a2 in body(s2, s2.frames[fid][1], v):
                s3.frames[fid][1] = a2
                if how == "cont":
                    backs.append(s3)
                else:
                    outs.append(("stop", s3))
        return backs, outs

    outs = run_loop(ex, st, step, ("it", ex.site()[0], tag), fid)
    ex.stack[:] = stack
    res = []
    for t, s in outs:
        a = s.frames[fid][1]
        del s.frames[fid]
        res.append((s, a, t == "stop"))
    return res


# ------------------------------------------------------------------ registry
REG = {}
FIRST = {}


def m(krate, *names):
    def d(fn):
        for n in names:
            REG[(krate, n)] = fn
        return fn

    return d


def lookup_first(ex, st, f, args):
    tr = f["trait"]
    if tr and tr.startswith("core::ops::function::"):
        return fn_call
    if tr and tr.startswith("core::cmp::Partial") and f["name"] in ("eq", "ne"):
        return None if f["res"] in ex.prog.fns else partial_eq
    return None


def lookup(ex, st, f, args):
    r = REG.get((f["krate"], f["name"]))
    if r is not None:
        return r
    k = f["krate"]
    if k in ("std", "alloc"):
        r = REG.get(("core", f["name"]))
    elif k in ("core",):
        r = REG.get(("alloc", f["name"]))
    if r is None and k in ("num_traits", "core", "std") and f["name"] in FLOAT1:
        r = REG.get(("num_traits", f["name"]))
    return r


def fn_call(ex, st, f, a, ctx):
    args = a[1]
    args = ex.val(st, args) if not isinstance(args, Agg) else args
    if isinstance(args, Agg) and args.kind == "tuple":
        return ex.call_value(st, a[0], list(args.f))
    return ex.call_value(st, a[0], [args])


# ------------------------------------------------------------------ panics
PANIC = {
    "begin_panic", "panic", "panic_fmt", "assert_failed", "panic_display", "panic_str",
    "unwrap_failed", "expect_failed", "panic_explicit", "unreachable_display", "panic_str_2015",
    "panic_nounwind", "assert_failed_inner", "unreachable_panic", "panic_bounds_check",
}


@m("core", *PANIC)
def panic_(ex, st, f, a, ctx):
    msg = ""
    for x in a:
        if isinstance(x, Opq):
            msg += x.why
    ex.panic(st, "panic", msg or f["name"])
    return []


REG.update({("std", n): panic_ for n in PANIC})

# ------------------------------------------------------------------ scalars
FLOAT1 = {
    "sqrt": "sqrt", "abs": "abs", "signum": "sgn", "ln": "ln", "exp": "exp", "floor": "floor",
    "ceil": "ceil", "round": "round", "sin": "sin", "cos": "cos", "trunc": "trunc",
    "to_degrees": "deg", "to_radians": "rad", "cbrt": "cbrt",
}


@m("num_traits", *FLOAT1)
def float1(ex, st, f, a, ctx):
    x = ex.val(st, a[0])
    if isinstance(x, Lin):
        return None
    x = ex.as_float(st, x)
    op = FLOAT1[f["name"]]
    if op == "abs" and x.op == "c":
        return [(st, const(abs(x.a[0])))]
    if op == "sqrt" and x.op == "c" and x.a[0] in (0, 1):
        return [(st, x)]
    if op == "sgn" and x.op == "c":
        return [(st, const(1 if x.a[0] >= 0 else -1))]
    return [(st, mk(op, x))]


@m("num_traits", "hypot", "atan2", "powf", "copysign")
def float2(ex, st, f, a, ctx):
    x, y = (ex.as_float(st, ex.val(st, v)) for v in a)
    return [(st, mk(f["name"], x, y))]


@m("num_traits", "max", "min")
def fmax(ex, st, f, a, ctx):
    x, y = ex.val(st, a[0]), ex.val(st, a[1])
    if isinstance(x, Lin):
        return ord_minmax(ex, st, f, a, ctx)
    x, y = ex.as_float(st, x), ex.as_float(st, y)
    return [(st, mk("fmax" if f["name"] == "max" else "fmin", x, y))]


@m("num_traits", "powi")
def powi(ex, st, f, a, ctx):
    x, n = ex.as_float(st, ex.val(st, a[0])), ex.val(st, a[1])
    if isinstance(n, Lin) and n.is_const() and 0 <= n.c <= 6:
        r = F1
        for _ in range(n.c):
            r = T.mul(r, x)
        return [(st, r)]
    return None


@m("num_traits", "mul_add")
def mul_add(ex, st, f, a, ctx):
    x, y, z = (ex.as_float(st, ex.val(st, v)) for v in a)
    return [(st, T.add(T.mul(x, y), z))]


@m("num_traits", "recip")
def recip(ex, st, f, a, ctx):
    return [(st, T.div(F1, ex.as_float(st, ex.val(st, a[0]))))]


@m("num_traits", "is_sign_negative")
def sign_neg(ex, st, f, a, ctx):
    return [(st, fcmp("flt", ex.as_float(st, ex.val(st, a[0])), F0))]


@m("num_traits", "is_sign_positive")
def sign_pos(ex, st, f, a, ctx):
    return [(st, bnot(fcmp("flt", ex.as_float(st, ex.val(st, a[0])), F0)))]


@m("num_traits", "is_nan", "is_finite", "is_infinite", "is_normal")
def is_nan(ex, st, f, a, ctx):
    return [(st, mk("bapp", f["name"], ex.as_float(st, ex.val(st, a[0]))))]


@m("num_traits", "epsilon", "neg_infinity", "infinity", "nan", "min_positive_value", "max_value", "min_value")
def fcon(ex, st, f, a, ctx):
    return [(st, mk("fconst", f["name"]))]


@m("num_traits", "zero", "neg_zero")
def zero(ex, st, f, a, ctx):
    if is_int_ty(ex, f):
        return [(st, ZERO)]
    return [(st, F0)]


def is_int_ty(ex, f):
    if f["args"]:
        t = ex.prog.types[f["args"][0]]
        return t["k"] == "prim" and t["n"] in ("usize", "isize", "i32", "u32", "i64", "u64")
    return False


@m("num_traits", "one")
def one(ex, st, f, a, ctx):
    if is_int_ty(ex, f):
        return [(st, ONE)]
    return [(st, F1)]


@m("num_traits", "is_zero", "is_one")
def is_zero(ex, st, f, a, ctx):
    v = ex.val(st, a[0])
    k = 0 if f["name"] == "is_zero" else 1
    if isinstance(v, Lin):
        return [(st, ceq(v - k))]
    return [(st, fcmp("feq", ex.as_float(st, v), F1 if k else F0))]


@m("num_traits", "from", "from_f64", "from_f32", "from_usize", "from_i32", "from_u32", "to_f64", "to_f32", "cast")
def numcast(ex, st, f, a, ctx):
    v = ex.val(st, a[0])
    src = ex.prog.tystr(f["args"][-1]) if f["args"] else "?"
    dst = ex.prog.tystr(f["args"][0]) if f["args"] else "?"
    if isinstance(v, Lin):
        return [(st, some(const(v.c) if v.is_const() else mk("i2f", v)))]
    if is_float(v):
        ex.ev("numcast", st, (v, src, dst), f["name"])
        if v.op == "c":
            return [(st, some(v))]
        if v.op == "fconst":
            return [(st, some(v))]
        # narrowing conversion of data: value is kept symbolically
        return [(st, some(v))]
    return None


@m("core", "add", "sub", "mul", "div", "rem", "neg")
def arith(ex, st, f, a, ctx):
    n = f["name"]
    va = ex.val(st, a[0])
    if n == "neg":
        if isinstance(va, Lin):
            return [(st, -va)]
        if is_float(va):
            return [(st, T.neg(va))]
        if isinstance(va, ArrV):
            o = ex.new_arr(st, va.dims, mk("ew", "neg", vnode(st, va)), "neg")
            return [(st, o)]
        return None
    vb = ex.val(st, a[1])
    if isinstance(va, Lin) and isinstance(vb, Lin):
        r = ex.binop(st, {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem"}[n], va, vb)
        return [(st, r)] if isinstance(r, Lin) else None
    if is_float(va) and is_float(vb):
        return [(st, T.apply_fn(n, [va, vb]) if n != "rem" else mk("rem", va, vb))]
    if isinstance(va, ArrV) and isinstance(vb, ArrV) and n != "rem":
        return ew_binary(ex, st, n, va, vb)
    if isinstance(va, ArrV) and is_float(vb) and n != "rem":
        ex.bulk_read(st, va)
        return [(st, ex.new_arr(st, va.dims, mk("ew", n, vnode(st, va), mk("sc", vb)), "ew"))]
    if is_float(va) and isinstance(vb, ArrV) and n != "rem":
        ex.bulk_read(st, vb)
        return [(st, ex.new_arr(st, vb.dims, mk("ew", n, mk("sc", va), vnode(st, vb)), "ew"))]
    return None


def broadcast_dims(ex, st, da, db, what):
    """-> list of (st, dims) for co-broadcasting"""
    n = max(len(da), len(db))
    da = (ONE,) * (n - len(da)) + tuple(da)
    db = (ONE,) * (n - len(db)) + tuple(db)
    sts = [(st, ())]
    for x, y in zip(da, db):
        nxt = []
        for s, d in sts:
            x1, y1 = s.facts.canon(x), s.facts.canon(y)
            if x1 == y1:
                nxt.append((s, d + (x,)))
                continue
            if x1 == ONE:
                nxt.append((s, d + (y,)))
                continue
            if y1 == ONE:
                nxt.append((s, d + (x,)))
                continue
            t, f = ex.split(s, ceq(s.facts.canon(x - y)))
            if t is not None:
                nxt.append((t, d + (x,)))
            if f is not None:
                for s2, other, mine in ((f, x, y),):
                    t1, f1 = ex.split(s2, ceq(s2.facts.canon(x - 1)))
                    if t1 is not None:
                        nxt.append((t1, d + (y,)))
                    if f1 is not None:
                        t2, f2 = ex.split(f1, ceq(f1.facts.canon(y - 1)))
                        if t2 is not None:
                            nxt.append((t2, d + (x,)))
                        if f2 is not None:
                            ex.panic(f2, "shape", f"{what}: incompatible shapes {x} vs {y}")
        sts = nxt
    for s, d in sts:
        ex.ev("obl", s, ("shape", True, ()), what)
    return sts


def ew_binary(ex, st, n, va, vb):
    out = []
    for s, d in broadcast_dims(ex, st, va.dims, vb.dims, f"array {n}"):
        ex.bulk_read(s, va)
        ex.bulk_read(s, vb)
        out.append((s, ex.new_arr(s, d, mk("ew", n, vnode(s, va), vnode(s, vb)), "ew")))
    return out


def broadcast_to(ex, st, lhs, rhs, what):
    """rhs broadcast to lhs shape -> list of states"""
    da, db = lhs.dims, rhs.dims
    if len(db) > len(da):
        ex.panic(st, "shape", what)
        return []
    da = da[len(da) - len(db):]
    sts = [st]
    for x, y in zip(da, db):
        nxt = []
        for s in sts:
            x1, y1 = s.facts.canon(x), s.facts.canon(y)
            if x1 == y1 or y1 == ONE:
                nxt.append(s)
                continue
            t, f = ex.split(s, ceq(s.facts.canon(x - y)))
            if t is not None:
                nxt.append(t)
            if f is not None:
                t2, f2 = ex.split(f, ceq(f.facts.canon(y - 1)))
                if t2 is not None:
                    nxt.append(t2)
                if f2 is not None:
                    ex.panic(f2, "shape", f"{what}: shape {y} does not match {x}")
        sts = nxt
    for s in sts:
        ex.ev("obl", s, ("shape", True, ()), what)
    return sts


def rhs_reader(ex, s, rhs, lhs_nd):
    node = vnode(s, rhs)

    def rd(idx, f):
        ii = list(idx[len(idx) - len(rhs.axes):])
        for k, (_, ln) in enumerate(rhs.axes):
            if f.canon(ln) == ONE and not f.ent_eq(ii[k], ZERO):
                ii[k] = ZERO
        return read(node, tuple(ii), f)

    return rd


@m("core", "add_assign", "sub_assign", "mul_assign", "div_assign")
def arith_assign(ex, st, f, a, ctx):
    n = f["name"][:-7]
    loc = ex.deref(st, a[0])
    cur = ex.load(st, loc)
    # `&mut &mut x`
    while isinstance(cur, (Ref, ERef)):
        loc = ex.deref(st, cur)
        cur = ex.load(st, loc)
    vb = ex.val(st, a[1])
    if isinstance(cur, Lin) and isinstance(vb, Lin):
        r = ex.binop(st, {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div"}[n], cur, vb)
        if not isinstance(r, Lin):
            return None
        ex.store(st, loc, r)
        return [(st, UNIT)]
    if is_float(cur):
        vb = ex.as_float(st, vb)
        ex.store(st, loc, T.apply_fn(n, [cur, vb]))
        return [(st, UNIT)]
    if isinstance(cur, ArrV):
        return arr_assign_op(ex, st, n, cur, vb)
    return None


def arr_assign_op(ex, st, n, lhs, vb):
    if is_float(vb):
        ex.bulk_read(st, lhs)
        node = vnode(st, lhs)
        ex.bulk_write(st, lhs, lambda idx, f: T.apply_fn(n, [read(node, idx, f), vb]))
        return [(st, UNIT)]
    if isinstance(vb, ArrV):
        out = []
        for s in broadcast_to(ex, st, lhs, vb, f"array {n}_assign"):
            ex.bulk_read(s, lhs)
            ex.bulk_read(s, vb)
            node = vnode(s, lhs)
            rd = rhs_reader(ex, s, vb, len(lhs.axes))
            ex.bulk_write(s, lhs, lambda idx, f: T.apply_fn(n, [read(node, idx, f), rd(idx, f)]))
            out.append((s, UNIT))
        return out
    return None


@m("core", "not")
def not_(ex, st, f, a, ctx):
    v = ex.val(st, a[0])
    return [(st, bnot(v))] if is_bool(v) else None


@m("core", "min", "max")
def ord_minmax(ex, st, f, a, ctx):
    x, y = ex.val(st, a[0]), ex.val(st, a[1])
    if isinstance(x, Lin) and isinstance(y, Lin):
        out = []
        t, g = ex.split(st, cge(y - x))
        mn = f["name"] == "min"
        if t is not None:
            out.append((t, x if mn else y))
        if g is not None:
            out.append((g, y if mn else x))
        return out
    if is_float(x) and is_float(y):
        return [(st, mk("fmax" if f["name"] == "max" else "fmin", x, y))]
    return None


@m("core", "abs_diff")
def abs_diff(ex, st, f, a, ctx):
    x, y = ex.val(st, a[0]), ex.val(st, a[1])
    if isinstance(x, Lin) and isinstance(y, Lin):
        t, g = ex.split(st, cge(y - x))
        out = []
        if t is not None:
            out.append((t, y - x))
        if g is not None:
            out.append((g, x - y))
        return out
    return None


@m("core", "saturating_sub")
def sat_sub(ex, st, f, a, ctx):
    x, y = ex.val(st, a[0]), ex.val(st, a[1])
    if isinstance(x, Lin) and isinstance(y, Lin):
        t, g = ex.split(st, cge(x - y))
        out = []
        if t is not None:
            out.append((t, x - y))
        if g is not None:
            out.append((g, ZERO))
        return out
    return None


@m("core", "checked_sub")
def chk_sub(ex, st, f, a, ctx):
    x, y = ex.val(st, a[0]), ex.val(st, a[1])
    if isinstance(x, Lin) and isinstance(y, Lin):
        t, g = ex.split(st, cge(x - y))
        out = []
        if t is not None:
            out.append((t, some(x - y)))
        if g is not None:
            out.append((g, NONE))
        return out
    return None


@m("core", "wrapping_sub")
def wr_sub(ex, st, f, a, ctx):
    x, y = ex.val(st, a[0]), ex.val(st, a[1])
    if isinstance(x, Lin) and isinstance(y, Lin):
        t, g = ex.split(st, cge(x - y))
        out = []
        if t is not None:
            out.append((t, x - y))
        if g is not None:
            big = fresh("wrapped")
            g.facts = g.facts.add_ge(L(big) - ex.BIG)
            out.append((g, L(big)))
        return out
    return None


@m("core", "saturating_add", "wrapping_add", "checked_add")
def sat_add(ex, st, f, a, ctx):
    x, y = ex.val(st, a[0]), ex.val(st, a[1])
    if isinstance(x, Lin) and isinstance(y, Lin):
        return [(st, some(x + y) if f["name"] == "checked_add" else x + y)]
    return None


@m("core", "lt", "le", "gt", "ge")
def cmp_(ex, st, f, a, ctx):
    x, y = ex.val(st, a[0]), ex.val(st, a[1])
    b = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[f["name"]]
    r = ex.binop(st, b, x, y)
    return [(st, r)]


@m("core", "partial_cmp", "cmp", "total_cmp")
def partial_cmp(ex, st, f, a, ctx):
    x, y = ex.val(st, a[0]), ex.val(st, a[1])
    n = f["name"]
    o = None
    if isinstance(x, Lin) and isinstance(y, Lin):
        o = mk("ordering", mk("i2f", x), mk("i2f", y))
        return [(st, some(o) if n == "partial_cmp" else o)]
    if is_float(x) and is_float(y):
        o = mk("ordering", x, y)
        if n != "partial_cmp":
            return [(st, o)]
        if ex.real:
            return [(st, some(o))]
        nan = st.copy()
        nan.notes = nan.notes + (("nan-compare", x, y),)
        return [(st, some(o)), (nan, NONE)]
    return None


@m("core", "reverse")
def reverse_(ex, st, f, a, ctx):
    v = ex.val(st, a[0])
    if isinstance(v, SliceV):
        arrv = v.arr
        if len(arrv.axes) != 1:
            return None
        src = vnode(st, arrv)
        n = arrv.dims[0]
        ex.bulk_write(st, arrv, lambda idx, fx: read(src, (n - idx[0] - 1,), fx), "reverse")
        return [(st, UNIT)]
    if isinstance(v, N) and v.op == "ordering":
        return [(st, mk("ordering", v.a[1], v.a[0]))]
    if isinstance(a[0], Ref) and isinstance(v, Seq):
        ex.store(st, ex.deref(st, a[0]), Seq(("rev", v.node)))
        return [(st, UNIT)]
    return None


def val_eq(ex, st, x, y):
    """equality of two values as a bool / bool node, None if unknown"""
    x, y = ex.val(st, x), ex.val(st, y)
    if isinstance(x, Lin) and isinstance(y, Lin):
        return ceq(st.facts.canon(x - y))
    if is_bool(x) and is_bool(y):
        return ex.binop(st, "Eq", x, y)
    if is_float(x) and is_float(y):
        return fcmp("feq", x, y)
    if isinstance(x, Agg) and isinstance(y, Agg):
        if x.key != y.key or len(x.f) != len(y.f):
            return False if x.variant != y.variant else None
        if x.variant != y.variant:
            return False
        r = True
        for p, q in zip(x.f, y.f):
            e = val_eq(ex, st, p, q)
            if e is None:
                return None
            r = band(r, e)
        return r
    return None


def partial_eq(ex, st, f, a, ctx):
    r = val_eq(ex, st, a[0], a[1])
    if r is None:
        x, y = arr(ex, st, a[0]), arr(ex, st, a[1])
        if x is not None and y is not None:
            r = mk("bapp", uid("arreq"))
        else:
            return None
    return [(st, r if f["name"] == "eq" else bnot(r))]


REG[("core", "eq")] = partial_eq
REG[("core", "ne")] = partial_eq


@m("core", "clone", "clone_from")
def clone(ex, st, f, a, ctx):
    if f["name"] == "clone_from":
        return None
    return [(st, clone_val(ex, st, ex.val1(st, a[0]) if hasattr(ex, "val1") else one_deref(ex, st, a[0])))]


def one_deref(ex, st, v):
    if isinstance(v, (Ref, ERef, VRef)):
        return ex.load(st, ex.deref(st, v))
    return v


@m("core", "default")
def default(ex, st, f, a, ctx):
    if f["args"]:
        t = ex.prog.types[f["args"][0]]
        if t["k"] == "adt" and t["p"].endswith("::Vec"):
            return [(st, Seq(("list", ())))]
        if t["k"] == "prim":
            if t["n"] == "bool":
                return [(st, False)]
            return [(st, ZERO if t["n"][0] in "iu" else F0)]
    return None


@m("core", "borrow", "borrow_mut", "deref", "deref_mut", "as_ref_", "by_ref", "as_slice", "as_mut_slice")
def ident(ex, st, f, a, ctx):
    if f["name"] in ("as_slice", "as_mut_slice"):
        v = ex.val(st, a[0])
        if isinstance(v, ArrV):
            return None
    # Deref of a smart reference: one level less when pointing at a reference
    v = a[0]
    return [(st, v)]


@m("core", "into", "try_into")
def into(ex, st, f, a, ctx):
    v = a[0]
    if isinstance(v, (Lin, N, ArrV)):
        return [(st, v)]
    return None


@m("core", "drop", "drop_in_place", "black_box", "identity", "forget")
def drop_(ex, st, f, a, ctx):
    return [(st, a[0] if f["name"] in ("black_box", "identity") else UNIT)]


@m("core", "swap")
def swap(ex, st, f, a, ctx):
    if len(a) == 2:
        l1, l2 = ex.deref(st, a[0]), ex.deref(st, a[1])
        x, y = ex.load(st, l1), ex.load(st, l2)
        ex.store(st, l1, y)
        ex.store(st, l2, x)
        return [(st, UNIT)]
    return None


@m("core", "replace")
def replace(ex, st, f, a, ctx):
    if len(a) == 2:
        l1 = ex.deref(st, a[0])
        x = ex.load(st, l1)
        if isinstance(x, Agg) and x.key == OPTION and f["key"].startswith("core::option"):
            ex.store(st, l1, some(a[1]))
            return [(st, x)]
        ex.store(st, l1, a[1])
        return [(st, x)]
    return None


@m("core", "take")
def take(ex, st, f, a, ctx):
    if len(a) == 1:
        l1 = ex.deref(st, a[0])
        x = ex.load(st, l1)
        if isinstance(x, Agg) and x.key == OPTION:
            ex.store(st, l1, NONE)
            return [(st, x)]
        return None
    v = a[0]
    out = []
    for s, it in to_it(ex, st, v) or []:
        n = lin(ex, s, a[1])
        if n is None:
            return None
        node = at_pos(it)
        ln = node_len(ex, s, node)
        t, g = ex.split(s, cge(ln - n))
        if t is not None:
            out.append((t, It(("take", node, n), ZERO)))
        if g is not None:
            out.append((g, It(("take", node, ln), ZERO)))
    return out or None


def at_pos(it):
    if it.pos == ZERO:
        return it.node
    return ("skip", it.node, it.pos)


@m("core", "branch")
def branch(ex, st, f, a, ctx):
    v = ex.val(st, a[0])
    CF = "core::ops::control_flow::ControlFlow"
    if is_agg(v, RESULT):
        if v.variant == 0:
            return [(st, Agg("adt", CF, 0, v.f))]
        return [(st, Agg("adt", CF, 1, (v,)))]
    if is_agg(v, OPTION):
        if v.variant == 1:
            return [(st, Agg("adt", CF, 0, v.f))]
        return [(st, Agg("adt", CF, 1, (v,)))]
    return None


@m("core", "from_residual")
def from_residual(ex, st, f, a, ctx):
    v = ex.val(st, a[0])
    if is_agg(v, OPTION):
        return [(st, NONE)]
    if is_agg(v, RESULT, 1):
        e = v.f[0]
        # error conversion
        src = dst = None
        if ctx and ctx.get("dty") is not None:
            t = ex.prog.types[ctx["dty"]]
            if t["k"] == "adt" and t["p"] == RESULT and len(t["a"]) == 2:
                dst = ex.prog.types[t["a"][1]]
        if isinstance(e, Agg) and dst is not None and dst["k"] == "adt" and dst["p"] != e.key:
            for sty, key in ex.prog.by_trait.get(("core::convert::From", "from"), []):
                s = ex.prog.types[sty]
                if s["k"] == "adt" and s["p"] == dst["p"]:
                    fn = ex.prog.fns[key]
                    pt = ex.prog.types[fn.body.locals[1]]
                    if pt["k"] == "adt" and pt["p"] == e.key:
                        return [(s2, err(v2)) for s2, v2 in ex.inline(st, fn, [e])]
            ex.taint(st, "error conversion")
        return [(st, err(e))]
    return None


# ------------------------------------------------------------------ Option / Result
def opt_arg(ex, st, v):
    return v if isinstance(v, Agg) else ex.val(st, v)


@m("core", "unwrap", "expect")
def unwrap(ex, st, f, a, ctx):
    v = opt_arg(ex, st, a[0])
    if is_agg(v, OPTION):
        if v.variant == 1:
            ex.ev("obl", st, ("unwrap", True, ()), f["name"])
            return [(st, v.f[0])]
        ex.panic(st, "unwrap", f"{f['name']} on None")
        return []
    if is_agg(v, RESULT):
        if v.variant == 0:
            ex.ev("obl", st, ("unwrap", True, ()), f["name"])
            return [(st, v.f[0])]
        ex.panic(st, "unwrap", f"{f['name']} on Err({v.f[0]!r})")
        return []
    if isinstance(v, Opq):
        return [(st, Opq("unwrap of opaque"))]
    return None


@m("core", "unwrap_unchecked")
def unwrap_unchecked(ex, st, f, a, ctx):
    v = opt_arg(ex, st, a[0])
    if is_agg(v, OPTION, 1) or is_agg(v, RESULT, 0):
        return [(st, v.f[0])]
    ex.panic(st, "ub", "unwrap_unchecked")
    return []


@m("core", "unwrap_or", "unwrap_or_else", "unwrap_or_default")
def unwrap_or(ex, st, f, a, ctx):
    v = opt_arg(ex, st, a[0])
    good = is_agg(v, OPTION, 1) or is_agg(v, RESULT, 0)
    if good:
        return [(st, v.f[0])]
    if is_agg(v, OPTION) or is_agg(v, RESULT):
        if f["name"] == "unwrap_or":
            return [(st, a[1])]
        if f["name"] == "unwrap_or_default":
            return None
        return ex.call_value(st, a[1], list(v.f) if v.key == RESULT else [])
    return None


@m("core", "map_or", "map_or_else")
def map_or(ex, st, f, a, ctx):
    v = opt_arg(ex, st, a[0])
    good = is_agg(v, OPTION, 1) or is_agg(v, RESULT, 0)
    if good:
        return ex.call_value(st, a[2], [v.f[0]])
    if is_agg(v, OPTION) or is_agg(v, RESULT):
        if f["name"] == "map_or":
            return [(st, a[1])]
        return ex.call_value(st, a[1], list(v.f) if v.key == RESULT else [])
    return None


def iterish(v):
    return isinstance(v, It) or (
        isinstance(v, Agg) and v.kind == "adt" and v.key.split("::")[-1] in ("Range", "RangeInclusive")
    )


@m("core", "map")
def map_(ex, st, f, a, ctx):
    v = opt_arg(ex, st, a[0]) if not isinstance(a[0], It) else a[0]
    if is_agg(v, OPTION):
        if v.variant == 0:
            return [(st, NONE)]
        return [(s, some(r)) for s, r in ex.call_value(st, a[1], [v.f[0]])]
    if is_agg(v, RESULT):
        if v.variant == 1:
            return [(st, v)]
        return [(s, ok(r)) for s, r in ex.call_value(st, a[1], [v.f[0]])]
    if isinstance(v, It) or iterish(v):
        return [(s, It(("map", at_pos(it), a[1]), ZERO)) for s, it in to_it(ex, st, v)]
    if isinstance(v, Agg) and v.kind == "array":
        sts = [(st, ())]
        for x in v.f:
            sts = [(s2, acc + (r,)) for s, acc in sts for s2, r in ex.call_value(s, a[1], [x])]
        return [(s, Agg("array", None, 0, acc)) for s, acc in sts]
    return None


@m("core", "map_err")
def map_err(ex, st, f, a, ctx):
    v = opt_arg(ex, st, a[0])
    if is_agg(v, RESULT, 0):
        return [(st, v)]
    if is_agg(v, RESULT, 1):
        return [(s, err(r)) for s, r in ex.call_value(st, a[1], [v.f[0]])]
    return None


@m("core", "and_then")
def and_then(ex, st, f, a, ctx):
    v = opt_arg(ex, st, a[0])
    if is_agg(v, OPTION, 1) or is_agg(v, RESULT, 0):
        return ex.call_value(st, a[1], [v.f[0]])
    if is_agg(v, OPTION) or is_agg(v, RESULT):
        return [(st, v)]
    return None


@m("core", "or_else")
def or_else(ex, st, f, a, ctx):
    v = opt_arg(ex, st, a[0])
    if is_agg(v, OPTION, 1) or is_agg(v, RESULT, 0):
        return [(st, v)]
    if is_agg(v, RESULT):
        return ex.call_value(st, a[1], [v.f[0]])
    if is_agg(v, OPTION):
        return ex.call_value(st, a[1], [])
    return None


@m("core", "and", "or")
def and_or(ex, st, f, a, ctx):
    v = opt_arg(ex, st, a[0])
    good = is_agg(v, OPTION, 1) or is_agg(v, RESULT, 0)
    if is_agg(v, OPTION) or is_agg(v, RESULT):
        if f["name"] == "and":
            return [(st, a[1] if good else v)]
        return [(st, v if good else a[1])]
    return None


@m("core", "ok")
def ok_(ex, st, f, a, ctx):
    v = opt_arg(ex, st, a[0])
    if is_agg(v, RESULT):
        return [(st, some(v.f[0]) if v.variant == 0 else NONE)]
    return None


@m("core", "err")
def err_(ex, st, f, a, ctx):
    v = opt_arg(ex, st, a[0])
    if is_agg(v, RESULT):
        return [(st, some(v.f[0]) if v.variant == 1 else NONE)]
    return None


@m("core", "ok_or", "ok_or_else")
def ok_or(ex, st, f, a, ctx):
    v = opt_arg(ex, st, a[0])
    if is_agg(v, OPTION, 1):
        return [(st, ok(v.f[0]))]
    if is_agg(v, OPTION):
        if f["name"] == "ok_or":
            return [(st, err(a[1]))]
        return [(s, err(r)) for s, r in ex.call_value(st, a[1], [])]
    return None


@m("core", "is_some", "is_none", "is_ok", "is_err")
def is_some(ex, st, f, a, ctx):
    v = ex.val(st, a[0])
    if is_agg(v, OPTION):
        r = v.variant == 1
        return [(st, r if f["name"] == "is_some" else not r)]
    if is_agg(v, RESULT):
        r = v.variant == 0
        return [(st, r if f["name"] == "is_ok" else not r)]
    return None


@m("core", "as_ref", "as_mut", "as_deref", "as_deref_mut")
def as_ref(ex, st, f, a, ctx):
    v = a[0]
    while True:
        t = one_deref(ex, st, v)
        if isinstance(t, (Ref, VRef, ERef)):
            v = t
        else:
            break
    if is_agg(t, OPTION) or is_agg(t, RESULT):
        if not t.f:
            return [(st, t)]
        if isinstance(v, Ref):
            r = Ref(v.fid, v.local, v.proj + (("v", t.variant), ("f", 0)))
        else:
            r = VRef(t.f[0])
        return [(st, Agg("adt", t.key, t.variant, (r,)))]
    return None


@m("core", "cloned", "copied")
def cloned(ex, st, f, a, ctx):
    v = a[0] if isinstance(a[0], It) else ex.val(st, a[0])
    if is_agg(v, OPTION):
        if not v.f:
            return [(st, v)]
        return [(st, some(clone_val(ex, st, ex.val(st, v.f[0]))))]
    if isinstance(v, It):
        return [(st, It(("cloned", at_pos(v)), ZERO))]
    return None


@m("core", "then")
def then(ex, st, f, a, ctx):
    v = ex.val(st, a[0])
    if is_bool(v):
        t, g = ex.split(st, v)
        out = []
        if t is not None:
            out += [(s, some(r)) for s, r in ex.call_value(t, a[1], [])]
        if g is not None:
            out.append((g, NONE))
        return out
    return None


@m("core", "then_some")
def then_some(ex, st, f, a, ctx):
    v = ex.val(st, a[0])
    if is_bool(v):
        t, g = ex.split(st, v)
        out = []
        if t is not None:
            out.append((t, some(a[1])))
        if g is not None:
            out.append((g, NONE))
        return out
    return None


@m("core", "insert", "get_or_insert")
def opt_insert(ex, st, f, a, ctx):
    l1 = ex.deref(st, a[0])
    if f["key"].startswith("core::option") and f["name"] == "insert":
        ex.store(st, l1, some(a[1]))
        if l1[0] == "L":
            return [(st, Ref(l1[1], l1[2], l1[3] + (("v", 1), ("f", 0))))]
    return None


# ------------------------------------------------------------------ iterators
@m("core", "into_iter", "iter", "iter_mut", "drain")
def into_iter(ex, st, f, a, ctx):
    v = a[0]
    if f["name"] == "drain":
        return None
    if isinstance(v, It):
        return [(st, v)]
    r = to_it(ex, st, v)
    return r


@m("core", "next")
def next_(ex, st, f, a, ctx):
    loc = ex.deref(st, a[0])
    v = ex.load(st, loc)
    while isinstance(v, Ref):
        loc = ex.deref(st, v)
        v = ex.load(st, loc)
    its = to_it(ex, st, v)
    if its is None:
        return None
    out = []
    for s, it in its:
        for s2, it2, e in iter_next(ex, s, it):
            ex.store(s2, loc, it2)
            out.append((s2, NONE if e is None else some(e)))
    return out


@m("core", "next_back")
def next_back(ex, st, f, a, ctx):
    loc = ex.deref(st, a[0])
    v = ex.load(st, loc)
    its = to_it(ex, st, v)
    if its is None:
        return None
    out = []
    for s, it in its:
        n = at_pos(it)
        ln = node_len(ex, s, n)
        t, g = ex.split(s, cge(ln - 1))
        if t is not None:
            for s2, e in node_elem(ex, t, n, ln - 1):
                if n[0] == "range":
                    nn = ("range", n[1], n[2] - 1)
                else:
                    nn = ("take", n, ln - 1)
                ex.store(s2, loc, It(nn, ZERO))
                out.append((s2, some(e)))
        if g is not None:
            out.append((g, NONE))
    return out


def adapter(name):
    def deco(fn):
        def g(ex, st, f, a, ctx):
            v = a[0]
            its = to_it(ex, st, v)
            if its is None:
                return None
            out = []
            for s, it in its:
                r = fn(ex, s, at_pos(it), a, f)
                if r is None:
                    return None
                out += r
            return out

        REG[("core", name)] = g
        return g

    return deco


@adapter("rev")
def rev(ex, st, n, a, f):
    if n[0] == "rev":
        return [(st, It(n[1], ZERO))]
    return [(st, It(("rev", n), ZERO))]


@adapter("enumerate")
def enumerate_(ex, st, n, a, f):
    return [(st, It(("enum", n), ZERO))]


@adapter("filter")
def filter_(ex, st, n, a, f):
    return [(st, It(("filter", n, a[1]), ZERO))]


@adapter("skip")
def skip(ex, st, n, a, f):
    c = lin(ex, st, a[1])
    ln = node_len(ex, st, n)
    t, g = ex.split(st, cge(ln - c))
    out = []
    if t is not None:
        out.append((t, It(("skip", n, c), ZERO)))
    if g is not None:
        out.append((g, It(("list", ()), ZERO)))
    return out


@adapter("inspect")
def inspect(ex, st, n, a, f):
    return None


@adapter("chain")
def chain(ex, st, n, a, f):
    out = []
    for s, it in to_it(ex, st, a[1]) or []:
        if n[0] == "list" and at_pos(it)[0] == "list":
            out.append((s, It(("list", n[1] + at_pos(it)[1]), ZERO)))
        else:
            out.append((s, It(("chain", n, at_pos(it)), ZERO)))
    return out


@adapter("zip")
def zip_(ex, st, n, a, f):
    out = []
    b = a[1]
    for s, it in to_it(ex, st, b) or []:
        nb = at_pos(it)
        la, lb = node_len_pure(ex, s, n), node_len_pure(ex, s, nb)
        if n[0] == "rangefrom":
            out.append((s, It(("zip", n, nb, lb), ZERO)))
            continue
        if nb[0] == "rangefrom":
            out.append((s, It(("zip", n, nb, la), ZERO)))
            continue
        if la is None or lb is None:
            ex.taint(s, "zip of unknown length")
            out.append((s, It(("zip", n, nb, L(fresh("len"))), ZERO)))
            continue
        t, g = ex.split(s, cge(lb - la))
        if t is not None:
            out.append((t, It(("zip", n, nb, la), ZERO)))
        if g is not None:
            out.append((g, It(("zip", n, nb, lb), ZERO)))
    return out


@adapter("fold")
def fold(ex, st, n, a, f):
    def body(s, acc, v):
        return [(s2, "cont", r) for s2, r in ex.call_value(s, a[2], [acc, v])]

    return [(s, acc) for s, acc, _ in run_over(ex, st, It(n, ZERO), a[1], body, "fold")]


@adapter("reduce")
def reduce_(ex, st, n, a, f):
    ln = node_len(ex, st, n)
    t, g = ex.split(st, cge(ln - 1))
    out = []
    if g is not None:
        out.append((g, NONE))
    if t is not None:
        def body(s, acc, v):
            return [(s2, "cont", r) for s2, r in ex.call_value(s, a[1], [acc, v])]

        for s, v in node_elem(ex, t, n, ZERO):
            for s2, acc, _ in run_over(ex, s, It(n, ONE), ex.val(s, v), body, "reduce"):
                out.append((s2, some(acc)))
    return out


@adapter("for_each")
def for_each(ex, st, n, a, f):
    ex.fid += 1
    fid = ex.fid
    st.frames[fid] = {0: a[1]}
    cl = a[1] if isinstance(a[1], (Ref, FnV, OpqFn)) else Ref(fid, 0, ())

    def body(s, acc, v):
        return [(s2, "cont", UNIT) for s2, r in ex.call_value(s, cl, [v])]

    out = []
    for s, acc, _ in run_over(ex, st, It(n, ZERO), UNIT, body, "for_each"):
        s.frames.pop(fid, None)
        out.append((s, UNIT))
    return out


def filt_node(ex, st, n):
    """('filter', inner, pred) -> ('filt', inner, name, count) with count shared by equal
    predicates"""
    inner, pred = n[1], n[2]
    base = ("map", inner, None)
    q = fresh("q")
    ln = node_len(ex, st, inner)
    s = st.copy()
    f = s.facts.add_ge(ln - L(q) - 1)
    if f is None:
        return ("list", ())
    s.facts = f
    res = []
    for s2, v in node_elem(ex, s, inner, L(q)):
        res += ex.call_value(s2, pred, [VRef(v)])
    name = None
    if len(res) == 1 and is_bool(res[0][1]):
        b = res[0][1]
        if isinstance(b, N):
            from .loops import alpha

            nq = declare("#fq")
            name = "f%d" % alpha(T.subst(b, {q: L(nq)})).id
        else:
            name = "const%s" % b
    else:
        name = uid("flt")
    cnt = L(app("count:" + name, st.facts.canon(ln)))
    f = st.facts.add_ge(ln - cnt)
    if f is not None:
        st.facts = f
    ex.pred_names = getattr(ex, "pred_names", {})
    ex.pred_names[name] = (q, res[0][1] if len(res) == 1 else None)
    return ("filt", inner, name, cnt)


@adapter("count")
def count(ex, st, n, a, f):
    if n[0] == "filter":
        n = filt_node(ex, st, n)
    return [(st, node_len(ex, st, n))]


@adapter("sum")
def sum_(ex, st, n, a, f):
    if n[0] != "filter" and not (n[0] == "chain"):
        g = generic_elem(ex, st, n, True)
        if g is not None:
            q, v, ln = g
            if v is None:
                return [(st, F0)]
            if is_float(v):
                return [(st, T.mksum(q, ZERO, ln, v, st.facts))]
            if isinstance(v, ArrV):
                return None

    def body(s, acc, v):
        v = ex.val(s, v)
        if not is_float(v):
            ex.taint(s, "sum of non-float")
            v = mk("fsym", uid("opq"))
        return [(s, "cont", T.add(acc, v))]

    return [(s, acc) for s, acc, _ in run_over(ex, st, It(n, ZERO), F0, body, "sum")]


@adapter("product")
def product(ex, st, n, a, f):
    def body(s, acc, v):
        return [(s, "cont", T.mul(acc, ex.as_float(s, ex.val(s, v))))]

    return [(s, acc) for s, acc, _ in run_over(ex, st, It(n, ZERO), F1, body, "product")]


def quant(name):
    def fn(ex, st, n, a, f):
        q = fresh("q")
        ln = node_len(ex, st, n)
        s = st.copy()
        fx = s.facts.add_ge(ln - L(q) - 1)
        if fx is None:
            return [(st, name == "all")]
        s.facts = fx
        res = []
        for s2, v in node_elem(ex, s, n, L(q)):
            res += ex.call_value(s2, a[1], [v])
        if len(res) == 1 and is_bool(res[0][1]):
            b = res[0][1]
            if isinstance(b, bool):
                if b == (name == "all"):
                    return [(st, b)]
            else:
                if name == "any":
                    return [(st, bnot(mk("ball", q, ZERO, ln, bnot(b))))]
                return [(st, mk("ball", q, ZERO, ln, b))]
        if res and all(is_bool(b) for _, b in res):
            from .interp import beyond

            nm = uid("gen")
            ex.gens[nm] = (q, [(beyond(s2.facts, fx), b) for s2, b in res])
            b = mk("bapp", nm, L(q))
            return [(st, mk("ball", q, ZERO, ln, b) if name == "all" else bnot(mk("ball", q, ZERO, ln, bnot(b))))]
        nm = uid("quant")
        return [(st, mk("bapp", nm))]

    return fn


adapter("all")(quant("all"))
adapter("any")(quant("any"))


@adapter("last")
def last(ex, st, n, a, f):
    ln = node_len(ex, st, n)
    t, g = ex.split(st, cge(ln - 1))
    out = []
    if t is not None:
        out += [(s, some(v)) for s, v in node_elem(ex, t, n, ln - 1)]
    if g is not None:
        out.append((g, NONE))
    return out


@adapter("nth")
def nth(ex, st, n, a, f):
    return None


def to_seq(ex, st, n):
    """materialise an iterator into a sequence"""
    if n[0] == "filter":
        n = filt_node(ex, st, n)
    if n[0] == "map" and n[1][0] == "filter":
        n = ("map", filt_node(ex, st, n[1]), n[2])
    if n[0] in ("list",):
        return Seq(n)
    if n[0] == "lam":
        return Seq(n)
    ln = node_len(ex, st, n)
    lc = st.facts.canon(ln)
    if lc == ZERO:
        return Seq(("list", ()))
    if n[0] == "chain":
        p, q = to_seq(ex, st, n[1]), to_seq(ex, st, n[2])
        if p.node == ("list", ()):
            return q
        if q.node == ("list", ()):
            return p
        return Seq(("chain", p.node, q.node))
    if n[0] == "lanes":
        return Seq(n)
    g = generic_elem(ex, st, n)
    if g is None:
        ex.taint(st, "collected sequence with side effects")
        return Seq(("opq", uid("seq"), ln))
    q, v, ln = g
    if v is None:
        return Seq(("list", ()))
    if not describable(v):
        # keep the structure (permutations, selections) visible
        return Seq(n)
    return Seq(("lam", q, v, ln))


def describable(v):
    if isinstance(v, (Lin, N, bool, ERef)):
        return True
    if isinstance(v, VRef):
        return describable(v.v)
    if isinstance(v, Agg):
        return all(describable(x) for x in v.f)
    if isinstance(v, ArrV):
        return not v.owned
    return False


def seq_to_arr(ex, st, node, name="coll"):
    ln = node_len(ex, st, node)
    g = generic_elem(ex, st, node, True)
    if g is None or (g[1] is not None and not is_float(g[1])):
        ex.taint(st, "array from opaque sequence")
        return ex.new_arr(st, (ln,), mk("fresh", uid("coll"), 1), name)
    q, v, ln = g
    if v is None:
        return ex.new_arr(st, (ln,), mk("fill", F0), name)
    return ex.new_arr(st, (ln,), mk("lam", (q,), v), name)


@adapter("collect")
def collect(ex, st, n, a, f):
    ti = f["args"][1] if len(f["args"]) > 1 else None
    t = ex.prog.types[ti] if ti is not None else {"k": "?"}
    p = t.get("p", "")
    if p.endswith("::ArrayBase"):
        if n[0] == "filter":
            n = filt_node(ex, st, n)
        return [(st, seq_to_arr(ex, st, n))]
    if p.endswith("::Vec") or p.endswith("::Box"):
        return [(st, to_seq(ex, st, n))]
    return None


@adapter("unzip")
def unzip(ex, st, n, a, f):
    if n[0] == "map" and n[1][0] == "filter":
        n = ("map", filt_node(ex, st, n[1]), n[2])
    elif n[0] == "filter":
        n = filt_node(ex, st, n)
    g = generic_elem(ex, st, n)
    if g is None:
        return None
    q, v, ln = g
    if v is None:
        return [(st, tup(Seq(("list", ())), Seq(("list", ()))))]
    if not (isinstance(v, Agg) and len(v.f) == 2):
        return None
    return [(st, tup(Seq(("lam", q, v.f[0], ln)), Seq(("lam", q, v.f[1], ln))))]


@adapter("len")
def it_len(ex, st, n, a, f):
    return [(st, node_len(ex, st, n))]


@adapter("size_hint")
def size_hint(ex, st, n, a, f):
    ln = node_len(ex, st, n)
    return [(st, tup(ln, some(ln)))]


@m("core", "new")
def range_new(ex, st, f, a, ctx):
    if "RangeInclusive" in f["path"]:
        return [(st, Agg("adt", "core::ops::range::RangeInclusive", 0, (a[0], a[1])))]
    if "Vec" in f["path"]:
        return [(st, Seq(("list", ())))]
    return None


@m("core", "start", "end")
def range_se(ex, st, f, a, ctx):
    v = ex.val(st, a[0])
    if isinstance(v, Agg) and v.key.endswith("RangeInclusive"):
        return [(st, VRef(v.f[0 if f["name"] == "start" else 1]))]
    return None


# ------------------------------------------------------------------ Vec / slices
@m("alloc", "new", "with_capacity")
def vec_new(ex, st, f, a, ctx):
    if "Vec" in f["path"]:
        return [(st, Seq(("list", ())))]
    return range_new(ex, st, f, a, ctx)


REG[("core", "new")] = vec_new


@m("alloc", "from_elem")
def vec_from_elem(ex, st, f, a, ctx):
    n = lin(ex, st, a[1])
    return [(st, Seq(("repeat", ex.val(st, a[0]), n)))]


@m("alloc", "push")
def vec_push(ex, st, f, a, ctx):
    loc = ex.deref(st, a[0])
    v = ex.load(st, loc)
    if isinstance(v, Seq):
        if v.node[0] == "list" and len(v.node[1]) < 16:
            ex.store(st, loc, Seq(("list", v.node[1] + (a[1],))))
        else:
            ln = node_len(ex, st, v.node)
            ex.store(st, loc, Seq(("opq", uid("seq"), ln + 1)))
        return [(st, UNIT)]
    return None


@m("alloc", "sort_by", "sort_unstable_by")
def sort_by(ex, st, f, a, ctx):
    loc = ex.deref(st, a[0])
    v = ex.load(st, loc)
    while isinstance(v, Ref):
        loc = ex.deref(st, v)
        v = ex.load(st, loc)
    if isinstance(v, SliceV):
        node = ("elems", v.arr)
    elif isinstance(v, Seq):
        node = v.node
    else:
        return None
    ln = node_len(ex, st, node)
    # run the comparator on two generic positions
    i, j = fresh("ci"), fresh("cj")
    s = st.copy()
    f_ = s.facts.add_ge(ln - L(i) - 1)
    f_ = f_.add_ge(ln - L(j) - 1) if f_ is not None else None
    key = None
    if f_ is not None:
        s.facts = f_
        outs = []
        for s1, x in node_elem(ex, s, node, L(i)):
            for s2, y in node_elem(ex, s1, node, L(j)):
                x2 = x if isinstance(x, (ERef,)) else VRef(x)
                y2 = y if isinstance(y, (ERef,)) else VRef(y)
                outs += ex.call_value(s2, a[1], [x2, y2])
        key = (i, j, tuple((s2.facts, o) for s2, o in outs))
        for s2, _ in outs:
            st.taint = st.taint | s2.taint
    name = uid("sort")
    ex.sorts = getattr(ex, "sorts", {})
    ex.sorts[name] = (node, key, ln, tuple(ex.stack))
    ex.ev("sort", st, (name, node, key, ln), "sort_by")
    if isinstance(v, SliceV):
        arrv = v.arr
        if len(arrv.axes) != 1:
            return None
        src = vnode(st, arrv)
        b = fresh("b")

        def val(idx, fx):
            st2 = st.with_facts(fx)
            p = perm_at(st2, name, idx[0], ln)
            return read(src, (p,), st2.facts)

        ex.bulk_write(st, arrv, val, "sort")
        return [(st, UNIT)]
    ex.store(st, loc, Seq(("perm", node, name)))
    return [(st, UNIT)]


@m("alloc", "len", "is_empty")
def vec_len(ex, st, f, a, ctx):
    v = ex.val(st, a[0])
    n = None
    if isinstance(v, Seq):
        n = node_len(ex, st, v.node)
    elif isinstance(v, SliceV):
        n = size(v.arr.dims)
    elif isinstance(v, Agg) and v.kind == "array":
        n = Lin(len(v.f))
    elif isinstance(v, It):
        n = node_len(ex, st, at_pos(v))
    elif isinstance(v, Agg) and v.key and v.key.endswith("::Range"):
        t, g = ex.split(st, cge(v.f[1] - v.f[0]))
        if f["name"] == "len":
            out = []
            if t is not None:
                out.append((t, v.f[1] - v.f[0]))
            if g is not None:
                out.append((g, ZERO))
            return out
        return None
    if n is None:
        return None
    return [(st, n if f["name"] == "len" else ceq(st.facts.canon(n)))]


REG[("core", "len")] = vec_len
REG[("core", "is_empty")] = vec_len


@m("alloc", "to_vec", "into_boxed_slice", "into_vec")
def to_vec(ex, st, f, a, ctx):
    v = ex.val(st, a[0])
    if isinstance(v, Seq):
        return [(st, v)]
    if isinstance(v, Agg) and v.kind == "array":
        return [(st, Seq(("list", v.f)))]
    return None


@m("alloc", "new_uninit")
def new_uninit(ex, st, f, a, ctx):
    ex.fid += 1
    st.frames[ex.fid] = {0: Opq("uninit")}
    return [(st, Agg("adt", "Box", 0, (Ref(ex.fid, 0, ()),)))]


@m("alloc", "box_assume_init_into_vec_unsafe")
def box_vec(ex, st, f, a, ctx):
    v = a[0]
    if isinstance(v, Agg) and v.key == "Box":
        r = v.f[0]
        x = ex.load(st, ex.deref(st, r))
        st.frames.pop(r.fid, None)
        for _ in range(4):
            if isinstance(x, Agg) and x.kind == "array":
                return [(st, Seq(("list", x.f)))]
            if isinstance(x, Agg):
                nx = [y for y in x.f if isinstance(y, Agg)]
                x = nx[0] if nx else None
    return None


@m("core", "index", "index_mut")
def index(ex, st, f, a, ctx):
    av = arr(ex, st, a[0])
    if av is not None:
        return arr_index(ex, st, f, a, ctx)
    v = ex.val(st, a[0])
    i = ex.val(st, a[1])
    if isinstance(v, Agg) and v.kind != "array" and isinstance(i, Lin) and i.is_const() and f["name"] == "index":
        d = dims_of(ex, st, v)
        return [(st, VRef(d[i.c]))] if d is not None and i.c < len(d) else None
    if isinstance(v, Seq) and isinstance(i, Lin):
        ln = node_len(ex, st, v.node)
        s = ex.require(st, [i, ln - i - 1], "bounds", f"vec index {i} < {ln}")
        if s is None:
            return []
        if f["name"] == "index_mut":
            ex.taint(s, "mutable vec index")
        return [(s2, VRef(e)) for s2, e in node_elem(ex, s, v.node, i)]
    if isinstance(v, Seq) and isinstance(i, Agg):
        k = i.key.split("::")[-1]
        ln = node_len(ex, st, v.node)
        lo, hi = ZERO, ln
        if k == "Range":
            lo, hi = i.f
        elif k == "RangeFrom":
            lo = i.f[0]
        elif k == "RangeTo":
            hi = i.f[0]
        elif k != "RangeFull":
            return None
        s = ex.require(st, [hi - lo, ln - hi], "bounds", f"vec slice {lo}..{hi}")
        if s is None:
            return []
        n = ("take", ("skip", v.node, lo), hi - lo)
        return [(s, VRef(Seq(n)))]
    return None


@m("core", "first", "last", "get")
def slice_first(ex, st, f, a, ctx):
    v = ex.val(st, a[0])
    if isinstance(v, Seq):
        ln = node_len(ex, st, v.node)
        i = {"first": ZERO, "last": ln - 1}.get(f["name"])
        if i is None:
            i = lin(ex, st, a[1])
            if i is None:
                return None
        t, g = ex.split(st, cge(ln - i - 1 if f["name"] != "last" else ln - 1))
        out = []
        if t is not None:
            out += [(s, some(VRef(e))) for s, e in node_elem(ex, t, v.node, i)]
        if g is not None:
            out.append((g, NONE))
        return out
    if isinstance(v, It) or f["name"] == "last":
        return REG_LAST(ex, st, f, a, ctx)
    return None


REG_LAST = lambda ex, st, f, a, ctx: None

# ------------------------------------------------------------------ rand
@m("rand", "gen", "sample", "random", "gen_range")
def rng_gen(ex, st, f, a, ctx):
    ex.ev("rng", st, (), "rng.gen")
    return [(st, mk("fsym", uid("rand")))]


# ------------------------------------------------------------------ ndarray: slicing
SLICE = "ndarray::slice::Slice"
ELEM = "ndarray::slice::SliceInfoElem"


def range_parts(ex, st, v):
    """range-like -> (start, end|None)"""
    v = ex.val(st, v)
    if isinstance(v, Agg) and v.kind == "adt":
        k = v.key.split("::")[-1]
        if k == "Range":
            return v.f[0], v.f[1]
        if k == "RangeInclusive":
            return v.f[0], v.f[1] + 1
        if k == "RangeFrom":
            return v.f[0], None
        if k == "RangeTo":
            return ZERO, v.f[0]
        if k == "RangeToInclusive":
            return ZERO, v.f[0] + 1
        if k == "RangeFull":
            return ZERO, None
    return None


@m("core", "from")
def from_(ex, st, f, a, ctx):
    t = ex.prog.types[f["self"]] if f["self"] is not None else {"k": "?"}
    p = t.get("p", "")
    v = ex.val(st, a[0])
    if p == SLICE:
        r = range_parts(ex, st, v)
        if r is None:
            return None
        return [(st, Agg("adt", SLICE, 0, (r[0], NONE if r[1] is None else some(r[1]), ONE)))]
    if p == ELEM:
        if isinstance(v, Lin):
            return [(st, Agg("adt", ELEM, 1, (v,)))]
        if isinstance(v, Agg):
            if v.key == SLICE:
                return [(st, Agg("adt", ELEM, 0, v.f))]
            if v.key == ELEM:
                return [(st, v)]
            if v.key.endswith("NewAxis"):
                return [(st, Agg("adt", ELEM, 2, ()))]
            r = range_parts(ex, st, v)
            if r is not None:
                return [(st, Agg("adt", ELEM, 0, (r[0], NONE if r[1] is None else some(r[1]), ONE)))]
        return None
    if p.endswith("::ArrayBase"):
        if isinstance(v, Seq):
            return [(st, seq_to_arr(ex, st, v.node, "from_vec"))]
        if isinstance(v, ArrV):
            return [(st, v)]
        return None
    if p.endswith("::Vec") and isinstance(v, Seq):
        return [(st, v)]
    if isinstance(v, (Lin, N)):
        if isinstance(v, Lin) and t.get("n") in ("f64", "f32"):
            return [(st, const(v.c) if v.is_const() else mk("i2f", v))]
        return [(st, v)]
    if isinstance(v, Agg) and t.get("p") == v.key:
        return [(st, v)]
    return None


@m("ndarray", "step_by")
def nd_step_by(ex, st, f, a, ctx):
    v = ex.val(st, a[0])
    s = ex.val(st, a[1])
    if isinstance(v, Agg) and v.key == SLICE and isinstance(s, Lin):
        return [(st, Agg("adt", SLICE, 0, (v.f[0], v.f[1], mulstep_l(v.f[2], s))))]
    return None


def mulstep_l(a, b):
    from .interp import lin_mul

    return lin_mul(a, b)


@m("ndarray", "next_in_dim", "next_out_dim")
def next_dim(ex, st, f, a, ctx):
    return [(st, UNIT)]


@m("ndarray", "new_unchecked")
def slice_info(ex, st, f, a, ctx):
    return [(st, Agg("adt", "SliceInfo", 0, (a[0],)))]


@m("ndarray", "new")
def nd_new(ex, st, f, a, ctx):
    if "Slice" in f["path"] and len(a) == 3:
        return [(st, Agg("adt", SLICE, 0, tuple(a)))]
    return None


def abs_index(ex, st, d, i):
    """-> list of (st, index) resolving negative indices"""
    if not isinstance(i, Lin):
        ex.taint(st, "slice bound")
        i = L(fresh("opqidx"))
    i = st.facts.canon(i)
    if i.is_const():
        return [(st, i if i.c >= 0 else d + i)]
    t, g = ex.split(st, cge(i))
    out = []
    if t is not None:
        out.append((t, i))
    if g is not None:
        out.append((g, d + i))
    return out


def slice_one(ex, st, a, ax, elem):
    """apply one slice element to axis ax -> list of (st, kind, payload)"""
    d = a.axes[ax][1]
    if elem.variant == 1:  # index
        out = []
        for s, i in abs_index(ex, st, d, elem.f[0]):
            s = ex.require(s, [i, d - i - 1], "slice", f"slice index {i} within {d}")
            if s is not None:
                out.append((s, "idx", i))
        return out
    start, end, step = elem.f
    out = []
    for s, lo in abs_index(ex, st, d, start):
        ends = (
            [(s, d)] if not end.f else abs_index(ex, s, d, end.f[0])
        )
        for s2, hi in ends:
            t, g = ex.split(s2, cge(hi - lo))
            for s3, h in ((t, hi), (g, lo)):
                if s3 is None:
                    continue
                s3 = ex.require(
                    s3, [lo, d - h], "slice", f"slice {lo}..{h} within {d}"
                )
                if s3 is None:
                    continue
                stp = s3.facts.canon(step)
                if stp == ONE:
                    out.append((s3, "rng", (lo, h - lo, 1)))
                else:
                    out += stepped(ex, s3, lo, h, stp)
    return out


def stepped(ex, st, lo, hi, stp):
    ln = hi - lo
    if stp.is_const():
        k = stp.c
        if k == 0:
            ex.panic(st, "slice", "slice step must not be zero")
            return []
        q = ceil_div(ex, st, ln, abs(k))
        if k > 0:
            return [(st, "rng", (lo, q, k))]
        # from the end backwards
        t, g = ex.split(st, cge(ln - 1))
        out = []
        if t is not None:
            out.append((t, "rng", (hi - 1, q, k)))
        if g is not None:
            out.append((g, "rng", (lo, ZERO, 1)))
        return out
    # symbolic step
    t, g = ex.split(st, cge(stp - 1))
    out = []
    if g is not None:
        t0, g0 = ex.split(g, ceq(stp))
        if t0 is not None:
            ex.panic(t0, "slice", "slice step must not be zero")
        if g0 is not None:
            ex.taint(g0, "negative symbolic slice step")
            out.append((g0, "rng", (lo, L(fresh("len")), 1)))
    if t is not None:
        if t.facts.ent_eq(ln - stp - 1):
            t1, g1 = ex.split(t, ceq(t.facts.canon(stp - 1)))
            # two elements in both cases
            if t1 is not None:
                out.append((t1, "rng", (lo, Lin(2), 1)))
            if g1 is not None:
                out.append((g1, "rng", (lo, Lin(2), stp)))
        else:
            n = L(fresh("len"))
            f = t.facts.add_ge(ln - n)
            t.facts = f if f is not None else t.facts
            if t.facts.ent_ge(ln - 1):
                f = t.facts.add_ge(n - 1)
                t.facts = f if f is not None else t.facts
            ex.taint(t, "slice with symbolic step")
            out.append((t, "rng", (lo, n, stp)))
    return out


def ceil_div(ex, st, a, k):
    if k == 1:
        return a
    a = st.facts.canon(a)
    if a.is_const():
        return Lin(-((-a.c) // k))
    return ex.int_div(st, a + (k - 1), k)


def do_slice(ex, st, a, info):
    """-> list of (st, ArrV)"""
    info = ex.val(st, info)
    if not (isinstance(info, Agg) and info.key == "SliceInfo"):
        return None
    el = ex.val(st, info.f[0])
    elems = el.f
    if any(not isinstance(e, Agg) or e.key != ELEM for e in elems):
        return None
    if sum(1 for e in elems if e.variant != 2) != len(a.axes):
        return None
    sts = [(st, a, 0)]
    for e in elems:
        nxt = []
        for s, v, ax in sts:
            if e.variant == 2:
                axes = v.axes[:ax] + (((), ONE),) + v.axes[ax:]
                nxt.append((s, ArrV(v.obj, axes, v.fixed, v.nd, v.owned), ax + 1))
                continue
            for s2, kind, pl in slice_one(ex, s, v, ax, e):
                if kind == "idx":
                    w = sub_axis(v, ax, pl)
                    nxt.append((s2, ArrV(w.obj, w.axes, w.fixed, w.nd, v.owned), ax))
                else:
                    nxt.append((s2, cut_axis(v, ax, pl[0], pl[1], pl[2]), ax + 1))
        sts = nxt
    return [(s, v) for s, v, _ in sts]


def borrow(v):
    return ArrV(v.obj, v.axes, v.fixed, v.nd, False)


@m("ndarray", "slice", "slice_mut", "slice_move")
def nd_slice(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    if v is None:
        return None
    r = do_slice(ex, st, v, a[1])
    if r is None:
        return None
    if f["name"] != "slice_move":
        r = [(s, borrow(x)) for s, x in r]
    return r


@m("ndarray", "slice_axis", "slice_axis_mut", "slice_axis_inplace")
def nd_slice_axis(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    ax = axis_of(ex, st, a[1])
    sl = ex.val(st, a[2])
    if v is None or ax is None or not (isinstance(sl, Agg) and sl.key == SLICE):
        return None
    if f["name"].endswith("inplace"):
        return None
    out = []
    for s, kind, pl in slice_one(ex, st, v, ax, Agg("adt", ELEM, 0, sl.f)):
        out.append((s, borrow(cut_axis(v, ax, pl[0], pl[1], pl[2]))))
    return out


@m("ndarray", "multi_slice_mut")
def multi_slice(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    infos = ex.val(st, a[1])
    if v is None or not isinstance(infos, Agg):
        return None
    sts = [(st, ())]
    for i in infos.f:
        nxt = []
        for s, acc in sts:
            r = do_slice(ex, s, v, i)
            if r is None:
                return None
            nxt += [(s2, acc + (borrow(w),)) for s2, w in r]
        sts = nxt
    out = []
    for s, acc in sts:
        for x in range(len(acc)):
            for y in range(x + 1, len(acc)):
                okk = disjoint(ex, s, acc[x], acc[y])
                ex.ev("obl", s, ("shape", okk, ()), "slices must not intersect")
        out.append((s, Agg("tuple" if infos.kind == "tuple" else "array", None, 0, acc)))
    return out


def disjoint(ex, st, a, b):
    va, ia, f = ex.bulk_vars(st, a)
    if f is None:
        return True
    s2 = st.with_facts(f)
    vb, ib, f = ex.bulk_vars(s2, b)
    if f is None:
        return True
    for x, y in zip(a.index(ia), b.index(ib)):
        f = f.add_eq(x - y)
        if f is None:
            return True
    return False


@m("ndarray", "split_at")
def split_at(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    ax = axis_of(ex, st, a[1])
    i = lin(ex, st, a[2])
    if v is None or ax is None or i is None:
        return None
    d = v.dims[ax]
    s = ex.require(st, [i, d - i], "slice", f"split_at {i} within {d}")
    if s is None:
        return []
    return [(s, tup(borrow(cut_axis(v, ax, ZERO, i)), borrow(cut_axis(v, ax, i, d - i))))]


# ------------------------------------------------------------------ ndarray: shape
@m("ndarray", "dim", "raw_dim")
def nd_dim(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    if v is None:
        return None
    if f["name"] == "raw_dim":
        return [(st, Agg("adt", "Dim", 0, tuple(v.dims)))]
    return [(st, dims_val(v.dims))]


@m("ndarray", "shape")
def nd_shape(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    return None if v is None else [(st, VRef(Agg("array", None, 0, tuple(v.dims))))]


@m("ndarray", "ndim")
def nd_ndim(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    return None if v is None else [(st, Lin(len(v.axes)))]


@m("ndarray", "nrows", "ncols")
def nd_nrows(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    return None if v is None else [(st, v.dims[0 if f["name"] == "nrows" else 1])]


@m("ndarray", "len")
def nd_len(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    if v is None:
        return vec_len(ex, st, f, a, ctx)
    return [(st, size(v.dims))]


@m("ndarray", "is_empty")
def nd_is_empty(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    if v is None:
        return None
    out = []
    cur = st
    for d in v.dims:
        t, g = ex.split(cur, ceq(cur.facts.canon(d)))
        if t is not None:
            out.append((t, True))
        cur = g
        if cur is None:
            break
    if cur is not None:
        out.append((cur, False))
    return out


@m("ndarray", "is_square")
def nd_is_square(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    return None if v is None else [(st, ceq(st.facts.canon(v.dims[0] - v.dims[1])))]


@m("ndarray", "len_of")
def nd_len_of(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    ax = axis_of(ex, st, a[1])
    if v is None or ax is None or ax >= len(v.axes):
        return None
    return [(st, v.dims[ax])]


# ------------------------------------------------------------------ ndarray: views
@m("ndarray", "view", "view_mut", "t", "reborrow", "into_dyn_", "cell_view")
def nd_view(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    if v is None:
        return None
    if f["name"] == "t":
        return [(st, ArrV(v.obj, v.axes[::-1], v.fixed, v.nd, False))]
    return [(st, borrow(v))]


@m("ndarray", "reversed_axes", "permuted_axes")
def nd_rev(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    if v is None:
        return None
    if f["name"] == "permuted_axes":
        return None
    return [(st, ArrV(v.obj, v.axes[::-1], v.fixed, v.nd, v.owned))]


@m("ndarray", "swap_axes", "invert_axis")
def nd_swap_axes(ex, st, f, a, ctx):
    loc = ex.deref(st, a[0])
    v = ex.load(st, loc)
    if not isinstance(v, ArrV):
        return None
    ax = list(v.axes)
    if f["name"] == "swap_axes":
        i, j = lin(ex, st, a[1]), lin(ex, st, a[2])
        if i is None or not i.is_const() or not j.is_const():
            return None
        ax[i.c], ax[j.c] = ax[j.c], ax[i.c]
        ex.store(st, loc, ArrV(v.obj, tuple(ax), v.fixed, v.nd, v.owned))
        return [(st, UNIT)]
    k = axis_of(ex, st, a[1])
    if k is None:
        return None
    d = v.dims[k]
    ex.store(st, loc, cut_axis(v, k, d - 1, d, -1))
    return [(st, UNIT)]


@m("ndarray", "row", "row_mut", "column", "column_mut", "index_axis", "index_axis_mut", "index_axis_move")
def nd_row(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    if v is None:
        return None
    n = f["name"]
    if n.startswith("index_axis"):
        ax = axis_of(ex, st, a[1])
        i = lin(ex, st, a[2])
    else:
        ax = 0 if n.startswith("row") else 1
        i = lin(ex, st, a[1])
    if ax is None or i is None:
        return None
    d = v.dims[ax]
    s = ex.require(st, [i, d - i - 1], "index", f"{n} {i} within {d}")
    if s is None:
        return []
    return [(s, sub_axis(v, ax, i))]


@m("ndarray", "diag", "diag_mut", "into_diag")
def nd_diag(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    if v is None:
        return None
    if len(v.axes) == 1:
        return [(st, borrow(v))]
    (p0, d0), (p1, d1) = v.axes
    out = []
    t, g = ex.split(st, cge(d1 - d0))
    for s, d in ((t, d0), (g, d1)):
        if s is not None:
            out.append((s, ArrV(v.obj, ((p0 + p1, d),), v.fixed, v.nd, False)))
    return out


@m("ndarray", "insert_axis")
def nd_insert_axis(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    ax = axis_of(ex, st, a[1])
    if v is None or ax is None:
        return None
    axes = v.axes[:ax] + (((), ONE),) + v.axes[ax:]
    return [(st, ArrV(v.obj, axes, v.fixed, v.nd, v.owned))]


@m("ndarray", "remove_axis")
def nd_remove_axis(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    ax = axis_of(ex, st, a[1])
    if v is None or ax is None:
        return None
    w = sub_axis(v, ax, ZERO)
    return [(st, ArrV(w.obj, w.axes, w.fixed, w.nd, v.owned))]


@m("ndarray", "broadcast")
def nd_broadcast(ex, st, f, a, ctx):
    return None


@m("ndarray", "to_owned", "into_owned", "to_shared", "into_shared")
def nd_to_owned(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    if v is None:
        return None
    if f["name"].startswith("into") and v.owned:
        return [(st, v)]
    ex.bulk_read(st, v)
    return [(st, ex.new_arr(st, v.dims, content_of(st, v), "owned", ("copy", v)))]


@m("ndarray", "clone")
def nd_clone(ex, st, f, a, ctx):
    return [(st, clone_val(ex, st, one_deref(ex, st, a[0])))]


def lay_lit(ex, kind, v):
    """literal: the view is in row-major order ("std") / one block of memory ("contig")"""
    reg = ex.__dict__.setdefault("layout_lits", {})
    steps = tuple(tuple((oa, st) for oa, _, st in parts) for parts, _ in v.axes)
    k = f"layout:{kind}:{v.obj}:{steps!r}:{v.dims!r}"
    reg[k] = (kind, v)
    return mk("bapp", k)


def mem_order(v):
    """the elements of a contiguous view that is not in row-major order, in memory order"""
    if len(v.axes) == 1:
        return cut_axis(v, 0, v.dims[0] - 1, v.dims[0], -1)
    return ArrV(v.obj, v.axes[::-1], v.fixed, v.nd, v.owned)


def by_layout(ex, st, v):
    """-> [(state, view listing the elements in memory order | None)]"""
    out = []
    t, g = ex.split(st, lay_lit(ex, "std", v))
    if t is not None:
        out.append((t, "std", v))
    if g is not None:
        t, g = ex.split(g, lay_lit(ex, "contig", v))
        if t is not None:
            out.append((t, "mem", mem_order(v)))
        if g is not None:
            out.append((g, "none", None))
    return out


@m("ndarray", "as_slice_mut", "as_slice", "to_slice", "into_slice", "as_slice_memory_order", "as_slice_memory_order_mut",
   "to_slice_memory_order", "into_slice_memory_order")
def nd_as_slice(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    if v is None:
        return None
    ex.ev("layout", st, (v.obj, v.owned, f["name"]), f["name"])
    if ex.layouts:
        every = "memory_order" in f["name"]
        return [(s, some(SliceV(borrow(w))) if w is not None and (how == "std" or every) else NONE)
                for s, how, w in by_layout(ex, st, v)]
    if len(v.axes) != 1:
        ex.taint(st, "memory-order access")
    return [(st, some(SliceV(borrow(v))))]


@m("ndarray", "is_standard_layout", "as_ptr", "as_mut_ptr", "strides", "stride_of", "into_raw_vec", "into_raw_vec_and_offset")
def nd_layout(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    if v is not None:
        ex.ev("layout", st, (v.obj, v.owned, f["name"]), f["name"])
    if ex.layouts and v is not None and f["name"] == "is_standard_layout":
        return [(st, lay_lit(ex, "std", v))]
    if ex.layouts and v is not None and f["name"].startswith("into_raw_vec"):
        out = []
        for s, how, w in by_layout(ex, st, v):
            if w is None:
                ex.taint(s, "storage of a strided array")
                w = v
            x = seq_of_view(ex, s, w)
            if f["name"] != "into_raw_vec":
                x = tup(x, Opq("offset"))
            out.append((s, x))
        return out
    if ex.layouts and v is not None and f["name"] in ("strides", "stride_of"):
        k = lay_lit(ex, "stride", v).a[0]
        l = tuple(L(app(f"{k}:{i}", nonneg=False)) for i in range(len(v.axes)))
        if f["name"] == "strides":
            return [(st, VRef(Agg("array", None, 0, l)))]
        i = axis_of(ex, st, a[1])
        return None if i is None else [(st, l[i])]
    if f["name"] == "is_standard_layout":
        return [(st, mk("bapp", uid("layout")))]
    return None


def seq_of_view(ex, st, w):
    """a copy of the elements of a view as a sequence of their own"""
    node = vnode(st, w)
    b = fresh("b")
    n = size(w.dims)
    s = st.copy()
    fx = st.facts.add_ge(n - L(b) - 1)
    if fx is None:
        return Seq(("list", ()))
    s.facts = fx
    ix = flat_index(ex, s, w, L(b))
    o = ex.new_arr(st, (n,), mk("lam", (b,), read(node, ix, s.facts)), "raw")
    return Seq(("cloned", ("elems", o)))


def ravel(ix, dims):
    """position of an index in row-major order"""
    from .interp import lin_mul

    r = ZERO
    for i, d in zip(ix, dims):
        r = lin_mul(r, d) + i
    return r


@m("ndarray", "into_shape", "into_shape_with_order", "to_shape", "reshape", "into_shape_clone", "flatten", "into_flat")
def nd_reshape(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    if v is None or not ex.layouts:
        return None
    n = f["name"]
    ex.ev("layout", st, (v.obj, v.owned, n), n)
    if "flat" in n:
        d = (size(v.dims),)
    else:
        d = dims_of(ex, st, a[1])
    if d is None or len(d) > 2:
        return None
    if n.startswith("into") and not v.owned:
        ex.taint(st, "reshaped view")  # the result shares the elements

    def made(s, w, order):
        vs = tuple(fresh("b") for _ in d)
        node = vnode(s, w)
        z = s.copy()
        fx = s.facts
        for b, e in zip(vs, d):
            fx = fx.add_ge(e - L(b) - 1) if fx is not None else None
        if fx is None:
            c = mk("fill", F0)
        else:
            z.facts = fx
            ix = [L(b) for b in vs]
            k = ravel(ix, d) if order == "C" else ravel(ix[::-1], d[::-1])
            c = mk("lam", vs, read(node, flat_index(ex, z, w, k), z.facts))
        return ex.new_arr(s, d, c, "reshaped" if order == "C" else "reshapedF")
    out = []
    t, g = ex.split(st, ceq(st.facts.canon(size(d) - size(v.dims))))
    bad = lambda s: (s, err(Opq("shape error")))
    if t is not None:
        if n in ("to_shape", "into_shape_clone", "flatten", "into_flat"):
            x = made(t, v, "C")
            out.append((t, x if "flat" in n else ok(x)))
        else:
            for s, how, w in by_layout(ex, t, v):
                if how == "std":
                    x = made(s, v, "C")
                    out.append((s, ok(x) if n != "reshape" else x))
                elif how == "mem" and n == "into_shape" and len(v.axes) == 2:
                    out.append((s, ok(made(s, w, "F"))))
                elif n == "reshape":
                    ex.panic(s, "layout", "reshape of an array that is not in row-major order")
                else:
                    out.append(bad(s))
    if g is not None:
        if n == "reshape":
            ex.panic(g, "shape", "reshape")
        else:
            out.append(bad(g))
    return out


# ------------------------------------------------------------------ ndarray: elements
def idx_of(ex, st, v, nd):
    v = ex.val(st, v)
    d = dims_of(ex, st, v)
    if d is None or len(d) != nd:
        return None
    return d


def arr_index(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    ix = idx_of(ex, st, a[1], len(v.axes))
    if ix is None:
        return None
    conds = []
    for i, d in zip(ix, v.dims):
        conds += [i, d - i - 1]
    s = ex.require(st, conds, "index", f"[{','.join(map(repr, ix))}] within [{','.join(map(repr, v.dims))}]")
    if s is None:
        return []
    return [(s, ERef(v, ix))]


@m("ndarray", "index", "index_mut")
def nd_index(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    if v is None:
        return index(ex, st, f, a, ctx)
    return arr_index(ex, st, f, a, ctx)


@m("ndarray", "uget", "uget_mut", "uset")
def nd_uget(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    if v is None:
        return None
    ix = idx_of(ex, st, a[1], len(v.axes))
    if ix is None:
        return None
    conds = []
    for i, d in zip(ix, v.dims):
        conds += [i, d - i - 1]
    s = ex.require(st, conds, "uget", f"[{','.join(map(repr, ix))}] within [{','.join(map(repr, v.dims))}]")
    if s is None:
        return []
    return [(s, ERef(v, ix))]


@m("ndarray", "get", "get_mut")
def nd_get(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    if v is None:
        return None
    ix = idx_of(ex, st, a[1], len(v.axes))
    if ix is None:
        return None
    fx = st.facts
    conds = []
    for i, d in zip(ix, v.dims):
        conds += [i, d - i - 1]
    if all(fx.ent_ge(c) for c in conds):
        return [(st, some(ERef(v, ix)))]
    out = []
    cur = st
    for c in conds:
        if cur is None:
            break
        t, g = ex.split(cur, cge(c))
        if g is not None:
            out.append((g, NONE))
        cur = t
    if cur is not None:
        out.append((cur, some(ERef(v, ix))))
    return out


@m("ndarray", "first", "last", "first_mut", "last_mut")
def nd_first(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    if v is None or len(v.axes) != 1:
        return None
    t, g = ex.split(st, cge(v.dims[0] - 1))
    out = []
    if t is not None:
        out.append((t, some(ERef(v, (ZERO if f["name"].startswith("first") else v.dims[0] - 1,)))))
    if g is not None:
        out.append((g, NONE))
    return out


@m("ndarray", "swap", "uswap")
def nd_swap(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    if v is None:
        return None
    ix, jx = idx_of(ex, st, a[1], len(v.axes)), idx_of(ex, st, a[2], len(v.axes))
    if ix is None or jx is None:
        return None
    conds = []
    for k in (ix, jx):
        for i, d in zip(k, v.dims):
            conds += [i, d - i - 1]
    s = ex.require(st, conds, "uget" if f["name"] == "uswap" else "index", "swap")
    if s is None:
        return []
    x, y = ex.rd(s, v, ix), ex.rd(s, v, jx)
    ex.wr(s, v, ix, y)
    ex.wr(s, v, jx, x)
    return [(s, UNIT)]


@m("ndarray", "into_scalar")
def nd_scalar(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    return [(st, ex.rd(st, v, ()))] if v is not None and not v.axes else None


# ------------------------------------------------------------------ ndarray: iteration
@m("ndarray", "iter", "iter_mut", "into_iter")
def nd_iter(ex, st, f, a, ctx):
    if isinstance(a[0], It):
        return [(st, a[0])]
    v = arr(ex, st, a[0])
    if v is None:
        return to_it(ex, st, a[0])
    if f["name"] == "into_iter" and v.owned and isinstance(a[0], ArrV):
        return [(st, It(("cloned", ("elems", v)), ZERO))]
    return [(st, It(("elems", borrow(v)), ZERO))]


@m("ndarray", "indexed_iter", "indexed_iter_mut")
def nd_indexed(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    return None if v is None else [(st, It(("indexed", borrow(v)), ZERO))]


@m("ndarray", "columns", "columns_mut", "gencolumns", "gencolumns_mut", "rows", "rows_mut", "genrows",
   "genrows_mut", "outer_iter", "outer_iter_mut", "axis_iter", "axis_iter_mut", "lanes", "lanes_mut")
def nd_lanes(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    if v is None:
        return None
    n = f["name"]
    if n.startswith(("columns", "gencolumns")):
        ax = 1
        if len(v.axes) != 2:
            return None
    elif n.startswith(("rows", "genrows")):
        ax = 0
        if len(v.axes) != 2:
            return None
    elif n.startswith("outer"):
        ax = 0
    else:
        ax = axis_of(ex, st, a[1])
        if ax is None:
            return None
        if n.startswith("lanes"):
            if len(v.axes) != 2:
                return None
            ax = 1 - ax
    return [(st, It(("lanes", borrow(v), ax), ZERO))]


@m("ndarray", "all", "any", "fold")
def nd_iter_adapt(ex, st, f, a, ctx):
    if isinstance(a[0], It) or isinstance(ex.val(st, a[0]), It):
        v = a[0] if isinstance(a[0], It) else ex.val(st, a[0])
        return REG[("core", f["name"])](ex, st, f, [v] + list(a[1:]), ctx)
    v = arr(ex, st, a[0])
    if v is not None and f["name"] == "fold":
        def body(s, acc, e):
            return [(s2, "cont", r) for s2, r in ex.call_value(s, a[2], [acc, e])]

        if ex.layouts:
            ex.ev("layout", st, (v.obj, v.owned, "fold"), "fold")
            return [(z, acc) for s, how, w in by_layout(ex, st, v)
                    for z, acc, _ in run_over(ex, s, It(("elems", borrow(w or v)), ZERO), a[1], body, "fold")]
        return [(s, acc) for s, acc, _ in run_over(ex, st, It(("elems", borrow(v)), ZERO), a[1], body, "fold")]
    return None


# ------------------------------------------------------------------ ndarray: construction
@m("ndarray", "zeros", "ones", "from_elem", "default", "uninit")
def nd_zeros(ex, st, f, a, ctx):
    d = dims_of(ex, st, a[0])
    if d is None:
        return None
    n = f["name"]
    if n in ("zeros", "default"):
        c = mk("fill", F0)
    elif n == "ones":
        c = mk("fill", F1)
    elif n == "uninit":
        c = mk("fresh", uid("uninit"), len(d))
    else:
        c = mk("fill", ex.as_float(st, ex.val(st, a[1])))
    return [(st, ex.new_arr(st, d, c, n))]


@m("ndarray", "eye")
def nd_eye(ex, st, f, a, ctx):
    n = lin(ex, st, a[0])
    if n is None:
        return None
    return [(st, ex.new_arr(st, (n, n), mk("eye"), "eye"))]


@m("ndarray", "from_diag")
def nd_from_diag(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    if v is None:
        return None
    n = v.dims[0]
    b = fresh("b")
    fx = st.facts.add_ge(n - L(b) - 1)
    ex.bulk_read(st, v)
    c = mk("fill", F0)
    if fx is not None:
        c = mk("upd", c, ((b, ZERO, n),), (L(b), L(b)), read(vnode(st, v), (L(b),), fx))
    return [(st, ex.new_arr(st, (n, n), c, "diag"))]


@m("ndarray", "from_shape_fn")
def nd_from_fn(ex, st, f, a, ctx):
    d = dims_of(ex, st, a[0])
    if d is None:
        return None
    vs = [fresh("b") for _ in d]
    fx = st.facts
    for v, x in zip(vs, d):
        fx = fx.add_ge(x - L(v) - 1) if fx is not None else None
    if fx is None:
        return [(st, ex.new_arr(st, d, mk("fill", F0), "fn"))]
    s = st.copy()
    s.facts = fx
    idx = dims_val(tuple(L(v) for v in vs))
    res = ex.call_value(s, a[1], [idx])
    return finish_map(ex, st, res, d, vs, "fn")


def unite(base, cases):
    """one conditional value for the outcomes of a computation (None: their conditions have no form)"""
    from .interp import conditions

    r = cases[-1][1]
    for f, v in reversed(cases[:-1]):
        c = conditions(f, base)
        if c is None:
            return None
        r = T.ite(c, v, r)
    return r


def finish_map(ex, st, res, dims, vs, name):
    """build an array from a closure evaluated at a generic index"""
    rnd = False
    for s2, v in res:
        st.taint = st.taint | s2.taint
        for o, c in st.heap.items():
            if s2.heap.get(o) is not c:
                ex.taint(st, "side effect in element closure")
        for fid, fr in st.frames.items():
            if s2.frames.get(fid) != fr:
                ex.taint(st, "side effect in element closure")
    vals = [ex.as_float(s2, ex.val(s2, v)) for s2, v in res]
    if not vals:
        return []
    if all(v is vals[0] for v in vals):
        v = vals[0]
        if any(n.op == "fsym" and str(n.a[0]).startswith("rand") for n in T.nodes_of(v)):
            c = mk("fresh", uid("random"), len(dims))
        elif not (T.syms_of(v) & set(vs)) and v.op in ("c", "fconst", "fsym"):
            c = mk("fill", v)
        else:
            c = mk("lam", tuple(vs), v)
    else:
        v = unite(st.facts, [(s2.facts, v) for (s2, _), v in zip(res, vals)])
        if v is None:
            v = mk("fapp", uid("map"), *[L(v) for v in vs])
        c = mk("lam", tuple(vs), v)
    return [(st, ex.new_arr(st, dims, c, name))]


@m("ndarray", "from_shape_vec")
def nd_from_vec(ex, st, f, a, ctx):
    d = dims_of(ex, st, a[0])
    v = ex.val(st, a[1])
    if d is None or not isinstance(v, Seq):
        return None
    ln = node_len(ex, st, v.node)
    t, g = ex.split(st, ceq(st.facts.canon(size(d) - ln)))
    out = []
    if t is not None:
        if v.node[0] == "list" and all(x.is_const() for x in d):
            c = mk("fill", F0)
            i = 0
            from itertools import product as prod

            for ix in prod(*[range(x.c) for x in d]):
                c = mk("upd", c, (), tuple(Lin(j) for j in ix), ex.as_float(t, ex.val(t, v.node[1][i])))
                i += 1
        elif len(d) == 1:
            x = seq_to_arr(ex, t, v.node)
            out.append((t, ok(x)))
            t = None
        else:
            g_ = generic_elem(ex, t, v.node, True)
            if g_ is None or g_[1] is None or not is_float(g_[1]):
                c = mk("fresh", uid("shapevec"), len(d))
                ex.taint(t, "from_shape_vec of symbolic sequence")
            else:
                vs = tuple(fresh("b") for _ in d)
                c = mk("lam", vs, T.subst(g_[1], {g_[0]: ravel([L(b) for b in vs], d)}))
        if t is not None:
            out.append((t, ok(ex.new_arr(t, d, c, "vec"))))
    if g is not None:
        out.append((g, err(Agg("adt", "ndarray::error::ShapeError", 0, ()))))
    return out


@m("ndarray", "from_vec", "from_iter", "arr1", "aview1")
def nd_from_vec1(ex, st, f, a, ctx):
    its = to_it(ex, st, a[0])
    if its is None:
        return None
    return [(s, seq_to_arr(ex, s, at_pos(it))) for s, it in its]


@m("ndarray", "concatenate", "stack")
def nd_concat(ex, st, f, a, ctx):
    ax = axis_of(ex, st, a[0])
    v = ex.val(st, a[1])
    items = None
    if isinstance(v, Agg) and v.kind == "array":
        items = v.f
    elif isinstance(v, Seq) and v.node[0] == "list":
        items = v.node[1]
    if ax is not None and items is None and isinstance(v, Seq) and f["name"] == "stack":
        return stack_lanes(ex, st, ax, v.node)
    if ax is None or items is None:
        return None
    vs = [arr(ex, st, x) for x in items]
    if any(x is None for x in vs) or not vs:
        return None
    if f["name"] == "stack":
        vs = [
            ArrV(x.obj, x.axes[:ax] + (((), ONE),) + x.axes[ax:], x.fixed, x.nd, False) for x in vs
        ]
    out = []
    cur = st
    d0 = vs[0].dims
    for x in vs[1:]:
        if len(x.axes) != len(vs[0].axes):
            return None
        for k in range(len(d0)):
            if k == ax or cur is None:
                continue
            t, g = ex.split(cur, ceq(cur.facts.canon(x.dims[k] - d0[k])))
            if g is not None:
                out.append((g, err(Agg("adt", "ndarray::error::ShapeError", 0, ()))))
            cur = t
    if cur is not None:
        tot = ZERO
        for x in vs:
            tot = tot + x.dims[ax]
            ex.bulk_read(cur, x)
        dims = tuple(tot if k == ax else d for k, d in enumerate(d0))
        c = mk("cat", ax, *[vnode(cur, x) for x in vs])
        out.append((cur, ok(ex.new_arr(cur, dims, c, "cat"))))
    return out


def chain_parts(n):
    return chain_parts(n[1]) + chain_parts(n[2]) if n[0] == "chain" else [n]


def stack_lanes(ex, st, ax, node):
    """stack of all the lanes of several matrices: their concatenation"""
    parts = chain_parts(node)
    if not all(p[0] == "lanes" and len(p[1].axes) == 2 for p in parts):
        return None
    vs = []
    for p in parts:
        v = p[1]
        if p[2] != ax:
            v = ArrV(v.obj, v.axes[::-1], v.fixed, v.nd, False)
        vs.append(v)
    shape_err = lambda: err(Agg("adt", "ndarray::error::ShapeError", 0, ()))
    out = []
    tot = ZERO
    for x in vs:
        tot = tot + x.dims[ax]
    cur, g = ex.split(st, cge(tot - 1))
    if g is not None:
        out.append((g, shape_err()))
    o = 1 - ax
    for i, x in enumerate(vs[1:]):
        if cur is None:
            break
        t, g = ex.split(cur, ceq(cur.facts.canon(x.dims[o] - vs[0].dims[o])))
        if g is not None:
            # only an error when both contribute a lane
            for y in (x, vs[0]):
                if g is not None:
                    g, z = ex.split(g, cge(y.dims[ax] - 1))
                    if z is not None:
                        w = x if y is vs[0] else vs[0]
                        ex.bulk_read(z, w)
                        ds = [None, None]
                        ds[ax], ds[o] = w.dims[ax], w.dims[o]
                        out.append((z, ok(ex.new_arr(z, tuple(ds), vnode(z, w), "stack"))))
            if g is not None:
                out.append((g, shape_err()))
        cur = t
    if cur is not None:
        for x in vs:
            ex.bulk_read(cur, x)
        ds = [None, None]
        ds[ax], ds[o] = tot, vs[0].dims[o]
        out.append((cur, ok(ex.new_arr(cur, tuple(ds), mk("cat", ax, *[vnode(cur, x) for x in vs]), "stack"))))
    return out


@m("ndarray", "select")
def nd_select(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    ax = axis_of(ex, st, a[1])
    sq = ex.val(st, a[2])
    if v is None or ax is None:
        return None
    if isinstance(sq, Agg) and sq.kind == "array":
        sq = Seq(("list", sq.f))
    if not isinstance(sq, Seq):
        return None
    node = sq.node
    ln = node_len(ex, st, node)
    dims = tuple(ln if k == ax else d for k, d in enumerate(v.dims))
    vs = [fresh("b") for _ in dims]
    s = st.copy()
    fx = s.facts.add_ge(ln - L(vs[ax]) - 1)
    if fx is None:
        return [(st, ex.new_arr(st, dims, mk("fill", F0), "select"))]
    s.facts = fx
    res = [(s2, ex.val(s2, e)) for s2, e in node_elem(ex, s, node, L(vs[ax]))]
    vals = {e for _, e in res}
    if len(vals) != 1 or not isinstance(next(iter(vals)), Lin):
        ex.taint(st, "select with opaque indices")
        return [(st, ex.new_arr(st, dims, mk("fresh", uid("select"), len(dims)), "select"))]
    i = next(iter(vals))
    for s2, _ in res:
        d = v.dims[ax]
        okk = s2.facts.ent_ge(i) and s2.facts.ent_ge(d - i - 1)
        ex.ev("obl", s2, ("index", okk, (i, d - i - 1)), f"select index {i} within {d}")
    # remember the range of the selected index for later reads
    f2 = res[0][0].facts
    for k, d in enumerate(dims):
        if k != ax:
            f2 = f2.add_ge(d - L(vs[k]) - 1) if f2 is not None else None
    if f2 is None:
        return [(st, ex.new_arr(st, dims, mk("fill", F0), "select"))]
    ix = tuple(i if k == ax else L(vs[k]) for k in range(len(dims)))
    val = read(vnode(st, v), ix, f2)
    ex.bulk_read(st, v)
    return [(st, ex.new_arr(st, dims, mk("lam", tuple(vs), val), "select"))]


# ------------------------------------------------------------------ ndarray: bulk
@m("ndarray", "fill")
def nd_fill(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    x = ex.as_float(st, ex.val(st, a[1]))
    if v is None:
        return None
    ex.bulk_write(st, v, lambda idx, fx: x)
    return [(st, UNIT)]


@m("ndarray", "assign")
def nd_assign(ex, st, f, a, ctx):
    v, r = arr(ex, st, a[0]), arr(ex, st, a[1])
    if v is None or r is None:
        return None
    out = []
    for s in broadcast_to(ex, st, v, r, "assign"):
        ex.bulk_read(s, r)
        rd = rhs_reader(ex, s, r, len(v.axes))
        ex.bulk_write(s, v, rd)
        out.append((s, UNIT))
    return out


@m("ndarray", "scaled_add")
def nd_scaled_add(ex, st, f, a, ctx):
    v, r = arr(ex, st, a[0]), arr(ex, st, a[2])
    al = ex.as_float(st, ex.val(st, a[1]))
    if v is None or r is None:
        return None
    out = []
    for s in broadcast_to(ex, st, v, r, "scaled_add"):
        ex.bulk_read(s, r)
        ex.bulk_read(s, v)
        rd = rhs_reader(ex, s, r, len(v.axes))
        node = vnode(s, v)
        ex.bulk_write(s, v, lambda idx, fx: T.add(read(node, idx, fx), T.mul(al, rd(idx, fx))))
        out.append((s, UNIT))
    return out


@m("ndarray", "add_assign", "sub_assign", "mul_assign", "div_assign")
def nd_op_assign(ex, st, f, a, ctx):
    return arith_assign(ex, st, f, a, ctx)


@m("ndarray", "mapv", "map", "mapv_into", "mapv_inplace", "map_inplace", "map_mut", "par_mapv_inplace", "mapv_into_any")
def nd_mapv(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    if v is None:
        return map_(ex, st, f, a, ctx)
    n = f["name"]
    vs, idx, fx = ex.bulk_vars(st, v)
    if fx is None:
        if n.endswith("inplace"):
            return [(st, UNIT)]
        return [(st, ex.new_arr(st, v.dims, mk("fill", F0), "map"))]
    ex.bulk_read(st, v)
    s = st.copy()
    s.facts = fx
    if n == "map_inplace":
        # closure takes &mut element: evaluate on a scratch cell
        ex.fid += 1
        fid = ex.fid
        s.frames[fid] = {0: read(vnode(st, v), idx, fx)}
        res = []
        for s2, _ in ex.call_value(s, a[1], [Ref(fid, 0, ())]):
            val = s2.frames[fid][0]
            del s2.frames[fid]
            res.append((s2, val))
    else:
        e = read(vnode(st, v), idx, fx)
        res = ex.call_value(s, a[1], [VRef(e) if n == "map" else e])
    r = finish_map(ex, st, res, v.dims, [x[0] for x in vs], "map")
    for _, w in r:
        OBJ[w.obj][1]["origin"] = ("copy", v)
    if not n.endswith(("inplace", "_into")):
        return r
    out = []
    for s2, w in r:
        node = s2.heap[w.obj]
        ex.bulk_write(s2, v, lambda ix, fx: read(node, ix, fx))
        out.append((s2, UNIT if n.endswith("inplace") else v))
    return out


@m("ndarray", "zip_mut_with")
def nd_zip_mut(ex, st, f, a, ctx):
    v, r = arr(ex, st, a[0]), arr(ex, st, a[1])
    if v is None or r is None:
        return None
    out = []
    for s0 in broadcast_to(ex, st, v, r, "zip_mut_with"):
        ex.bulk_read(s0, r)
        ex.bulk_read(s0, v)
        rd = rhs_reader(ex, s0, r, len(v.axes))
        out += elementwise(ex, s0, v, lambda idx, fx: [VRef(rd(idx, fx))], a[2])
    return out


@m("ndarray", "from")
def nd_zip_from(ex, st, f, a, ctx):
    if "zip::Zip" not in f["key"] and "Zip" not in str(f.get("path", "")):
        return None
    v = arr(ex, st, a[0])
    return None if v is None else [(st, Agg("zip", None, 0, (v,)))]


@m("ndarray", "and", "and_broadcast")
def nd_zip_and(ex, st, f, a, ctx):
    z, v = ex.val(st, a[0]), arr(ex, st, a[1])
    if not (isinstance(z, Agg) and z.kind == "zip") or v is None or len(v.axes) != len(z.f[0].axes):
        return None
    for x, y in zip(z.f[0].dims, v.dims):
        st = ex.require_eq(st, x, y, "shape", "Zip::and")
        if st is None:
            return []
    return [(st, Agg("zip", None, 0, z.f + (v,)))]


@m("ndarray", "for_each", "apply", "par_for_each")
def nd_zip_each(ex, st, f, a, ctx):
    z = ex.val(st, a[0])
    if not (isinstance(z, Agg) and z.kind == "zip"):
        return None
    vs, idx, fx = ex.bulk_vars(st, z.f[0])
    if fx is None:
        return [(st, UNIT)]
    s = st.copy()
    s.facts = fx
    cells = []
    for v in z.f:
        ex.bulk_read(st, v)
        ex.fid += 1
        s.frames[ex.fid] = {0: read(vnode(st, v), idx, fx)}
        cells.append((ex.fid, s.frames[ex.fid][0]))
    res = []
    for s2, _ in ex.call_value(s, a[1], [Ref(c, 0, ()) for c, _ in cells]):
        vals = [s2.frames[c][0] for c, _ in cells]
        for c, _ in cells:
            del s2.frames[c]
        res.append((s2, vals))
    sts = [st]
    for k, v in enumerate(z.f):
        if all(vals[k] is cells[k][1] for _, vals in res):
            continue
        nxt = []
        for s0 in sts:
            for s2, w in finish_map(ex, s0, [(q, vals[k]) for q, vals in res], v.dims, [x[0] for x in vs], "zip"):
                node = s2.heap[w.obj]
                ex.bulk_write(s2, v, lambda ix, fx: read(node, ix, fx))
                nxt.append(s2)
        sts = nxt
    return [(s2, UNIT) for s2 in sts]


def elementwise(ex, st, v, others, fn):
    """v[idx] = what fn(&mut v[idx], others..) leaves there"""
    vs, idx, fx = ex.bulk_vars(st, v)
    if fx is None:
        return [(st, UNIT)]
    s = st.copy()
    s.facts = fx
    ex.fid += 1
    fid = ex.fid
    s.frames[fid] = {0: read(vnode(st, v), idx, fx)}
    res = []
    for s2, _ in ex.call_value(s, fn, [Ref(fid, 0, ())] + others(idx, fx)):
        val = s2.frames[fid][0]
        del s2.frames[fid]
        res.append((s2, val))
    out = []
    for s2, w in finish_map(ex, st, res, v.dims, [x[0] for x in vs], "map"):
        node = s2.heap[w.obj]
        ex.bulk_write(s2, v, lambda ix, fx: read(node, ix, fx))
        out.append((s2, UNIT))
    return out


@m("ndarray", "sum", "product", "mean")
def nd_sum(ex, st, f, a, ctx):
    v = arr(ex, st, a[0])
    if v is None or f["name"] != "sum":
        return None
    return REG[("core", "sum")](ex, st, f, [It(("elems", borrow(v)), ZERO)], ctx)


def dot_term(ex, st, va, vb):
    n = va.axes[0][1]
    q = T.qname(mk("dot", va, vb), ())
    f = st.facts.add_ge(n - L(q) - 1)
    if f is None:
        return F0
    return T.mksum(q, ZERO, n, T.mul(read(va, (L(q),), f), read(vb, (L(q),), f)), st.facts)


def req_eq(ex, st, x, y, what):
    return ex.require_eq(st, x, y, "shape", what)


@m("ndarray", "dot")
def nd_dot(ex, st, f, a, ctx):
    v, w = arr(ex, st, a[0]), arr(ex, st, a[1])
    if v is None or w is None:
        return None
    s = req_eq(ex, st, v.dims[-1], w.dims[0], f"dot: {v.dims} x {w.dims}")
    if s is None:
        return []
    ex.bulk_read(s, v)
    ex.bulk_read(s, w)
    if len(v.axes) == 1 and len(w.axes) == 1:
        va, vb = ArrNode(s, v), ArrNode(s, w)
        n = v.dims[0]
        q = T.qname(mk("dot", va, vb), ())
        fx = s.facts.add_ge(n - L(q) - 1)
        if fx is None:
            return [(s, F0)]
        t = T.mul(read(va, (L(q),), fx), read(vb, (L(q),), fx))
        return [(s, T.mksum(q, ZERO, n, t, s.facts))]
    dims = v.dims[:-1] + w.dims[1:]
    return [(s, ex.new_arr(s, dims, mk("mm", vnode(s, v), vnode(s, w)), "dot"))]


def ArrNode(st, v):
    return vnode(st, v)


@m("ndarray", "general_mat_mul", "general_mat_vec_mul")
def nd_gemm(ex, st, f, a, ctx):
    al = ex.as_float(st, ex.val(st, a[0]))
    A, B, C = arr(ex, st, a[1]), arr(ex, st, a[2]), arr(ex, st, a[4])
    be = ex.as_float(st, ex.val(st, a[3]))
    if A is None or B is None or C is None:
        return None
    s = req_eq(ex, st, A.dims[-1], B.dims[0], f"mat mul {A.dims} x {B.dims}")
    for x, y in zip(C.dims, A.dims[:-1] + B.dims[1:]):
        if s is not None:
            s = req_eq(ex, s, x, y, "mat mul output shape")
    if s is None:
        return []
    for x in (A, B, C):
        ex.bulk_read(s, x)
    mmn = mk("mm", vnode(s, A), vnode(s, B))
    cn = vnode(s, C)

    def val(idx, fx):
        r = T.mul(al, read(mmn, idx, fx))
        if T.is_c(be, 0):
            return r
        return T.add(r, T.mul(be, read(cn, idx, fx)))

    vs, idx, fx = ex.bulk_vars(s, C)
    gm = mk("gemm", al, vnode(s, A), vnode(s, B), be, cn)
    ex.bulk_write(s, C, val)
    ex.ev("gemm", s, (C.obj, gm, s.heap[C.obj]), "gemm")
    return [(s, UNIT)]
