"""C13: the iterative singular value decomposition.

The iteration consists of a step and of a helper that delimits the next block (deflation).  The
helper is analysed by itself, for arbitrary arguments; in the analysis of the whole operation its
calls are replaced by what it may change, so that one iteration has a closed form.  Obligations:
U B Vt is the same before and after the helper, before and after one step, and the result is
U S Vt with the scaling undone and S non-negative."""
from .p_iter import *
from .lin import fresh as fresh_int


def split_args(ex, st, args):
    """roles of the arguments of the delimiting helper: (arrays by rank, flags, indices, numbers)"""
    one, two, flags, ints, nums = [], [], [], [], []
    for x in args:
        v = ex.val(st, x)
        if isinstance(v, Agg) and v.key == OPTION:
            v = ex.val(st, v.f[0]) if v.variant == 1 else None
            two.append(v)
        elif isinstance(v, ArrV):
            (one if len(v.axes) == 1 else two).append(v)
        elif isinstance(v, bool) or is_bool(v):
            flags.append(v)
        elif isinstance(v, Lin):
            ints.append(v)
        elif is_float(v):
            nums.append(v)
        else:
            return None
    if len(one) != 2 or len(two) != 2 or len(flags) != 1 or len(ints) != 1 or len(nums) != 1:
        return None
    return one, two, flags[0], ints[0], nums[0]


def is_opt2(P, t):
    t = P.types[t]
    return t["k"] == "adt" and t["p"].endswith("option::Option") and P.ndim(t["a"][0]) == 2


def delimiters(P):
    """functions that get a diagonal, an off-diagonal and both optional factors and return two indices"""
    out = []
    for k, fn in P.fns.items():
        n = fn.body.nargs if hasattr(fn.body, "nargs") else None
        lt = fn.body.locals
        r = P.types[lt[0]]
        if r["k"] != "tuple" or len(r["a"]) != 2 or any(P.types[x].get("n") != "usize" for x in r["a"]):
            continue
        ar = [P.types[x] for x in lt[1:(n or 0) + 1]]
        v1 = [x for x in ar if x["k"] == "ref" and P.ndim(x["t"]) == 1]
        v2 = [x for x in ar if x["k"] == "ref" and is_opt2(P, x["t"])]
        if len(v1) == 2 and len(v2) == 2:
            out.append(k)
    return out


def whole(v):
    """an array value that is a whole array"""
    return isinstance(v, ArrV)


def delim_stub(calls):
    def stub(ex, st, f, args):
        a = split_args(ex, st, args)
        if a is None:
            return None
        one, two, flag, end, eps = a
        s = st.copy()
        pre = {}
        nm = T.uid("dl")
        for i, v in enumerate(one + two):
            if v is None:
                continue
            if any(s.facts.canon(x) != s.facts.canon(Lin(7 + k)) for k, x in enumerate(v.index(tuple(Lin(7 + k) for k in range(len(v.axes)))))):
                return None
            pre[i] = s.heap[v.obj]
            s.heap[v.obj] = mk("fresh", f"{nm}.{i}", len(v.axes))
        lo, hi = L(fresh_int("ds")), L(fresh_int("de"))
        g = s.facts.add_ge(hi - lo)
        g = g.add_ge(end - hi) if g is not None else None
        if g is None:
            return []
        s.facts = g
        calls[nm] = dict(key=f["key"], pre=pre, objs=[v and v.obj for v in one + two], flag=flag, end=end, eps=eps, lo=lo, hi=hi,
                         facts=st.facts, notes=st.notes, dims=[v and v.dims for v in one + two])
        return [(s, tup(lo, hi))]
    return stub


def svd_run(P, stats, name):
    memo = P.__dict__.setdefault("svd_runs", {})
    if name not in memo:
        calls = {}
        R = Run(P, E[name], jv=False, real=True, quick=False)
        for k in delimiters(P):
            R.ex.stubs[k] = delim_stub(calls)
        bidiag_stubs(R)
        R.go()
        R.calls = calls
        memo[name] = R
    note_functions(memo[name], stats)
    return memo[name]


def bidiag_stubs(R):
    """the bidiagonalization (C11) by its contract: U B Vt of the argument, B upper when it is tall"""
    ex, P = R.ex, R.P
    adt = R.adt("BidiagonalDecomp")

    def bidiagonal(ex, st, f, args):
        a = ex.val(st, args[0])
        if not isinstance(a, ArrV) or len(a.axes) != 2:
            return None
        r, c = a.dims
        if not (st.facts.ent_ge(r - 1) and st.facts.ent_ge(c - 1)):
            return None
        out = []
        for s, up in zip(ex.split(st.copy(), cge(r - c)), (True, False)):
            if s is not None:
                s.notes = s.notes + (("bd", s.heap[a.obj], a),)
                out.append((s, ok(Agg("adt", adt, 0, (Opq("bd"),) * len(P.adts[adt]["v"][0].get("f", ()))))))
        return out

    def dims(ex, st):
        n = [x for x in st.notes if x[0] == "bd"]
        if len(n) != 1:
            return None
        r, c = n[0][2].dims
        up = st.facts.ent_ge(r - c)
        return (r, c, c if up else r, up)

    def method(name, make):
        def stub(ex, st, f, args):
            d = dims(ex, st)
            return None if d is None else [(s, make(ex, s, *d)) for s in [st.copy()]]
        for k in P.find_method("BidiagonalDecomp", name):
            ex.stubs[k] = stub

    def arr(ex, s, nm, *d):
        return ex.new_arr(s, d, mk("fresh", nm, len(d)), nm)
    ex.stubs[R.trait("Bidiagonal", "bidiagonal")] = bidiagonal
    method("is_upper_diag", lambda ex, s, r, c, k, up: up)
    method("generate_u", lambda ex, s, r, c, k, up: arr(ex, s, "bd.U", r, k))
    method("generate_vt", lambda ex, s, r, c, k, up: arr(ex, s, "bd.V", k, c))
    method("into_diagonals", lambda ex, s, r, c, k, up: tup(arr(ex, s, "bd.D", k), arr(ex, s, "bd.F", k - 1)))


# ---------------------------------------------------------------- the represented matrix
def bidiag(d, f, up):
    n = len(d)
    b = [[0.0] * n for _ in range(n)]
    for i in range(n):
        b[i][i] = d[i]
        if i + 1 < n:
            if up:
                b[i][i + 1] = f[i]
            else:
                b[i + 1][i] = f[i]
    return b


def represented(d, f, up, u, v):
    """what the carried arrays determine, whichever factors are kept"""
    b = bidiag(d, f, up)
    if u is not None and v is not None:
        return mm(mm(u, b), v)
    if u is not None:
        return mm(mm(u, mm(b, tr(b))), tr(u))
    if v is not None:
        return mm(mm(tr(v), mm(tr(b), b)), v)
    t = mm(tr(b), b)
    w = powers(t)
    return [[x / (1.0 + w[0]) ** i for i, x in enumerate(w)]]


def unorth(u, v, tol=1e-7):
    if u is not None and differ(mm(tr(u), u), eye(len(u[0])), tol):
        return "the columns of U do not stay orthonormal"
    if v is not None and differ(mm(v, tr(v)), eye(len(v)), tol):
        return "the rows of Vt do not stay orthonormal"
    return None


SK = ("generic", "zeros", "smalld", "zerod", "smallf", "equal", "graded", "near")


def bd_atoms(key, n, kind, lo, hi, eps, clean):
    """diagonal and off-diagonal entries; nothing beyond hi and before lo coupled"""
    d = [rnd(key, "d", i) * 0.4 for i in range(n)]
    f = [rnd(key, "f", i) * 0.4 for i in range(max(n - 1, 0))]
    pick = lambda t, i, p=0.5: h01(key, t, i) < p
    if kind == "zeros":
        f = [0.0 if pick("z", i) else x for i, x in enumerate(f)]
        d = [0.0 if pick("y", i, 0.3) else x for i, x in enumerate(d)]
    elif kind == "smalld":
        d = [x * eps if pick("y", i) else x for i, x in enumerate(d)]
    elif kind == "zerod":
        d = [0.0 if pick("y", i) else x for i, x in enumerate(d)]
    elif kind == "smallf":
        f = [x * eps * 0.1 if pick("z", i) else x for i, x in enumerate(f)]
    elif kind == "equal":
        d = [0.5] * n
    elif kind == "graded":
        d = [math.copysign(10.0 ** (-3 * h01(key, "gd", i)), x) for i, x in enumerate(d)]
        f = [math.copysign(10.0 ** (-9 * h01(key, "gf", i)), x) for i, x in enumerate(f)]
    elif kind == "near":
        f = [math.copysign(2.5 * eps * 16.0 ** (2 * h01(key, "gf", i)), x) for i, x in enumerate(f)]
    if clean:
        for i in range(lo, min(hi + 1, n)):
            if abs(d[i]) <= 1.01 * eps:
                d[i] = 0.3 + 0.3 * h01(key, "r", i)
        for i in range(lo, hi):
            if f[i] == 0.0:
                f[i] = 0.3 + 0.3 * h01(key, "q", i)
    for i in range(hi, n - 1):
        f[i] = 0.0
    if 0 < lo <= n - 1:
        f[lo - 1] = 0.0
    return d, f


# ---------------------------------------------------------------- the delimiting helper
def delim_entry(P, k, uf, vf, flag, arrange):
    """the helper on arbitrary arguments; arrange gives the roles of its parameters"""
    def f(R, st):
        N_ = L(declare("N"))
        end = L(declare("end"))
        dg, of = R.vec(st, "D", N_), R.vec(st, "F", N_ - 1)
        st.facts = st.facts.add_ge(N_ - 1).add_ge(N_ - 1 - end)
        u = R.mat(st, "U", "Ur", N_) if uf else None
        v = R.mat(st, "V", N_, "Vc") if vf else None
        o = lambda x: Agg("adt", OPTION, 1, (x,)) if x is not None else Agg("adt", OPTION, 0, ())
        vals = {"d": dg, "f": of, "u": o(u), "v": o(v), "flag": flag, "end": end, "eps": mk("fconst", "epsilon")}
        return R.call(st, k, [vals[r] for r in arrange])
    return Entry(f"delimit.{int(uf)}{int(vf)}{int(flag)}", f)


def arrangement(P, k):
    """parameter roles in order (None: not the expected kinds)"""
    lt = P.fns[k].body.locals
    out, one, two = [], 0, 0
    for x in lt[1:P.fns[k].body.nargs + 1]:
        t = P.types[x]
        if t["k"] == "ref" and P.ndim(t["t"]) == 1:
            out.append("df"[one] if one < 2 else "?")
            one += 1
        elif t["k"] == "ref" and is_opt2(P, t["t"]):
            out.append("uv"[two] if two < 2 else "?")
            two += 1
        elif t.get("n") == "bool":
            out.append("flag")
        elif t.get("n") == "usize":
            out.append("end")
        elif t["k"] == "param":
            out.append("eps")
        else:
            out.append("?")
    return out if sorted(out) == sorted(["d", "f", "u", "v", "flag", "end", "eps"]) else None


def delim_run(P, k, uf, vf, flag, stats):
    memo = P.__dict__.setdefault("delim_runs", {})
    if (k, uf, vf, flag) not in memo:
        R = Run(P, delim_entry(P, k, uf, vf, flag, arrangement(P, k)), jv=False, real=True, quick=False)
        R.go()
        memo[k, uf, vf, flag] = R
    note_functions(memo[k, uf, vf, flag], stats)
    return memo[k, uf, vf, flag]


def delim_point(eps):
    def make(*a, **k):
        p = XPoint(*a, **k)
        p.eps = eps
        return p
    return make


def delim_check(P, k, stats, uf, vf, flag, up, maxn):
    t = Tally()
    R = delim_run(P, k, uf, vf, flag, stats)
    for n in range(1, maxn + 1):
        for end in range(n):
            for kind in SK:
                for sd in range(2 if kind in ("smalld", "zerod", "zeros") else 1):
                    eps = 2.0 ** -24 if sd == 0 else 2.0 ** -12
                    key = (n, end, kind, sd)
                    d, f = bd_atoms(key, n, kind, 0, end, eps, False)
                    u0 = orth(("u",) + key, n, n + 1) if uf else None
                    v0 = tr(orth(("v",) + key, n, n + 1)) if vf else None
                    arr = {"D": lambda ix: d[ix[0]], "F": lambda ix: f[ix[0]]}
                    ints = {"N": n, "end": end}
                    if uf:
                        arr["U"] = lambda ix: u0[ix[0]][ix[1]]
                        ints["Ur"] = n + 1
                    if vf:
                        arr["V"] = lambda ix: v0[ix[0]][ix[1]]
                        ints["Vc"] = n + 1

                    def take(R, s, p, v):
                        s1, e1 = (p.int(x) for x in R.ex.val(s, v).f)
                        rd = lambda nm: matrix(R, s, p, R.inp[nm])
                        return s1, e1, rd("D"), rd("F"), rd("U") if uf else None, rd("V") if vf else None
                    try:
                        rs = results(R, key, ints, arr, take, delim_point(eps))
                    except Undefined as e:
                        rs = None
                    if not rs:
                        t.und.setdefault("the helper has no closed form at some points", 1)
                        continue
                    m0 = represented(d, f, up, u0, v0)
                    tol = 1e-7 + 20 * n * eps
                    for (s1, e1, d1, f1, u1, v1), s in rs:
                        why = unorth(u1, v1)
                        if why is None and differ(m0, represented(d1, f1, up, u1, v1), tol):
                            why = "deflation does not apply the same rotations to the values and the factors"
                        if why is None and not 0 <= s1 <= e1 <= end:
                            why = f"block {s1}..{e1} outside 0..{end}"
                        if why is None and any(abs(f1[i]) > eps for i in range(e1 if s1 != e1 else 0, end)):
                            why = "a coupled part is left outside the delimited block"
                        if why is None and s1 > 0 and abs(f1[s1 - 1]) > eps:
                            why = "the block starts where the off-diagonal entry is not negligible"
                        if why is None:
                            t.good += 1
                        elif t.bad is None:
                            t.bad = (why, [f"n={n} end={end} ({kind})", f"under {facts_text(s.facts)}"])
    return t


def sense(P, k, stats):
    """does the flag mean that the bidiagonal matrix is upper triangular (None: neither reading holds)"""
    memo = P.__dict__.setdefault("delim_sense", {})
    if k not in memo:
        good = {}
        for up in (True, False):
            a = [delim_check(P, k, stats, True, True, fl, fl == up, 3) for fl in (True, False)]
            good[up] = a
        memo[k] = next((up for up in (True, False) if all(t.bad is None and t.good for t in good[up])), None), good
    return memo[k]


def c13_delim(flags, maxn):
    rule = "deflation keeps the represented matrix"

    def run(P, stats):
        ks = [k for k in delimiters(P) if arrangement(P, k)]
        if not ks:
            return [Verdict("undetermined", rule, "deflation", "no delimiting helper found", "deflation")]
        out = []
        for k in ks:
            up, tried = sense(P, k, stats)
            for uf, vf in flags:
                for fl in (True, False):
                    nm = f"{k}({'U' if uf else '-'},{'Vt' if vf else '-'},{fl})"
                    if up is None:
                        t = max((x for x in tried[True] if x.bad), key=lambda x: x.good, default=Tally())
                    else:
                        t = delim_check(P, k, stats, uf, vf, fl, fl == up, maxn)
                    out += report(t, rule, nm)
        return out
    return run


# ---------------------------------------------------------------- one step
def svd_want(c):
    """(diagonal, off-diagonal, row symbol of the smaller side, orientation upper)"""
    f = c.hs.facts
    out = []
    for sym, other in (("Ac", "Ar"), ("Ar", "Ac")):
        if not f.ent_ge(L(other) - L(sym)):
            continue
        ds = [o for o in c.of_rank(1) if same_dim(c, o, sym, 0)]
        os_ = [o for o in c.of_rank(1) if same_dim(c, o, sym, -1)]
        if ds and os_:
            out += [(d, o, sym) for d in ds for o in os_ if d != o]
            break
    return out if c.ints else None


def svd_up(c):
    return c.hs.facts.ent_ge(L("Ar") - L("Ac"))


def svd_shapes(c, big):
    """argument shapes the loop is entered for"""
    for k in big:
        for r, cc in ((k, k), (k + 1, k), (k, k + 1)):
            f = c.hs.facts.add_eq(L("Ar") - r)
            if f is not None and f.add_eq(L("Ac") - cc) is not None:
                yield k, r, cc


def as_dict(a):
    """reader of a nested list"""
    def get(ix):
        x = a
        for i in ix:
            if not 0 <= i < len(x):
                raise Undefined()
            x = x[i]
        return x
    return get


def call_of(R, c):
    """the helper call a content comes from: (call, position)"""
    if c.op == "fresh" and "." in c.a[0]:
        nm, i = c.a[0].rsplit(".", 1)
        if nm in R.calls and i.isdigit():
            return R.calls[nm], int(i)
    return None, None


def c13_step(name, big):
    rule = "one iteration keeps the represented matrix"
    uf, vf = name[-2] == "1", name[-1] == "1"

    def run(P, stats):
        R = svd_run(P, stats, name)
        found = carries(R, svd_want)
        if not found:
            return [Verdict("undetermined", rule, name, "no iteration over a diagonal and an off-diagonal found", name)]
        out = []
        for c, trip in found:
            two = c.of_rank(2)
            us = [o for o in two if same_dim(c, o, "Ar", 0) and same_dim(c, o, trip[0][2], 0, 1)] if uf else [None]
            vs = [o for o in two if same_dim(c, o, trip[0][2], 0) and same_dim(c, o, "Ac", 0, 1)] if vf else [None]
            syms = sorted(c.ints)
            cand = [(d, o, u, v, a, b) for d, o, _ in trip for u in us for v in vs if u is None or u != v
                    for a in syms for b in syms if a != b]
            if c.other or not cand:
                out.append(Verdict("undetermined", rule, name, "the iteration carries something else", name))
                continue
            best = None
            for role in [(True,) + x for x in cand] + [(False,) + x for x in cand]:
                t = svd_role(R, c, role, big, stats)
                if t.bad is None and t.good:
                    best = t
                    break
                if best is None or t.good > best.good:
                    best = t
            out += report(best, rule, name)
            if not best.good and not best.bad and not best.und:
                if any(True for _ in svd_shapes(c, big)):
                    out.append(Verdict("undetermined", rule, name, "no iteration with a closed form", name))
        return out
    return run


def svd_role(R, c, role, big, stats):
    clean, dg, of, uo, vo, lo, hi = role
    t = Tally()
    up = svd_up(c)
    for k, r, cc in svd_shapes(c, big):
        dims = {"Ar": r, "Ac": cc}
        for place in c.places(dims):
            l, h = place[lo], place[hi]
            if not 0 <= l < h < k:
                continue
            for kind in SK:
                for eps in (2.0 ** -24, 2.0 ** -50 if kind in ("near", "graded") else 2.0 ** -12):
                    key = (k, kind, l, h)
                    d, f = bd_atoms(key, k, kind, l, h, eps, clean)
                    u = orth(("u",) + key, k, r) if uo is not None else None
                    v = tr(orth(("v",) + key, k, cc)) if vo is not None else None
                    arrays = {c.arr[dg][0]: as_dict(d), c.arr[of][0]: as_dict(f)}
                    if u is not None:
                        arrays[c.arr[uo][0]] = as_dict(u)
                    if v is not None:
                        arrays[c.arr[vo][0]] = as_dict(v)
                    m0 = represented(d, f, up, u, v)
                    tol = 1e-10 + 20 * k * eps
                    try:
                        for p, s in c.steps(dims, place, arrays, eps):
                            why = step_why(R, c, p, s, (dg, of, uo, vo, lo, hi), (k, r, cc), m0, up, tol, eps, stats)
                            if why is None:
                                t.good += 1
                            elif t.bad is None:
                                t.bad = (why, [f"shape {r}x{cc}, block {l}..{h} ({kind}, {eps:g})", f"under {facts_text(s.facts)}"])
                    except (Unknown, Undefined) as e:
                        t.und.setdefault(f"step without a closed form ({e})", 1)
    return t


def step_why(R, c, p, s, role, dims, m0, up, tol, eps, stats):
    dg, of, uo, vo, lo, hi = role
    k, r, cc = dims
    call, why, cont = None, None, {}
    for i, o in enumerate((dg, of, uo, vo)):
        if o is None:
            continue
        cl, pos = call_of(R, s.heap[o])
        if cl is not None and pos == i and cl["objs"][i] == o:
            if call is not None and call is not cl:
                raise Unknown("several deflations in one step")
            call = cl
            cont[i] = cl["pre"][i]
        else:
            cont[i] = s.heap[o]
    if call is not None:
        if any(call["objs"][i] is not None and call["objs"][i] != o for i, o in enumerate((dg, of, uo, vo))):
            return "the deflation gets other arrays than the step"
        for o, i in ((uo, 2), (vo, 3)):
            if o is not None and call["objs"][i] is None:
                return "the deflation gets no factor to update"
        sg, _ = sense(R.P, call["key"], stats)
        fl = call["flag"]
        if isinstance(fl, N):
            fl = p.b(fl)
        if not isinstance(fl, bool):
            raise Unknown("orientation flag")
        if sg is not None and (fl == sg) != up:
            return "the deflation is told the other orientation"
    rd = lambda i, n: [p.read(cont[i], (x,)) for x in range(n)]
    r2 = lambda i, n, m: [[p.read(cont[i], (x, y)) for y in range(m)] for x in range(n)]
    d1, f1 = rd(0, k), rd(1, k - 1)
    u1 = r2(2, r, k) if uo is not None else None
    v1 = r2(3, k, cc) if vo is not None else None
    if any(x != x for x in d1 + f1):
        raise Unknown("not a number")
    why = unorth(u1, v1)
    m = 1.0 + scale([d1])
    if why is None and differ(m0, represented(d1, f1, up, u1, v1), tol):
        why = "values and factors are not transformed by the same rotations"
    e1 = p.int(call["end"]) if call is not None else c.int_at(p, s, hi)
    if why is None and any(abs(f1[i]) > tol * m for i in range(e1, k - 1)):
        why = "a coupled part is left outside the next block"
    if call is not None and why is None:
        for sym, w in ((lo, call["lo"]), (hi, call["hi"])):
            path = c.ints[sym]
            x = at_path(s.frames[path[0]][path[1]], path[2:])
            if not isinstance(x, Lin) or not s.facts.ent_eq(x - w):
                why = "the next block is not the one the deflation returned"
    elif why is None:
        l1 = c.int_at(p, s, lo)
        if l1 > 0 and abs(f1[l1 - 1]) > tol * m:
            why = "the next block starts where the off-diagonal entry is not negligible"
        elif l1 == e1 and any(abs(x) > tol * m for x in f1):
            why = "the iteration ends with coupled parts"
    return why


# ---------------------------------------------------------------- entry and exit
def svd_names(R):
    """names of the contents that hold the diagonal, off-diagonal and factors: position -> names"""
    out = {0: set(), 1: set(), 2: set(), 3: set()}
    for nm, cl in R.calls.items():
        for i in cl["pre"]:
            out[i].add(f"{nm}.{i}")
    obj = {}
    for cl in R.calls.values():
        for i, o in enumerate(cl["objs"]):
            if o is not None:
                obj[o] = i
    loops = []
    for c, _ in carries(R, svd_want):
        loops.append(c)
        for o, (nm, _) in c.arr.items():
            if o in obj:
                out[obj[o]].add(nm)
    return out, loops


def c13_ends(name, sizes):
    """the factors the iteration starts from, and what is returned when it ends"""
    uf, vf = name[-2] == "1", name[-1] == "1"
    r1, r2 = "the iteration starts from the bidiagonalization", "U S Vt with S non-negative is returned"

    def run(P, stats):
        R = svd_run(P, stats, name)
        names, loops = svd_names(R)
        ks = [k for k in delimiters(P) if arrangement(P, k)]
        if not R.calls or not loops or not ks:
            return [Verdict("undetermined", r1, name, "no iteration found", name)]
        begun = {c.a[0].rsplit(".", 1)[0] for x in loops for c in x.rec.entry.heap.values() if call_of(R, c)[0]}
        first = [cl for nm, cl in sorted(R.calls.items()) if nm in begun]
        t1, t2 = Tally(), Tally()
        for k in sizes:
            for r, cc in ((k, k), (k + 1, k), (k, k + 1), (k + 2, k), (k, k + 2)):
                for kind in ("generic", "zeros", "grid", "shift"):
                    start_at(R, P, stats, first, (k, r, cc), kind, uf, vf, t1)
                    for sd in range(3):
                        end_at(R, loops, names, first, (k, r, cc), kind, sd, uf, vf, t2)
        return report(t1, r1, name) + report(t2, r2, name)
    return run


def bd_arrays(key, dims, kind, uf, vf):
    k, r, cc = dims
    d, f = bd_atoms(key, k, kind if kind not in ("grid", "shift") else "generic", 0, k - 1, 2.0 ** -20, False)
    up = r >= cc
    u, v = orth(("u",) + key, k, r), tr(orth(("v",) + key, k, cc))
    if kind == "shift":  # exchanged rows or columns: nothing on the diagonal for three and more
        u = [[1.0 if i == (j - 1 if up else j) % k else 0.0 for j in range(k)] for i in range(r)]
        v = [[1.0 if j == (i if up else i - 1) % k else 0.0 for j in range(cc)] for i in range(k)]
    a = mm(mm(u, bidiag(d, f, up)), v)
    if kind == "grid":
        d, f = [3 * x for x in d], [3 * x for x in f]
        a = [[3 * x for x in y] for y in a]
    return {"bd.D": as_dict(d), "bd.F": as_dict(f), "bd.U": as_dict(u), "bd.V": as_dict(v)}, d, f, u, v, a


def start_at(R, P, stats, first, dims, kind, uf, vf, t):
    k, r, cc = dims
    key = ("start", k, r, cc, kind)
    arrays, d, f, u, v, a = bd_arrays(key, dims, kind, uf, vf)
    arrays["A"] = as_dict(a)
    for cl in first:
        g = cl["facts"]
        for s_, x in (("Ar", r), ("Ac", cc)):
            g = g.add_eq(L(s_) - x) if g is not None else None
        if g is None:
            continue
        p = TPoint(("s",), g, R.ex, False, {}, ints={"Ar": r, "Ac": cc})
        p.arrays, p.eps, p.watch = arrays, 2.0 ** -20, []
        try:
            if not holds_at(p, g):
                continue
            d1 = [p.read(cl["pre"][0], (i,)) for i in range(k)]
            f1 = [p.read(cl["pre"][1], (i,)) for i in range(k - 1)]
            c = ratio(d1 + f1, d + f)
            n0 = scaled(p, cl, (r, cc), a)
            why = None
            if c is None or c <= 0:
                why = "the values the iteration starts from are not those of the bidiagonalization"
            for i, w, n, m, on in ((2, u, r, k, uf), (3, v, k, cc, vf)):
                if why is None and on:
                    if i not in cl["pre"]:
                        why = "a requested factor is not passed on"
                    elif differ([[p.read(cl["pre"][i], (x, y)) for y in range(m)] for x in range(n)], w, 1e-9):
                        why = "a factor the iteration starts from is not that of the bidiagonalization"
            if why is None and (n0 is None or n0 <= 0):
                why = "another matrix than the argument (or a multiple of it) is bidiagonalized"
            if why is None and p.int(cl["end"]) != k - 1:
                why = "the first deflation does not cover the whole matrix"
            sg, _ = sense(P, cl["key"], stats)
            fl = p.b(cl["flag"]) if isinstance(cl["flag"], N) else cl["flag"]
            if why is None and sg is not None and isinstance(fl, bool) and (fl == sg) != (r >= cc):
                why = "the first deflation is told the other orientation"
            if why is None:
                t.good += 1
            elif t.bad is None:
                t.bad = (why, [f"shape {r}x{cc} ({kind})", f"under {facts_text(cl['facts'])}"])
        except Infeasible:
            continue
        except (Unknown, Undefined) as e:
            t.und.setdefault(f"start without a closed form ({e})", 1)


def scaled(p, cl, dims, a):
    """how much the bidiagonalized matrix is the argument scaled by"""
    b = [x for x in cl["notes"] if x[0] == "bd"]
    if len(b) != 1:
        raise Unknown("bidiagonalization")
    v = b[0][2]
    m = [[p.read(b[0][1], tuple(p.int(z) for z in v.index((Lin(i), Lin(j))))) for j in range(dims[1])] for i in range(dims[0])]
    return ratio([x for y in m for x in y], [x for y in a for x in y])


def ratio(a, b):
    """c with a = c b (None: no such number)"""
    i = max(range(len(b)), key=lambda i: abs(b[i]), default=None)
    if i is None or b[i] == 0:
        return 1.0 if all(x == 0 for x in a) else None
    c = a[i] / b[i]
    m = scale([a]) + 1e-300
    return c if all(abs(x - c * y) <= 1e-9 * m for x, y in zip(a, b)) else None


def end_at(R, loops, names, first, dims, kind, sd, uf, vf, t):
    k, r, cc = dims
    key = ("end", k, r, cc, kind, sd)
    arrays, d, f, u, v, a = bd_arrays(key, dims, kind, uf, vf)
    arrays["A"] = as_dict(a)
    d2 = [rnd(key, "e", i) for i in range(k)]
    if sd == 1:
        d2 = [0.0 if h01(key, "z", i) < 0.5 else x for i, x in enumerate(d2)]
    if not scale(a):
        d2 = [0.0] * k
    u2, v2 = orth(("u2",) + key, k, r), tr(orth(("v2",) + key, k, cc))
    for i, w in enumerate((as_dict(d2), lambda ix: 0.0, as_dict(u2), as_dict(v2))):
        for nm in names[i]:
            arrays[nm] = w
    c = None
    for cl in first:  # the scale the iteration works at
        try:
            g = cl["facts"].add_eq(L("Ar") - r)
            g = g.add_eq(L("Ac") - cc) if g is not None else None
            if g is None:
                continue
            p = TPoint(("s",), g, R.ex, False, {}, ints={"Ar": r, "Ac": cc})
            p.arrays, p.eps, p.watch = arrays, 2.0 ** -20, []
            if holds_at(p, g):
                c = ratio([p.read(cl["pre"][0], (i,)) for i in range(k)], d)
                n0 = scaled(p, cl, (r, cc), a)
                c = c * n0 if c and n0 else None
                break
        except (Unknown, Undefined):
            continue
    fixed = {c_.rec.kap: 1 for c_ in loops}
    for c_ in loops:
        fixed.update({s_: 0 for s_ in c_.ints})
    inner = {x.kap for c_ in loops for x in c_.inner} | set(fixed)
    hit = False
    for s, val in R.res:
        ints = {"Ar": r, "Ac": cc}
        g = s.facts
        syms = fact_syms(g)
        for q, x in list(ints.items()) + [(q, x) for q, x in fixed.items() if q in syms]:
            g = g.add_eq(L(q) - x) if g is not None else None
        for cl in R.calls.values():
            for q in (cl["lo"], cl["hi"]):
                if g is not None and all(z in syms for z in q.allsyms()):
                    h = g.add_eq(q)
                    g = h if h is not None else g
        if g is None:
            continue
        script, n = [], 0
        while script is not None and n < 64:
            n += 1
            p = TPoint(("e",), g, R.ex, False, {}, ints=dict(ints, **{q: x for q, x in fixed.items()}))
            p.arrays, p.eps, p.script = arrays, 2.0 ** -20, script
            p.watch = [x for x in R.ex.loops if x.kap not in inner]
            try:
                if holds_at(p, g) and p.passed(g):
                    if s.taint:
                        raise Unknown(taint_text(s.taint))
                    why = returned(R, s, p, val, dims, uf, vf, c, d2, u2, v2, a)
                    hit = True
                    if why is None:
                        t.good += 1
                    elif t.bad is None:
                        t.bad = (why, [f"shape {r}x{cc} ({kind})", f"under {facts_text(s.facts)}"])
                    break
            except Infeasible:
                pass
            except (Unknown, Undefined) as e:
                t.und.setdefault(f"return without a closed form ({e})", 1)
            script = p.next_script()
    if not hit:
        t.und.setdefault("no return state at some points", 1)


def returned(R, s, p, val, dims, uf, vf, c, d2, u2, v2, a):
    k, r, cc = dims
    x, e = okval(R, s, val)
    if e is not None:
        return f"{e} after the iteration ended"
    x = R.ex.val(s, x)
    part = [R.ex.val(s, y) for y in x.f]
    opt = lambda o, on, what: (matrix(R, s, p, o.f[0]) if is_agg(o, OPTION, 1) else None)
    for o, on in ((part[0], uf), (part[2], vf)):
        if not is_agg(o, OPTION):
            raise Unknown("factor")
        if is_agg(o, OPTION, 1) != on:
            return "a factor is missing or not asked for"
    w = matrix(R, s, p, part[1])
    u1, v1 = opt(part[0], uf, "U"), opt(part[2], vf, "Vt")
    if len(w) != k:
        return "not one value per smaller dimension"
    if any(y < 0 for y in w):
        return "a negative singular value is returned"
    if c is None:
        raise Unknown("scale of the iteration")
    ref = bidiag([y / c for y in d2], [0.0] * (k - 1), True)
    m = scale([w]) + scale(ref)
    if u1 is not None and v1 is not None:
        m1, m0 = mm(mm(u1, bidiag(w, [0.0] * (k - 1), True)), v1), mm(mm(u2, ref), v2)
        if any(abs(y - z) > 1e-9 * m for q, q2 in zip(m0, m1) for y, z in zip(q, q2)):
            return "U S Vt is not the represented matrix at the end (signs or scaling)"
    elif any(abs(y - z) > 1e-9 * m for y, z in zip(sorted(w), sorted(abs(ref[i][i]) for i in range(k)))):
        return "the values are not the absolute values at the end of the iteration, unscaled"
    return unorth(u1, v1)


def c13_jobs(t):
    J = []
    for fl in ("00", "01", "10", "11"):
        n = f"svd_into.{fl}"
        uv = (fl[0] == "1", fl[1] == "1")
        J.append(vjob(f"{n}.deflation", c13_delim([uv], 4 if t == "quick" else 5), 5))
        J.append(vjob(f"{n}.step", c13_step(n, (2, 3, 4) if t == "quick" else (2, 3, 4, 5)), 60))
        J.append(vjob(f"{n}.ends", c13_ends(n, (1, 2, 3)), 60))
    return J


spec(
    "C13",
    jobs=c13_jobs,
    rule="closed form of one iteration of the singular value decomposition, from arbitrary carried values: U B Vt before equals U B Vt "
    "after, U and Vt stay orthonormal; the same for the deflation, for both orientations and all factor requests; the iteration "
    "starts from the bidiagonalization and returns U S Vt with S non-negative and the scaling undone",
    explain="the iteration loop of the singular value decomposition, split into the step and the deflation: each block of every size up to the "
    "bound, at generic, decoupled, zero, negligible, graded and nearly diagonal entries; the deflation is analysed on its own for "
    "arbitrary arguments and its calls are replaced by what it may change; the start and the end of the iteration separately",
    technique=TECH, assumptions=ASSUME + UASSUME + ["the bidiagonalization is correct (C11)",
                                                    "diagonal entries inside the active block are not negligible (established by the deflation)"],
)
