"""C15: variants of one operation agree; C20: results scale with the matrix."""
from .p_indep import *


# ---------------------------------------------------------------- comparing two entries
def pair_check(Ra, Rb, name, rule, dims, maxd, arrays, ea, eb, msg, seeds=(1, 2, 3), point=UPoint, mind=0, tol=1e-9):
    """two operations that must give the same data on the same arguments"""
    bad, hit, und = None, 0, 0
    for ints in all_dims(dims, maxd, mind):
        for sd in seeds:
            a = arrays((sd, False, tuple(sorted(ints.items()))), ints)
            if a is None:
                continue
            ra = results(Ra, (sd,), ints, a, ea, point)
            rb = results(Rb, (sd,), ints, a, eb, point)
            if ra is None or rb is None:
                und += 1
                continue
            ra, rb = ([x for x in r if x[0] is not None] for r in (ra, rb))
            if not ra or not rb:
                continue
            why = [same(x[0], y[0], tol) for x in ra for y in rb]
            if None in why:
                hit += 1
            elif bad is None:
                bad = (why[0], ints, ra[0][1])
    out = []
    if bad:
        out.append(Verdict("violation", rule, name, f"{msg}: {bad[0]}", name, [f"dimensions {bad[1]}", f"under {facts_text(bad[2].facts)}"]))
    if und:
        out.append(Verdict("undetermined", rule, name, f"{und} points without a closed form", name))
    if hit:
        out.append(Verdict("ok", rule, name, "", name, n=hit))
    if not out:
        out.append(Verdict("undetermined", rule, name, "no comparable return state", name))
    return out


def okflat(sub=None):
    """the Ok value (or the error) as data; sub picks a part of an Ok value"""
    def f(R, s, p, v):
        x, e = okval(R, s, v)
        if e is not None:
            return ("err", e)
        x = R.ex.val(s, x)
        return sub(R, s, p, x) if sub else flat(R, s, p, x)
    return f


def arg(nm):
    """what an in-place operation leaves in its argument (when it succeeds)"""
    def f(R, s, p, v):
        x, e = okval(R, s, v)
        return ("err", e) if e is not None else flat(R, s, p, R.inp[nm])
    return f


def lowpart(R, s, p, x):
    n = p.int(x.dims[0])
    return ("arr", (n,), [elem(R, s, p, x, (i, j)) for i in range(n) for j in range(i + 1)])


def tup_part(i):
    return lambda R, s, p, x: flat(R, s, p, x.f[i])


RULE15 = "variants give identical results"


def c15(base, variants, dims, maxd, arrays, seeds=(1, 2, 3)):
    """variants: [(entry or (name, Entry), extractor for the base, extractor for the variant)]"""
    def run(P, stats):
        bn, be = base if isinstance(base, tuple) else (base, None)
        Ra = vrun(P, stats, bn, be)
        out = []
        for v, ea, eb in variants:
            vn, ve = v if isinstance(v, tuple) else (v, None)
            Rb = vrun(P, stats, vn, ve) if vn != bn else Ra
            out += pair_check(Ra, Rb, f"{bn} / {vn}", RULE15, dims, maxd, arrays, ea, eb,
                              f"{bn} and {vn} give different results", seeds)
            out += untouched(Rb, vn)
        return out + untouched(Ra, bn)
    return run


def untouched(R, name):
    """arguments taken by shared reference keep their contents"""
    ent = R.entry
    out = []
    for k, nm in ent.intact or ():
        if k != "Ok":
            continue
        for s, v in R.res:
            a = R.inp[nm]
            if s.heap.get(a.obj) is R.seed[nm]:
                out.append(Verdict("ok", "borrowed argument unchanged", name, "", name))
            else:
                out.append(Verdict("undetermined" if s.taint else "violation", "borrowed argument unchanged", name,
                                   f"{nm} is modified", name, [facts_text(s.facts)]))
    return out


def pd_arrays(key3, ints):
    """positive definite in two of three draws, otherwise generic"""
    if key3[0] % 3 == 0:
        n = ints["Ar"]
        key = (key3[0], tuple(sorted(ints.items())))
        a = lambda ix: abs(rnd(key, "m", *sorted(ix))) + (4.0 * n if ix[0] == ix[1] and ix[0] + 1 < n else -2.0 if ix[0] == ix[1] else 0)
        return {"A": a, "B": lambda ix: rnd(key, "b", ix)}
    return spd_arrays(key3, ints)


def sort_arrays(key3, ints):
    key = (key3[0], tuple(sorted(ints.items())))
    g = lambda t: lambda ix: small(key, t, ix)
    r = lambda t: lambda ix: rnd(key, t, ix)
    vals = g("v") if key3[0] % 2 else r("v")
    return {"vals": vals, "vecs": r("w"), "U": r("u"), "Vt": r("t")}


# ---------------------------------------------------------------- eigh / svd: one common core
def reach(P, keys):
    seen, todo = set(), list(keys)
    while todo:
        k = todo.pop()
        for c in P.fns[k].callees():
            if c in P.fns and c not in seen:
                seen.add(c)
                todo.append(c)
    return seen


def closure(P, key):
    """functions reachable from one, closures included"""
    return reach(P, [key])


def tops(P, roots):
    """functions shared by all roots (themselves excluded) that are entered from outside the shared part"""
    sets = [reach(P, [r]) | {r} for r in roots]
    common = set.intersection(*sets)
    outer = set.union(*sets) - common
    return sorted(k for k in common if any(k in P.fns[o].callees() for o in outer))


def mk_value(ex, st, ty, name, dims, flags):
    """a named unknown value of a type; options are present as the flags say, in order"""
    t = ex.prog.types[ty]
    nd = ex.prog.ndim(ty)
    if nd is not None:
        return ex.new_arr(st, dims(nd), mk("fresh", name, nd), name)
    if t["k"] == "tuple":
        return tup(*[mk_value(ex, st, x, f"{name}.{i}", dims, flags) for i, x in enumerate(t["a"])])
    if t["k"] == "adt" and t["p"].endswith("option::Option"):
        return some(mk_value(ex, st, t["a"][0], name, dims, flags)) if flags.pop(0) else NONE
    raise Missing("type of the common core")


def core_stub(calls):
    def stub(ex, st, f, args):
        a = ex.val(st, args[0]) if args else None
        if not isinstance(a, ArrV) or len(a.axes) != 2:
            return None
        lt = ex.prog.fns[f["key"]].body.locals
        t = ex.prog.types[lt[0]]
        if t["k"] != "adt" or not t["p"].endswith("result::Result"):
            return None
        flags = [x for x in args[1:] if isinstance(x, bool)]
        vals = [ex.val(st, x) for x in args]
        s = st.copy()
        r = mk_value(ex, s, t["a"][0], f"core", lambda nd: tuple(a.dims[:1]) if nd == 1 else a.dims, list(flags))
        s.notes = s.notes + (("core", f["key"], vals, dict(s.heap), s.facts),)
        le = [k for k in ex.prog.adts if k.endswith("LinalgError")][0]
        return [(s, ok(r))]
    return stub


def c15_core(group, names, roots, flags_of):
    """the variants call one common function with the same data, tolerance and flags, and hand on its results"""
    def run(P, stats):
        out = []
        info = {}
        keys = tops(P, [roots(P, n) for n in names])
        rule = "variants run one common core on the same data with the same tolerance and flags"
        for n in names:
            R = Run(P, E[n], jv=False, real=True, quick=False)
            for k in keys:
                R.ex.stubs[k] = core_stub(None)
            R.go()
            note_functions(R, stats)
            info[n] = R
        ref = None
        for n in names:
            R = info[n]
            want = flags_of(n)
            good = 0
            for s, v in R.res:
                if is_agg(v, RESULT, 1):
                    continue
                f = s.facts.add_ge(L("Ar") - 1)
                f = f.add_ge(L("Ac") - 1) if f is not None else None
                if f is None:
                    continue  # empty input
                cs = [x for x in s.notes if x[0] == "core"]
                if len(cs) != 1:
                    out.append(Verdict("undetermined", rule, n, f"{len(cs)} calls of a common core", n))
                    continue
                _, key, vals, heap, cf = cs[0]
                a = vals[0]
                c = heap[a.obj]
                desc = []
                same_data = c is R.seed["A"] and all(x == y for x, y in zip(a.index((L("i?"), L("j?"))), (L("i?"), L("j?")))) \
                    and all(cf.canon(x) == cf.canon(y) for x, y in zip(a.dims, R.inp["A"].dims))
                fl = tuple(x for x in vals if isinstance(x, bool))
                fs = tuple(x for x in vals[1:] if is_float(x))
                if s.taint:
                    out.append(Verdict("undetermined", rule, n, taint_text(s.taint), n))
                    continue
                if not same_data:
                    diff = differs_somewhere(R, s, a, heap, f)
                    out.append(Verdict("violation" if diff else "undetermined", rule, n,
                                       "the common core does not get the matrix itself", n))
                    continue
                if want is not None and len(fl) == len(want) and fl != want:
                    out.append(Verdict("violation", rule, n, f"flags {fl} instead of {want} reach the common core", n))
                    continue
                sigd = (key, fs)
                if ref is None:
                    ref = (n, sigd)
                elif ref[1] != sigd:
                    out.append(Verdict("violation" if ref[1][0] == key and numbers(R, fs) != numbers(R, ref[1][1]) else "undetermined",
                                       rule, n, f"tolerance {fs} differs from {ref[1][1]} used by {ref[0]}", n))
                    continue
                # results handed on
                bad = handed_on(R, s, v)
                if bad:
                    out.append(Verdict(bad[0], "results of the common core are returned unchanged", n, bad[1], n))
                    continue
                good += 1
            if good:
                out.append(Verdict("ok", rule, n, "", n, n=good))
            out += untouched(R, n)
        return out
    return run


def numbers(R, ts):
    try:
        return [FPoint((1,), Facts(), R.ex).f(t) for t in ts]
    except (Unknown, Undefined):
        return None


def differs_somewhere(R, s, a, heap, f):
    """definitely other data than the matrix, for some small shape"""
    for ints in all_dims(["Ar", "Ac"], 3, 1):
        g = f
        for d, x in ints.items():
            g = g.add_eq(L(d) - x) if g is not None else None
        if g is None:
            continue
        p = UPoint((1,), g, R.ex, ints=dict(ints))
        p.arrays = {"A": lambda ix: rnd(("c", ix))}
        try:
            if tuple(p.int(x) for x in a.dims) != (ints["Ar"], ints["Ac"]):
                return True
            for ix in itertools.product(range(ints["Ar"]), range(ints["Ac"])):
                pos = tuple(p.int(x) for x in a.index(tuple(Lin(i) for i in ix)))
                if not close(p.read(heap[a.obj], pos), p.arrays["A"](ix)):
                    return True
        except (Unknown, Undefined):
            continue
    return False


def handed_on(R, s, v):
    """(status, text) when an array of the Ok result is not exactly one returned by the core"""
    got = []

    def walk(x):
        x = R.ex.val(s, x)
        if isinstance(x, ArrV):
            got.append(x)
        elif isinstance(x, Agg):
            for y in x.f:
                walk(y)
    walk(v)
    seen = set()
    for x in got:
        c = s.heap[x.obj]
        if c.op != "fresh" or not c.a[0].startswith("core"):
            base = c
            while base.op in ("upd", "view"):
                base = base.a[0]
            return ("violation" if base.op == "fresh" and base.a[0].startswith("core") or base.op in ("base", "const") else "undetermined",
                    "a result is not the array computed by the common core")
        seen.add(c.a[0])
    if len(seen) != len(got):
        return ("violation", "one array of the common core is returned twice")
    # in the order of the core
    order = [s.heap[x.obj].a[0] for x in got]
    if order != sorted(order):
        return ("violation", "parts of the result are exchanged")
    return None


def c15_jobs(t):
    SQ = ["Ar", "Ac"]
    AB = ["Ar", "Ac", "Br", "Bc"]
    F = okflat()
    J = []
    J.append(vjob("cholesky", c15("cholesky_into", [("cholesky", F, F), ("cholesky_inplace", F, F), ("cholesky_inplace", F, arg("A")),
                                                    ("cholesky_into_dirty", okflat(lowpart), okflat(lowpart))], SQ, 4, pd_arrays)))
    J.append(vjob("cholesky_dirty", c15("cholesky_into_dirty", [("cholesky_dirty", F, F), ("cholesky_inplace_dirty", F, F),
                                                               ("cholesky_inplace_dirty", F, arg("A"))], SQ, 4, pd_arrays)))
    J.append(vjob("solvec", c15("solvec_into", [("solvec", F, F), ("solvec_inplace", F, F), ("solvec_inplace", F, arg("B"))], AB, 3, pd_arrays)))
    J.append(vjob("invc", c15("invc_inplace", [("invc", F, F)], SQ, 4, pd_arrays)))
    for up in ("Upper", "Lower"):
        n = lambda m: f"{m}.{up}"
        J.append(vjob(n("solve_triangular"), c15(n("solve_triangular_into"), [
            (n("solve_triangular"), F, F), (n("solve_triangular_inplace"), F, F),
            (n("solve_triangular_inplace"), F, arg("B"))], AB, 3, tri_arrays)))
        J.append(vjob(n("into_triangular"), c15(n("into_triangular"), [
            (n("triangular_inplace"), F, arg("A"))], SQ, 5, tri_arrays)))
    J.append(vjob("qr", c15("qr_into", [("qr", F, F)], SQ, 4, gen_arrays(), range(8))))
    for m in ("solve", "solve_tr"):
        J.append(vjob(f"qr.{m}", c15(f"qr.{m}_into", [(f"qr.{m}", F, F)], AB, 3, gen_arrays(), range(8))))
    J.append(vjob("qr.parts", c15("qr.into_decomp", [("qr.generate_q", okflat(tup_part(0)), F), ("qr.into_r", okflat(tup_part(1)), F)],
                                  SQ, 4, gen_arrays(), range(8))))
    J.append(vjob("least_squares", c15("least_squares_into", [("least_squares", F, F)], AB, 3, gen_arrays(), range(4)), 3))
    for o, sh in (("Smallest", "asc"), ("Largest", "desc")):
        J.append(vjob(f"sort_eig_{sh}", c15(f"sort_eig.{o}", [
            (f"sort_eig_{sh}", F, F), (f"sort_eigvals.{o}", okflat(tup_part(0)), F)], ["N", "M"], 3, sort_arrays)))
        J.append(vjob(f"sort_svd_{sh}", c15(f"sort_svd.{o}.11", [
            (f"sort_svd_{sh}", F, F), (f"sort_svd.{o}.00", okflat(tup_part(1)), okflat(tup_part(1))),
            (f"sort_svd.{o}.10", okflat(tup_part(0)), okflat(tup_part(0))),
            (f"sort_svd.{o}.01", okflat(tup_part(2)), okflat(tup_part(2)))], ["N", "M", "C"], 3, sort_arrays)))
    tr_of = {"eigh_into": "EighInto", "eigh": "Eigh", "eigvalsh_into": "EigValshInto", "eigvalsh": "EigValsh"}

    def one(P, t, n):
        k = P.find(t, n)
        if len(k) != 1:
            raise Missing(f"{t}::{n}")
        return k[0]
    J.append(vjob("eigh", c15_core("eigh", list(tr_of), lambda P, n: one(P, tr_of[n], n),
                                   lambda n: ("vals" not in n,))))
    sv = [f"{n}.{i}{j}" for n in ("svd_into", "svd") for i in (0, 1) for j in (0, 1)]
    J.append(vjob("svd", c15_core("svd", sv, lambda P, n: one(P, "SVDInto" if "into" in n else "SVD", n.split(".")[0]),
                                  lambda n: (n[-2] == "1", n[-1] == "1"))))
    return J


spec(
    "C15",
    jobs=c15_jobs,
    rule="result terms of the variants of one operation evaluate to the same data; variants with an iterative core reach that "
    "core with identical data, tolerance and flags and return its results unchanged; borrowed arguments keep their contents",
    explain="every family of consuming, borrowing, in-place and values-only variants; the results of two variants at the same "
    "arguments for every small shape, including error outcomes and what in-place forms leave in the argument; for the "
    "eigen- and singular value decompositions, whose core iterates, the recorded call of the shared core function",
    technique=TECH, assumptions=ASSUME + UASSUME,
)


# ---------------------------------------------------------------- C20
class XPoint(UPoint):
    """no difference is taken for rounding: scaling by powers of two is exact"""
    tiny = 0.0
    MAXT = 40
    free = 13

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.eps = 2.0 ** -20


def rescale(d, deg, c):
    """data with the expected factor c ** deg removed"""
    if isinstance(deg, tuple) and d[0] == "agg":
        return d[:3] + ([rescale(x, g, c) for x, g in zip(d[3], deg)],)
    if isinstance(deg, tuple):
        raise Unknown("result structure")
    k = c ** -deg
    if d[0] == "arr":
        return ("arr", d[1], [x * k for x in d[2]])
    if d[0] == "num":
        return ("num", d[1] * k)
    if d[0] == "agg":
        return d[:3] + ([rescale(x, deg, c) for x in d[3]],)
    return d


def c20(name, deg, dims, maxd, arrays, seeds=(1, 2, 3), what="A", mind=0, pick=None):
    def run(P, stats):
        R = vrun(P, stats, name)
        out = []
        for c in (4.0 ** 20, 4.0 ** -20):
            def pair(key3, ints):
                a = arrays(key3, ints)
                if a is None:
                    return None
                b = dict(a)
                b[what] = lambda ix: c * a[what](ix)
                return [dict(a, scale=1.0), dict(b, scale=c)]

            def extract(R, s, p, v):
                x, e = okval(R, s, v)
                if e is not None:
                    return ("err", e)
                return rescale(pick(R, s, p, R.ex.val(s, x)) if pick else flat(R, s, p, x), deg, p.arrays["scale"])
            out += fork_check(R, name, "results scale with the matrix", dims, maxd, pair, extract,
                              "a result or decision does not scale when the matrix is multiplied by "
                              + ("a large" if c > 1 else "a small") + " factor", seeds, XPoint, mind)
        return out
    return run


def c20_jobs(t):
    SQ = ["Ar", "Ac"]
    AB = ["Ar", "Ac", "Br", "Bc"]
    G = gen_arrays()
    J = [vjob("cholesky_into", c20("cholesky_into", 0.5, SQ, 4, pd_arrays, range(1, 7))),
         vjob("cholesky_into_dirty", c20("cholesky_into_dirty", 0.5, SQ, 4, pd_arrays, range(1, 7), pick=lowpart)),
         vjob("solvec_into", c20("solvec_into", -1, AB, 3, pd_arrays)),
         vjob("invc_inplace", c20("invc_inplace", -1, SQ, 4, pd_arrays)),
         vjob("qr.into_decomp", c20("qr.into_decomp", (0, 1), SQ, 4, G, range(8))),
         vjob("qr.inverse", c20("qr.inverse", -1, SQ, 4, G, range(8))),
         vjob("qr.is_invertible", c20("qr.is_invertible", 0, SQ, 4, G, range(8))),
         vjob("qr.solve_into", c20("qr.solve_into", -1, AB, 3, G, range(8))),
         vjob("qr.solve_tr_into", c20("qr.solve_tr_into", -1, AB, 3, G, range(8))),
         vjob("least_squares", c20("least_squares", -1, AB, 3, G, range(8)), 3),
         vjob("bidiag.generate_u", c20("bidiag.generate_u", 0, SQ, 4, G, range(8), mind=1)),
         vjob("bidiag.generate_vt", c20("bidiag.generate_vt", 0, SQ, 4, G, range(8), mind=1)),
         vjob("bidiag.into_b", c20("bidiag.into_b", 1, SQ, 4, G, range(8), mind=1)),
         vjob("tridiag.generate_q", c20("tridiag.generate_q", 0, SQ, 5, gen_arrays(sym=True), range(8), mind=1)),
         vjob("tridiag.into_tridiag_matrix", c20("tridiag.into_tridiag_matrix", 1, SQ, 5, gen_arrays(sym=True), range(8), mind=1))]
    for k in ("norm_l1", "norm_l2", "norm_max"):
        J.append(vjob(k, c20(f"{k}.2d", 1, SQ, 3, G, range(8))))
    for up in ("Upper", "Lower"):
        J.append(vjob(f"solve_triangular_into.{up}", c20(f"solve_triangular_into.{up}", -1, AB, 3, tri_arrays)))
        J.append(vjob(f"is_triangular.{up}", c20(f"is_triangular.{up}", 0, SQ, 3, G, range(8))))
        J.append(vjob(f"into_triangular.{up}", c20(f"into_triangular.{up}", 1, SQ, 3, G, range(8))))
    J.append(vjob("eigh_into", c20("eigh_into", (1, 0), SQ, 3, gen_arrays(sym=True), range(8)), 30))
    J.append(vjob("eigvalsh_into", c20("eigvalsh_into", 1, SQ, 3, gen_arrays(sym=True), range(8)), 30))
    return J


spec(
    "C20",
    jobs=c20_jobs,
    rule="the result terms at c*A equal the result terms at A times the expected power of c, with the same outcome and error",
    explain="every direct operation, and the iterative decompositions at the smallest sizes, at generic, rank-deficient, zero "
    "and triangular matrices multiplied by 4^20 and 4^-20 (exact in binary arithmetic, so equal decisions must be taken)",
    technique=TECH, assumptions=ASSUME + UASSUME,
)


# the defining equations of C06, C09-C11 and C22 hold for matrices of every magnitude: shown at unit
# magnitude by their own rules, and carried to small and large ones by exact homogeneity
MAGNITUDE = {
    "C06": ("is_triangular", "into_triangular"),
    "C09": ("cholesky", "solvec", "invc", "solve_triangular"),
    "C10": ("qr.inverse", "qr.is_invertible", "qr.solve", "least_squares"),
    "C11": ("qr.into_decomp", "bidiag", "tridiag"),
    "C22": ("norm",),
}


def with_magnitudes(jobs, names):
    def f(t):
        return jobs(t) + [Job("scaled." + j.name, j.fn, j.cost) for j in c20_jobs(t) if j.name.startswith(names)]
    return f


def extend_magnitudes(props):
    for pid, names in MAGNITUDE.items():
        s = props[pid]
        s.jobs = with_magnitudes(s.jobs, names)
        s.explain += "; the same operations at 4^20 and 4^-20 times the matrix (exact homogeneity)"
