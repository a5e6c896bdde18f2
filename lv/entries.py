"""The public operations of the crate with symbolic arguments of arbitrary shape, and what each
must satisfy about shapes: its requirements on arguments, the error for each requirement, the
shape of its results.  Public names are the only anchors."""
from .run import *
from .lin import Lin, L, ZERO, ONE, Facts
from .interp import OBJ

E = {}


class Missing(Exception):
    pass


class Entry:
    def __init__(self, name, fn, reqs=(), shapes=None, value_errs=(), intact=(), groups=(), cost=1,
                 lob=False, errpath=None):
        self.name = name
        self.fn = fn  # fn(R) -> [(st, value)]
        self.reqs = reqs
        self.shapes = shapes  # fn(R, st, okvalue) -> [(label, got dims, want dims)]
        self.value_errs = value_errs
        self.intact = intact  # [(errors | '*', input name)]
        self.groups = groups
        self.cost = cost
        self.lob = lob
        self.errpath = errpath


from .interp import EXACT


class Run:
    """one analysed entry"""

    def __init__(self, P, entry, jv=True, real=True, release=False, quick=True, **opts):
        self.quick = quick
        self.P = P
        self.entry = entry
        self.ex, self.st0 = new(P, release)
        self.ex.join_values = jv
        self.ex.real = real
        for k, v in opts.items():
            setattr(self.ex, k, v)
        self.inp = {}
        self.seed = {}
        self.mid = []  # intermediate results of composite entries

    def go(self):
        EXACT[0] = not self.ex.join_values
        self.res = self.entry.fn(self, self.st0)
        return self

    # -- helpers for drivers
    def trait(self, t, n, dims=None):
        keys = self.P.find(t, n)
        if dims is not None and len(keys) > 1:
            keys = [k for k in keys if self.P.ndim(self.P.fns[k].selfty) == dims]
        if len(keys) != 1:
            raise Missing(f"{t}::{n} ({len(keys)} implementations)")
        return keys[0]

    def method(self, adt, n):
        keys = self.P.find_method(adt, n)
        if len(keys) != 1:
            raise Missing(f"{adt}::{n} ({len(keys)})")
        return keys[0]

    def mat(self, st, name="A", r=None, c=None, owned=True):
        a = mat(self.ex, st, name, owned, r, c)
        self.inp[name] = a
        self.seed[name] = st.heap[a.obj]
        return a

    def vec(self, st, name="b", n=None, owned=True):
        a = vec(self.ex, st, name, owned, n)
        self.inp[name] = a
        self.seed[name] = st.heap[a.obj]
        return a

    def ref(self, st, v):
        return boxed(self.ex, st, v)

    def adt(self, suffix):
        k = [k for k in self.P.adts if k.split("::")[-1] == suffix]
        if len(k) != 1:
            raise Missing(f"type {suffix}")
        return k[0]

    def enum(self, suffix, variant):
        k = self.adt(suffix)
        for i, v in enumerate(self.P.adts[k]["v"]):
            if v["n"] == variant:
                return Agg("adt", k, i, ())
        raise Missing(f"{suffix}::{variant}")

    def call(self, st, key, args):
        fn = self.P.fns[key]
        args = list(args)
        for i, a in enumerate(args):
            t = self.P.types[fn.body.locals[i + 1]]
            if t["k"] == "ref" and not isinstance(a, (Ref, ERef, VRef)):
                args[i] = self.ref(st, a)
        return self.ex.call_key(st, key, args)

    # -- interpretation of results
    def err(self, v):
        """(error name, fields) of an Err value"""
        e = v.f[0]
        if self.entry.lob and isinstance(e, Agg) and e.kind == "tuple":
            e = e.f[0]
        if not (isinstance(e, Agg) and e.kind == "adt"):
            return None, None
        ad = self.P.adts.get(e.key)
        if ad is None or not e.key.endswith("LinalgError"):
            return None, None
        va = ad["v"][e.variant]
        return va["n"], dict(zip(va["f"], e.f))

    def field(self, v, name):
        ad = self.P.adts.get(v.key)
        for i, f in enumerate(ad["v"][v.variant]["f"]):
            if f == name:
                return v.f[i]
        raise Missing(f"field {name} of {v.key}")

    def arr(self, st, v):
        v = self.ex.val(st, v)
        return v if isinstance(v, ArrV) else None


# ---------------------------------------------------------------- requirements
class Req:
    """error name, expected fields, and what it means to be violated"""

    def __init__(self, err, fields, viol, sat):
        self.err, self.fields, self.viol, self.sat = err, fields, viol, sat


def sym(n):
    return L(declare(n))


def square(a="A"):
    r, c = sym(a + "r"), sym(a + "c")
    return Req("NotSquare", {"rows": r, "cols": c}, [("ne", r - c)], [("eq", r - c)])


def thin(a="A"):
    r, c = sym(a + "r"), sym(a + "c")
    return Req("NotThin", {"rows": r, "cols": c}, [("ge", c - r - 1)], [("ge", r - c)])


def nonempty(a="A"):
    r, c = sym(a + "r"), sym(a + "c")
    return Req("EmptyMatrix", {}, [("zero", r, c)], [("ge", r - 1), ("ge", c - 1)])


def rows(exp, act):
    e, a = sym(exp), sym(act)
    return Req("WrongRows", {"expected": e, "actual": a}, [("ne", e - a)], [("eq", e - a)])


def columns2(act):
    a = sym(act)
    return Req("WrongColumns", {"expected": Lin(2), "actual": a}, [("ne", a - 2)], [("eq", a - 2)])


def rows2(act):
    a = sym(act)
    return Req("WrongRows", {"expected": Lin(2), "actual": a}, [("ne", a - 2)], [("eq", a - 2)])


def holds(f, c):
    """is the condition entailed by the facts"""
    if c[0] == "ne":
        return f.ent_ne(c[1])
    if c[0] == "eq":
        return f.ent_eq(c[1])
    if c[0] == "ge":
        return f.ent_ge(c[1])
    if c[0] == "zero":
        # one of the dimensions is zero
        g = f
        for d in c[1:]:
            g = g.add_ge(d - 1) if g is not None else None
        return g is None
    raise ValueError(c)


def possible(f, c):
    """can the condition hold under the facts"""
    if c[0] == "ne":
        return f.add_ne(c[1]) is not None if hasattr(f, "add_ne") else True
    if c[0] == "eq":
        return f.add_eq(c[1]) is not None
    if c[0] == "ge":
        return f.add_ge(c[1]) is not None
    if c[0] == "zero":
        return any(f.add_eq(d) is not None for d in c[1:])
    raise ValueError(c)


def reg(name, fn, **k):
    E[name] = Entry(name, fn, **k)


# shape helper: list of (label, value, wanted dims); None wanted = must be absent
def S(*items):
    return lambda R, st, v: [
        (lab, get(R, st, v), want) for lab, get, want in items
    ]


def whole(R, st, v):
    return R.ex.val(st, v)


def part(*path):
    def g(R, st, v):
        v = R.ex.val(st, v)
        for p in path:
            if isinstance(p, str):
                v = R.field(v, p)
            else:
                v = v.f[p]
            v = R.ex.val(st, v)
        return v

    return g


Ar, Ac, Br, Bc = sym("Ar"), sym("Ac"), sym("Br"), sym("Bc")


# ---------------------------------------------------------------- triangular
for up in ("Upper", "Lower"):
    def f(R, st, up=up):
        a = R.mat(st)
        return R.call(st, R.trait("IntoTriangular", "triangular_inplace"), [R.ref(st, a), R.enum("UPLO", up)])

    reg(f"triangular_inplace.{up}", f, reqs=[square()], shapes=S(("matrix", whole, (Ar, Ac))),
        intact=[("NotSquare", "A")], groups=("tri",))

    def f(R, st, up=up):
        return R.call(st, R.trait("IntoTriangular", "into_triangular"), [R.mat(st), R.enum("UPLO", up)])

    reg(f"into_triangular.{up}", f, reqs=[square()], shapes=S(("matrix", whole, (Ar, Ac))), groups=("tri",))

    def f(R, st, up=up):
        return R.call(st, R.trait("Triangular", "is_triangular"), [R.ref(st, R.mat(st)), R.enum("UPLO", up)])

    reg(f"is_triangular.{up}", f, groups=("tri", "plain"))

    for m, byval in (("solve_triangular_inplace", False), ("solve_triangular_into", True)):
        def f(R, st, up=up, m=m, byval=byval):
            a, b = R.mat(st), R.mat(st, "B")
            return R.call(st, R.trait("SolveTriangularInplace", m),
                          [R.ref(st, a), b if byval else R.ref(st, b), R.enum("UPLO", up)])

        reg(f"{m}.{up}", f, reqs=[square(), rows("Ar", "Br")],
            shapes=S(("solution", whole, (Ar, Bc))), intact=[("*", "B"), ("*", "A"), ("Ok", "A")],
            groups=("tri", "trisolve"))

    def f(R, st, up=up):
        a, b = R.mat(st), R.mat(st, "B")
        return R.call(st, R.trait("SolveTriangular", "solve_triangular"),
                      [R.ref(st, a), R.ref(st, b), R.enum("UPLO", up)])

    reg(f"solve_triangular.{up}", f, reqs=[square(), rows("Ar", "Br")],
        shapes=S(("solution", whole, (Ar, Bc))),
        intact=[("*", "B"), ("*", "A"), ("Ok", "A"), ("Ok", "B")], groups=("tri", "trisolve"))

# ---------------------------------------------------------------- norms
for m in ("norm_l1", "norm_l2", "norm_max"):
    def f(R, st, m=m):
        return R.call(st, R.trait("Norm", m), [R.ref(st, R.mat(st))])

    reg(f"{m}.2d", f, groups=("norm", "plain"))

    def f(R, st, m=m):
        return R.call(st, R.trait("Norm", m), [R.ref(st, R.vec(st, "V"))])

    reg(f"{m}.1d", f, groups=("norm", "plain"))

# ---------------------------------------------------------------- cholesky
for m in ("cholesky_inplace_dirty", "cholesky_inplace", "cholesky_into_dirty", "cholesky_into"):
    def f(R, st, m=m):
        a = R.mat(st)
        return R.call(st, R.trait("CholeskyInplace", m), [R.ref(st, a) if "inplace" in m else a])

    reg(m, f, reqs=[square()], shapes=S(("factor", whole, (Ar, Ac))), value_errs=("NotPositiveDefinite",),
        intact=[("NotSquare", "A")] if "inplace" in m else [], groups=("chol",))
for m in ("cholesky_dirty", "cholesky"):
    def f(R, st, m=m):
        return R.call(st, R.trait("Cholesky", m), [R.ref(st, R.mat(st))])

    reg(m, f, reqs=[square()], shapes=S(("factor", whole, (Ar, Ac))), value_errs=("NotPositiveDefinite",),
        intact=[("*", "A"), ("Ok", "A")], groups=("chol",))
for m in ("solvec_inplace", "solvec_into"):
    def f(R, st, m=m):
        a, b = R.mat(st), R.mat(st, "B")
        return R.call(st, R.trait("SolveCInplace", m),
                      [R.ref(st, a), R.ref(st, b) if "inplace" in m else b])

    reg(m, f, reqs=[square(), rows("Ar", "Br")], shapes=S(("solution", whole, (Ar, Bc))),
        value_errs=("NotPositiveDefinite",), intact=[("*", "B")] if "inplace" in m else [], groups=("chol", "spd"))


def f(R, st):
    a, b = R.mat(st), R.mat(st, "B")
    return R.call(st, R.trait("SolveC", "solvec"), [R.ref(st, a), R.ref(st, b)])


reg("solvec", f, reqs=[square(), rows("Ar", "Br")], shapes=S(("solution", whole, (Ar, Bc))),
    value_errs=("NotPositiveDefinite",), intact=[("*", "B"), ("Ok", "B")], groups=("chol", "spd"))


def f(R, st):
    return R.call(st, R.trait("InverseCInplace", "invc_inplace"), [R.ref(st, R.mat(st))])


reg("invc_inplace", f, reqs=[square()], shapes=S(("inverse", whole, (Ar, Ac))),
    value_errs=("NotPositiveDefinite",), groups=("chol", "spd"))


def f(R, st):
    return R.call(st, R.trait("InverseC", "invc"), [R.ref(st, R.mat(st))])


reg("invc", f, reqs=[square()], shapes=S(("inverse", whole, (Ar, Ac))),
    value_errs=("NotPositiveDefinite",), intact=[("*", "A"), ("Ok", "A")], groups=("chol", "spd"))


# ---------------------------------------------------------------- decompositions with methods
def decomp(R, st, into):
    """run the decomposition; -> [(st, decomposition)], errors are returned as they are"""
    key = R.trait(*into)
    byref = R.P.types[R.P.fns[key].body.locals[1]]["k"] == "ref"
    a = R.mat(st)
    oks, errs = [], []
    for s, v in R.call(st, key, [R.ref(st, a) if byref else a]):
        (oks if is_agg(v, RESULT, 0) else errs).append((s, v))
    R.mid.append((oks, errs))
    return oks, errs


def simple(into):
    def f(R, st):
        oks, errs = decomp(R, st, into)
        return oks + errs

    return f


def meth(into, adt, name, *extra, wrap=True):
    """decomposition followed by one of its methods; results of the method are wrapped in Ok
    when the method itself is infallible"""

    def f(R, st):
        oks, _ = decomp(R, st, into)
        out = []
        key = R.method(adt, name)
        for s, v in oks:
            args = [v.f[0]] + [g(R, s) for g in extra]
            for s2, w in R.call(s, key, args):
                out.append((s2, w if is_agg(w, RESULT) else ok(w)))
        return out

    return f


Bref = lambda R, s: R.ref(s, R.mat(s, "B"))
Bval = lambda R, s: R.mat(s, "B")
QRI, QRR = ("QRInto", "qr_into"), ("QR", "qr")
reg("qr_into", simple(QRI), reqs=[thin()], groups=("qr",))
reg("qr", simple(QRR), reqs=[thin()], intact=[("*", "A"), ("Ok", "A")], groups=("qr",))
qm = lambda n, *e: meth(QRI, "QRDecomp", n, *e)
reg("qr.generate_q", qm("generate_q"), shapes=S(("Q", whole, (Ar, Ac))), groups=("qr", "m"))
reg("qr.into_r", qm("into_r"), shapes=S(("R", whole, (Ac, Ac))), groups=("qr", "m"))
reg("qr.into_decomp", qm("into_decomp"),
    shapes=S(("Q", part(0), (Ar, Ac)), ("R", part(1), (Ac, Ac))), groups=("qr", "m"))
reg("qr.is_invertible", qm("is_invertible"), groups=("qr", "m"))
for n, g in (("solve", Bref), ("solve_into", Bval)):
    reg(f"qr.{n}", qm(n, g), reqs=[rows("Ar", "Br")], shapes=S(("solution", whole, (Ac, Bc))),
        value_errs=("NonInvertible",), groups=("qr", "m", "qrsolve"),
        intact=[("*", "B"), ("Ok", "B")] if g is Bref else [])
for n, g in (("solve_tr", Bref), ("solve_tr_into", Bval)):
    reg(f"qr.{n}", qm(n, g), reqs=[rows("Ac", "Br")], shapes=S(("solution", whole, (Ar, Bc))),
        value_errs=("NonInvertible",), groups=("qr", "m", "qrsolve"),
        intact=[("*", "B"), ("Ok", "B")] if g is Bref else [])
reg("qr.inverse", qm("inverse"), reqs=[square()], shapes=S(("inverse", whole, (Ac, Ar))),
    value_errs=("NonInvertible",), groups=("qr", "m", "qrsolve"))


def f(R, st):
    a, b = R.mat(st), R.mat(st, "B")
    return R.call(st, R.trait("LeastSquaresQr", "least_squares"), [a, R.ref(st, b)])


reg("least_squares", f, reqs=[rows("Ar", "Br")], shapes=S(("solution", whole, (Ac, Bc))),
    value_errs=("NonInvertible",), intact=[("*", "B"), ("Ok", "B")], groups=("qr", "lsq"))


def f(R, st):
    a, b = R.mat(st), R.mat(st, "B")
    return R.call(st, R.trait("LeastSquaresQrInto", "least_squares_into"), [a, b])


reg("least_squares_into", f, reqs=[rows("Ar", "Br")], shapes=S(("solution", whole, (Ac, Bc))),
    value_errs=("NonInvertible",), groups=("qr", "lsq"))

TRI = ("SymmetricTridiagonal", "sym_tridiagonal")
reg("sym_tridiagonal", simple(TRI), reqs=[square(), nonempty()], groups=("tridiag",))
tm = lambda n: meth(TRI, "TridiagonalDecomp", n)
reg("tridiag.generate_q", tm("generate_q"), shapes=S(("Q", whole, (Ar, Ar))), groups=("tridiag", "m"))
reg("tridiag.into_diagonals", tm("into_diagonals"),
    shapes=S(("diagonal", part(0), (Ar,)), ("off-diagonal", part(1), (Ar - 1,))), groups=("tridiag", "m"))
reg("tridiag.into_tridiag_matrix", tm("into_tridiag_matrix"), shapes=S(("T", whole, (Ar, Ar))),
    groups=("tridiag", "m"))

BID = ("Bidiagonal", "bidiagonal")


def kdim(st):
    return (Ar, Ac) if st.facts.ent_ge(Ac - Ar) else ((Ac, Ac) if st.facts.ent_ge(Ar - Ac) else (None, None))


def K(st):
    """min(Ar, Ac) under the facts, None when the orientation is not determined"""
    if st.facts.ent_ge(Ac - Ar):
        return Ar
    if st.facts.ent_ge(Ar - Ac):
        return Ac
    return None


def byK(fn):
    """fn(R, st, v, K) on every orientation the state allows"""

    def g(R, st, v):
        k = K(st)
        if k is not None:
            return fn(R, st, v, k)
        out = []
        for c, kk in ((Ar - Ac, Ac), (Ac - Ar, Ar)):
            f = st.facts.add_ge(c)
            if f is not None:
                out += [(lab, x, want, f) for lab, x, want in fn(R, st.with_facts(f), v, kk)]
        return out

    return g


reg("bidiagonal", simple(BID), reqs=[nonempty()], groups=("bidiag",))
bm = lambda n: meth(BID, "BidiagonalDecomp", n)
reg("bidiag.is_upper_diag", bm("is_upper_diag"), groups=("bidiag", "m"))
reg("bidiag.generate_u", bm("generate_u"),
    shapes=byK(lambda R, st, v, k: [("U", whole(R, st, v), (Ar, k))]), groups=("bidiag", "m"))
reg("bidiag.generate_vt", bm("generate_vt"),
    shapes=byK(lambda R, st, v, k: [("Vt", whole(R, st, v), (k, Ac))]), groups=("bidiag", "m"))
reg("bidiag.into_b", bm("into_b"),
    shapes=byK(lambda R, st, v, k: [("B", whole(R, st, v), (k, k))]), groups=("bidiag", "m"))
reg("bidiag.into_diagonals", bm("into_diagonals"),
    shapes=byK(lambda R, st, v, k: [("diagonal", part(0)(R, st, v), (k,)),
                                    ("off-diagonal", part(1)(R, st, v), (k - 1,))]), groups=("bidiag", "m"))

# ---------------------------------------------------------------- eigh / svd
for n, t, r in (("eigh_into", "EighInto", 0), ("eigh", "Eigh", 1)):
    def f(R, st, n=n, t=t, r=r):
        a = R.mat(st)
        return R.call(st, R.trait(t, n), [R.ref(st, a) if r else a])

    reg(n, f, reqs=[square()], shapes=S(("values", part(0), (Ar,)), ("vectors", part(1), (Ar, Ar))),
        intact=[("*", "A"), ("Ok", "A")] if r else [], groups=("eigh",), cost=3)
for n, t, r in (("eigvalsh_into", "EigValshInto", 0), ("eigvalsh", "EigValsh", 1)):
    def f(R, st, n=n, t=t, r=r):
        a = R.mat(st)
        return R.call(st, R.trait(t, n), [R.ref(st, a) if r else a])

    reg(n, f, reqs=[square()], shapes=S(("values", whole, (Ar,))),
        intact=[("*", "A"), ("Ok", "A")] if r else [], groups=("eigh",), cost=2)


def opt(R, st, v, present, lab, want):
    v = R.ex.val(st, v)
    if not isinstance(v, Agg) or v.key != OPTION:
        return (lab, v, want if present else None)
    if v.variant == 0:
        return (lab, None, want if present else None)
    return (lab, R.ex.val(st, v.f[0]), want if present else None)


def stub_svd(ex, st, f, args):
    """svd_into, summarised by what its own entries (analysed in the same check) establish"""
    a = ex.val(st, args[0])
    cu, cv = args[1], args[2]
    if not isinstance(a, ArrV) or len(a.axes) != 2 or not isinstance(cu, bool) or not isinstance(cv, bool):
        return None
    r, c = a.dims
    out = []
    cur = st
    for d in (r, c):
        z, cur = ex.split(cur, ceq(cur.facts.canon(d)))
        if z is not None:
            le = [k for k in ex.prog.adts if k.endswith("LinalgError")][0]
            i = [j for j, v in enumerate(ex.prog.adts[le]["v"]) if v["n"] == "EmptyMatrix"][0]
            out.append((z, err(Agg("adt", le, i, ()))))
        if cur is None:
            return out
    for s, k in zip(ex.split(cur, cge(r - c)), (c, r)):
        if s is None:
            continue
        u = some(ex.new_arr(s, (r, k), mk("fresh", T.uid("u"), 2), "u")) if cu else NONE
        w = ex.new_arr(s, (k,), mk("fresh", T.uid("vals"), 1), "vals")
        v = some(ex.new_arr(s, (k, c), mk("fresh", T.uid("vt"), 2), "vt")) if cv else NONE
        out.append((s, ok(tup(u, w, v))))
    return out


for n, t, r in (("svd_into", "SVDInto", 0), ("svd", "SVD", 1)):
    for cu in (False, True):
        for cv in (False, True):
            def f(R, st, n=n, t=t, r=r, cu=cu, cv=cv):
                a = R.mat(st)
                if r and R.quick:
                    core = R.trait("SVDInto", "svd_into")
                    R.ex.stubs[core] = stub_svd
                    for k in R.P.fns[core].callees() & R.P.fns[R.trait(t, n)].callees():
                        lt = R.P.fns[k].body.locals
                        if len(lt) > 3 and R.P.ndim(lt[1]) == 2 and R.P.types[lt[1]]["k"] == "adt" and all(
                                R.P.types[i].get("n") == "bool" for i in lt[2:4]):
                            R.ex.stubs[k] = stub_svd
                return R.call(st, R.trait(t, n), [R.ref(st, a) if r else a, cu, cv])

            def sh(R, st, v, k, cu=cu, cv=cv):
                v = R.ex.val(st, v)
                return [opt(R, st, v.f[0], cu, "U", (Ar, k)), ("values", R.ex.val(st, v.f[1]), (k,)),
                        opt(R, st, v.f[2], cv, "Vt", (k, Ac))]

            reg(f"{n}.{int(cu)}{int(cv)}", f, reqs=[nonempty()], shapes=byK(sh),
                intact=[("*", "A"), ("Ok", "A")] if r else [],
                groups=("svd",) if not r else ("svd", "svdref"), cost=(40 + 80 * cu + 60 * cv) / (1 + 99 * r))

# ---------------------------------------------------------------- sorting
for o in ("Largest", "Smallest"):
    def f(R, st, o=o):
        v, w = R.vec(st, "vals", "N"), R.mat(st, "vecs", "M", "N")
        keys = [k for k in R.P.find("EigSort", "sort_eig")
                if R.P.types[R.P.fns[k].selfty]["k"] == "tuple"]
        if len(keys) != 1:
            raise Missing("EigSort for (values, vectors)")
        return [(s, ok(x)) for s, x in R.call(st, keys[0], [tup(v, w), R.enum("Order", o)])]

    N_, M_ = sym("N"), sym("M")
    reg(f"sort_eig.{o}", f, shapes=S(("values", part(0), (N_,)), ("vectors", part(1), (M_, N_))),
        groups=("sort",))

    def f(R, st, o=o):
        keys = [k for k in R.P.find("EigSort", "sort_eig")
                if R.P.types[R.P.fns[k].selfty]["k"] != "tuple"]
        if len(keys) != 1:
            raise Missing("EigSort for values")
        return [(s, ok(x)) for s, x in R.call(st, keys[0], [R.vec(st, "vals", "N"), R.enum("Order", o)])]

    reg(f"sort_eigvals.{o}", f, shapes=S(("values", whole, (N_,))), groups=("sort",))
    for cu in (False, True):
        for cv in (False, True):
            def f(R, st, o=o, cu=cu, cv=cv):
                u = some(R.mat(st, "U", "M", "N")) if cu else NONE
                s_ = R.vec(st, "vals", "N")
                v = some(R.mat(st, "Vt", "N", "C")) if cv else NONE
                return [(s, ok(x)) for s, x in
                        R.call(st, R.trait("SvdSort", "sort_svd"), [tup(u, s_, v), R.enum("Order", o)])]

            def sh(R, st, v, cu=cu, cv=cv):
                v = R.ex.val(st, v)
                return [opt(R, st, v.f[0], cu, "U", (M_, N_)), ("values", R.ex.val(st, v.f[1]), (N_,)),
                        opt(R, st, v.f[2], cv, "Vt", (N_, sym("C")))]

            reg(f"sort_svd.{o}.{int(cu)}{int(cv)}", f, shapes=sh, groups=("sort",))
for m, t in (("sort_eig_asc", "EigSort"), ("sort_eig_desc", "EigSort"), ("sort_svd_asc", "SvdSort"),
             ("sort_svd_desc", "SvdSort")):
    def f(R, st, m=m, t=t):
        if t == "EigSort":
            v = tup(R.vec(st, "vals", "N"), R.mat(st, "vecs", "M", "N"))
        else:
            v = tup(some(R.mat(st, "U", "M", "N")), R.vec(st, "vals", "N"), some(R.mat(st, "Vt", "N", "C")))
        return [(s, ok(x)) for s, x in R.call(st, R.trait(t, m), [v])]

    reg(m, f, groups=("sort",),
        shapes=S(("values", part(0), (N_,)), ("vectors", part(1), (M_, N_))) if t == "EigSort" else
        S(("U", part(0, 0), (M_, N_)), ("values", part(1), (N_,)), ("Vt", part(2, 0), (N_, sym("C")))))


# ---------------------------------------------------------------- reflections
def refl(R, st, owned=False):
    """Reflection over an axis of the length the operation needs"""
    ax = R.vec(st, "axis", "D", owned=owned)
    key = R.method("Reflection", "new")
    out = []
    for s, v in R.call(st, key, [ax, mk("fsym", "bias")]):
        out.append((s, v))
    return out


for m, dims in (("reflect_cols", ("D", "Mc")), ("reflect_rows", ("Mr", "D"))):
    def f(R, st, m=m, dims=dims):
        out = []
        for s, v in refl(R, st):
            b = R.mat(s, "M", *dims)
            out += [(s2, ok(w)) for s2, w in R.call(s, R.method("Reflection", m), [v, R.ref(s, b)])]
        return out

    reg(m, f, groups=("reflect",))


def f(R, st):
    out = []
    for s, v in refl(R, st):
        out += [(s2, ok(w)) for s2, w in R.call(s, R.method("Reflection", "axis"), [v])]
    return out


reg("reflection.axis", f, shapes=S(("axis", whole, (sym("D"),))), groups=("reflect",))

# ---------------------------------------------------------------- rotations (internal)
for m in ("rotate_rows", "rotate_cols"):
    def f(R, st, m=m):
        rot = Agg("adt", R.adt("GivensRotation"), 0, (mk("fsym", "c"), mk("fsym", "s")))
        return R.call(st, R.method("GivensRotation", m), [rot, R.ref(st, R.mat(st, "M"))])

    reg(m, f, reqs=[columns2("Mc") if m == "rotate_rows" else rows2("Mr")], intact=[("*", "M")],
        groups=("internal", "rotate"))


# ---------------------------------------------------------------- truncated solvers
def stub_eigh(ex, st, f, args):
    """the symmetric eigensolver, summarised by what its own entry establishes"""
    a = ex.val(st, args[0])
    if not isinstance(a, ArrV) or len(a.axes) != 2:
        return None
    n, c = a.dims
    t, fl = ex.split(st, ceq(st.facts.canon(n - c)))
    out = []
    if t is not None:
        v = ex.new_arr(t, (n,), mk("fresh", T.uid("vals"), 1), "vals")
        w = ex.new_arr(t, (n, n), mk("fresh", T.uid("vecs"), 2), "vecs")
        out.append((t, ok(tup(v, w))))
    if fl is not None:
        le = [k for k in ex.prog.adts if k.endswith("LinalgError")][0]
        i = [j for j, v in enumerate(ex.prog.adts[le]["v"]) if v["n"] == "NotSquare"][0]
        out.append((fl, err(Agg("adt", le, i, (n, c)))))
    return out


def opq_call(ex, st, fv, args):
    if fv.name == "a":
        v = ex.val(st, args[0])
        r = ex.new_arr(st, v.dims, mk("fresh", T.uid("opa"), 2), "opa")
        return [(st, r)]
    if fv.name == "m":
        v = ex.val(st, args[0])
        ex.bulk_write(st, v, lambda idx, f: mk("fsym", T.uid("m")))
        return [(st, UNIT)]
    return None


def gram_chol(ex, st, f, args):
    """Cholesky factorization of the Gram matrix of the constraints: succeeds, because the
    constraints are documented to have full rank.  Everything else goes through the real code."""
    a = ex.val(st, args[0])
    if not isinstance(a, ArrV):
        return None
    c = st.heap.get(a.obj)
    y = getattr(ex, "ybase", None)
    if c is None or y is None or not is_gram(st, c, y):
        return None
    r = ex.new_arr(st, a.dims, mk("fresh", T.uid("chy"), 2), "chy")
    return [(st, ok(r))]


def is_gram(st, c, y):
    """content is Yt Y for the constraint matrix"""
    if c.op == "view":
        c = c.a[0]
    if c.op != "mm":
        return False
    p, q = c.a
    if p.op != "view" or q.op != "view" or p.a[0] is not y or q.a[0] is not y:
        return False
    return len(p.a[1]) == 2 and len(q.a[1]) == 2 and p.a[1] == (q.a[1][1], q.a[1][0])


def lob_setup(R):
    ex = R.ex
    ex.opq_call = opq_call
    ex.stubs[R.trait("EighInto", "eigh_into")] = stub_eigh
    for m in ("cholesky_into", "cholesky_inplace", "cholesky"):
        for tr in ("CholeskyInplace", "Cholesky"):
            for k in R.P.find(tr, m):
                ex.stubs[k] = gram_chol


def lobkey(R):
    k = [k for k, f in R.P.fns.items() if f.name == "lobpcg" and f.kind == "Fn"]
    if len(k) != 1:
        raise Missing("lobpcg")
    return k[0]


Xr, Xc = sym("Xr"), sym("Xc")


def lobshapes(n, m):
    def sh(R, st, v):
        v = R.ex.val(st, v)
        return [("eigenvalues", R.field(v, "eigvals"), (m,)), ("eigenvectors", R.field(v, "eigvecs"), (n, m)),
                ("residual norms", R.field(v, "rnorm"), (m,))]

    return sh


for wy in (0, 1):
    for o in ("Largest", "Smallest"):
        def f(R, st, wy=wy, o=o):
            lob_setup(R)
            x = R.mat(st, "X")
            y = NONE
            if wy:
                ya = R.mat(st, "Y", r="Xr", owned=False)
                R.ex.ybase = st.heap[ya.obj]
                y = some(ya)
            return R.call(st, lobkey(R), [OpqFn("a"), x, OpqFn("m"), y, mk("fsym", "tol"), L(declare("maxiter")),
                                          R.enum("Order", o)])

        reg(f"lobpcg.{'y' if wy else 'n'}.{o}", f, reqs=[thin("X"), nonempty("X")],
            value_errs=("NotPositiveDefinite", "NonInvertible"), shapes=lobshapes(Xr, Xc),
            groups=("lobpcg",) + (() if o == "Largest" else ("lob2",)), cost=100, lob=True)


def stub_lobpcg(ex, st, f, args):
    """lobpcg summarised by what its own entry establishes (shapes and possible outcomes)"""
    P = ex.prog
    x = ex.val(st, args[1])
    if not isinstance(x, ArrV):
        return None
    ex.lobcalls.append((st.copy(), list(args), tuple(ex.stack)))
    n, m = x.dims
    le = [k for k in P.adts if k.endswith("LinalgError")][0]
    lo = [k for k in P.adts if k.split("::")[-1] == "Lobpcg"][0]
    vi = {v["n"]: i for i, v in enumerate(P.adts[le]["v"])}
    # the operator and the preconditioner are called on blocks with as many rows
    q = fresh("blk")
    s = st.copy()
    s.facts = s.facts.add_ge(L(q) - 1)
    s.facts = s.facts.add_ge(m - L(q)) or s.facts
    blk = ex.new_arr(s, (n, L(q)), mk("fresh", T.uid("blk"), 2), "blk")
    if s.facts.add_ge(n - m) is not None:
        s.facts = s.facts.add_ge(n - m)
        for s2, r in ex.call_value(s.copy(), args[0], [blk]):
            r = ex.val(s2, r)
            if isinstance(r, ArrV):
                ex.ev("obl", s2, ("operator", s2.facts.ent_eq(r.dims[0], n) and s2.facts.ent_eq(r.dims[1], L(q)), ()),
                      "operator image has the shape of its argument")
            else:
                ex.taint(s2, "operator image")
                ex.ev("obl", s2, ("operator", False, ()), "operator image has the shape of its argument")
        ex.call_value(s, args[2], [ArrV(blk.obj, blk.axes, blk.fixed, blk.nd, False)])
    out = []
    t, fl = ex.split(st, cge(n - m))
    if fl is not None:
        out.append((fl, err(tup(Agg("adt", le, vi["NotThin"], (n, m)), NONE))))
    if t is None:
        return out
    z, t = ex.split(t, ceq(t.facts.canon(m)))
    if z is not None:
        out.append((z, err(tup(Agg("adt", le, vi["EmptyMatrix"], ()), NONE))))
    if t is None:
        return out

    def lob(s):
        v = ex.new_arr(s, (m,), mk("fresh", T.uid("lvals"), 1), "lvals")
        w = ex.new_arr(s, (n, m), mk("fresh", T.uid("lvecs"), 2), "lvecs")
        fields = {"eigvals": v, "eigvecs": w, "rnorm": Seq(("opq", T.uid("rnorm"), m, "f"))}
        return Agg("adt", lo, 0, tuple(fields[f] for f in P.adts[lo]["v"][0]["f"]))

    a, b, c = t.copy(), t.copy(), t
    out.append((a, ok(lob(a))))
    npd = Agg("adt", le, vi["NotPositiveDefinite"], ())
    out.append((b, err(tup(npd, NONE))))
    out.append((c, err(tup(npd, some(lob(c))))))
    return out


def stub_random(ex, st, f, args):
    d = ex.val(st, args[0])
    dims = ex.models.dims_of(ex, st, d)
    if dims is None:
        return None
    ex.randcalls.append((st.copy(), dims, args[1:], tuple(ex.stack)))
    return [(st, ex.new_arr(st, dims, mk("fresh", T.uid("rnd"), len(dims)), "rnd"))]


def trunc_setup(R):
    R.ex.lobcalls = []
    R.ex.randcalls = []
    R.ex.stubs[lobkey(R)] = stub_lobpcg
    for k, f in R.P.fns.items():
        if f.name == "random" and f.kind == "Fn":
            R.ex.stubs[k] = stub_random

    def corr(ex, st, f, args):
        return [(st, mk("fconst", "correction"))]

    for k, f in R.P.fns.items():
        if f.name == "correction":
            R.ex.stubs[k] = corr
    for (tr, n), l in R.P.by_trait.items():
        if n == "correction":
            R.ex.stubs[f"{tr}::{n}"] = corr


PR, PC = sym("Pr"), sym("Pc")


def builder(R, st, kind, order, square_problem, cons=None, pre=None, setmax=True, setprec=True):
    """TruncatedEig / TruncatedSvd configured through the public builder methods"""
    p = R.mat(st, "P", "Pr", "Pr" if square_problem else "Pc")
    outs = R.call(st, R.method(kind, "new_with_rng"), [p, R.enum("Order", order), Agg("adt", "rng", 0, (mk("fsym", "rng"),))])
    steps = []
    if setprec:
        steps.append(("precision", lambda s: mk("fsym", "prec")))
    if setmax:
        steps.append(("maxiter", lambda s: L(declare("maxit"))))
    if cons:
        steps.append(("orthogonal_to", lambda s: R.mat(s, "Y", "Pr", "Yc")))
    if pre:
        steps.append(("precondition_with", lambda s: R.mat(s, "G", "Pr", "Pr")))
    for n, g in steps:
        outs = [x for s, v in outs for x in R.call(s, R.method(kind, n), [v, g(s)])]
    return outs


NUM = sym("num")


def lobshapes0(R, st, v):
    """as lobpcg, or an empty result for zero requested pairs"""
    v = R.ex.val(st, v)
    if st.facts.ent_eq(NUM):
        return [("eigenvalues", R.field(v, "eigvals"), (ZERO,)), ("eigenvectors", R.field(v, "eigvecs"), (ZERO, ZERO)),
                ("residual norms", R.field(v, "rnorm"), (ZERO,))]
    return lobshapes(PR, NUM)(R, st, v)


for cons in (0, 1):
    for pre in (0, 1):
        def f(R, st, cons=cons, pre=pre):
            trunc_setup(R)
            out = []
            for s, v in builder(R, st, "TruncatedEig", "Largest", True, cons, pre):
                r = R.ref(s, v)
                out += R.call(s, R.method("TruncatedEig", "decompose"), [r, NUM])
            return out

        reg(f"TruncatedEig.decompose.{cons}{pre}", f, shapes=lobshapes0, lob=True, cost=3,
            value_errs=("NotPositiveDefinite", "NonInvertible"),
            reqs=[Req("NotThin", {"rows": PR, "cols": NUM}, [("ge", NUM - PR - 1)], [("ge", PR - NUM)])],
            groups=("trunc",))

        for ctor in ("into_iter", "into_iter_step_size", "new"):
            def f(R, st, cons=cons, pre=pre, ctor=ctor):
                trunc_setup(R)
                step = sym("step")
                st.facts = st.facts.add_ge(step - 1)
                out = []
                for s, v in builder(R, st, "TruncatedEig", "Smallest", True, cons, pre):
                    if ctor == "into_iter":
                        ks = [k for k, fn in R.P.fns.items() if fn.name == "into_iter" and fn.selfty is not None
                              and R.P.types[fn.selfty].get("p", "").endswith("TruncatedEig")]
                        if len(ks) != 1:
                            raise Missing("IntoIterator for TruncatedEig")
                        its = R.call(s, ks[0], [v])
                    elif ctor == "new":
                        its = R.call(s, R.method("TruncatedEigIterator", "new"), [v, step])
                    else:
                        its = R.call(s, R.method("TruncatedEig", "into_iter_step_size"), [v, step])
                    for s2, it in its:
                        if is_agg(it, RESULT):
                            if it.variant == 1:
                                out.append((s2, it))
                                continue
                            it = it.f[0]
                        # an arbitrary later moment of the iteration
                        ref = R.ref(s2, it)
                        R.mid.append((s2.copy(), it))
                        ks = [k for k, fn in R.P.fns.items() if fn.name == "next" and fn.selfty is not None
                              and R.P.types[fn.selfty].get("p", "").endswith("TruncatedEigIterator")]
                        if len(ks) != 1:
                            raise Missing("Iterator for TruncatedEigIterator")
                        for s3, r in R.call(s2, ks[0], [ref]):
                            s3.notes = s3.notes + (("iter", ref),)
                            out.append((s3, ok(r)))
                return out

            reg(f"TruncatedEigIterator.{ctor}.{cons}{pre}", f, groups=("trunc", "titer"), cost=3)

def tsvd_reqs(R, st):
    k = PC if st.facts.ent_ge(PR - PC) else PR
    return [Req("NotThin", {"rows": k, "cols": NUM}, [("ge", NUM - k - 1)], [("ge", k - NUM)])]


for o in ("Largest", "Smallest"):
    for acc in ("decompose", "values", "values_vectors"):
        def f(R, st, o=o, acc=acc):
            trunc_setup(R)
            out = []
            for s, v in builder(R, st, "TruncatedSvd", o, False):
                for s2, r in R.call(s, R.method("TruncatedSvd", "decompose"), [v, NUM]):
                    if acc == "decompose" or not is_agg(r, RESULT, 0):
                        out.append((s2, r))
                        continue
                    for s3, w in R.call(s2, R.method("TruncatedSvdResult", acc), [R.ref(s2, r.f[0])]):
                        out.append((s3, ok(w)))
            return out

        reg(f"TruncatedSvd.{acc}.{o}", f, groups=("trunc", "tsvd"), cost=3, value_errs=("NotPositiveDefinite", "NonInvertible"),
            reqs=tsvd_reqs)
        E[f"TruncatedSvd.{acc}.{o}"].orient = ("Pr", "Pc")

PUBLIC = [n for n in E if "internal" not in E[n].groups]
