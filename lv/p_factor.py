"""C05, C09, C10, C11: factorizations, substitutions and the operations composed of them.

The results of an operation are given by the recurrences its loops were summarised to.  These
obligations expand the recurrences for every small shape at pseudo-random atoms (identity testing)
and compare with the definition; the inductive and dependence obligations, which hold for every
size, are in p_induct."""
from .p_value import *
from .unfold import UPoint


# ---------------------------------------------------------------- small dense algebra
def mm(a, b):
    n = len(b)
    m = len(b[0]) if b else 0
    return [[sum(r[k] * b[k][j] for k in range(n)) for j in range(m)] for r in a]


def tr(a, cols=None):
    if not a:
        return [[] for _ in range(cols or 0)]
    return [[a[i][j] for i in range(len(a))] for j in range(len(a[0]))]


def eye(n):
    return [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]


def scale(a):
    return max([abs(x) for r in a for x in r], default=0.0)


def differ(a, b, tol=1e-6):
    """largest entry difference exceeds the tolerance relative to the size of the matrices"""
    if len(a) != len(b) or any(len(x) != len(y) for x, y in zip(a, b)):
        return True
    t = tol * (1.0 + scale(a) + scale(b))
    return any(abs(x - y) > t for r, q in zip(a, b) for x, y in zip(r, q))


def gauss(a, b):
    """solution of a square system (None: singular)"""
    n = len(a)
    m = [list(r) + list(q) for r, q in zip(a, b)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(m[r][c]))
        if abs(m[p][c]) < 1e-9:
            return None
        m[c], m[p] = m[p], m[c]
        for r in range(n):
            if r != c:
                f = m[r][c] / m[c][c]
                m[r] = [x - f * y for x, y in zip(m[r], m[c])]
    return [[x / m[i][i] for x in m[i][n:]] for i in range(n)]


def matrix(R, s, p, v):
    v = R.ex.val(s, v)
    if not isinstance(v, ArrV):
        raise Unknown("result is not an array")
    d = [p.int(x) for x in v.dims]
    if len(d) == 1:
        return [elem(R, s, p, v, (i,)) for i in range(d[0])]
    return [[elem(R, s, p, v, (i, j)) for j in range(d[1])] for i in range(d[0])]


def given(p, name, r, c):
    f = p.arrays[name]
    return [[f((i, j)) for j in range(c)] for i in range(r)]


def okval(R, s, v):
    """(value, None) of an Ok result, (None, error name) of an Err result"""
    if is_agg(v, RESULT, 0):
        return v.f[0], None
    if is_agg(v, RESULT, 1):
        return None, R.err(v)[0]
    return v, None


def rnd(key, *k):
    u = h01(key, *k)
    return (-1.0 if h01(key, "s", *k) < 0.5 else 1.0) * (0.3 + 1.7 * u)


def small(key, *k):
    return (-2.0, -1.0, 0.0, 1.0, 2.0, 0.0, 1.0)[int(7 * h01(key, "g", *k))]


def dense(key, r, c, kind):
    """matrices of several kinds: generic, few values with zeros, zero columns, rank one, zero"""
    g = lambda i, j: rnd(key, "m", i, j)
    if kind == "grid":
        g = lambda i, j: small(key, i, j)
    elif kind == "zerocol":
        z = {j for j in range(c) if h01(key, "zc", j) < 0.5}
        g = lambda i, j: 0.0 if j in z else rnd(key, "m", i, j)
    elif kind == "zerorow":
        z = {i for i in range(r) if h01(key, "zr", i) < 0.5}
        g = lambda i, j: 0.0 if i in z else rnd(key, "m", i, j)
    elif kind == "upper":
        g = lambda i, j: rnd(key, "m", i, j) if j >= i else 0.0
    elif kind == "zero":
        g = lambda i, j: 0.0
    return [[g(i, j) for j in range(c)] for i in range(r)]


UASSUME = ["loop recurrences are expanded for all shapes up to the stated bound at pseudo-random atoms; "
           "real arithmetic up to a relative tolerance of 1e-6"]


# ---------------------------------------------------------------- C09: Cholesky
def spd(key, n):
    """lower factor with exactly representable products, and the strict upper garbage"""
    l = [[float(int(h01(key, "l", i, j) * 7) - 3) if j < i else float(1 << int(h01(key, "d", i) * 3)) if i == j else 0.0
          for j in range(n)] for i in range(n)]
    return l, mm(l, tr(l))


CK = ("spd", "spd", "zero", "neg", "nan", "nanoff")


def chol_arrays(key3, ints):
    n, m = ints["Ar"], ints["Ac"]
    sd = key3[0]
    key = (sd, n, m)
    kind = CK[sd % len(CK)]
    if n != m or n == 0:
        return {"A": lambda ix: rnd(key, ix)}
    l, a = spd(key, n)
    j = int(h01(key, "j") * n)
    if kind == "zero":
        a[j][j] -= l[j][j] ** 2
    elif kind == "neg":
        a[j][j] -= l[j][j] ** 2 + 1.0 + j
    elif kind == "nan":
        a[j][j] = math.nan
    elif kind == "nanoff":
        a[n - 1][int(h01(key, "k") * n)] = math.nan
    for i in range(n):
        for k in range(i + 1, n):
            a[i][k] = rnd(key, "up", i, k)
    return {"A": lambda ix: a[ix[0]][ix[1]], "L": l, "kind": kind}


def c09_chol(name, dirty):
    def run(P, stats):
        R = vrun(P, stats, name, real=False)

        def judge(s, v, p, ints):
            p.nan = True
            n = ints["Ar"]
            if n != ints["Ac"]:
                return None
            x, e = okval(R, s, v)
            kind = p.arrays.get("kind", "spd")
            if e is not None:
                if e == "NotPositiveDefinite" and kind != "spd":
                    return True
                raise Bad(f"{e} reported for a positive definite matrix" if kind == "spd" else f"{e} reported for a matrix "
                          "that is not positive definite")
            got = matrix(R, s, p, x)
            if kind != "spd":
                raise Bad("a factor is returned although a pivot is " + {"zero": "zero", "neg": "negative"}.get(kind, "NaN"))
            want = p.arrays.get("L", [])
            for i in range(n):
                for j in range(i + 1):
                    if not close(got[i][j], want[i][j]):
                        raise Bad("the factor does not satisfy L Lt = A")
            return True
        return uoutcome(R, name, judge, ["Ar", "Ac"], 6, "Cholesky factor satisfies L Lt = A; fails exactly at a "
                        "non-positive pivot", chol_arrays, seeds=range(12), point=NanPoint)
    return run


class NanPoint(UPoint):
    """a point whose atoms may be NaN"""

    def f(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._f(t)
            self.memo[t] = r
        return r

    def b(self, t):
        if isinstance(t, N) and t.op == "bapp" and t.a[0] in ("is_nan", "is_infinite", "is_finite") and isinstance(t.a[1], N):
            x = self.f(t.a[1])
            return {"is_nan": math.isnan, "is_infinite": math.isinf, "is_finite": math.isfinite}[t.a[0]](x)
        return super().b(t)


def uoutcome(R, name, judge, dims, maxd, rule, arrays, seeds=(1, 2), mind=0, maxpts=4000, point=UPoint, **k):
    return outcome(R, name, judge, dims, maxd, rule, seeds=seeds, mind=mind, arrays=arrays, modes=(False,),
                   maxpts=maxpts, point=point, **k)


# ---------------------------------------------------------------- C09: triangular substitution
def tri_arrays(key3, ints):
    key = (key3[0], tuple(sorted(ints.items())))
    a = lambda ix: rnd(key, "a", ix)
    b = lambda ix: rnd(key, "b", ix) if key3[0] % 3 else small(key, "b", ix)
    return {"A": a, "B": b}


def c09_tri(name, up):
    def run(P, stats):
        R = vrun(P, stats, name)

        def judge(s, v, p, ints):
            n, m = ints["Ar"], ints["Bc"]
            if n != ints["Ac"] or n != ints["Br"]:
                return None
            x, e = okval(R, s, v)
            if e is not None:
                raise Bad(f"{e} reported for a solvable system")
            x = matrix(R, s, p, x)
            b = given(p, "B", n, m)
            a = [[p.arrays["A"]((i, j)) if (j >= i if up else j <= i) else 0.0 for j in range(n)] for i in range(n)]
            if n and differ(mm(a, x), b):
                raise Bad(f"the solution does not satisfy the {'upper' if up else 'lower'} triangular system")
            return True
        return uoutcome(R, name, judge, ["Ar", "Ac", "Br", "Bc"], 5, "substitution solves the triangular system",
                        tri_arrays, seeds=range(3))
    return run


def c09_jobs(t):
    out = [vjob(m, c09_chol(m, "dirty" in m)) for m in E if "chol" in E[m].groups and m.startswith("cholesky")]
    for up in ("Upper", "Lower"):
        for m in ("solve_triangular_inplace", "solve_triangular_into", "solve_triangular"):
            out.append(vjob(f"{m}.{up}", c09_tri(f"{m}.{up}", up == "Upper")))
    return out


spec(
    "C09",
    jobs=c09_jobs,
    rule="recurrences of the factorization and substitution loops satisfy the defining equations; the error exit of the "
    "factorization is taken exactly at a pivot that is not strictly positive",
    explain="the recurrences extracted from the factorization and substitution loops, expanded for every shape up to 6x6 (5x5) at "
    "definite, singular, indefinite and NaN inputs; which exit holds and whether the defining equation holds",
    technique=TECH, assumptions=ASSUME + UASSUME,
)


# ---------------------------------------------------------------- C10
KINDS = ("dense", "dense", "grid", "zerocol", "upper", "zero", "dense", "zerocol")


def gen_arrays(square=False, sym=False, br=None):
    """A of varying kind (symmetric on request), B generic"""
    def f(key3, ints):
        key = (key3[0], tuple(sorted(ints.items())))
        kind = KINDS[key3[0] % len(KINDS)]
        r, c = ints["Ar"], ints["Ac"]
        a = dense(key, r, c, kind)
        if sym and r == c:
            a = [[a[i][j] + a[j][i] for j in range(c)] for i in range(r)]
            if kind == "zerocol":
                z = {j for j in range(c) if h01(key, "zc", j) < 0.5}
                a = [[0.0 if i in z or j in z else a[i][j] for j in range(c)] for i in range(r)]
        return {"A": lambda ix: a[ix[0]][ix[1]], "B": lambda ix: rnd(key, "b", ix), "kind": kind}
    return f


def spd_arrays(key3, ints):
    n = ints["Ar"]
    key = (key3[0], n)
    if ints["Ac"] != n:
        return {"A": lambda ix: rnd(key, ix), "B": lambda ix: rnd(key, "b", ix)}
    l, a = spd(key, n)
    for i in range(n):
        for k in range(i + 1, n):
            a[i][k] = rnd(key, "up", i, k)
    return {"A": lambda ix: a[ix[0]][ix[1]], "B": lambda ix: rnd(key, "b", ix)}


def lower_sym(a):
    return [[a[max(i, j)][min(i, j)] for j in range(len(a))] for i in range(len(a))]


def c10_spd(name, inv):
    def run(P, stats):
        R = vrun(P, stats, name)

        def judge(s, v, p, ints):
            n = ints["Ar"]
            if n != ints["Ac"] or not inv and n != ints["Br"]:
                return None
            x, e = okval(R, s, v)
            if e is not None:
                raise Bad(f"{e} reported for a positive definite system")
            a = lower_sym(given(p, "A", n, n))
            b = eye(n) if inv else given(p, "B", n, ints["Bc"])
            x = matrix(R, s, p, x)
            if n and differ(mm(a, x), b):
                raise Bad("the result is not the inverse" if inv else "the result does not solve A x = b")
            return True
        dims = ["Ar", "Ac"] + ([] if inv else ["Br", "Bc"])
        return uoutcome(R, name, judge, dims, 4, "positive definite " + ("inverse" if inv else "solve"), spd_arrays,
                        seeds=range(3))
    return run


def singular(a):
    """some column is exactly zero (so the triangular factor has a zero on its diagonal)"""
    return bool(a) and any(all(r[j] == 0 for r in a) for j in range(len(a[0])))


def triangular_sing(a):
    return all(a[i][j] == 0 for i in range(len(a)) for j in range(min(i, len(a[0])))) and any(
        a[i][i] == 0 for i in range(min(len(a), len(a[0]))))


def c10_qr(name, kind):
    def run(P, stats):
        R = vrun(P, stats, name)

        def judge(s, v, p, ints):
            r, c = ints["Ar"], ints["Ac"]
            lsq = kind == "lsq"
            if not lsq and r < c:
                return None
            if kind == "inverse":
                if r != c:
                    return None
                b = eye(r)
            elif ints["Br"] != (c if kind == "tr" else r):
                return None
            else:
                b = given(p, "B", ints["Br"], ints["Bc"])
            a = given(p, "A", r, c)
            wide = lsq and r < c
            f = tr(a, c) if wide else a  # the factored matrix
            x, e = okval(R, s, v)
            if e is not None and e != "NonInvertible":
                raise Bad(f"{e} reported for a well-shaped system")
            if r and c and (singular(f) or triangular_sing(f)):
                if e is None:
                    raise Bad("a solution is returned although the triangular factor has a zero on its diagonal")
                return True
            if kind == "tr" or wide:
                # minimum-norm solution of f.T x = b
                g = gauss(mm(tr(f), f), b) if r and c else None
                want = mm(f, g) if g is not None else None
            else:
                want = gauss(mm(tr(f), f), mm(tr(f), b)) if r and c else None
            if r and c and want is None:
                return None
            if e is not None:
                raise Bad("a system of full rank is reported as non-invertible")
            if r == 0 or c == 0:
                return True
            if differ(matrix(R, s, p, x), want, 1e-5):
                raise Bad({"inverse": "the result is not the inverse", "tr": "the result is not the minimum-norm solution "
                           "of the transposed system", "solve": "the result is not the least-squares solution"}.get(kind)
                          or ("the wide problem does not give the minimum-norm solution" if wide else
                              "the tall problem does not give the least-squares solution"))
            return True
        dims = ["Ar", "Ac"] + ([] if kind == "inverse" else ["Br", "Bc"])
        return uoutcome(R, name, judge, dims, 4 if kind == "inverse" else 3, "QR-based " + kind, gen_arrays(), seeds=range(8))
    return run


def c10_invertible(P, stats):
    R = vrun(P, stats, "qr.is_invertible", quantify=True)

    def judge(s, v, p, ints):
        r, c = ints["Ar"], ints["Ac"]
        if r < c:
            return None
        x, e = okval(R, s, v)
        if not (isinstance(x, bool) or is_bool(x)):
            raise Unknown("answer")
        got = p.b(x)
        a = given(p, "A", r, c)
        if r and c and (singular(a) or triangular_sing(a)):
            want = False
        elif c == 0 or gauss(mm(tr(a), a), eye(c)) is not None:
            want = True
        else:
            return None
        if got != want:
            raise Bad(f"is_invertible answers {str(got).lower()} for a matrix whose triangular factor has "
                      f"{'no zero' if want else 'a zero'} on its diagonal")
        return True
    return uoutcome(R, "qr.is_invertible", judge, ["Ar", "Ac"], 4, "invertibility test", gen_arrays(), seeds=range(8))


def c10_jobs(t):
    out = [vjob(m, c10_spd(m, m.startswith("inv"))) for m in E if "spd" in E[m].groups]
    for m in E:
        if "qrsolve" in E[m].groups:
            out.append(vjob(m, c10_qr(m, "inverse" if "inverse" in m else "tr" if "_tr" in m else "solve")))
        elif "lsq" in E[m].groups:
            out.append(vjob(m, c10_qr(m, "lsq"), 3))
    return out + [vjob("qr.is_invertible", c10_invertible)]


spec(
    "C10",
    jobs=c10_jobs,
    rule="the recurrences of each solve, inverse and least-squares operation, composed through its factorization and "
    "substitution, equal the defining solution; zero diagonals lead to NonInvertible on every path",
    explain="the composed recurrences of every solve, inverse, least-squares and invertibility operation for every shape up to 3 or 4 "
    "with dense, zero-column, triangular and zero matrices, compared with the normal-equation solution",
    technique=TECH, assumptions=ASSUME + UASSUME,
)


# ---------------------------------------------------------------- C11
def parts_entry(name, into, adt, meths):
    """decomposition followed by several of its methods in one state"""
    def drv(R, st):
        oks, errs = decomp(R, st, into)
        out = []
        for s, v in oks:
            cur = [(s, ())]
            for m in meths:
                nxt = []
                for s1, acc in cur:
                    for s2, w in R.call(s1, R.method(adt, m), [v.f[0]]):
                        nxt.append((s2, acc + (w,)))
                cur = nxt
            out += [(s2, ok(tup(*acc))) for s2, acc in cur]
        return out + errs
    return Entry(name, drv)


def check_orth(q, what, rows=False):
    t = tr(q) if not rows else q
    if t and differ(mm(t, tr(t)), eye(len(t))):
        raise Bad(f"{what} is not orthogonal")


def check_neg(d, what):
    if any(x < -1e-12 for x in d):
        raise Bad(f"{what} has a negative entry")


def check_product(f, a, what):
    if a and a[0] and differ(f, a):
        raise Bad(f"the product of the factors of the {what} is not the original matrix")


def c11_qr(variant):
    meths = {"decomp": ["into_decomp"], "parts": ["generate_q", "into_r"]}[variant]

    def run(P, stats):
        name = f"qr.{variant}"
        R = vrun(P, stats, name, parts_entry(name, QRI, "QRDecomp", meths))

        def judge(s, v, p, ints):
            r, c = ints["Ar"], ints["Ac"]
            if r < c:
                return None
            x, e = okval(R, s, v)
            if e is not None:
                raise Bad(f"{e} reported for a tall matrix")
            q, t = x.f if variant == "parts" else R.ex.val(s, x.f[0]).f
            q, t = matrix(R, s, p, q), matrix(R, s, p, t)
            a = given(p, "A", r, c)
            check_orth(q, "Q")
            if any(abs(t[i][j]) > 1e-12 for i in range(c) for j in range(i)):
                raise Bad("R is not upper triangular")
            check_neg([t[i][i] for i in range(c)], "the diagonal of R")
            check_product(mm(q, t), a, "QR decomposition")
            return True
        return uoutcome(R, name, judge, ["Ar", "Ac"], 4, "Q R = A, Q orthogonal, R upper triangular with non-negative diagonal",
                        gen_arrays(), seeds=range(8))
    return run


def c11_bidiag(variant):
    meths = ["generate_u", "generate_vt", variant]

    def run(P, stats):
        name = f"bidiag.{variant}"
        R = vrun(P, stats, name, parts_entry(name, BID, "BidiagonalDecomp", meths))

        def judge(s, v, p, ints):
            r, c = ints["Ar"], ints["Ac"]
            k = min(r, c)
            if k == 0:
                return None
            x, e = okval(R, s, v)
            if e is not None:
                raise Bad(f"{e} reported for a non-empty matrix")
            u, t, b = x.f
            u, t = matrix(R, s, p, u), matrix(R, s, p, t)
            if variant == "into_b":
                b = matrix(R, s, p, b)
                off = [(i, i + 1) if r >= c else (i + 1, i) for i in range(k - 1)]
                if any(abs(b[i][j]) > 1e-12 for i in range(k) for j in range(k) if i != j and (i, j) not in off):
                    raise Bad("B is not bidiagonal")
                d, o = [b[i][i] for i in range(k)], [b[i][j] for i, j in off]
            else:
                d, o = (matrix(R, s, p, y) for y in R.ex.val(s, b).f)
                b = [[0.0] * k for _ in range(k)]
                for i in range(k):
                    b[i][i] = d[i]
                for i in range(k - 1):
                    b[i if r >= c else i + 1][i + 1 if r >= c else i] = o[i]
            check_neg(d, "the diagonal of B")
            check_neg(o, "the off-diagonal of B")
            check_orth(u, "U")
            check_orth(t, "Vt", rows=True)
            check_product(mm(mm(u, b), t), given(p, "A", r, c), "bidiagonal decomposition")
            return True
        return uoutcome(R, name, judge, ["Ar", "Ac"], 4, "U B Vt = A, U and Vt orthogonal, diagonals non-negative",
                        gen_arrays(), seeds=range(8))
    return run


def c11_tridiag(variant):
    meths = ["generate_q", variant]

    def run(P, stats):
        name = f"tridiag.{variant}"
        R = vrun(P, stats, name, parts_entry(name, TRI, "TridiagonalDecomp", meths))

        def judge(s, v, p, ints):
            n = ints["Ar"]
            if n != ints["Ac"] or n == 0:
                return None
            x, e = okval(R, s, v)
            if e is not None:
                raise Bad(f"{e} reported for a non-empty square matrix")
            q, t = x.f
            q = matrix(R, s, p, q)
            if variant == "into_tridiag_matrix":
                t = matrix(R, s, p, t)
                if any(abs(t[i][j]) > 1e-12 for i in range(n) for j in range(n) if abs(i - j) > 1):
                    raise Bad("T is not tridiagonal")
                o = [t[i + 1][i] for i in range(n - 1)]
            else:
                d, o = (matrix(R, s, p, y) for y in R.ex.val(s, t).f)
                t = [[d[i] if i == j else o[min(i, j)] if abs(i - j) == 1 else 0.0 for j in range(n)] for i in range(n)]
            check_neg(o, "the off-diagonal of T")
            check_orth(q, "Q")
            check_product(mm(mm(q, t), tr(q)), given(p, "A", n, n), "tridiagonal decomposition")
            return True
        return uoutcome(R, name, judge, ["Ar", "Ac"], 5, "Q T Qt = A, Q orthogonal, off-diagonals non-negative",
                        gen_arrays(sym=True), seeds=range(8))
    return run


def c11_jobs(t):
    return ([vjob(f"qr.{v}", c11_qr(v)) for v in ("decomp", "parts")]
            + [vjob(f"bidiag.{v}", c11_bidiag(v), 20) for v in ("into_b", "into_diagonals")]
            + [vjob(f"tridiag.{v}", c11_tridiag(v), 2) for v in ("into_tridiag_matrix", "into_diagonals")])


spec(
    "C11",
    jobs=c11_jobs,
    rule="factor recurrences of the Householder decompositions multiply to the original matrix, factors orthogonal, "
    "reported diagonals non-negative",
    explain="the factor recurrences of the Householder decompositions (all accessors, tall, square and wide) for every shape up to 4 "
    "or 5; orthogonality, shape of the middle factor, sign of the reported diagonals, product",
    technique=TECH, assumptions=ASSUME + UASSUME,
)
