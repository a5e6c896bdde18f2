"""C16, C17: the block eigensolver at the level of matrices.

The inner factorizations (Cholesky, triangular solve, symmetric eigensolver) are replaced by what
C09, C12 and C14 establish; the operator and the preconditioner are unknown functions.  What is
left of the solver is one loop over a few matrices, whose single iteration has a closed form.  The
obligations relate the carried matrices before and after one iteration, for arbitrary ones, and the
value returned at every exit to what is carried there."""
from .p_iter import *


# ---------------------------------------------------------------- contracts of the inner operations
def is_whole(st, v):
    i = tuple(Lin(7 + k) for k in range(len(v.axes)))
    return not v.fixed and all(st.facts.canon(x) == st.facts.canon(y) for x, y in zip(v.index(i), i))


def lob_stubs(R):
    """factorizations as named functions of their arguments; R.calls: name -> what it stands for"""
    ex, P = R.ex, R.P
    R.calls = {}
    le = R.adt("LinalgError")
    vi = {v["n"]: i for i, v in enumerate(P.adts[le]["v"])}

    def made(s, kind, dims, *src):
        nm = T.uid(kind)
        R.calls[nm] = (kind, tuple((s.heap[v.obj], v) if isinstance(v, ArrV) else v for v in src))
        return nm, lambda dims, suf="": ex.new_arr(s, dims, mk("fresh", nm + suf, len(dims)), kind)

    def chol(ex_, st, f, args):
        a = ex.val(st, args[0])
        if not isinstance(a, ArrV) or len(a.axes) != 2:
            return None
        n, c = a.dims
        if not st.facts.ent_eq(n - c):
            return None
        out = []
        s = st.copy()
        nm, arr = made(s, "chol", a.dims, a)
        sure = getattr(ex, "ybase", None) is not None and is_gram(st, st.heap[a.obj], ex.ybase)
        for s, good in zip((s, None) if sure else ex.split(s, mk("bapp", "pd:" + nm)), (True, False)):
            if s is None:
                continue
            if good:
                r = ex.new_arr(s, a.dims, mk("fresh", nm, 2), "chol")
                out.append((s, ok(r)))
            else:
                out.append((s, err(Agg("adt", le, vi["NotPositiveDefinite"], ()))))
        return out

    def tri_solve(ex_, st, f, args):
        a, b = ex.val(st, args[0]), ex.val(st, args[1])
        u = ex.val(st, args[2])
        if not isinstance(a, ArrV) or not isinstance(b, ArrV) or len(a.axes) != 2 or not isinstance(u, Agg):
            return None
        if not (st.facts.ent_eq(a.dims[0] - a.dims[1]) and st.facts.ent_eq(a.dims[0] - b.dims[0])):
            return None
        s = st.copy()
        nm, arr = made(s, "tris", b.dims, a, b, P.adts[u.key]["v"][u.variant]["n"])
        return [(s, ok(arr(b.dims)))]

    def eig(ex_, st, f, args):
        a = ex.val(st, args[0])
        if not isinstance(a, ArrV) or len(a.axes) != 2 or not st.facts.ent_eq(a.dims[0] - a.dims[1]):
            return None
        s = st.copy()
        nm, arr = made(s, "eig", a.dims, a)
        return [(s, ok(tup(arr(a.dims[:1], ".w"), arr(a.dims, ".v"))))]

    def sort(ex_, st, f, args):
        v = ex.val(st, args[0])
        if not isinstance(v, Agg) or len(v.f) != 2:
            return None
        a, b = (ex.val(st, x) for x in v.f)
        o = ex.val(st, args[1])
        if not isinstance(a, ArrV) or not isinstance(b, ArrV) or len(a.axes) != 1 or len(b.axes) != 2 or not isinstance(o, Agg):
            return None
        if not st.facts.ent_eq(a.dims[0] - b.dims[1]):
            return None
        s = st.copy()
        nm, arr = made(s, "sort", b.dims, a, b, P.adts[o.key]["v"][o.variant]["n"])
        return [(s, tup(arr(a.dims, ".w"), arr(b.dims, ".v")))]

    def opaque(ex_, st, fv, args):
        v = ex.val(st, args[0])
        if fv.name == "a":
            nm, arr = made(st, "op", v.dims, v)
            return [(st, arr(v.dims))]
        if fv.name == "m":
            if not is_whole(st, v):
                return None
            nm, arr = made(st, "pre", v.dims, v)
            st.heap[v.obj] = mk("fresh", nm, 2)
            return [(st, UNIT)]
        return None
    ex.opq_call = opaque
    for tr in ("CholeskyInplace", "Cholesky"):
        for m in ("cholesky_into", "cholesky"):
            for k in P.find(tr, m):
                ex.stubs[k] = chol
    for tr, m in (("SolveTriangularInplace", "solve_triangular_into"), ("SolveTriangular", "solve_triangular")):
        for k in P.find(tr, m):
            ex.stubs[k] = tri_solve
    for tr, m in (("EighInto", "eigh_into"), ("Eigh", "eigh")):
        for k in P.find(tr, m):
            ex.stubs[k] = eig
    for k in P.find("EigSort", "sort_eig"):
        ex.stubs[k] = sort


from .entries import lobkey, is_gram, Entry  # noqa


def lob_run(P, stats, wy, order):
    memo = P.__dict__.setdefault("lob_runs", {})
    if (wy, order) not in memo:
        def f(R, st):
            lob_stubs(R)
            x = R.mat(st, "X")
            y = NONE
            if wy:
                ya = R.mat(st, "Y", r="Xr", owned=False)
                R.ex.ybase = st.heap[ya.obj]
                y = some(ya)
            st.facts = st.facts.add_ge(L("Xc") - 1).add_ge(L("Xr") - L("Xc"))
            return R.call(st, lobkey(R), [OpqFn("a"), x, OpqFn("m"), y, mk("fsym", "tol"), L(declare("maxiter")),
                                          R.enum("Order", order)])
        R = Run(P, Entry(f"lobpcg.{'y' if wy else 'n'}.{order}", f), jv=False, real=True, quick=False)
        R.go()
        memo[wy, order] = R
    note_functions(memo[wy, order], stats)
    return memo[wy, order]


# ---------------------------------------------------------------- matrices
def chol_of(a, tol=1e-20):
    """lower Cholesky factor (None: not positive definite)"""
    n = len(a)
    l = [[0.0] * n for _ in range(n)]
    for j in range(n):
        d = a[j][j] - sum(x * x for x in l[j][:j])
        if not d > tol:
            return None
        l[j][j] = math.sqrt(d)
        for i in range(j + 1, n):
            l[i][j] = (a[i][j] - sum(l[i][k] * l[j][k] for k in range(j))) / l[j][j]
    return l


def tri_solved(a, b, lower):
    n, m = len(a), len(b[0]) if b else 0
    x = [[0.0] * m for _ in range(n)]
    for i in (range(n) if lower else range(n - 1, -1, -1)):
        if a[i][i] == 0:
            raise Undefined()
        ks = range(i) if lower else range(i + 1, n)
        for j in range(m):
            x[i][j] = (b[i][j] - sum(a[i][k] * x[k][j] for k in ks)) / a[i][i]
    return x


def jacobi(a):
    """eigenvalues and vectors (columns) of a symmetric matrix; only the lower triangle is read"""
    n = len(a)
    a = [[a[max(i, j)][min(i, j)] for j in range(n)] for i in range(n)]
    v = eye(n)
    for _ in range(60):
        off = sum(a[i][j] ** 2 for i in range(n) for j in range(i))
        if off <= 1e-34 * (1e-300 + sum(a[i][i] ** 2 for i in range(n))):
            break
        for p in range(n):
            for q in range(p + 1, n):
                if a[p][q] == 0:
                    continue
                th = (a[q][q] - a[p][p]) / (2 * a[p][q])
                t = math.copysign(1.0, th) / (abs(th) + math.sqrt(th * th + 1))
                c = 1 / math.sqrt(t * t + 1)
                s = t * c
                for k in range(n):
                    x, y = a[k][p], a[k][q]
                    a[k][p], a[k][q] = c * x - s * y, s * x + c * y
                for k in range(n):
                    x, y = a[p][k], a[q][k]
                    a[p][k], a[q][k] = c * x - s * y, s * x + c * y
                    x, y = v[k][p], v[k][q]
                    v[k][p], v[k][q] = c * x - s * y, s * x + c * y
    return [a[i][i] for i in range(n)], v


def gs(cols, tol=1e-9):
    """orthonormal basis (list of vectors) of the span of the vectors"""
    out = []
    for c in cols:
        n0 = math.sqrt(sum(x * x for x in c))
        for _ in range(2):
            for b in out:
                d = sum(x * y for x, y in zip(b, c))
                c = [x - d * y for x, y in zip(c, b)]
        n1 = math.sqrt(sum(x * x for x in c))
        if n1 > tol * (n0 + 1e-300) and n1 > 1e-11:
            out.append([x / n1 for x in c])
    return out


def ritz(a, cols, k, largest):
    """the k extreme eigenvalues of the operator projected on the span of the vectors"""
    b = gs(cols)
    ab = [[sum(x * y for x, y in zip(r, c)) for r in a] for c in b]
    w, _ = jacobi([[sum(x * y for x, y in zip(b[i], ab[j])) for j in range(len(b))] for i in range(len(b))])
    return sorted(w, reverse=largest)[:k]


# ---------------------------------------------------------------- points
class Problem:
    def __init__(self, key, n, k, ny, pre, tol, maxiter, eps, order, amap=None, x0=None):
        self.key, self.n, self.k, self.ny = key, n, k, ny
        self.tol, self.maxiter, self.eps, self.largest = tol, maxiter, eps, order == "Largest"
        self.pre, _, self.fault = pre.partition("+")
        a = [[rnd(key, "a", *sorted((i, j))) * 0.5 for j in range(n)] for i in range(n)]
        self.a = amap or [[a[i][j] + (1.0 + i if i == j else 0.0) for j in range(n)] for i in range(n)]
        self.x0 = x0 or [[rnd(key, "x", i, j) for j in range(k)] for i in range(n)]
        self.y = [[rnd(key, "y", i, j) * (1 + j) for j in range(ny)] for i in range(n)]
        m = [[rnd(key, "m", i, j) * 0.3 for j in range(n)] for i in range(n)]
        self.m = [[m[i][j] + m[j][i] + (1.0 if i == j else 0.0) for j in range(n)] for i in range(n)]

    def precond(self, b):
        if self.pre == "id":
            return b
        if self.pre == "zero":
            return [[0.0 for _ in r] for r in b]
        if self.pre == "later":  # residuals vanish under it from the second iteration on
            u = tr(projected(self, [[rnd(self.key, "u", i, j) for i in range(self.n)] for j in range(self.k)]))
            return mm(u, mm(tr(u), b))
        return mm(self.m, b)

    def ints(self):
        d = {"Xr": self.n, "Xc": self.k, "maxiter": self.maxiter}
        if self.ny:
            d["Yc"] = self.ny
        return d

    def text(self):
        return (f"n={self.n} k={self.k} constraints={self.ny} maxiter={self.maxiter} tol={self.tol:.3g} "
                f"preconditioner={self.pre} {'failing factorization of ' + self.fault + ' ' if self.fault else ''}{'largest' if self.largest else 'smallest'}")


class LPoint(XPoint):
    maxheads = 6
    MAXT = 8
    free = 6

    def child(self, *a):
        p = super().child(*a)
        p.calls, p.prob = self.calls, self.prob
        return p

    def called(self, nm):
        d = self.__dict__.setdefault("cmemo", {})
        r = d.get(nm)
        if r is None:
            r = d[nm] = self.call(nm)
        if r == "failed":
            raise Undefined()
        return r

    def operand(self, x):
        c, v = x
        r = [range(self.int(d)) for d in v.dims]
        if len(r) == 1:
            return [self.read(c, tuple(self.int(z) for z in v.index((Lin(i),)))) for i in r[0]]
        return [[self.read(c, tuple(self.int(z) for z in v.index((Lin(i), Lin(j))))) for j in r[1]] for i in r[0]]

    def call(self, nm):
        kind, a = self.calls[nm]
        if kind == "chol":
            m, q = self.operand(a[0]), self.prob
            if q.fault == "gram" and len(m) > q.k or q.fault == "large gram" and len(m) > 2 * q.k:
                return "failed"
            return chol_of(m) or "failed"
        if kind == "tris":
            return tri_solved(self.operand(a[0]), self.operand(a[1]), a[2] == "Lower")
        if kind == "eig":
            return jacobi(self.operand(a[0]))
        if kind == "sort":
            w, v = self.operand(a[0]), self.operand(a[1])
            o = sorted(range(len(w)), key=lambda i: w[i], reverse=a[2] == "Largest")
            return [w[i] for i in o], [[r[i] for i in o] for r in v]
        if kind == "op":
            return mm(self.prob.a, self.operand(a[0]))
        b = self.operand(a[0])
        return self.prob.precond(b)

    def _read(self, c, idx):
        if c.op == "fresh":
            nm, _, part = c.a[0].partition(".")
            if nm in self.calls:
                r = self.called(nm)
                if part == "w":
                    return r[0][idx[0]]
                if part == "v":
                    r = r[1]
                return r[idx[0]][idx[1]]
        return super()._read(c, idx)

    def b(self, t):
        if isinstance(t, N) and t.op == "bapp" and t.a[0].startswith("pd:"):
            try:
                self.called(t.a[0][3:])
                return True
            except Undefined:
                if self.__dict__.get("cmemo", {}).get(t.a[0][3:]) == "failed":
                    return False
                raise
        return super().b(t)


def lob_point(R, prob, facts, cache):
    p = LPoint(("l",), facts, R.ex, False, cache, ints=prob.ints())
    p.calls, p.prob = R.calls, prob
    p.arrays = {"X": as_dict(prob.x0), "Y": as_dict(prob.y)}
    p.eps = prob.eps
    p.base_over = p.over = {mk("fsym", "tol"): prob.tol}
    return p


from .p_svd import as_dict  # noqa
from .unfold import symbols, at_path  # noqa


class Out:
    """what the solver returns at a point, and the point"""

    def __init__(self, kind, err, w, x, rn, p, s):
        self.kind, self.err, self.w, self.x, self.rn, self.p, self.s = kind, err, w, x, rn, p, s


def lob_out(R, prob):
    """the return at a point; raises Unknown when it is not decided"""
    cache, hits, why = {}, [], None
    for s, v in R.res:
        f = s.facts
        for d, x in prob.ints().items():
            f = f.add_eq(L(d) - x) if f is not None else None
        if f is None:
            continue
        script, n = [], 0
        while script is not None and n < 64:
            n += 1
            p = lob_point(R, prob, f, cache)
            p.script = script
            try:
                if exact_at(p, p.facts):
                    hits.append((p, s, v))
                    break
            except Infeasible:
                pass
            except (Unknown, Undefined) as e:
                why = why or e
                break
            script = p.next_script()
    if not hits or why:
        raise Unknown(f"return state ({why})")
    p, s, v = hits[0]
    if s.taint:
        raise Unknown(taint_text(s.taint))
    P = R.P
    v = R.ex.val(s, v)
    kind, e, res = "Ok", None, v.f[0]
    if is_agg(v, RESULT, 1):
        x = R.ex.val(s, v.f[0])
        e, o = (R.ex.val(s, y) for y in x.f)
        e = P.adts[e.key]["v"][e.variant]["n"] if isinstance(e, Agg) else "?"
        kind, res = "Err", (o.f[0] if is_agg(o, OPTION, 1) else None)
    if res is None:
        return Out(kind, e, None, None, None, p, s)
    res = R.ex.val(s, res)
    w = matrix(R, s, p, R.field(res, "eigvals"))
    x = matrix(R, s, p, R.field(res, "eigvecs"))
    rn = R.field(res, "rnorm")
    n = p.int(R.ex.models.node_len(R.ex, s, rn.node))
    return Out(kind, e, w, x, [p.elem(s, rn, i) for i in range(n)], p, s)


# ---------------------------------------------------------------- what the loop carries
def main_loop(R, o):
    """the iteration a return state went through: the outermost loop that carries the most matrices"""
    best = None
    syms = fact_syms(o.s.facts)
    for rec in R.ex.loops:
        if rec.outer or rec.kap not in syms and rec.kap not in o.p.ints:
            continue
        c = places(R, rec)
        if c and (best is None or len(c) > len(best[1])):
            best = (rec, c)
    return best


def walk(v, path=()):
    if isinstance(v, ArrV):
        yield path, v
    elif isinstance(v, Agg):
        for i, x in enumerate(v.f):
            yield from walk(x, path + (i,))
    elif isinstance(v, VRef):
        yield from walk(v.v, path + (0,))


def places(R, rec):
    """paths of the arrays that change from one iteration to the next"""
    env = symbols(R.ex)
    out = []
    for H, hs in rec.heads:
        for fid, fr in hs.frames.items():
            for loc, v in fr.items():
                for path, a in walk(v):
                    c = hs.heap.get(a.obj)
                    if len(a.axes) in (1, 2) and c is not None and c.op == "fresh" and c.a[0] in env and env[c.a[0]][0] is rec:
                        p = (fid, loc) + path
                        if p not in out:
                            out.append(p)
    return out


class Carried:
    """the arrays at the start of iteration t"""

    def __init__(self, R, out, loop, t):
        rec, paths = loop
        G, p, s = out.p.chain(rec, t)
        self.m = {}
        for path in paths:
            try:
                v = at_path(s.frames[path[0]][path[1]], path[2:])
                if isinstance(v, ArrV):
                    self.m[path] = matrix(R, s, p, v)
            except (Unknown, Undefined, Infeasible, KeyError, TypeError, IndexError, AttributeError):
                pass

    def mats(self, n, k):
        return {q: x for q, x in self.m.items() if len(x) == n and isinstance(x[0], list) and len(x[0]) == k}

    def vecs(self, k):
        return {q: x for q, x in self.m.items() if len(x) == k and not isinstance(x[0], list)}


def near(a, b, tol=1e-7):
    return len(a) == len(b) and all(abs(x - y) <= tol * (1 + abs(x) + abs(y)) for r, q in zip(a, b) for x, y in zip(r, q))


def orthonormal(x, tol=1e-7):
    return near(mm(tr(x), x), eye(len(x[0])), tol)


def rayleigh(a, x):
    return [row[j] for j, row in enumerate(mm(tr(x), mm(a, x)))]


def resid(a, w, x):
    ax = mm(a, x)
    return [math.sqrt(sum((ax[i][j] - w[j] * x[i][j]) ** 2 for i in range(len(x)))) for j in range(len(w))]


def iterate(a, c, n, k, tol=1e-7):
    """the places of the current eigenvalues and vectors: pairs (values, orthonormal vectors) that match"""
    return [(i, j) for i, w in c.vecs(k).items() for j, x in c.mats(n, k).items()
            if orthonormal(x, tol) and near([rayleigh(a, x)], [w], tol)]


# ---------------------------------------------------------------- judging
class Tally:
    def __init__(self):
        self.good, self.bad, self.und = 0, None, {}

    def fail(self, why, prob):
        if self.bad is None:
            self.bad = (why, [prob.text()])


def lob_verdicts(rule, name, t):
    out = []
    if t.bad:
        out.append(Verdict("violation", rule, name, t.bad[0], name, path=t.bad[1]))
    for w in t.und:
        out.append(Verdict("undetermined", rule, name, w, name))
    if t.good:
        out.append(Verdict("ok", rule, name, "", name, n=t.good))
    return out


def projected(prob, cols):
    """orthogonal complement of the constraints"""
    y = gs([list(c) for c in zip(*prob.y)]) if prob.ny else []
    out = []
    for c in cols:
        for b in y:
            d = sum(p * q for p, q in zip(b, c))
            c = [p - d * q for p, q in zip(c, b)]
        out.append(c)
    return out


def true_pair(prob, o):
    """why the reported triple is not what it says (None: it is)"""
    n, k, a = prob.n, prob.k, prob.a
    if len(o.w) != k or len(o.rn) != k or len(o.x) != n or any(len(r) != k for r in o.x):
        return "not one value, vector and residual norm per requested pair"
    if not near([resid(a, o.w, o.x)], [o.rn]):
        return "the residual norms are not those of the values and vectors returned with them"
    return None


def c16_points(R, wy, order, cases):
    def run_(t):
        for key, n, k, pre, tols, eps, ms in cases:
            for tol in tols:
                prev = None
                for M in ms:
                    prob = Problem((key, n, k, wy), n, k, wy, pre, tol, M, eps, order)
                    prev = one(t, prob, prev, M - 1 in ms)

    def one(t, prob, prev, consec):
        try:
            o = lob_out(R, prob)
            if o.x is None:
                x0 = projected(prob, [list(c) for c in zip(*prob.x0)])
                if len(gs(x0)) == prob.k:
                    t.fail(f"{o.err} is returned without the best iterate, after iterations on an initial block of full rank", prob)
                else:
                    t.good += 1
                return None
            why = true_pair(prob, o)
            if why:
                t.fail(why, prob)
                return None
            loop = main_loop(R, o)
            total = sum(o.rn)
            if loop is None:
                # left before the first step was complete
                t.good += 1
                return (total, 0)
            T = o.p.int(L(loop[0].kap))
            if T > prob.maxiter:
                t.fail(f"{T} iterations are made, the limit is {prob.maxiter}", prob)
                return None
            if prev is not None and consec and total > prev[0] + 1e-7 * (1 + prev[0]):
                t.fail("the result is worse than that of a smaller iteration limit", prob)
                return None
            # every iterate computed on the way
            ids = None
            open_ = [True] * prob.k  # pairs that have not converged so far
            for i in range(T + 1):
                c = Carried(R, o, loop, i)
                if ids is None:
                    ids = iterate(prob.a, c, prob.n, prob.k)
                    if not ids:
                        t.und["the current iterate is not among the carried values"] = 1
                        break
                for a, b in ids:
                    w, x = c.m.get(a), c.m.get(b)
                    if w is None or x is None:
                        continue
                    if orthonormal(x) and near([rayleigh(prob.a, x)], [w]) and sum(resid(prob.a, w, x)) < total - 1e-7 * (1 + total):
                        t.fail(f"the iterate of iteration {i} of {T} has smaller residual norms than the one returned", prob)
                        return None
                    if orthonormal(x) and near([rayleigh(prob.a, x)], [w]) and (a, b) == ids[0]:
                        open_ = [q and z > max(2 * prob.tol, 1e-7) for q, z in zip(open_, resid(prob.a, w, x))]
            if ids and o.kind == "Ok" and all(open_) and T < prob.maxiter - 1:
                t.fail(f"the iteration ends after {T} steps although no pair has converged, and no error is returned", prob)
                return None
            t.good += 1
            return (total, T)
        except Infeasible:
            t.und["an iteration without a successor"] = 1
        except (Unknown, Undefined) as e:
            t.und[f"value returned not in closed form ({e})"] = 1
        return None

    t = Tally()
    run_(t)
    return t


NONE_TOL, MID_TOL, ALL_TOL = 1e-9, 0.35, 50.0


def c16_job(wy, order, cases):
    def run(P, stats):
        R = lob_run(P, stats, wy, order)
        return lob_verdicts("every exit returns the best iterate, consistent, within the iteration limit",
                            f"lobpcg ({'constrained, ' if wy else ''}{order})", c16_points(R, wy, order, cases))
    return run


def c17_job(wy, order, cases):
    rule = "iterates, images and reduced problems are consistent"

    def run(P, stats):
        R = lob_run(P, stats, wy, order)
        t = Tally()
        for key, n, k, pre, tol, eps, M in cases:
            c17_point(R, t, Problem((key, n, k, wy), n, k, wy, pre, tol, M, eps, order))
        return lob_verdicts(rule, f"lobpcg ({'constrained, ' if wy else ''}{order})", t)
    return run


def basis_why(prob, w, x, tol=1e-7):
    if not orthonormal(x, tol):
        return "the vectors are not orthonormal"
    if prob.ny and scale(mm(tr(prob.y), x)) > tol * (1 + scale(prob.y)):
        return "the vectors are not orthogonal to the constraints"
    if not near([rayleigh(prob.a, x)], [w], tol):
        return "the values are not the Rayleigh quotients of the vectors"
    return None


def c17_point(R, t, prob):
    n, k, a = prob.n, prob.k, prob.a
    try:
        o = lob_out(R, prob)
        if o.x is None:
            t.und["no iteration at some points"] = 1
            return
        why = basis_why(prob, o.w, o.x) or true_pair(prob, o)
        if why:
            t.fail(why + " in the result", prob)
            return
        loop = main_loop(R, o)
        if loop is None:
            # left at the start
            x0 = projected(prob, [list(c) for c in zip(*prob.x0)])
            if not near([o.w], [ritz(a, x0, k, prob.largest)], 1e-6):
                t.und["the iteration is not a summarised loop"] = 1
            else:
                t.good += 1
            return
        T = o.p.int(L(loop[0].kap))
        cs = [Carried(R, o, loop, i) for i in range(T + 1)]
        ids = iterate(a, cs[0], n, k)
        if not ids:
            t.und["the current iterate is not among the carried values"] = 1
            return
        good = []
        for wp, xp in ids:
            why = None
            for i, c in enumerate(cs):
                if wp not in c.m or xp not in c.m:
                    why = (0, "iterate")
                    break
                w = basis_why(prob, c.m[wp], c.m[xp])
                if w:
                    why = (1, f"{w} at the start of iteration {i}")
                    break
            good.append((why, wp, xp))
        ok_ = [g for g in good if g[0] is None]
        if not ok_:
            why = [g[0] for g in good if g[0][0]]
            if len(why) == len(good):
                t.fail(why[0][1], prob)
            else:
                t.und["the current iterate is not among the carried values"] = 1
            return
        wp, xp = ok_[0][1:]
        # images carried along
        for q, im in cs[0].mats(n, k).items():
            if q != xp and near(im, mm(a, cs[0].m[xp])):
                for i, c in enumerate(cs):
                    if q in c.m and not near(c.m[q], mm(a, c.m[xp])):
                        t.fail(f"the stored image of the vectors is not the operator applied to them at the start of iteration {i}", prob)
                        return
        # the first iterate: the Ritz pairs of the projected initial block
        x0 = projected(prob, [list(c) for c in zip(*prob.x0)])
        if not near([cs[0].m[wp]], [ritz(a, x0, k, prob.largest)], 1e-6):
            t.fail("the first values are not those of the operator projected on the constrained initial block", prob)
            return
        mask = [True] * k
        oldx = oldp = None
        for i in range(T):
            w, x = cs[i].m[wp], cs[i].m[xp]
            rn = resid(a, w, x)
            if any(abs(z - prob.tol) < 1e-6 for z in rn):
                break
            mask = [m and z > prob.tol for m, z in zip(mask, rn)]
            ax = mm(a, x)
            r = [[ax[l][j] - w[j] * x[l][j] for j in range(k)] for l in range(n)]
            act = [[row[j] for j in range(k) if mask[j]] for row in r]
            act = prob.precond(act)
            basis = [list(c) for c in zip(*x)]
            rs = projected(prob, [list(c) for c in zip(*act)])
            cols = basis + rs
            if oldx is not None:
                if all(mask):
                    cols = cols + [list(c) for c in zip(*oldx)]
                elif oldp is not None:
                    cols = cols + [list(c) for j, c in enumerate(zip(*oldp)) if mask[j]]
                else:
                    break
            dim = len(gs(cols, 1e-6))
            if dim < min(len(cols), n - prob.ny):
                break
            want = ritz(a, cols, k, prob.largest)
            w1, x1 = cs[i + 1].m[wp], cs[i + 1].m[xp]
            if any((z - y if prob.largest else y - z) > 1e-6 * (1 + abs(y) + abs(z)) for y, z in zip(w1, want)):
                t.fail(f"the values after iteration {i} are worse than those of the operator projected on the span of iterate, "
                       f"preconditioned residuals{' and previous directions' if oldx is not None else ''}: {w1} instead of {want}", prob)
                return
            ax1 = mm(a, x1)
            r1 = [[ax1[l][j] - w1[j] * x1[l][j] for j in range(k)] for l in range(n)]
            if scale(mm(gs(cols), r1)) > 1e-5 * (1 + scale(a)):
                t.fail(f"the residuals after iteration {i} are not orthogonal to the span that was searched", prob)
                return
            # directions: the part of the new iterate outside the old one (known for the first iteration only)
            pt = mm(tr(x), x1)
            xp1 = mm(x, pt)
            oldp = [[x1[l][j] - xp1[l][j] for j in range(k)] for l in range(n)] if oldx is None else None
            oldx = x
        t.good += 1
    except Infeasible:
        t.und["an iteration without a successor"] = 1
    except (Unknown, Undefined) as e:
        t.und[f"value returned not in closed form ({e})"] = 1


E24, E50 = 2.0 ** -24, 2.0 ** -50


def c16_jobs(t):
    J = []
    for wy in (0, 1):
        for order in ("Largest", "Smallest"):
            nm = f"lobpcg.{'y' if wy else 'n'}.{order}"
            J.append(vjob(nm + ".small", c16_job(wy, order, [(1, 3, 1, "id", (NONE_TOL, MID_TOL, ALL_TOL), E24, (0, 1, 2, 3)),
                                                              (1, 3, 1, "zero", (NONE_TOL, ALL_TOL), E24, (0, 1, 2)),
                                                              (2, 4, 1, "later", (NONE_TOL,), E50, (0, 1, 2, 3)),
                                                              (3, 6, 1, "id", (NONE_TOL, MID_TOL), E50, (0, 1, 2, 3, 4)),
                                                              (4, 6, 1, "spd", (NONE_TOL, 0.8), E24, (0, 1, 2, 3, 4)),
                                                              (7, 5, 1, "id+gram", (NONE_TOL,), E24, (0, 1, 2, 3)),
                                                              (8, 5, 1, "id+large gram", (NONE_TOL,), E24, (0, 1, 2, 3))]), 40))
            J.append(vjob(nm + ".block", c16_job(wy, order, [(5, 5, 2, "id", (NONE_TOL, MID_TOL, 1.0), E24, (0, 1, 2)),
                                                              (6, 5, 2, "later", (NONE_TOL,), E50, (0, 1, 2))]), 60))
    return J


def c17_jobs(t):
    J = []
    for wy in (0, 1):
        for order in ("Largest", "Smallest"):
            nm = f"lobpcg.{'y' if wy else 'n'}.{order}"
            J.append(vjob(nm + ".small", c17_job(wy, order, [(1, 5, 1, "id", NONE_TOL, E24, 3), (2, 6, 1, "spd", NONE_TOL, E50, 3),
                                                              (3, 2, 1, "id", NONE_TOL, E50, 1), (4, 5, 3, "id", NONE_TOL, E50, 0)]), 40))
            J.append(vjob(nm + ".block", c17_job(wy, order, [(5, 8, 2, "id", NONE_TOL, E24, 2)]), 70))
            J.append(vjob(nm + ".mask", c17_job(wy, order, [(i, 7, 2, "spd", tol, E50, 2) for i, tol in ((6, 1.0), (7, 1.5), (8, 2.0))]), 80))
    return J


LASSUME = ["the inner Cholesky factorization, triangular solve and symmetric eigendecomposition satisfy C09, C12 and C14",
           "the operator is linear and symmetric, the preconditioner a function of its argument"]

spec(
    "C16",
    jobs=c16_jobs,
    rule="return states of the block eigensolver against what its loop carries: every exit after the start returns an iterate with "
    "its own values and residual norms, none seen earlier was better, and the loop ends within the configured maximum",
    explain="all return states of the solver (with and without constraints, both orders), the iteration as a summarised loop; the carried "
    "iterates and the returned triple as functions of operator, preconditioner and initial block, at points that converge, that reach the "
    "limit and that fail in an inner factorization at the first or at a later iteration",
    technique=TECH, assumptions=ASSUME + UASSUME + LASSUME,
)
spec(
    "C17",
    jobs=c17_jobs,
    rule="closed form of one iteration of the block eigensolver: vectors orthonormal and orthogonal to the constraints, values their "
    "Rayleigh quotients, stored images the operator applied to the stored vectors; the new values are the extreme Ritz values of the "
    "operator on the searched span and the new residuals are orthogonal to it",
    explain="the start and the iteration of the solver (with and without non-orthonormal constraints, both orders, full and partial active "
    "sets, with and without previous directions)",
    technique=TECH, assumptions=ASSUME + UASSUME + LASSUME,
)
