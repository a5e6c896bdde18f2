"""C12, C13: the iterative eigen- and singular value decompositions.

The iteration loop is found in the analysed operation as the outermost loop that carries two
one-dimensional arrays (main and off diagonal) besides the factor.  What one iteration does to
them is known in closed form (with the inner sweeps as recurrences); the obligation is that the
represented matrix is the same before and after, for arbitrary carried values.  The initial and
final parts are compared through the whole operation at small sizes."""
from .p_factor import *
from .p_pair import *
from .unfold import UPoint, at_path
from .interp import beyond, OBJ



def orth(key, n, r=None):
    """an r x n matrix with orthonormal columns (r >= n), from pseudo-random reflections"""
    r = n if r is None else r
    q = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(r)]
    for k in range(2):
        v = [rnd(key, "h", k, i) for i in range(r)]
        s = sum(x * x for x in v)
        for j in range(n):
            d = 2 * sum(v[i] * q[i][j] for i in range(r)) / s
            for i in range(r):
                q[i][j] -= d * v[i]
    return q


# ---------------------------------------------------------------- the iteration loop
class TPoint(UPoint):
    """a point in the middle of a loop: what the loop carries has arbitrary values"""
    tiny = 0.0
    MAXT = 24


class Carry:
    """a loop that carries arrays, and what it carries"""

    def __init__(self, R, rec):
        self.R, self.rec = R, rec
        self.memo = {}
        self.H, self.hs = rec.heads[0]
        self.arr = {}  # object -> (name of its content, dims)
        self.ints = {}  # symbol -> path
        self.other = []
        self.affine = False
        for path, md in self.H.modes.items():
            if md[0] == "phic" and path[0] == "h":
                self.arr[path[1]] = (md[1].a[0], OBJ[path[1]][0])
            elif md[0] == "phi":
                self.ints[md[1]] = path
            elif md[0] in ("phif", "phio"):
                self.other.append(path)
            elif md[0] == "aff":
                self.affine = True
        self.inner = [r for r in R.ex.loops if rec.kap in r.outer]

    def of_rank(self, nd):
        return [o for o, (_, d) in self.arr.items() if len(d) == nd]

    def places(self, dims):
        """assignments of the carried integers (and the iteration number) the head facts allow"""
        f = self.hs.facts
        for d, x in dims.items():
            f = f.add_eq(L(d) - x) if f is not None else None
        if f is None:
            return
        n = max(dims.values())
        syms = sorted(self.ints)

        def go(g, i, acc):
            if i == len(syms):
                for k in ((0, 1, 2) if self.affine else (1,)):
                    if g.add_eq(L(self.rec.kap) - k) is not None:
                        yield dict(acc, **{self.rec.kap: k})
                return
            for v in range(0, n + 1):
                h = g.add_eq(L(syms[i]) - v)
                if h is not None:
                    yield from go(h, i + 1, acc + [(syms[i], v)])
        yield from go(f, 0, [])

    def steps(self, dims, place, arrays, eps, states=None):
        """(point, state) of the iterations that can be the one taken; raises Unknown when undecided"""
        rec, ex = self.rec, self.R.ex
        cache = {}
        why = None
        ints = dict(dims)
        ints.update(place)
        for s, h in (rec.raws if states is None else states):
            if h is not self.H:
                continue
            f = s.facts
            for k, v in ints.items():
                f = f.add_eq(L(k) - v) if f is not None else None
            if f is None:
                continue
            conds = self.extra(s)
            script, n = [], 0
            while script is not None and n < 64:
                n += 1
                p = TPoint(("t",), f, ex, False, cache, ints=dict(ints))
                p.inside = {rec.kap} | set(rec.outer)
                p.watch = self.inner
                p.scope = (self.hs.facts, self.memo)
                p.arrays, p.eps, p.script = arrays, eps, script
                try:
                    if p.conj(conds) and p.passed(s.facts):
                        if s.taint:
                            raise Unknown(taint_text(s.taint))
                        yield p, s
                        break
                except Infeasible:
                    pass
                except (Unknown, Undefined) as e:
                    why = why or e
                script = p.next_script()
        if why:
            raise Unknown(str(why) or "undefined value")

    def extra(self, s):
        if id(s.facts) not in self.memo:
            self.memo[id(s.facts)] = (s.facts, beyond(s.facts, self.hs.facts))
        return self.memo[id(s.facts)][1]

    def int_at(self, p, s, sym):
        path = self.ints[sym]
        v = at_path(s.frames[path[0]][path[1]], path[2:])
        if not isinstance(v, Lin):
            raise Unknown("carried index")
        return p.int(v)

    def read(self, p, s, obj, shape):
        c = s.heap[obj]
        if len(shape) == 1:
            return [p.read(c, (i,)) for i in range(shape[0])]
        return [[p.read(c, (i, j)) for j in range(shape[1])] for i in range(shape[0])]


def carries(R, want):
    """loops (one head, entered once per call) that carry what want accepts"""
    out = []
    for rec in R.ex.loops:
        if rec.outer or len(rec.heads) != 1 or not rec.raws:
            continue
        c = Carry(R, rec)
        w = want(c)
        if w:
            out.append((c, w))
    return out


def tri(d, o):
    n = len(d)
    t = [[0.0] * n for _ in range(n)]
    for i in range(n):
        t[i][i] = d[i]
        if i + 1 < n:
            t[i][i + 1] = t[i + 1][i] = o[i]
    return t


def powers(t):
    """traces of the powers: equal exactly when the spectra agree"""
    n = len(t)
    m, out = eye(n), []
    for _ in range(n):
        m = mm(m, t)
        out.append(sum(m[i][i] for i in range(n)))
    return out


class Tally:
    def __init__(self):
        self.good, self.bad, self.und = 0, None, {}


def report(tally, rule, name, extra=""):
    out = []
    if tally.bad:
        out.append(Verdict("violation", rule, name, tally.bad[0], name, tally.bad[1]))
    for u in sorted(tally.und):
        out.append(Verdict("undetermined", rule, name, u, name))
    if tally.good:
        out.append(Verdict("ok", rule, name, "", name, n=tally.good))
    return out


# ---------------------------------------------------------------- C12
def eig_want(c):
    ds = [o for o in c.of_rank(1) if same_dim(c, o, "Ar", 0)]
    os_ = [o for o in c.of_rank(1) if same_dim(c, o, "Ar", -1)]
    return [(d, o) for d in ds for o in os_] if c.ints else None


def same_dim(c, o, sym, off, ax=0):
    return c.hs.facts.ent_eq(OBJ[o][0][ax] - L(sym) - off)


def tri_atoms(key, n, kind, lo, hi, eps, clean):
    """diagonal and off-diagonal entries; decoupled before lo, and (clean) nothing negligible inside"""
    d = [rnd(key, "d", i) for i in range(n)]
    o = [rnd(key, "o", i) for i in range(n - 1)]
    if kind == "zeros":
        o = [0.0 if h01(key, "z", i) < 0.5 else x for i, x in enumerate(o)]
    elif kind == "small":
        o = [x * eps * 0.05 if h01(key, "z", i) < 0.5 else x for i, x in enumerate(o)]
    elif kind == "equal":
        d = [1.5] * n
    elif kind == "nodiag":
        d = [0.0 if h01(key, "y", i) < 0.5 else x for i, x in enumerate(d)]
    elif kind == "last":
        for i in range(lo, hi):
            if i == hi - 1 or h01(key, "z", i) < 0.5:
                o[i] = 1.5 * eps * (abs(d[i]) + abs(d[i + 1]))
    elif kind == "graded":
        d = [math.copysign(10.0 ** (-3 * h01(key, "gd", i)), x) for i, x in enumerate(d)]
        o = [math.copysign(10.0 ** (-9 * h01(key, "gf", i)), x) for i, x in enumerate(o)]
    elif kind == "near":
        d = [x * 0.4 for x in d]
        o = [math.copysign(2.5 * eps * 16.0 ** (2 * h01(key, "gf", i)), x) for i, x in enumerate(o)]
    elif kind == "grid":
        d = [small(key, "d", i) for i in range(n)]
        o = [small(key, "o", i) or 1.0 for i in range(n - 1)]
    if clean:
        for i in range(lo, hi):
            if slight(o[i], d[i], d[i + 1], eps):
                o[i] = 0.5 + rnd(key, "r", i) ** 2
    if 0 < lo <= n - 1:
        o[lo - 1] = 0.0
    return d, o


def slight(x, a, b, eps):
    return abs(x) <= 1.01 * eps * (abs(a) + abs(b))


TK = ("generic", "zeros", "small", "equal", "last", "grid", "nodiag", "graded", "near")


def c12_step(name, vecs, sizes):
    rule = "one iteration keeps the represented matrix"

    def run(P, stats):
        R = vrun(P, stats, name)
        found = carries(R, eig_want)
        if not found:
            return [Verdict("undetermined", rule, name, "no iteration over a diagonal and an off-diagonal found", name)]
        out = []
        for c, pairs in found:
            qs = [o for o in c.of_rank(2) if same_dim(c, o, "Ar", 0) and same_dim(c, o, "Ar", 0, 1)] if vecs else [None]
            syms = sorted(c.ints)
            cand = [(d, o, q, a, b) for d, o in pairs for q in qs for a in syms for b in syms if a != b]
            if c.other or not cand:
                out.append(Verdict("undetermined", rule, name, "the iteration carries something else", name))
                continue
            best = None
            for role in [(True,) + x for x in cand] + [(False,) + x for x in cand]:
                t = eig_role(c, role, sizes)
                if t.bad is None and t.good:
                    best = t
                    break
                if best is None or t.good > best.good:
                    best = t
            out += report(best, rule, name)
            if not best.good and not best.bad:
                out.append(Verdict("undetermined", rule, name, "no iteration with a closed form", name))
        return out
    return run


def eig_role(c, role, sizes):
    clean, dg, of, q, lo, hi = role
    t = Tally()
    for n in sizes:
        dims = {"Ar": n, "Ac": n}
        for place in c.places(dims):
            l, h = place[lo], place[hi]
            if not 0 <= l < h < n:
                continue
            for kind in TK:
                for eps in (2.0 ** -24, 2.0 ** -50 if kind in ("near", "graded") else 2.0 ** -10):
                    key = (n, kind, l, h)
                    d, o = tri_atoms(key, n, kind, l, h, eps, clean)
                    arrays = {c.arr[dg][0]: lambda ix: d[ix[0]], c.arr[of][0]: lambda ix: o[ix[0]]}
                    qm = orth(key, n)
                    if q is not None:
                        arrays[c.arr[q][0]] = lambda ix: qm[ix[0]][ix[1]]
                    t0 = tri(d, [x if i < h else 0.0 for i, x in enumerate(o)])
                    tol = 1e-10 + 20 * n * eps
                    try:
                        for p, s in c.steps(dims, place, arrays, eps):
                            d1 = c.read(p, s, dg, (n,))
                            o1 = c.read(p, s, of, (n - 1,))
                            l1, h1 = c.int_at(p, s, lo), c.int_at(p, s, hi)
                            t1 = tri(d1, [x if i < h1 else 0.0 for i, x in enumerate(o1)])
                            why = None
                            if q is not None:
                                q1 = c.read(p, s, q, (n, n))
                                if differ(mm(tr(q1), q1), eye(n), 1e-7):
                                    why = "the vectors do not stay orthonormal"
                                elif differ(mm(mm(q1, t1), tr(q1)), mm(mm(qm, t0), tr(qm)), tol):
                                    why = "values and vectors are not transformed by the same rotations"
                            a, b = powers(t0), powers(t1)
                            m = 1.0 + scale(t0)
                            if why is None and any(abs(x - y) > 30 * tol * m ** (i + 1) * n for i, (x, y) in enumerate(zip(a, b))):
                                why = "the step is not an orthogonal similarity of the tridiagonal matrix"
                            if why is None and 0 < l1 <= h1 and abs(o1[l1 - 1]) > tol * m:
                                why = "the next block is cut off where the off-diagonal entry is not negligible"
                            if why is None and clean and any(abs(o1[i]) <= 0.99 * eps * (abs(d1[i]) + abs(d1[i + 1])) for i in range(l1, h1)):
                                why = "a negligible off-diagonal entry is left inside the next block"
                            if why is None:
                                t.good += 1
                            elif t.bad is None:
                                t.bad = (why, [f"n={n} block {l}..{h} ({kind})", f"under {facts_text(s.facts)}"])
                    except (Unknown, Undefined) as e:
                        t.und.setdefault(f"step without a closed form ({e})", 1)
    return t


# ---------------------------------------------------------------- dependence of the values on the vectors
class Flow:
    """which named contents a content depends on, through every loop (decisions included)"""

    def __init__(self, R):
        from .unfold import symbols
        self.R, self.env = R, symbols(R.ex)
        self.kaps = R.ex._unfold_env[2]
        self.tmemo, self.lmemo = {}, {}

    def names(self, x, out):
        """symbols of a term, an index or a value"""
        if isinstance(x, N):
            r = self.tmemo.get(id(x))
            if r is None:
                r = set()
                for t in T.nodes_of(x):
                    if t.op in ("fresh", "fsym", "base"):
                        r.add(t.a[0])
                    for a in t.a:
                        self.index(a, r)
                self.tmemo[id(x)] = (r, x)
            else:
                r = r[0]
            out |= r
        elif isinstance(x, Lin):
            self.index(x, out)
        elif isinstance(x, Agg):
            for y in x.f:
                self.names(y, out)
        elif isinstance(x, ArrV):
            pass
        elif isinstance(x, (tuple, list)):
            for y in x:
                self.names(y, out)

    def index(self, x, out):
        if isinstance(x, Lin):
            for s in x.allsyms():
                if s in self.env or s in self.kaps:
                    out.add(s)
        elif isinstance(x, tuple):
            for y in x:
                self.index(y, out)

    def facts(self, f, out, base=None):
        for l in f.lits:
            if base is None or l not in base.lits:
                self.names(l, out)

    def control(self, rec):
        """what decides the path through a loop and how often it runs"""
        r = self.lmemo.get(rec.kap)
        if r is None:
            r = self.lmemo[rec.kap] = set()
            for s, H in rec.raws:
                self.facts(s.facts, r)
            for _, f, H, _ in rec.outs:
                self.facts(f, r)
        return r

    def closure(self, start):
        seen, todo = set(), set(start)
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            new = set()
            x = self.env.get(s)
            if s in self.kaps:
                new |= self.control(self.kaps[s])
            if x is not None:
                rec, H, kind, place = x
                new |= self.control(rec)
                for st in [rec.entry] + [s2 for s2, h in rec.raws if h is H]:
                    if kind == "c":
                        if place in st.heap:
                            self.names(st.heap[place], new)
                    else:
                        try:
                            v = at_path(st.frames[place[0]][place[1]], place[2:])
                        except (Unknown, KeyError):
                            continue
                        if isinstance(v, ArrV):
                            self.names(st.heap[v.obj], new)
                        else:
                            self.names(v, new)
            todo |= new - seen
        return seen


def c12_flow(name):
    rule = "eigenvalues do not depend on the vectors"

    def run(P, stats):
        R = vrun(P, stats, name)
        F = Flow(R)
        out, good = [], 0
        # contents that only ever belong to the returned vectors
        for s, v in R.res:
            x, e = okval(R, s, v)
            if e is not None:
                continue
            x = R.ex.val(s, x)
            w = R.ex.val(s, x.f[0])
            q = R.ex.val(s, x.f[1])
            a, b = set(), set()
            F.names(s.heap[w.obj], a)
            F.facts(s.facts, a)
            a = F.closure(a)
            F.names(s.heap[q.obj], b)
            b = {y for y in F.closure(b) if y in F.env and F.env[y][2] == "c" and F.env[y][3] == q.obj}
            if s.taint:
                out.append(Verdict("undetermined", rule, name, taint_text(s.taint), name))
            elif a & b:
                out.append(Verdict("undetermined", rule, name, "the values read the content of the vectors", name))
            else:
                good += 1
        if good:
            out.append(Verdict("ok", rule, name, "", name, n=good))
        return out
    return run


# ---------------------------------------------------------------- whole operation
def eig_arrays(key3, ints):
    """symmetric matrices of several kinds, also with large and small factors and nearly diagonal"""
    key = (key3[0], tuple(sorted(ints.items())))
    n = ints["Ar"]
    a = {"A": lambda ix: rnd(key, ix)}
    if n != ints["Ac"]:
        return a
    sd = key3[0]
    b = dense(key, n, n, KINDS[sd % len(KINDS)])
    b = [[b[i][j] + b[j][i] for j in range(n)] for i in range(n)]
    if sd == 6:
        b = [[b[i][j] if i == j else 0.0 for j in range(n)] for i in range(n)]
    elif sd == 8:
        b = [[0.5 * b[i][i] / n + i if i == j else 1.5 * 2.0 ** -20 * (i + j) if abs(i - j) == 1 else 0.0 for j in range(n)]
             for i in range(n)]
        b = [[x / 7.0 for x in r] for r in b]
        if n:
            b[n - 1][n - 1] += 3.0
    elif sd == 9:  # nothing on the diagonal
        b = [[0.0 if i == j else b[i][j] + 0.1 for j in range(n)] for i in range(n)]
    elif sd == 10:  # one pair of entries away from the diagonal
        b = [[0.0 if n > 1 and {i, j} != {0, n - 1} else 1.5 for j in range(n)] for i in range(n)]
    elif sd == 11:  # negative, the largest magnitude away from the diagonal
        b = [[-1.0 - abs(b[i][j]) if i == j else -40.0 - i - j for j in range(n)] for i in range(n)]
    elif sd == 12:  # one entry on the diagonal
        b = [[2.5 if i == j == n - 1 else 0.0 for j in range(n)] for i in range(n)]
    if sd % 4 == 1:
        b = [[x * 64.0 for x in r] for r in b]
    elif sd % 4 == 2:
        b = [[x / 64.0 for x in r] for r in b]
    a["A"] = lambda ix: b[ix[0]][ix[1]]
    return a


def c12_whole(name, vecs, maxd):
    def run(P, stats):
        R = vrun(P, stats, name)

        def judge(s, v, p, ints):
            n = ints["Ar"]
            if n != ints["Ac"] or n == 0:
                return None
            x, e = okval(R, s, v)
            if e is not None:
                raise Bad(f"{e} reported for a symmetric matrix")
            a = given(p, "A", n, n)
            x = R.ex.val(s, x)
            w = matrix(R, s, p, x.f[0] if vecs else x)
            if len(w) != n:
                raise Bad("not one value per row")
            c = scale(a) or 1.0
            tol = 2e-5
            a = [[y / c for y in r] for r in a]
            w = [y / c for y in w]
            if vecs:
                q = matrix(R, s, p, x.f[1])
                if differ(mm(tr(q), q), eye(n), tol):
                    raise Bad("the vectors are not orthonormal")
                if differ(mm(a, q), [[q[i][j] * w[j] for j in range(n)] for i in range(n)], tol):
                    raise Bad("A V = V diag(w) does not hold")
            t = powers(a)
            if any(abs(sum(y ** (k + 1) for y in w) - t[k]) > tol * (1 + n) ** (k + 1) for k in range(n)):
                raise Bad("the values are not the eigenvalues")
            return True
        return uoutcome(R, name, judge, ["Ar", "Ac"], maxd, "A V = V diag(w), V orthonormal" if vecs else
                        "the values are the eigenvalues", eig_arrays, seeds=range(13), mind=1, point=XPoint)
    return run


def c12_pair(P, stats):
    Ra, Rb = vrun(P, stats, "eigh_into"), vrun(P, stats, "eigvalsh_into")
    return pair_check(Ra, Rb, "eigh_into / eigvalsh_into", "requesting vectors does not change the values", ["Ar", "Ac"], 3,
                      eig_arrays, okflat(tup_part(0)), okflat(), "the values depend on whether vectors are requested",
                      range(13), XPoint, mind=1)


def c12_jobs(t):
    J = []
    for n, vecs in (("eigh_into", True), ("eigvalsh_into", False)):
        for sz in ((2, 3), (4,)) + (((5,),) if t == "thorough" else ()):
            J.append(vjob(f"{n}.step{sz[-1]}", c12_step(n, vecs, sz), 30))
        J.append(vjob(f"{n}.whole", c12_whole(n, vecs, 3), 30))
    J.append(vjob("eigh.pair", c12_pair, 30))
    J.append(vjob("eigh.flow", c12_flow("eigh_into"), 10))
    return J


spec(
    "C12",
    jobs=c12_jobs,
    rule="closed form of one iteration of the eigensolver, from arbitrary carried values: Q T Qt before equals Q T Qt after, Q stays "
    "orthonormal; scaling undone and A V = V diag(w) at the return; no data flow from the vectors to the values",
    explain="the iteration loop of the symmetric eigensolver: each of its iterations (sweep, deflation, 2 x 2 finish) is one step from "
    "arbitrary carried diagonals, vectors and block bounds, for every block of every size up to the bound, at generic, decoupled, "
    "negligible, equal and zero entries; the whole operation at sizes up to 3; the dependence closure of the values",
    technique=TECH, assumptions=ASSUME + UASSUME + ["the carried off-diagonal entries inside the active block are not negligible (established by "
                                                    "every iteration, also checked)"],
)
