"""C08: plane rotations, reflections and the Householder axis as exact orthogonal maps."""
from .p_value import *


def fn_of(R, name):
    ks = [f.key for f in R.P.fns.values() if f.kind == "Fn" and f.name == name]
    if len(ks) != 1:
        raise Missing(f"function {name} ({len(ks)})")
    return ks[0]


def sgn_ok(x):
    """allowed values of the sign of x"""
    return (1.0, -1.0) if x == 0 else (math.copysign(1.0, x),)


# ---------------------------------------------------------------- reflections
class SPoint(FPoint):
    """a point whose data are tiny: a formula that holds for every element has no absolute threshold"""
    S = 2.0 ** -80
    tiny = 0.0
    DATA = ("M", "V", "bias", "gc", "gs", "geps")

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.eps = 2.0 ** -50

    def rnd(self, *key):
        r = super().rnd(*key)
        return r * self.S if key[1] in self.DATA else r


def unit(p):
    return getattr(p, "S", 1.0)


def near_(p, x, y):
    """equal at the scale of the data"""
    return close(x / unit(p), y / unit(p))


def both(R, name, judge, dims, maxd, rule, **k):
    out = outcome(R, name, judge, dims, maxd, rule, **k)
    return out + outcome(R, name, judge, dims, maxd, rule, point=SPoint, **k)


def reflect(m):
    def run(P, stats):
        R = vrun(P, stats, m)
        M, s0, ax = R.inp["M"], R.seed["M"], R.seed["axis"]
        cols = m == "reflect_cols"

        def judge(s, v, p, ints):
            if not is_agg(v, RESULT, 0):
                return None
            r, c = (p.int(d) for d in M.dims)
            n = r if cols else c
            a = [p.read(ax, (i,)) for i in range(n)]
            bias = p.f(mk("fsym", "bias"))
            for k in range(c if cols else r):
                at = (lambda i: (i, k)) if cols else (lambda i: (k, i))
                x = [p.read(s0, at(i)) for i in range(n)]
                f = -2.0 * (sum(u * w for u, w in zip(a, x)) - bias)
                for i in range(n):
                    if not near_(p, elem(R, s, p, M, at(i)), x[i] + f * a[i]):
                        raise Bad(f"{'column' if cols else 'row'} x is not mapped to x - 2 (axis.x - bias) axis")
            return True
        return both(R, m, judge, ["D", "Mc" if cols else "Mr"], 4, "reflection formula for every element")
    return run


# ---------------------------------------------------------------- rotations
def rot_pair(R, st):
    """a rotation with parameters (c, s) of any unit vector, made by its own constructor"""
    return R.call(st, R.method("GivensRotation", "new"), [mk("fsym", "gc"), mk("fsym", "gs")])


def rotate(m):
    def drv(R, st):
        out = []
        M = R.mat(st, "M")
        for s, v in rot_pair(R, st):
            out += [(s2, w) for s2, w in R.call(s, R.method("GivensRotation", m), [v.f[0], R.ref(s, M)])]
        return out

    def run(P, stats):
        R = vrun(P, stats, m, Entry(m, drv))
        M, s0 = R.inp["M"], R.seed["M"]
        rows = m == "rotate_rows"

        def judge(s, v, p, ints):
            if not is_agg(v, RESULT, 0):
                return None
            c, sn = p.f(mk("fsym", "gc")), p.f(mk("fsym", "gs"))
            h = math.hypot(c, sn)
            c, sn = (1.0, 0.0) if h == 0 else (c / h, sn / h)
            n = p.int(M.dims[0 if rows else 1])
            for k in range(n):
                at = (lambda i: (k, i)) if rows else (lambda i: (i, k))
                a, b = p.read(s0, at(0)), p.read(s0, at(1))
                want = (c * a + sn * b, -sn * a + c * b) if rows else (c * a - sn * b, sn * a + c * b)
                got = tuple(elem(R, s, p, M, at(i)) for i in range(2))
                if not all(near_(p, x, y) for x, y in zip(got, want)):
                    raise Bad(f"{m} is not the product with the rotation [[c, -s], [s, c]]")
            return True
        return both(R, m, judge, ["Mr", "Mc"], 3, "rotation formula for every element")
    return run


def cancel(m):
    """the rotation made for [x, y] applied to the column [x, y] itself"""
    k = 1 if m == "cancel_y" else 0

    def drv(R, st):
        out = []
        M = R.mat(st, "M", "Mr", "Mc")
        st = st.with_facts(st.facts.add_eq(L("Mr") - 2).add_ge(L("Mc") - 1))
        x, y = (R.ex.rd(st, M, (Lin(i), Lin(0))) for i in range(2))
        for s, v in R.call(st, R.method("GivensRotation", m), [x, y]):
            if not (isinstance(v, Agg) and v.key == OPTION):
                raise Missing(f"result of {m}")
            if v.variant == 0:
                out.append((s, NONE))
                continue
            rot, r = v.f[0].f
            for s2, w in R.call(s, R.method("GivensRotation", "rotate_cols"), [rot, R.ref(s, M)]):
                out.append((s2, tup(v, r, w)))
        return out

    def run(P, stats):
        R = vrun(P, stats, m, Entry(m, drv))
        M, s0 = R.inp["M"], R.seed["M"]

        def judge(s, v, p, ints):
            xy = [p.read(s0, (i, 0)) for i in range(2)]
            r = math.hypot(*xy)
            if v == NONE:
                if abs(xy[k]) > 1e-12 * unit(p):
                    raise Bad(f"no rotation although the component to cancel is not zero")
                return True
            if not near_(p, p.f(v.f[1]), r):
                raise Bad("the returned norm is not the norm of the pair")
            got = [elem(R, s, p, M, (i, 0)) for i in range(2)]
            want = [r, 0.0] if k == 1 else [0.0, r]
            if not near_(p, got[k], 0.0):
                raise Bad("the component is not cancelled")
            if not near_(p, got[1 - k], r):
                raise Bad("the kept component is not the norm of the pair")
            for j in range(ints["Mc"]):
                o = math.hypot(*[p.read(s0, (i, j)) for i in range(2)])
                if not near_(p, math.hypot(*[elem(R, s, p, M, (i, j)) for i in range(2)]), o):
                    raise Bad("the rotation does not preserve norms")
            return True
        return both(R, m, judge, ["Mr", "Mc"], 2, "the rotation cancels its component and preserves norms", mind=1,
                       seeds=range(1, 9))
    return run


def inverse(m):
    """a rotation followed by its inverse; its parameters as seen through the accessors"""
    def drv(R, st):
        out = []
        M = R.mat(st, "M")
        for s, v in rot_pair(R, st):
            rot = v.f[0]
            acc = []
            for a in ("c", "s"):
                rs = R.call(s, R.method("GivensRotation", a), [rot])
                if len(rs) != 1:
                    raise Missing(f"accessor {a}")
                acc.append(rs[0][1])
            for s2, inv in R.call(s, R.method("GivensRotation", "inverse"), [rot]):
                for s3, w in R.call(s2, R.method("GivensRotation", m), [rot, R.ref(s2, M)]):
                    if not is_agg(w, RESULT, 0):
                        continue
                    for s4, w2 in R.call(s3, R.method("GivensRotation", m), [inv, R.ref(s3, M)]):
                        out.append((s4, tup(w2, v.f[1], *acc)))
        return out

    def run(P, stats):
        R = vrun(P, stats, m, Entry(m, drv))
        M, s0 = R.inp["M"], R.seed["M"]

        def judge(s, v, p, ints):
            for ix in itertools.product(*[range(p.int(d)) for d in M.dims]):
                if not near_(p, elem(R, s, p, M, ix), p.read(s0, ix)):
                    raise Bad("the inverse rotation does not undo the rotation")
            gc, gs = p.f(mk("fsym", "gc")), p.f(mk("fsym", "gs"))
            h = math.hypot(gc, gs)
            if not near_(p, p.f(v.f[1]), h):
                raise Bad("the constructor does not return the norm of the pair")
            want = (gc / h, gs / h) if h else (1.0, 0.0)
            if not all(close(p.f(a), w) for a, w in zip(v.f[2:], want)):
                raise Bad("the accessors do not give the normalised parameters")
            return True
        return both(R, m, judge, ["Mr", "Mc"], 2, "inverse undoes the rotation")
    return run


def try_new(P, stats):
    def drv(R, st):
        out = []
        for s, v in R.call(st, R.method("GivensRotation", "try_new"), [mk("fsym", "gc"), mk("fsym", "gs"), mk("fsym", "geps")]):
            if not (isinstance(v, Agg) and v.key == OPTION):
                raise Missing("result of try_new")
            if v.variant == 0:
                out.append((s, NONE))
                continue
            acc = [R.call(s, R.method("GivensRotation", a), [v.f[0].f[0]])[0][1] for a in ("c", "s")]
            out.append((s, tup(v.f[0].f[1], *acc)))
        return out
    R = vrun(P, stats, "try_new", Entry("try_new", drv))

    def judge(s, v, p, ints):
        gc, gs = p.f(mk("fsym", "gc")), p.f(mk("fsym", "gs"))
        h, eps = math.hypot(gc, gs), p.f(mk("fsym", "geps"))
        if v == NONE:
            if h > eps + 1e-9 * unit(p):
                raise Bad("no rotation for a pair above the threshold")
            return True
        if not near_(p, p.f(v.f[0]), h):
            raise Bad("the returned norm is not the norm of the pair")
        if not (close(p.f(v.f[1]), gc / h) and close(p.f(v.f[2]), gs / h)):
            raise Bad("the rotation is not the normalised pair")
        return True
    return both(R, "try_new", judge, [], 0, "a rotation from a pair is the normalised pair", seeds=range(1, 30))


# ---------------------------------------------------------------- Householder axis
def axis_job(P, stats):
    def drv(R, st):
        V = R.vec(st, "V", "Vn")
        st = st.with_facts(st.facts.add_ge(L("Vn") - 1))
        return R.call(st, fn_of(R, "reflection_axis_mut"), [R.ref(st, V)])
    R = vrun(P, stats, "axis", Entry("axis", drv))
    V, s0 = R.inp["V"], R.seed["V"]

    def judge(s, v, p, ints):
        n = ints["Vn"]
        x = [p.read(s0, (i,)) for i in range(n)]
        nx = math.sqrt(sum(t * t for t in x))
        if not (isinstance(v, Agg) and v.key == OPTION):
            raise Unknown("result")
        if v.variant == 0:
            if nx > 1e-9 * unit(p):
                raise Bad("no axis for a non-zero column")
            return True
        if nx < 1e-9 * unit(p):
            raise Bad("an axis for a zero column")
        a = [elem(R, s, p, V, (i,)) for i in range(n)]
        if not close(sum(t * t for t in a), 1.0):
            raise Bad("the axis is not a unit vector")
        ret = p.f(v.f[0])
        if not any(near_(p, ret, -g * nx) for g in sgn_ok(x[0])):
            raise Bad("the returned value is not minus the signed norm of the column")
        d = sum(t * u for t, u in zip(a, x))
        img = [t - 2 * d * u for t, u in zip(x, a)]
        if not all(near_(p, t, ret if i == 0 else 0.0) for i, t in enumerate(img)):
            raise Bad("the reflection does not send the column to the returned multiple of the first basis vector")
        return True
    return both(R, "axis", judge, ["Vn"], 4, "the Householder axis is a unit vector sending the column to -signed norm * e1",
                   mind=1, seeds=range(1, 12))


spec(
    "C08",
    jobs=lambda t: [vjob(m, reflect(m)) for m in ("reflect_cols", "reflect_rows")]
    + [vjob(m, rotate(m)) for m in ("rotate_rows", "rotate_cols")]
    + [vjob(m, cancel(m)) for m in ("cancel_y", "cancel_x")]
    + [vjob("inverse." + m, inverse(m)) for m in ("rotate_rows", "rotate_cols")]
    + [vjob("try_new", try_new), vjob("axis", axis_job)],
    rule="closed-form result terms of the reflection, rotation and Householder primitives equal their defining formulas",
    explain="the result terms of Reflection::reflect_cols/rows, of GivensRotation's constructors, inverse and applications "
    "(composed with each other) and of the Householder axis computation, for symbolic sizes and arbitrary elements",
    technique=TECH, assumptions=ASSUME,
)
