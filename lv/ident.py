"""Identity testing of summary terms.

A term describes a value as a function of atoms (elements of input arrays, unknown loop-carried
arrays, opaque scalars) and index symbols.  Two terms are compared by substituting pseudo-random
atoms and small index values into both *terms* (Schwartz-Zippel style); nothing of the analysed
program is executed."""
import math, random, hashlib
from fractions import Fraction
from .lin import Lin, L, APP, SYMINFO, Facts, ZERO
from .term import N, mk
from . import term as T
from .values import bnot


class Unknown(Exception):
    """the term has a part without a defined meaning"""


class Undefined(Exception):
    """division by zero, root of a negative number, .. at this point"""


class Infeasible(Undefined):
    """no step of a loop the state went through is possible at this point"""


def h01(*key):
    d = hashlib.sha256(repr(key).encode()).digest()
    return int.from_bytes(d[:7], "big") / (1 << 56)


class Point:
    """a pseudo-random assignment of atoms; index symbols are given"""

    tiny = 1e-12  # differences taken for rounding
    free = 7  # values tried for an index the facts leave open
    loose = False  # a condition had no value and was taken to hold

    def __init__(self, seed, ints=None, arrays=None, sel=None, opaque=True, zero=(), eps=1e-3):
        self.seed = seed
        self.ints = dict(ints or {})
        self.arrays = arrays or {}  # name of base array -> callable(idx) -> float
        self.sel = sel  # hook: (content, idx) -> float or None
        self.opaque = opaque
        self.strict = False  # no value for anything that is not an input
        self.memo = {}
        self.eps = eps
        self.over = {}
        self.dep = 0

    def carried(self, s):
        """does the index symbol have a value of its own (loop-carried)"""
        return False

    def passed(self, facts):
        """were the iterations of the loops the state went through possible"""
        return True

    # -- integers
    def int(self, l):
        r = l.c
        for s, k in l.t:
            r += k * self.isym(s)
        return r

    def isym(self, s):
        if s in self.ints:
            return self.ints[s]
        if s in APP:
            fn, args = APP[s]
            a = [self.int(x) for x in args]
            v = self.iapp(fn, a)
            return v
        raise Unknown(f"index {s}")

    def iapp(self, fn, a):
        if fn == "prod":
            return a[0] * a[1]
        if fn.startswith("mi"):
            k = a[0]
            dims = a[1:]
            out = []
            for d in reversed(dims):
                if d == 0:
                    raise Undefined()
                out.append(k % d)
                k //= d
            out.reverse()
            return out[int(fn[2:])]
        if fn.startswith("perm:"):
            k, n = a
            if n <= 0:
                raise Undefined()
            p = list(range(n))
            random.Random(repr((self.seed, fn, n))).shuffle(p)
            if not 0 <= k < n:
                raise Undefined()
            return p[k]
        if fn in ("div", "rem"):
            if a[1] <= 0 or a[0] < 0:
                raise Undefined()
            return a[0] // a[1] if fn == "div" else a[0] % a[1]
        if fn == "ind":
            return 1 if a[0] >= 0 else 0
        if fn.startswith("count:"):
            return int(h01(self.seed, fn, a) * (a[0] + 1)) if a else 0
        return int(h01(self.seed, fn, a) * 4)

    # -- floats
    def rnd(self, *key):
        u = h01(self.seed, *key)
        s = -1.0 if h01(self.seed, "sign", *key) < 0.5 else 1.0
        return s * (0.3 + 1.7 * u)

    def f(self, t):
        k = t
        r = self.memo.get(k)
        if r is None:
            if self.dep > 900:
                raise Unknown("depth")
            self.dep += 1
            try:
                r = self._f(t)
            finally:
                self.dep -= 1
            if r != r or r in (math.inf, -math.inf) and t.op != "fconst":
                raise Undefined()
            self.memo[k] = r
        return r

    def bind(self, names, vals):
        old = [(n, self.ints.get(n)) for n in names]
        self.ints.update(zip(names, vals))
        return old

    def unbind(self, old):
        for n, v in old:
            if v is None:
                self.ints.pop(n, None)
            else:
                self.ints[n] = v

    def scoped(self, names, vals, fn):
        """evaluate with bound index variables"""
        old = self.bind(names, vals)
        memo, self.memo = self.memo, {}
        try:
            return fn()
        finally:
            self.memo = memo
            self.unbind(old)

    def _f(self, t):
        o, a = t.op, t.a
        if t in self.over:
            return self.over[t]
        if o == "c":
            return float(a[0])
        if o == "add":
            return self.f(a[0]) + self.f(a[1])
        if o == "sub":
            return self.f(a[0]) - self.f(a[1])
        if o == "mul":
            return self.f(a[0]) * self.f(a[1])
        if o == "div":
            d = self.f(a[1])
            if abs(d) < self.tiny or d == 0:
                raise Undefined()
            return self.f(a[0]) / d
        if o == "neg":
            return -self.f(a[0])
        if o == "abs":
            return abs(self.f(a[0]))
        if o == "sqrt":
            x = self.f(a[0])
            if x < 0:
                if x > -1000 * self.tiny:
                    return 0.0
                raise Undefined()
            return math.sqrt(x)
        if o == "hypot":
            return math.hypot(self.f(a[0]), self.f(a[1]))
        if o in ("signum", "sgn"):
            x = self.f(a[0])
            return -1.0 if x < 0 else 1.0
        if o == "copysign":
            x, y = self.f(a[0]), self.f(a[1])
            return math.copysign(x, y if y != 0 else 1.0)
        if o == "fmax":
            return max(self.f(a[0]), self.f(a[1]))
        if o == "fmin":
            return min(self.f(a[0]), self.f(a[1]))
        if o == "powi" and isinstance(a[1], (int, Lin)):
            e = a[1] if isinstance(a[1], int) else self.int(a[1])
            return self.f(a[0]) ** e
        if o == "recip":
            return 1.0 / self.f(a[0])
        if o == "muladd":
            return self.f(a[0]) * self.f(a[1]) + self.f(a[2])
        if o == "i2f":
            return float(self.int(a[0]))
        if o == "fconst":
            if a[0] in ("NaN", "inf", "-inf"):
                raise Undefined()
            if a[0] == "epsilon":
                return self.eps
            if a[0] == "min_positive_value":
                return 2.0 ** -126
            if a[0] in ("neg_infinity", "infinity"):
                return math.inf if a[0] == "infinity" else -math.inf
            if a[0] in ("max_value", "min_value"):
                return 1e300 if a[0] == "max_value" else -1e300
            if a[0] == "nan":
                raise Undefined()
            return self.rnd("fconst", a[0])
        if o == "fsym":
            if self.strict and "~" in a[0]:
                raise Unknown(f"value {a[0]}")
            return self.rnd("fsym", a[0])
        if o == "sel":
            return self.read(a[0], tuple(self.int(i) for i in a[1]))
        if o == "sum":
            q, lo, hi, body = a
            r = 0.0
            for i in range(self.int(lo), self.int(hi)):
                r += self.scoped((q,), (i,), lambda: self.f(body))
            return r
        if o == "fold":
            op, q, lo, hi, init, body = a
            r = self.f(init)
            for i in range(self.int(lo), self.int(hi)):
                x = self.scoped((q,), (i,), lambda: self.f(body))
                if op == "fmax":
                    r = max(r, x)
                elif op == "fmin":
                    r = min(r, x)
                elif op == "mul":
                    r *= x
                elif op == "add":
                    r += x
                else:
                    raise Unknown(f"fold {op}")
            return r
        if o == "fapp":
            if self.strict:
                raise Unknown(f"function {a[0]}")
            args = tuple(self.f(x) if isinstance(x, N) else self.int(x) if isinstance(x, Lin) else x for x in a[1:])
            return self.rnd("fapp", a[0], *[round(x, 9) if isinstance(x, float) else x for x in args])
        if o == "ite":
            return self.f(a[1]) if self.b(a[0]) else self.f(a[2])
        raise Unknown(o)

    # -- truth values
    def b(self, t):
        if isinstance(t, bool):
            return t
        o, a = t.op, t.a
        if o == "bnot":
            return not self.b(a[0])
        if o == "band":
            return self.conj(a)
        if o == "bor":
            return not self.conj([bnot(x) for x in a])
        if o == "alt":
            why = None
            for c in a:
                try:
                    if self.conj(c):
                        return True
                except Infeasible:
                    pass
                except (Unknown, Undefined) as e:
                    why = e
            if why:
                raise why
            return False
        if o == "cge":
            return self.int(a[0]) >= 0
        if o == "ceq":
            return self.int(a[0]) == 0
        if o == "flt":
            return self.f(a[0]) < self.f(a[1])
        if o == "fle":
            return self.f(a[0]) <= self.f(a[1])
        if o == "feq":
            return abs(self.f(a[0]) - self.f(a[1])) <= self.tiny
        if o == "ball":
            q, lo, hi, body = a
            return all(self.scoped((q,), (i,), lambda: self.b(body)) for i in range(self.int(lo), self.int(hi)))
        if o == "bapp" and a[0] in ("is_nan", "is_infinite"):
            return False
        if o == "bapp" and a[0] == "is_finite":
            return True
        raise Unknown(o)

    def conj(self, cs):
        why = None
        for c in cs:
            try:
                if not self.b(c):
                    return False
            except Infeasible:
                return False
            except (Unknown, Undefined) as e:
                why = e
        if why:
            raise why
        return True

    # -- array contents at a concrete position
    def read(self, c, idx):
        k = (c, idx)
        r = self.memo.get(k)
        if r is None:
            r = self._read(c, idx)
            self.memo[k] = r
        return r

    def _read(self, c, idx):
        if self.sel is not None:
            r = self.sel(self, c, idx)
            if r is not None:
                return r
        o, a = c.op, c.a
        if o in ("base", "fresh"):
            fn = self.arrays.get(a[0])
            if fn is not None:
                return fn(idx)
            if self.strict and o != "base":
                raise Unknown(f"array {a[0]}")
            return self.rnd("sel", a[0], idx)
        if o == "fill":
            return self.f(a[0])
        if o == "eye":
            return 1.0 if idx[0] == idx[1] else 0.0
        if o == "lam":
            return self.scoped(a[0], idx, lambda: self.f(a[1]))
        if o == "view":
            return self.read(a[0], self.vindex(c, idx))
        if o == "mm":
            A, B = c.a
            K = self.int(A.a[1][-1][1])
            r = 0.0
            na = len(A.a[1])
            for q in range(K):
                if na == 2:
                    x = self.read(A, (idx[0], q))
                    rest = idx[1:]
                else:
                    x = self.read(A, (q,))
                    rest = idx
                r += x * self.read(B, (q,) + tuple(rest))
            return r
        if o == "ew":
            args = []
            for x in a[1:]:
                if x.op == "sc":
                    args.append(self.f(x.a[0]))
                else:
                    n = len(x.a[1])
                    ii = list(idx[len(idx) - n:])
                    for k in range(n):
                        if self.int(x.a[1][k][1]) == 1:
                            ii[k] = 0
                    args.append(self.read(x, tuple(ii)))
            return self.apply(a[0], args)
        if o == "cat":
            ax, i = a[0], idx[a[0]]
            for v in a[1:]:
                ln = self.int(v.a[1][ax][1])
                if i < ln:
                    j = list(idx)
                    j[ax] = i
                    return self.read(v, tuple(j))
                i -= ln
            raise Undefined()
        if o == "upd":
            return self.upd(c, idx)
        if self.strict:
            raise Unknown(f"content {o}")
        # an opaque array expression: consistent but arbitrary
        return self.rnd("content", c.id, idx)

    def vindex(self, c, idx):
        axes, fixed, nd = c.a[1], c.a[2], c.a[3]
        out = [None] * nd
        for (parts, ln), i in zip(axes, idx):
            for oa, off, st in parts:
                s = st if isinstance(st, int) else self.int(st)
                out[oa] = self.int(off) + s * i
        for oa, i in fixed:
            out[oa] = self.int(i)
        return tuple(out)

    def upd(self, c, idx):
        prev, bv, widx, val = c.a

        def go(k):
            if k == len(bv):
                if tuple(self.int(w) for w in widx) == idx:
                    return self.f(val)
                return None
            n, lo, hi = bv[k]
            for i in range(self.int(lo), self.int(hi)):
                old = self.bind((n,), (i,))
                try:
                    r = go(k + 1)
                finally:
                    self.unbind(old)
                if r is not None:
                    return r
            return None

        # solve simple indices first: position determines the bound variable
        memo, self.memo = self.memo, {}
        try:
            r = go(0)
        finally:
            self.memo = memo
        return self.read(prev, idx) if r is None else r

    def apply(self, fn, args):
        if isinstance(fn, str):
            ps = [mk("fsym", f"$arg{i}") for i in range(len(args))]
            body = T.apply_fn(fn, ps)
        else:
            ps, body = fn
        old = dict(self.over)
        memo, self.memo = self.memo, {}
        self.over.update(zip(ps, args))
        try:
            return self.f(body)
        finally:
            self.over = old
            self.memo = memo


def assign_ints(facts, syms, rng, lim=5, pref=None):
    """small values for index symbols consistent with the facts (None: not found)"""
    f = facts
    out = {}
    for s in syms:
        if s in APP:
            continue
        vals = list(range(0, lim + 1))
        rng.shuffle(vals)
        if pref and s in pref:
            vals = [pref[s]] + vals
        for v in vals:
            g = f.add_eq(L(s) - v)
            if g is not None:
                f = g
                out[s] = v
                break
        else:
            return None
    return out


def fact_syms(facts):
    r = set()
    for l in facts.ge:
        r |= l.allsyms()
    for l in facts.ne:
        r |= l.allsyms()
    for s, l in facts.sub.items():
        r.add(s)
        r |= l.allsyms()
    return r


def holds_at(p, facts):
    """do the facts hold at the point (literals included)"""
    for l in facts.ge:
        if p.int(l) < 0:
            return False
    for l in facts.ne:
        if p.int(l) == 0:
            return False
    for s, l in facts.sub.items():
        if s in APP:
            if p.iapp(APP[s][0], [p.int(x) for x in APP[s][1]]) != p.int(l):
                return False
        elif (s in p.ints or p.carried(s)) and p.int(L(s)) != p.int(l):
            return False
    for a, v in facts.lits.items():
        try:
            if p.b(a) != v:
                return False
        except Unknown:
            p.loose = True
    return p.passed(facts)


def exact_at(p, facts):
    """as holds_at, but every literal has to have a value (Unknown otherwise)"""
    for l in facts.ge:
        if p.int(l) < 0:
            return False
    for l in facts.ne:
        if p.int(l) == 0:
            return False
    for s, l in facts.sub.items():
        if s in APP:
            if p.iapp(APP[s][0], [p.int(x) for x in APP[s][1]]) != p.int(l):
                return False
        elif (s in p.ints or p.carried(s)) and p.int(L(s)) != p.int(l):
            return False
    return all(p.b(a) == v for a, v in facts.lits.items()) and p.passed(facts)


def close(x, y, tol=1e-7):
    return abs(x - y) <= tol * (1.0 + abs(x) + abs(y))


class FPoint(Point):
    """a point of a return state: index symbols are completed from the state's facts, and sorts
    have their meaning (the permutation that orders the compared keys)"""

    def __init__(self, seed, facts, ex=None, grid=False, **k):
        super().__init__(seed, **k)
        self.facts = facts
        self.ex = ex
        self.grid = grid
        self.perms = {}
        self.strict = True
        self.script = []  # which of the possible values the free symbols take
        self.opts = []
        self.bounded = True

    def rnd(self, *key):
        if self.grid:
            u = h01(self.seed, "g", *key)
            return (-2.0, -1.0, 0.0, 1.0, 2.0, 0.0, 1.0, -0.5)[int(u * 8)]
        return super().rnd(*key)

    def isym(self, s):
        if s in self.ints:
            return self.ints[s]
        if s in APP:
            return super().isym(s)
        l = self.facts.canon(L(s))
        if l.t and not (len(l.t) == 1 and l.t[0] == (s, 1) and l.c == 0):
            v = self.int(l)
            self.ints[s] = v
            return v
        if not l.t:
            self.ints[s] = l.c
            return l.c
        # a free symbol: a value the facts allow
        opts = []
        for v in range(0, self.free):
            g = self.facts.add_eq(L(s) - v)
            if g is not None:
                opts.append((v, g))
        if self.facts.add_ge(L(s) - self.free) is not None or self.facts.add_ge(-L(s) - 1) is not None:
            self.bounded = False
        if not opts:
            raise Undefined()
        d = len(self.opts)
        i = self.script[d] if d < len(self.script) else 0
        self.opts.append((i, len(opts)))
        v, g = opts[min(i, len(opts) - 1)]
        self.facts = g
        self.ints[s] = v
        return v

    def next_script(self):
        """the next combination of values for the free symbols (None: all tried)"""
        o = [list(x) for x in self.opts]
        while o and o[-1][0] + 1 >= o[-1][1]:
            o.pop()
        if not o:
            return None
        return [x[0] for x in o[:-1]] + [o[-1][0] + 1]

    def iapp(self, fn, a):
        if fn.startswith("perm:") and self.ex is not None and fn[5:] in getattr(self.ex, "sorts", {}):
            k, n = a
            p = self.perm(fn[5:], n)
            if not 0 <= k < n:
                raise Undefined()
            return p[k]
        return super().iapp(fn, a)

    def perm(self, name, n):
        p = self.perms.get((name, n))
        if p is None:
            import functools

            i, j, outs = self.ex.sorts[name][1] or (None, None, ())
            if not outs:
                raise Unknown("comparator")

            def cmp(x, y):
                def go():
                    for facts, o in outs:
                        if all(self.try_lit(a, v) for a, v in facts.lits.items()):
                            return self.order(o)
                    raise Unknown("comparator")
                return self.scoped((i, j), (x, y), go)
            p = sorted(range(n), key=functools.cmp_to_key(cmp))
            self.perms[(name, n)] = p
        return p

    def try_lit(self, a, v):
        return self.b(a) == v

    def order(self, o):
        from .values import Agg
        if isinstance(o, N) and o.op == "ordering":
            x, y = self.f(o.a[0]), self.f(o.a[1])
            return (x > y) - (x < y)
        if isinstance(o, Agg):
            return o.variant - 1
        if isinstance(o, Lin) and o.is_const():
            return o.c
        raise Unknown("comparator")


def dim_points(facts, dims, maxd, seeds=(1,), ex=None, mind=0, **k):
    """points of a state for every assignment of the dimension symbols up to maxd"""
    for f, ints in dim_facts(facts, dims, maxd, mind):
        for sd in seeds:
            for grid in (False, True):
                yield ints, FPoint((sd, grid), f, ex, grid, ints=ints, **k)


def dim_facts(facts, dims, maxd, mind=0):
    def go(f, i, acc):
        if i == len(dims):
            yield f, dict(acc)
            return
        for v in range(mind, maxd + 1):
            g = f.add_eq(L(dims[i]) - v)
            if g is not None:
                yield from go(g, i + 1, acc + [(dims[i], v)])
    yield from go(facts, 0, [])
