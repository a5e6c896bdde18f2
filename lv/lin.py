"""Linear integer expressions and a small polyhedral domain (Fourier-Motzkin with integer
tightening).  No external solver: entailment is decided by eliminating variables."""
from math import gcd

SYMINFO = {}
_ctr = [0]


def fresh(name, nonneg=True):
    _ctr[0] += 1
    s = f"{name}'{_ctr[0]}"
    SYMINFO[s] = nonneg
    return s


def declare(name, nonneg=True):
    SYMINFO.setdefault(name, nonneg)
    return name


# applications of uninterpreted integer functions: sym -> (fn, args) ; axioms: sym -> [Lin >= 0]
APP = {}
_apps = {}
FNAX = {}  # fn -> callable(args, sym) -> [Lin]
AXIOMS = {}


def app(fn, *args, nonneg=True):
    """integer symbol for fn(args)"""
    k = (fn, args)
    s = _apps.get(k)
    if s is None:
        s = f"{fn}({','.join(map(repr, args))})"
        SYMINFO[s] = nonneg
        _apps[k] = s
        APP[s] = (fn, args)
        if fn in FNAX:
            AXIOMS[s] = FNAX[fn](args, s)
    return s


class Lin:
    __slots__ = ("c", "t", "_h")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self._h = hash((c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for s, k in o.t:
            d[s] = d.get(s, 0) + k
        return Lin(self.c + o.c, tuple(sorted((s, k) for s, k in d.items() if k)))

    def __neg__(self):
        return Lin(-self.c, tuple((s, -k) for s, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, tuple((s, c * k) for s, c in self.t))

    def is_const(self):
        return not self.t

    def syms(self):
        return [s for s, _ in self.t]

    def allsyms(self):
        """including those inside function applications"""
        r = set()
        for s, _ in self.t:
            r.add(s)
            if s in APP:
                for a in APP[s][1]:
                    r |= a.allsyms()
        return r

    def coef(self, s):
        for x, k in self.t:
            if x == s:
                return k
        return 0

    def subst(self, m):
        """m: sym -> Lin"""
        hit = False
        if APP:
            m2 = None
            for s, _ in self.t:
                if s in m:
                    hit = True
                elif s in APP:
                    fn, args = APP[s]
                    na = tuple(a.subst(m) for a in args)
                    if na != args:
                        if m2 is None:
                            m2 = dict(m)
                        if fn == "prod":
                            m2[s] = prod(*na)
                        else:
                            m2[s] = Lin(0, ((app(fn, *na, nonneg=SYMINFO.get(s, True)), 1),))
                        hit = True
            if m2 is not None:
                m = m2
        else:
            for s, _ in self.t:
                if s in m:
                    hit = True
                    break
        if not hit:
            return self
        r = Lin(self.c, tuple((s, k) for s, k in self.t if s not in m))
        for s, k in self.t:
            if s in m:
                r = r + m[s].scale(k)
        return r

    def __repr__(self):
        o = []
        for s, k in self.t:
            if k == 1:
                o.append(f"+{s}")
            elif k == -1:
                o.append(f"-{s}")
            else:
                o.append(f"{'+' if k > 0 else ''}{k}{s}")
        if self.c or not o:
            o.append(f"{'+' if self.c >= 0 else ''}{self.c}")
        r = "".join(o)
        return r[1:] if r[0] == "+" else r


def L(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, int):
        return Lin(x)
    return Lin(0, ((x, 1),))


ZERO = Lin(0)
ONE = Lin(1)


def prod(a, c):
    if c.is_const():
        return a.scale(c.c)
    if a.is_const():
        return c.scale(a.c)
    x, y = sorted((a, c), key=repr)
    return L(app("prod", x, y, nonneg=True))


def _tight(c, t):
    """constraint c + t >= 0 -> tightened (c,t) ; None if trivially true"""
    if not t:
        return (c, t)
    g = 0
    for _, k in t:
        g = gcd(g, abs(k))
    if g > 1:
        return (c // g, tuple((s, k // g) for s, k in t))
    return (c, t)


LIMIT = 1500
STATS = {"fm": 0, "cap": 0}


def fm_unsat(cons):
    """cons: iterable of Lin (>=0). True if proven to have no integer (rational) solution."""
    STATS["fm"] += 1
    best = {}

    def put(c, t):
        if not t:
            return c < 0
        o = best.get(t)
        if o is None or c < o:
            best[t] = c
            # opposite constraint check
            n = tuple((s, -k) for s, k in t)
            oc = best.get(n)
            if oc is not None and oc + best[t] < 0:
                return True
        return False

    for l in cons:
        c, t = _tight(l.c, l.t)
        if put(c, t):
            return True
    while best:
        cnt = {}
        for t in best:
            for s, k in t:
                p = cnt.setdefault(s, [0, 0])
                p[0 if k > 0 else 1] += 1
        s = min(cnt, key=lambda v: (cnt[v][0] * cnt[v][1] - cnt[v][0] - cnt[v][1], v))
        pos, neg, rest = [], [], {}
        for t, c in best.items():
            k = 0
            for x, kk in t:
                if x == s:
                    k = kk
                    break
            if k > 0:
                pos.append((k, c, t))
            elif k < 0:
                neg.append((-k, c, t))
            else:
                rest[t] = c
        best = rest
        if len(pos) * len(neg) + len(best) > LIMIT:
            STATS["cap"] += 1
            return False
        for kp, cp, tp in pos:
            for kn, cn, tn in neg:
                d = {}
                for x, k in tp:
                    d[x] = k * kn
                for x, k in tn:
                    d[x] = d.get(x, 0) + k * kp
                d.pop(s, None)
                t = tuple(sorted((x, k) for x, k in d.items() if k))
                c = cp * kn + cn * kp
                c, t = _tight(c, t)
                if put(c, t):
                    return True
    return False


class Facts:
    """Immutable conjunction: linear constraints, a solved-form substitution for equalities and
    boolean/float literals."""

    __slots__ = ("ge", "sub", "lits", "_key", "_cache", "dead", "ne")

    def __init__(self, ge=frozenset(), sub=None, lits=None, ne=frozenset()):
        self.ge = ge
        self.sub = sub or {}
        self.lits = lits or {}
        self.ne = ne
        self._cache = {}
        self._key = None
        self.dead = False

    def key(self):
        if self._key is None:
            self._key = (
                self.ge,
                frozenset(self.sub.items()),
                frozenset(self.lits.items()),
                self.ne,
            )
        return self._key

    def canon(self, l):
        return l.subst(self.sub) if self.sub else l

    def _cons_for(self, l):
        """constraints connected with l's symbols"""
        todo = set(l.syms())
        seen = set()
        out = []
        left = list(self.ge)
        if AXIOMS:
            ax = set()
            work = list(todo) + [s for g in left for s, _ in g.t]
            while work:
                s = work.pop()
                if s in AXIOMS and s not in ax:
                    ax.add(s)
                    for g in AXIOMS[s]:
                        g = self.canon(g)
                        left.append(g)
                        work.extend(x for x, _ in g.t)
        changed = True
        while changed:
            changed = False
            nl = []
            for g in left:
                if any(s in todo for s, _ in g.t):
                    out.append(g)
                    for s, _ in g.t:
                        if s not in todo:
                            todo.add(s)
                    changed = True
                else:
                    nl.append(g)
            left = nl
        for s in todo:
            if SYMINFO.get(s, False):
                out.append(L(s))
        return out

    def ent_ge(self, l):
        """facts |= l >= 0"""
        l = self.canon(l)
        if not l.t:
            return l.c >= 0
        if l.c >= 0 and all(k > 0 and SYMINFO.get(s, False) for s, k in l.t):
            return True
        if l in self.ge:
            return True
        r = self._cache.get(l)
        if r is None:
            r = fm_unsat(self._cons_for(l) + [-l - 1])
            if not r and self.ne:
                # use disequalities once: l>=0 also if l+? ... handle l == 0 boundary
                pass
            self._cache[l] = r
        return r

    def ent_gt(self, l):
        return self.ent_ge(l - 1)

    def ent_eq(self, a, b=None):
        d = self.canon(a if b is None else a - b)
        if not d.t:
            return d.c == 0
        return self.ent_ge(d) and self.ent_ge(-d)

    def ent_ne(self, a, b=None):
        d = self.canon(a if b is None else a - b)
        if not d.t:
            return d.c != 0
        if d in self.ne or (-d) in self.ne:
            return True
        return self.ent_gt(d) or self.ent_gt(-d)

    def add_ge(self, l):
        """returns new Facts or None if contradictory"""
        l = self.canon(l)
        if not l.t:
            return self if l.c >= 0 else None
        c, t = _tight(l.c, l.t)
        l = Lin(c, t)
        if l in self.ge:
            return self
        if self.ent_ge(-l - 1):
            return None
        if self.ent_ge(l):
            return self
        ge = self.ge
        for g in ge:
            if g.t == l.t:
                ge = ge - {g}
        f = Facts(ge | {l}, self.sub, self.lits, self.ne)
        if self.ent_ge(-l):  # then l == 0
            return f._solve(l)
        # disequalities may sharpen
        if self.ne:
            for d in self.ne:
                if f.ent_ge(d) :
                    f2 = Facts((f.ge) | {d - 1}, f.sub, f.lits, f.ne - {d})
                    f = f2
                elif f.ent_ge(-d):
                    f = Facts((f.ge) | {-d - 1}, f.sub, f.lits, f.ne - {d})
        return f

    def _solve(self, d):
        """record d == 0"""
        d = self.canon(d)
        if not d.t:
            return self if d.c == 0 else None
        g = 0
        for _, k in d.t:
            g = gcd(g, abs(k))
        if d.c % g:
            return None
        if g > 1:
            d = Lin(d.c // g, tuple((s, k // g) for s, k in d.t))
        cand = [(s, k) for s, k in d.t if abs(k) == 1]
        if not cand:
            ge = self.ge | {d, -d}
            return Facts(ge, self.sub, self.lits, self.ne)
        # prefer to eliminate the youngest symbol
        def age(x):
            s = x[0]
            i = s.rfind("'")
            return (int(s[i + 1:]) if i >= 0 and s[i + 1:].isdigit() else -1, s)
        s, k = max(cand, key=age)
        rest = Lin(d.c, tuple(x for x in d.t if x[0] != s))
        val = rest.scale(-k)  # k*s + rest = 0 -> s = -rest/k ; k=±1
        m = {s: val}
        sub = {a: b.subst(m) for a, b in self.sub.items()}
        sub[s] = val
        ge = set()
        src = set(self.ge)
        if SYMINFO.get(s, False):
            src.add(L(s))
        for g_ in src:
            n = g_.subst(m)
            if not n.t:
                if n.c < 0:
                    return None
                continue
            c, t = _tight(n.c, n.t)
            ge.add(Lin(c, t))
        ne = set()
        for g_ in self.ne:
            n = g_.subst(m)
            if not n.t:
                if n.c == 0:
                    return None
                continue
            ne.add(n)
        return Facts(frozenset(ge), sub, self.lits, frozenset(ne))

    def add_eq(self, a, b=None):
        d = self.canon(a if b is None else a - b)
        if not d.t:
            return self if d.c == 0 else None
        if self.ent_ne(d):
            return None
        return self._solve(d)

    def add_ne(self, a, b=None):
        d = self.canon(a if b is None else a - b)
        if not d.t:
            return self if d.c != 0 else None
        if self.ent_ge(d):
            return self.add_ge(d - 1)
        if self.ent_ge(-d):
            return self.add_ge(-d - 1)
        return Facts(self.ge, self.sub, self.lits, self.ne | {d})

    def add_lit(self, atom, val):
        o = self.lits.get(atom)
        if o is not None:
            return self if o == val else None
        n = dict(self.lits)
        n[atom] = val
        return Facts(self.ge, self.sub, n, self.ne)

    def subset_entailed_by(self, other):
        """facts of self that also hold in other (join, upper bound)"""
        ge = set()
        cand = set(self.ge)
        for s, v in self.sub.items():
            cand.add(L(s) - v)
            cand.add(v - L(s))
        f = Facts()
        for g in sorted(cand, key=repr):
            if other.ent_ge(g):
                n = f.add_ge(g)
                if n is not None:
                    f = n
        lits = {a: v for a, v in self.lits.items() if other.lits.get(a) == v}
        ne = frozenset(d for d in self.ne if other.ent_ne(d))
        return Facts(f.ge, f.sub, lits, ne)

    def project(self, live):
        """existentially eliminate the symbols that are not live (weakens where expensive)"""
        memo = {}

        def alive(x):
            r = memo.get(x)
            if r is None:
                if x in live or "'" not in x:
                    r = True
                elif x in APP:
                    r = all(alive(y) for a in APP[x][1] for y in a.syms())
                else:
                    r = False
                memo[x] = r
            return r

        def ok(l):
            return all(alive(x) for x, _ in l.t)

        dead = {x for g in self.ge for x, _ in g.t if not alive(x)}
        sub = {}
        for x, v in self.sub.items():
            if alive(x):
                sub[x] = v
                dead -= {y for y, _ in v.t}
                for y, _ in v.t:
                    memo[y] = True
        lits = {a: v for a, v in self.lits.items() if self._litok(a, alive)}
        ne = frozenset(d for d in self.ne if ok(d))
        ge = self.ge
        if dead:
            cons = set(ge) | {L(x) for x in dead if SYMINFO.get(x, False)}
            for x in sorted(dead):
                pos = [g for g in cons if g.coef(x) > 0]
                neg = [g for g in cons if g.coef(x) < 0]
                cons -= set(pos)
                cons -= set(neg)
                if len(pos) * len(neg) <= 12:
                    for a in pos:
                        for b in neg:
                            n = a.scale(-b.coef(x)) + b.scale(a.coef(x))
                            c, t = _tight(n.c, n.t)
                            if t:
                                cons.add(Lin(c, t))
            f = Facts()
            for g in sorted(cons, key=lambda g: (g.c, repr(g))):
                n = f.add_ge(g)
                if n is not None:
                    f = n
            if f.sub:
                # an equality hidden in the inequalities: keep the plain constraints
                ge = frozenset(cons)
            else:
                ge = f.ge
        elif len(sub) == len(self.sub) and len(lits) == len(self.lits) and len(ne) == len(self.ne):
            return self
        return Facts(frozenset(ge), sub, lits, ne)

    @staticmethod
    def _litok(a, alive):
        from .term import syms_of

        return all(alive(x) for x in syms_of(a))

    def __repr__(self):
        o = [f"{g}>=0" for g in sorted(self.ge, key=repr)]
        o += [f"{s}=={v}" for s, v in sorted(self.sub.items())]
        o += [f"{d}!=0" for d in self.ne]
        o += [f"{'' if v else '!'}{a}" for a, v in self.lits.items()]
        return "{" + ", ".join(o) + "}"
