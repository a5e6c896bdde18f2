"""Hash-consed terms for element values and array contents."""
from fractions import Fraction
from .lin import Lin, L, fresh, declare, ZERO, ONE

_table = {}
_n = [0]


class N:
    __slots__ = ("op", "a", "id", "_syms", "_nodes")

    def __repr__(self):
        return show(self)


def mk(op, *a):
    k = (op, a)
    r = _table.get(k)
    if r is None:
        r = N()
        r.op = op
        r.a = a
        r.id = _n[0]
        r._syms = None
        r._nodes = None
        _n[0] += 1
        _table[k] = r
    return r


_uid = [0]


def uid(name="u"):
    _uid[0] += 1
    return f"{name}~{_uid[0]}"


def const(x):
    return mk("c", Fraction(x))


F0 = const(0)
F1 = const(1)


def show(n, d=0):
    if isinstance(n, Lin):
        return repr(n)
    if not isinstance(n, N):
        if isinstance(n, tuple):
            return "(" + ",".join(show(x, d) for x in n) + ")"
        return str(n)
    if d > 14:
        return f"#{n.id}"
    o = n.op
    if o == "c":
        return str(n.a[0])
    if o in ("fsym", "base", "fresh", "fconst"):
        return str(n.a[0])
    inf = {"add": "+", "sub": "-", "mul": "*", "div": "/"}
    if o in inf:
        return f"({show(n.a[0], d+1)}{inf[o]}{show(n.a[1], d+1)})"
    if o == "sel":
        return f"{show(n.a[0], d+1)}[{','.join(map(repr, n.a[1]))}]"
    if o == "sum":
        return f"sum({n.a[0]}:{n.a[1]}..{n.a[2]}; {show(n.a[3], d+1)})"
    if o == "upd":
        return f"upd#{n.id}({show(n.a[0], d+1)};{show(n.a[1], d+1)};[{show(n.a[2], d+1)}]={show(n.a[3], d+1)})"
    return f"{o}({','.join(show(x, d+1) for x in n.a)})"


def syms_of(x):
    """integer symbols occurring in a term (free or bound)"""
    if isinstance(x, Lin):
        return frozenset(x.allsyms())
    if isinstance(x, N):
        if x._syms is None:
            r = frozenset()
            for y in x.a:
                r = r | syms_of(y)
            if x.op == "lam" or x.op == "sum":
                pass
            x._syms = r
        return x._syms
    if isinstance(x, tuple):
        r = frozenset()
        for y in x:
            r = r | syms_of(y)
        return r
    return frozenset()


def nodes_of(x):
    """set of ids of all subnodes"""
    if isinstance(x, N):
        if x._nodes is None:
            r = {x}
            for y in x.a:
                r |= nodes_of(y)
            x._nodes = frozenset(r)
        return x._nodes
    if isinstance(x, tuple):
        r = frozenset()
        for y in x:
            r = r | nodes_of(y)
        return r
    return frozenset()


def subst(x, m, nm=None, memo=None):
    """substitute integer symbols (m: sym->Lin) and nodes (nm: N->N)"""
    if not m and not nm:
        return x
    if memo is None:
        memo = {}
    ms = frozenset(m)
    return _subst(x, m, ms, nm or {}, frozenset(nm or {}), memo)


def _subst(x, m, ms, nm, ns, memo):
    if isinstance(x, Lin):
        return x.subst(m) if m else x
    if isinstance(x, N):
        if x in nm:
            return nm[x]
        if not (ms & syms_of(x)) and not (ns and (ns & nodes_of(x))):
            return x
        r = memo.get(x)
        if r is None:
            a = tuple(_subst(y, m, ms, nm, ns, memo) for y in x.a)
            r = rebuild(x.op, a)
            memo[x] = r
        return r
    if isinstance(x, tuple):
        return tuple(_subst(y, m, ms, nm, ns, memo) for y in x)
    return x


def rebuild(op, a):
    if op == "add":
        return add(*a)
    if op == "sub":
        return sub(*a)
    if op == "mul":
        return mul(*a)
    if op == "div":
        return div(*a)
    if op == "neg":
        return neg(*a)
    if op == "ite":
        return ite(*a)
    return mk(op, *a)


def is_c(n, v=None):
    return n.op == "c" and (v is None or n.a[0] == v)


def add(a, b):
    if is_c(a, 0):
        return b
    if is_c(b, 0):
        return a
    if is_c(a) and is_c(b):
        return const(a.a[0] + b.a[0])
    return mk("add", a, b)


def sub(a, b):
    if is_c(b, 0):
        return a
    if is_c(a) and is_c(b):
        return const(a.a[0] - b.a[0])
    return mk("sub", a, b)


def mul(a, b):
    if is_c(a, 1):
        return b
    if is_c(b, 1):
        return a
    if is_c(a) and is_c(b):
        return const(a.a[0] * b.a[0])
    return mk("mul", a, b)


def div(a, b):
    if is_c(b, 1):
        return a
    if is_c(a) and is_c(b) and b.a[0] != 0:
        return const(a.a[0] / b.a[0])
    return mk("div", a, b)


def neg(a):
    if is_c(a):
        return const(-a.a[0])
    if a.op == "neg":
        return a.a[0]
    return mk("neg", a)


# ------------------------------------------------------------------ array contents
# base(name, ndim) | fresh(name, ndim) | fill(t) | eye() | lam(vars, body)
# upd(prev, bvars((name,lo,hi)..), idx(Lin..), value)
# view(content, axes, fixed, nd)  axes: ((((objaxis, off, step)..), len)..), fixed: ((objaxis, Lin)..)
# mm(viewA, viewB)    viewX are 'view' nodes (2d x 2d, 2d x 1d, 1d x 2d)
# ew(op, args..)      args: view nodes (same shape / broadcast) or float terms wrapped ('sc', t)
# opq(name, args...)  opaque


def view_len(v, ax):
    return v.a[1][ax][1]


def map_index(v, idx):
    """index into a view node -> index into its content"""
    axes, fixed, nd = v.a[1], v.a[2], v.a[3]
    out = [None] * nd
    for (parts, ln), i in zip(axes, idx):
        for oa, off, st in parts:
            out[oa] = off + mul_step(st, i)
    for oa, i in fixed:
        out[oa] = i
    return tuple(out)


def mul_step(st, i):
    if isinstance(st, int):
        return i if st == 1 else i.scale(st)
    if st.is_const():
        return i.scale(st.c)
    if i.is_const():
        return st.scale(i.c)
    return L(nl_prod(st, i))


_qn = {}


def qname(c, idx):
    k = (c, idx)
    if k not in _qn:
        _qn[k] = fresh("q")
    return _qn[k]


_nl = {}


def nl_prod(a, b):
    k = tuple(sorted((repr(a), repr(b))))
    if k not in _nl:
        _nl[k] = fresh("prod", False)
    return _nl[k]


def read(c, idx, facts, depth=0):
    """value of array content c at idx under facts"""
    idx = tuple(facts.canon(i) for i in idx)
    if depth > 200:
        return mk("sel", c, idx)
    op = c.op
    if op in ("base", "fresh", "opq"):
        return mk("sel", c, idx)
    if op == "fill":
        return c.a[0]
    if op == "eye":
        if facts.ent_eq(idx[0], idx[1]):
            return F1
        if facts.ent_ne(idx[0], idx[1]):
            return F0
        return mk("sel", c, idx)
    if op == "lam":
        return subst(c.a[1], {v: i for v, i in zip(c.a[0], idx)})
    if op == "view":
        return read(c.a[0], map_index(c, idx), facts, depth + 1)
    if op == "mm":
        A, B = c.a
        K = A.a[1][-1][1]
        na = len(A.a[1])
        q = qname(c, idx)
        f = facts.add_ge(K - L(q) - 1)
        if f is None:
            return F0
        if na == 2:
            ra = read(A, (idx[0], L(q)), f, depth + 1)
            rest = idx[1:]
        else:
            ra = read(A, (L(q),), f, depth + 1)
            rest = idx
        rb = read(B, (L(q),) + tuple(rest), f, depth + 1)
        return mksum(q, ZERO, K, mul(ra, rb), facts)
    if op == "ew":
        fn = c.a[0]
        args = []
        for x in c.a[1:]:
            if x.op == "sc":
                args.append(x.a[0])
            else:
                # broadcasting: trailing alignment; length-1 axes pinned to 0
                n = len(x.a[1])
                ii = list(idx[len(idx) - n:])
                for k in range(n):
                    if x.a[1][k][1] == ONE and not facts.ent_eq(ii[k], ZERO):
                        ii[k] = ZERO
                args.append(read(x, tuple(ii), facts, depth + 1))
        return apply_fn(fn, args)
    if op == "cat":
        axis = c.a[0]
        off = ZERO
        i = idx[axis]
        for v in c.a[1:]:
            ln = v.a[1][axis][1]
            if facts.ent_ge(i - off) and facts.ent_gt(off + ln - i):
                j = list(idx)
                j[axis] = i - off
                return read(v, tuple(j), facts, depth + 1)
            off = off + ln
        return mk("sel", c, idx)
    if op == "upd":
        st, m = match_upd(c, idx, facts)
        if st == "hit":
            return subst(c.a[3], m)
        if st == "miss":
            return read(c.a[0], idx, facts, depth + 1)
        return mk("sel", c, idx)
    return mk("sel", c, idx)


def guard_of(hi):
    """the condition l >= 0 when hi is its indicator"""
    if hi.c == 0 and len(hi.t) == 1 and hi.t[0][1] == 1:
        from .lin import APP

        a = APP.get(hi.t[0][0])
        if a is not None and a[0] == "ind":
            return a[1][0]
    return None


def match_upd(c, idx, facts):
    bv, widx = c.a[1], c.a[2]
    names = {b[0] for b in bv}
    m = {}
    eqs = [w - i for w, i in zip(widx, idx)]
    changed = True
    pend = list(eqs)
    while changed and pend:
        changed = False
        nxt = []
        for e in pend:
            e = facts.canon(e.subst(m))
            un = [s for s in e.syms() if s in names and s not in m]
            if not un:
                if facts.ent_ne(e):
                    return "miss", None
                nxt.append(e)
                continue
            one = [s for s in un if abs(e.coef(s)) == 1]
            if len(un) == 1 and one:
                s = one[0]
                k = e.coef(s)
                rest = Lin(e.c, tuple(x for x in e.t if x[0] != s))
                m[s] = rest.scale(-k)
                changed = True
            else:
                nxt.append(e)
        pend = nxt
    hit = True
    for e in pend:
        e = facts.canon(e.subst(m))
        un = [s for s in e.syms() if s in names and s not in m]
        if un:
            hit = False
            continue
        if facts.ent_ne(e):
            return "miss", None
        if not facts.ent_eq(e):
            hit = False
    for s, lo, hi in bv:
        if s not in m:
            g = guard_of(hi)
            if g is not None:
                g = g.subst(m)
                if facts.ent_ge(-g - 1):
                    return "miss", None
                if facts.ent_ge(g):
                    continue
            hit = False
            # an empty range can never hit
            if facts.ent_ge(lo.subst(m) - hi.subst(m)):
                return "miss", None
            continue
        v = m[s]
        lo2, hi2 = lo.subst(m), hi.subst(m)
        if facts.ent_gt(lo2 - v) or facts.ent_ge(v - hi2):
            return "miss", None
        if not (facts.ent_ge(v - lo2) and facts.ent_gt(hi2 - v)):
            hit = False
    if hit:
        return "hit", m
    # joint infeasibility (FM over all constraints with unsolved bvars as fresh symbols)
    f = facts
    for e in eqs:
        f = f.add_eq(e.subst(m)) if f is not None else None
        if f is None:
            return "miss", None
    for s, lo, hi in bv:
        g = guard_of(hi)
        if g is not None:
            f = f.add_ge(g.subst(m))
            if f is None:
                return "miss", None
            continue
        v = m.get(s, L(s))
        f = f.add_ge(v - lo.subst(m))
        if f is None:
            return "miss", None
        f = f.add_ge(hi.subst(m) - v - 1)
        if f is None:
            return "miss", None
    return "unk", None


def mksum(q, lo, hi, body, facts=None):
    if is_c(body, 0):
        return F0
    if facts is not None:
        n = facts.canon(hi - lo)
        if n.is_const():
            if n.c <= 0:
                return F0
            if n.c <= 4:
                r = F0
                for i in range(n.c):
                    r = add(r, subst(body, {q: lo + i}))
                return r
    return mk("sum", q, lo, hi, body)


def ite(c, a, b):
    """value of a conditional, in the form of the usual idioms where it is one (real arithmetic)"""
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if c.op == "bnot":
        return ite(c.a[0], b, a)
    if a.op == b.op and a.op in ("add", "sub", "mul", "fmax", "fmin") and len(a.a) == 2:
        if a.a[0] is b.a[0]:
            return rebuild(a.op, (a.a[0], ite(c, a.a[1], b.a[1])))
        if a.a[1] is b.a[1]:
            return rebuild(a.op, (ite(c, a.a[0], b.a[0]), a.a[1]))
    if a.op in ("add", "sub") and a.a[0] is b:
        return rebuild(a.op, (b, ite(c, a.a[1], F0)))
    if b.op in ("add", "sub") and b.a[0] is a:
        return rebuild(b.op, (a, ite(c, F0, b.a[1])))
    if c.op in ("flt", "fle"):
        x, y = c.a
        if (a, b) == (y, x):
            return mk("fmax", x, y)
        if (a, b) == (x, y):
            return mk("fmin", x, y)
        if is_c(y, 0) and b is x and a is neg(x) or is_c(x, 0) and a is y and b is neg(y):
            return mk("abs", b if is_c(y, 0) else a)
    return mk("ite", c, a, b)


FN2 = {"add": add, "sub": sub, "mul": mul, "div": div}


def apply_fn(fn, args):
    if isinstance(fn, str):
        if fn in FN2:
            return FN2[fn](*args)
        if fn == "neg":
            return neg(*args)
        if fn == "id":
            return args[0]
        if fn == "rsub":
            return sub(args[1], args[0])
        return mk(fn, *args)
    # template: (params, body) with params fsym nodes
    params, body = fn
    return subst(body, {}, dict(zip(params, args)))
