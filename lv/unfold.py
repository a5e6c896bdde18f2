"""Expansion of the recurrences the loops of an analysed entry were summarised to.

Used only to exclude false alarms: a static obligation that fails is reported only if the
recurrences extracted from the loops, expanded at small sizes, also miss the definition."""
from .ident import *
from .values import *
from .interp import beyond


def symbols(ex):
    """head symbols of all loops: name -> (record, head, kind, place)"""
    env = getattr(ex, "_unfold_env", None)
    if env is not None and env[0] == len(ex.loops):
        return env[1]
    d = {}
    for rec in ex.loops:
        for H, hs in rec.heads:
            for path, md in H.modes.items():
                if md[0] == "phic":
                    d[md[1].a[0]] = (rec, H, "c", path[1])
                elif md[0] == "phif":
                    d[md[1].a[0]] = (rec, H, "f", path)
                elif md[0] == "phi":
                    d[md[1]] = (rec, H, "i", path)
                elif md[0] == "phis" and md[1]:
                    try:
                        v = at_path(hs.frames[path[0]][path[1]], path[2:])
                    except (Unknown, KeyError, TypeError):
                        continue
                    if isinstance(v, Seq) and v.node[0] == "opq":
                        d[v.node[1]] = (rec, H, "s", path)
                elif md[0] == "phio":
                    c = H.st.heap.get(md[1])
                    if c is not None and c.op == "fresh":
                        d[c.a[0]] = (rec, H, "o", path)
    kaps = {rec.kap: rec for rec in ex.loops}
    ex._unfold_env = (len(ex.loops), d, kaps)
    return d


def inner_kaps(ex, rec):
    return {r.kap for r in ex.loops if rec.kap in r.outer}


def at_path(v, path):
    """component of a frame value at a path recorded by the loop analysis"""
    for p in path:
        if isinstance(v, It):
            v = v.node if p == "n" else v.pos
        elif isinstance(v, Seq):
            if p == "len":
                from .models import node_len_pure
                v = node_len_pure(None, None, v.node)
            else:
                v = v.node if p == "n" else None
        elif isinstance(v, SliceV):
            v = v.arr
        elif isinstance(v, ERef):
            v = v.arr if p == "a" else v.idx
        elif isinstance(v, VRef):
            v = v.v
        elif isinstance(v, Agg):
            v = v.f[p]
        elif isinstance(v, ArrV):
            v = v.axes if p == "ax" else v.fixed if p == "fx" else v.dims if p == "d" else None
        elif isinstance(v, tuple) and isinstance(p, int):
            v = v[p]
        else:
            v = None
        if v is None:
            raise Unknown("loop-carried place")
    return v


class UPoint(FPoint):
    MAXT = 12
    maxheads = 1  # loops with more head forms are not expanded

    def __init__(self, seed, facts, ex, grid=False, shared=None, **k):
        super().__init__(seed, facts, ex, grid, **k)
        self.env = symbols(ex)
        self.kaps = ex._unfold_env[2]
        self.cache = {} if shared is None else shared
        self.root = self
        self.scope = None  # (facts that hold by assumption, memo)
        self.watch = ex.loops  # loops whose iterations must be possible
        self.inside = {k for k in self.ints if k in self.kaps}  # loops this point is in the middle of

    def child(self, facts, ints, inside):
        p = type(self)(self.seed, facts, self.ex, self.grid, self.cache, ints=ints)
        p.arrays, p.eps, p.strict, p.perms = self.arrays, self.eps, self.strict, self.perms
        p.base_over = p.over = dict(getattr(self, "base_over", {}))
        p.inside = set(inside)
        p.root = self.root
        p.watch, p.scope = self.watch, self.scope
        return p

    def holds(self, facts):
        if self.scope is None:
            return exact_at(self, facts)
        memo = self.scope[1]
        if id(facts) not in memo:
            memo[id(facts)] = (facts, beyond(facts, self.scope[0]))
        return self.conj(memo[id(facts)][1]) and self.passed(facts)

    def context(self, rec):
        """the indices known outside all loops (what an expansion step guesses is not passed on)"""
        root = self.root
        return {s: v for s, v in root.ints.items() if s not in APP and not s.startswith(("q'", "b'", "r'"))
                and (s not in self.kaps or s in root.inside)
                and not (s in self.env and self.env[s][2] == "i" and self.env[s][0].kap not in root.inside)}

    def head(self, rec, H, t):
        """(point, state) giving the head values at the start of iteration t"""
        G, p, s = self.chain(rec, t)
        if G is not H:
            raise Infeasible()
        return p, s

    def chain(self, rec, t):
        """(head form, point, state) at the start of iteration t"""
        outer = tuple((k, self.int(L(k))) for k in rec.outer)
        key = (id(rec), t, outer)
        r = self.cache.get(key)
        if r is not None:
            if r == "busy":
                raise Unknown("cyclic loop value")
            if isinstance(r, Exception):
                raise r
            return r
        if t < 0 or t > self.MAXT:
            raise Unknown("iteration count")
        self.cache[key] = "busy"
        try:
            ctx = self.context(rec)
            ctx.update(outer)
            if t == 0:
                r = (rec.heads[0][0], self.child(rec.entry.facts, ctx, rec.outer), rec.entry)
            else:
                G = rec.heads[0][0] if len(rec.heads) == 1 else self.chain(rec, t - 1)[0]
                ctx[rec.kap] = t - 1
                p, s = self.step(rec, G, ctx)
                G = self.next_head(rec, s)
                r = (G, p, s)
        except Infeasible as e:
            self.cache[key] = e
            raise
        except BaseException:
            del self.cache[key]
            raise
        self.cache[key] = r
        return r

    def next_head(self, rec, s):
        """the head form a state at the end of an iteration arrives at"""
        if len(rec.heads) == 1:
            return rec.heads[0][0]
        i = rec.dest.get(id(s)) if rec.dest else None
        if i is None:
            raise Unknown("loop with several head forms")
        return rec.heads[i][0]

    def step(self, rec, H, ctx):
        why = None
        for s, h in rec.raws:
            if h is not H:
                continue
            script = []
            n = 0
            while script is not None and n < 64:
                n += 1
                try:
                    p = self.child(s.facts, dict(ctx), rec.outer + (rec.kap,))
                except Undefined:
                    break
                p.script = script
                try:
                    if p.holds(s.facts):
                        if s.taint:
                            raise Unknown("loop step not modelled")
                        return (p, s)
                except Infeasible:
                    pass
                except Undefined:
                    why = why or "undefined"
                script = p.next_script()
        if why:
            raise Undefined()
        raise Infeasible()

    def carried(self, s):
        x = self.env.get(s)
        return x is not None and x[2] == "i" and all(k in self.ints for k in x[0].outer)

    def passed(self, facts):
        syms = None
        for rec in self.watch:
            if syms is None:
                syms = fact_syms(facts)
            if rec.kap not in syms and rec.kap not in self.ints or len(rec.heads) > self.maxheads or not all(k in self.ints for k in rec.outer):
                continue
            try:
                t = self.int(L(rec.kap))
                outer = tuple((k, self.int(L(k))) for k in rec.outer)
                key = ("passed", id(rec), t, outer)
                if key in self.cache:
                    continue
                for i in range(t + 1):
                    H = self.chain(rec, i)[0]
                if rec.kap not in self.inside and not self.leaves(rec, H, t, outer):
                    return False
                self.cache[key] = True
            except Infeasible:
                return False
            except Unknown:
                self.loose = True
        return True

    def value(self, x, idx=None):
        rec, H, kind, place = x
        t = self.int(L(rec.kap))
        p, s = self.head(rec, H, t)
        if kind == "c":
            return p.read(s.heap[place], idx)
        v = at_path(s.frames[place[0]][place[1]], place[2:])
        if kind == "s":
            return p.elem(s, v, idx)
        if kind == "o":
            if not isinstance(v, ArrV):
                raise Unknown("loop-carried array")
            return p.read(s.heap[v.obj], tuple(p.int(i) for i in v.index(tuple(Lin(i) for i in idx))))
        if kind == "i":
            if not isinstance(v, Lin):
                raise Unknown("loop-carried index")
            return p.int(v)
        if not is_float(v):
            raise Unknown("loop-carried value")
        return p.f(v)

    def elem(self, s, v, k):
        """k-th element of a sequence value"""
        if not isinstance(v, Seq):
            raise Unknown("loop-carried sequence")
        m = self.ex.models
        s = s.copy()
        r = m.node_elem(self.ex, s, v.node, Lin(k))
        if len(r) != 1 or not s.taint >= r[0][0].taint:
            raise Unknown("element of a sequence")
        s, x = r[0]
        x = self.ex.val(s, x)
        while isinstance(x, VRef):
            x = x.v
        if is_bool(x):
            return self.b(x) if isinstance(x, N) else x
        if isinstance(x, ERef):
            return self.read(s.heap[x.arr.obj], tuple(self.int(i) for i in x.arr.index(x.idx)))
        if not is_float(x):
            raise Unknown("element of a sequence")
        return self.f(x)

    def b(self, t):
        if isinstance(t, N) and t.op == "bapp" and t.a[0] in self.env and len(t.a) == 2:
            return self.value(self.env[t.a[0]], self.int(t.a[1]))
        if isinstance(t, N) and t.op == "bapp" and t.a[0] in self.ex.gens:
            v = self.outcome(t)
            return v if isinstance(v, bool) else self.scoped((self.ex.gens[t.a[0]][0],), (self.int(t.a[1]),), lambda: self.b(v))
        return super().b(t)

    def outcome(self, t):
        q, cases = self.ex.gens[t.a[0]]
        k, why, gone = self.int(t.a[1]), None, None

        def conj(cs):
            w = None
            for c in cs:
                try:
                    if not self.b(c):
                        return False
                except (Unknown, Undefined) as e:
                    w = e
            if w:
                raise w
            return True
        for cs, v in cases:
            try:
                if self.scoped((q,), (k,), lambda: conj(cs)):
                    return v
            except Infeasible as e:
                gone = e
            except (Unknown, Undefined) as e:
                why = why or e
        raise why or gone or Undefined()

    def isym(self, s):
        v = self.ints.get(s)
        if v is not None:
            return v
        if s in APP:
            return super().isym(s)
        if s in self.env:
            v = self.ints[s] = self.value(self.env[s])
            return v
        v = self.solve(s)
        if v is None and s in self.kaps:
            v = self.count(self.kaps[s])
        if v is not None:
            self.ints[s] = v
            return v
        self.sync()
        return super().isym(s)

    def count(self, rec):
        """how many iterations a finished loop made (None: not decided)"""
        if len(rec.heads) > self.maxheads or not all(k in self.ints for k in rec.outer):
            return None
        outer = tuple((k, self.int(L(k))) for k in rec.outer)
        key = ("count", id(rec), outer)
        r = self.cache.get(key)
        if r is None:
            r = self.count_of(rec, outer)
            self.cache[key] = r
        if r == "none":
            return None
        if r == "never":
            raise Infeasible()
        return r

    def count_of(self, rec, outer):
        try:
            for t in range(self.MAXT + 1):
                H = self.chain(rec, t)[0]
                if self.leaves(rec, H, t, outer):
                    return t
        except Infeasible:
            return "never"
        except (Unknown, Undefined):
            pass
        return "none"

    def leaves(self, rec, H, t, outer):
        """can the loop end after t iterations"""
        key = ("leaves", id(rec), t, outer)
        r = self.cache.get(key)
        if r is not None:
            return r
        ctx = self.context(rec)
        ctx.update(outer)
        ctx[rec.kap] = t
        why = None
        for _, f, h, bad in rec.outs:
            if h is not H:
                continue
            script, n = [], 0
            while script is not None and n < 64:
                n += 1
                try:
                    p = self.child(f, dict(ctx), rec.outer + (rec.kap,))
                    p.script = script
                    if p.holds(f):
                        if bad:
                            raise Unknown("loop exit not modelled")
                        self.cache[key] = True
                        return True
                except Infeasible:
                    pass
                except Undefined:
                    why = why or "undefined"
                script = p.next_script()
        if why:
            raise Undefined()
        self.cache[key] = False
        return False

    def solve(self, s):
        """the only value the facts leave, given the indices already known (None: not decided here)"""
        known = self.ints
        r = self.facts.sub.get(s)
        if r is not None:
            return self.int(r)
        lo = hi = None
        for k, l in self.facts.sub.items():
            if k in known and k not in APP:
                c = rest = 0
                for x, m in l.t:
                    if x == s:
                        c = m
                    elif x in known:
                        rest += m * known[x]
                    else:
                        break
                else:
                    if c:
                        d = known[k] - l.c - rest
                        if d % c:
                            raise Infeasible()
                        return d // c
        for l in self.facts.ge:
            c = rest = 0
            for x, m in l.t:
                if x == s:
                    c = m
                elif x in known:
                    rest += m * known[x]
                else:
                    break
            else:
                rest += l.c
                if c > 0:
                    b = -(rest // c)
                    lo = b if lo is None or b > lo else lo
                elif c < 0:
                    b = rest // -c
                    hi = b if hi is None or b < hi else hi
        if lo is not None and hi is not None:
            if lo > hi:
                raise Infeasible()
            if lo == hi:
                return lo
        return None

    def sync(self):
        """tell the facts the indices known by now"""
        done = self.__dict__.setdefault("synced", set())
        if not hasattr(self, "fsyms"):
            self.fsyms = fact_syms(self.facts)
        for s, v in list(self.ints.items()):
            if s not in done and s not in APP and s in self.fsyms:
                done.add(s)
                g = self.facts.add_eq(L(s) - v)
                if g is None:
                    raise Infeasible()
                self.facts = g

    def picked(self, name, n):
        q, c = self.ex.pred_names[name]
        if c is None:
            raise Unknown("selection")
        return [i for i in range(n) if (self.scoped((q,), (i,), lambda: self.b(c)) if isinstance(c, N) else c)]

    def iapp(self, fn, a):
        if fn.startswith("count:") and fn[6:] in getattr(self.ex, "pred_names", {}):
            return len(self.picked(fn[6:], a[0]))
        if fn.startswith("pick:") and fn[5:] in getattr(self.ex, "pred_names", {}):
            l = self.picked(fn[5:], a[1])
            if not 0 <= a[0] < len(l):
                raise Undefined()
            return l[a[0]]
        return super().iapp(fn, a)

    def _f(self, t):
        if t.op == "fsym" and t not in self.over:
            x = self.env.get(t.a[0])
            if x is not None:
                return self.value(x)
        if t.op == "fapp" and t.a[0] in self.env and len(t.a) == 2:
            return self.value(self.env[t.a[0]], self.int(t.a[1]))
        if t.op == "fapp" and t.a[0] in self.ex.gens:
            v = self.outcome(t)
            return self.scoped((self.ex.gens[t.a[0]][0],), (self.int(t.a[1]),), lambda: self.f(v))
        return super()._f(t)

    def _read(self, c, idx):
        if c.op == "fresh" and c.a[0] not in self.arrays:
            x = self.env.get(c.a[0])
            if x is not None:
                return self.value(x, idx)
        return super()._read(c, idx)
