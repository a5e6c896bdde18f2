"""Abstract interpreter over the compiler's MIR.

Domain: disjunctions of (frames, array heap, facts).  Integers are linear expressions, facts a
polyhedral domain, element values hash-consed terms (value numbering), arrays symbolic contents
of symbolic shape.  Loops are solved by fixpoint: every loop-carried location is kept constant,
affine in the iteration number, or widened to an unconstrained value, with inductively checked
linear invariants.  Nothing is executed and no size is fixed: shapes are arbitrary.
"""
import sys
from .lin import Lin, L, Facts, fresh, app, SYMINFO, ZERO, ONE, APP
from . import term as T
from .term import N, mk, F0, F1, read, uid
from .values import *

sys.setrecursionlimit(20000)

OBJ = {}  # obj -> (dims tuple, info dict)


class Stop(Exception):
    pass


class State:
    __slots__ = ("frames", "heap", "facts", "taint", "notes")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.facts = Facts()
        self.taint = frozenset()
        self.notes = ()

    def copy(self):
        s = State()
        s.frames = {f: dict(d) for f, d in self.frames.items()}
        s.heap = dict(self.heap)
        s.facts = self.facts
        s.taint = self.taint
        s.notes = self.notes
        return s

    def with_facts(self, f):
        s = self.copy()
        s.facts = f
        return s

    def tainted(self, why):
        self.taint = self.taint | {why}
        return self


class Event:
    __slots__ = ("kind", "site", "stack", "facts", "taint", "data", "msg")

    def __init__(self, kind, site, stack, st, data=None, msg=""):
        self.kind = kind
        self.site = site
        self.stack = stack
        self.facts = st.facts
        self.taint = st.taint
        self.data = data
        self.msg = msg

    def __repr__(self):
        return f"{self.kind} {self.msg} at {self.site}"


class Interp:
    def __init__(self, prog, models, release=False):
        self.prog = prog
        self.models = models
        self.release = release
        self.events = []
        self.loops = []  # records of final loop passes
        self.stack = []  # [(fnkey, line)]
        self.fid = 0
        self.stubs = {}
        self.gens = {}  # opaque functions of a position: the outcomes they stand for
        self.visited = set()  # (fnkey, bb) analysed
        self.calls = 0
        self.unknown = set()
        self.depth = 0
        self.record_rw = False
        self.join_values = False
        self.quantify = False  # loops record what their conditions say about finished iterations
        self.pure = 0  # inside the evaluation of a generic sequence element
        self.layouts = False  # arguments have an arbitrary memory layout
        self.real = False  # decide sign tests by real arithmetic
        self.loop_hook = None
        self.steps = 0
        self.maxsteps = 4000000
        self.hints = {}
        self.active = []  # loops being solved: (iteration symbol, heads)

    # ------------------------------------------------------------------ events
    def site(self):
        k, l = self.stack[-1] if self.stack else ("<driver>", 0)
        return (k, l)

    def ev(self, kind, st, data=None, msg=""):
        self.events.append(Event(kind, self.site(), tuple(self.stack), st, data, msg))

    def require(self, st, conds, kind, msg):
        """conds: list of Lin >= 0 that must hold. Records an obligation; returns the state
        continuing under the conditions, or None."""
        ok_ = True
        f = st.facts
        for c in conds:
            if not f.ent_ge(c):
                ok_ = False
        self.ev("obl", st, (kind, ok_, tuple(conds)), msg)
        if ok_:
            return st
        for c in conds:
            f = f.add_ge(c)
            if f is None:
                return None
        return st.with_facts(f)

    def require_eq(self, st, a, b, kind, msg):
        d = a - b
        ok_ = st.facts.ent_eq(d)
        self.ev("obl", st, (kind, ok_, ("eq", d)), msg)
        if ok_:
            return st
        f = st.facts.add_eq(d)
        return None if f is None else st.with_facts(f)

    def panic(self, st, kind, msg=""):
        self.ev("obl", st, (kind, False, ()), msg)

    def taint(self, st, why):
        st.taint = st.taint | {f"{why} @{self.site()[0]}"}
        self.unknown.add(why)
        return st

    # ------------------------------------------------------------------ arrays
    def new_arr(self, st, dims, content, name="t", origin=None):
        o = uid(name)
        dims = tuple(dims)
        OBJ[o] = (dims, {"name": name, "origin": origin, "site": self.site()})
        st.heap[o] = content
        return ArrV(
            o, tuple((((i, ZERO, 1),), d) for i, d in enumerate(dims)), (), len(dims), True
        )

    def view_node(self, st, a):
        return mk("view", st.heap[a.obj], a.axes, a.fixed, a.nd)

    def rd(self, st, a, idx, why="read"):
        ix = a.index(idx)
        if self.record_rw:
            self.ev("read", st, (a.obj, ix), why)
        return read(st.heap[a.obj], ix, st.facts)

    def wr(self, st, a, idx, val, why="write"):
        ix = a.index(idx)
        if self.record_rw:
            self.ev("write", st, (a.obj, ix, val, ()), why)
        st.heap[a.obj] = mk("upd", st.heap[a.obj], (), tuple(st.facts.canon(i) for i in ix), val)

    def bulk_vars(self, st, a, base="b"):
        """bound variables ranging over a view; returns (bvars, idx, facts)"""
        vs, f = [], st.facts
        for k, d in enumerate(a.dims):
            s = fresh(base)
            vs.append((s, ZERO, d))
            if f is not None:
                f = f.add_ge(d - L(s) - 1)
        return tuple(vs), tuple(L(v[0]) for v in vs), f

    def bulk_write(self, st, a, fn, why="write"):
        """a[idx] = fn(idx, facts) for all idx"""
        vs, idx, f = self.bulk_vars(st, a)
        if f is None:
            return
        val = fn(idx, f)
        ix = a.index(idx)
        if self.record_rw:
            s2 = st.with_facts(f)
            self.ev("write", s2, (a.obj, ix, val, vs), why)
        dims = OBJ[a.obj][0]
        if (
            len(a.axes) == a.nd
            and not a.fixed
            and all(
                len(p) == 1 and p[0][0] == k and p[0][1] == ZERO and p[0][2] == 1
                for k, (p, l) in enumerate(a.axes)
            )
            and all(st.facts.ent_eq(d, e) for d, e in zip(a.dims, dims))
        ):
            if not (T.syms_of(val) & {v[0] for v in vs}) and val.op in ("c", "fsym", "fconst"):
                st.heap[a.obj] = mk("fill", val)
            else:
                st.heap[a.obj] = mk("lam", tuple(v[0] for v in vs), val)
            return
        st.heap[a.obj] = mk("upd", st.heap[a.obj], vs, tuple(st.facts.canon(i) for i in ix), val)

    def bulk_read(self, st, a, why="read"):
        if self.record_rw:
            vs, idx, f = self.bulk_vars(st, a, "r")
            if f is not None:
                self.ev("read", st.with_facts(f), (a.obj, a.index(idx)), why)

    # ------------------------------------------------------------------ places
    def loc(self, st, fid, p):
        """place -> location"""
        l, proj = p
        cur = ("L", fid, l, ())
        for e in proj:
            k = e[0]
            if k == "deref":
                v = self.load(st, cur)
                cur = self.deref(st, v)
            elif k == "f":
                cur = self.sub(st, cur, ("f", e[1]))
            elif k == "v":
                cur = self.sub(st, cur, ("v", e[1]))
            elif k == "idx":
                i = st.frames[fid][e[1]]
                v = self.load(st, cur)
                cur = self.idx_loc(st, cur, v, i)
            elif k == "cidx":
                v = self.load(st, cur)
                cur = self.idx_loc(st, cur, v, Lin(e[1]) if not e[2] else None)
            elif k == "cast":
                pass
            else:
                self.taint(st, f"projection {k}")
                cur = ("V", Opq(f"projection {k}"), ())
        return cur

    def idx_loc(self, st, cur, v, i):
        if isinstance(v, SliceV):
            return ("E", v.arr, (i,) if len(v.arr.axes) == 1 else self.models.flat_index(self, st, v.arr, i))
        if isinstance(v, Agg) and v.kind == "array" and isinstance(i, Lin) and i.is_const():
            if i.c < len(v.f):
                return self.sub(st, cur, ("f", i.c))
        if isinstance(v, ArrV):
            return ("E", v, (i,))
        self.taint(st, "slice index")
        return ("V", Opq("slice index"), ())

    def deref(self, st, v):
        if isinstance(v, Ref):
            return ("L", v.fid, v.local, v.proj)
        if isinstance(v, ERef):
            return ("E", v.arr, v.idx)
        if isinstance(v, VRef):
            return ("V", v.v, ())
        if isinstance(v, Opq):
            return ("V", v, ())
        # Box-like / by-value pointers
        return ("V", v, ())

    def sub(self, st, cur, e):
        if cur[0] == "L":
            return ("L", cur[1], cur[2], cur[3] + (e,))
        if cur[0] == "V":
            return ("V", cur[1], cur[2] + (e,))
        self.taint(st, "field of array element")
        return ("V", Opq("field of element"), ())

    def proj_get(self, st, v, proj):
        for e in proj:
            if e[0] == "v":
                continue
            if isinstance(v, Agg):
                if e[1] < len(v.f):
                    v = v.f[e[1]]
                else:
                    return self._opq(st, "missing field")
            elif isinstance(v, Opq):
                return v
            else:
                return self._opq(st, f"field {e[1]} of {type(v).__name__}")
        return v

    def _opq(self, st, why):
        self.taint(st, why)
        return Opq(why)

    def load(self, st, cur):
        if cur[0] == "L":
            fr = st.frames.get(cur[1])
            if fr is None or cur[2] not in fr:
                return self._opq(st, "dead local")
            v = fr[cur[2]]
            return self.proj_get(st, v, cur[3]) if cur[3] else v
        if cur[0] == "V":
            return self.proj_get(st, cur[1], cur[2])
        a, idx = cur[1], cur[2]
        return self.rd(st, a, idx, "elem")

    def proj_set(self, st, v, proj, val):
        if not proj:
            return val
        e = proj[0]
        if e[0] == "v":
            if isinstance(v, Agg) and len(proj) > 1:
                return self.proj_set(st, v, proj[1:], val)
            return self._opq(st, "variant write")
        if isinstance(v, Agg):
            f = list(v.f)
            while len(f) <= e[1]:
                f.append(Opq("uninit"))
            f[e[1]] = self.proj_set(st, f[e[1]], proj[1:], val)
            return Agg(v.kind, v.key, v.variant, tuple(f))
        if v is None or (isinstance(v, Opq) and v.why == "uninit"):
            return self.proj_set(st, Agg("tuple", None, 0, ()), proj, val)
        return self._opq(st, "field write")

    def store(self, st, cur, val):
        if cur[0] == "L":
            fr = st.frames.get(cur[1])
            if fr is None:
                self.taint(st, "write to dead frame")
                return
            if cur[3]:
                fr[cur[2]] = self.proj_set(st, fr.get(cur[2]), cur[3], val)
            else:
                fr[cur[2]] = val
            return
        if cur[0] == "E":
            if not is_float(val):
                val = self.as_float(st, val)
            self.wr(st, cur[1], cur[2], val, "elem")
            return
        if isinstance(cur[1], Opq):
            self.taint(st, "write through opaque")
            return
        self.taint(st, "write to temporary")

    def as_float(self, st, v):
        if is_float(v):
            return v
        if isinstance(v, (Ref, ERef, VRef)):
            return self.as_float(st, self.load(st, self.deref(st, v)))
        if isinstance(v, Lin):
            return mk("i2f", v)
        self.taint(st, f"non-numeric element {type(v).__name__}")
        return mk("fsym", uid("opq"))

    # strip references fully
    def val(self, st, v):
        n = 0
        while isinstance(v, (Ref, ERef, VRef)) and n < 12:
            v = self.load(st, self.deref(st, v))
            n += 1
        if isinstance(v, SliceV):
            pass
        return v

    # ------------------------------------------------------------------ operands
    def operand(self, st, fid, o, body):
        k = o["o"]
        if k in ("copy", "move"):
            loc = self.loc(st, fid, o["p"])
            v = self.load(st, loc)
            if k == "move" and loc[0] == "L" and not loc[3] and loc[1] == fid:
                pass
            return v
        if k == "const":
            return self.const(st, o["k"], body)
        return self._opq(st, "operand")

    def const(self, st, c, body):
        if c["c"] == "fn":
            return FnV(c["fn"])
        if c["c"] == "val":
            v = c["v"]
            t = self.prog.types[c["ty"]]
            n = t.get("n", "")
            if n == "bool":
                return bool(v)
            if n in ("f64", "f32"):
                return fconst_of(v)
            if n == "char":
                return Opq("char")
            return Lin(int(v))
        if c["c"] == "promoted":
            fn = self.prog.fns.get(c["of"])
            pb = fn.promoted(c["i"])
            self.fid += 1
            fid = self.fid
            st.frames[fid] = {}
            for ln, p, r in pb.bbs[0]["s"]:
                if r["r"] == "sd":
                    continue
                self.store(st, self.loc(st, fid, p), self.rvalue(st, fid, r, pb, p))
            v = st.frames[fid].get(0)
            v = self.pin(st, v, fid)
            del st.frames[fid]
            return v
        t = self.prog.types[c["ty"]]
        if t["k"] == "tuple" and not t["a"]:
            return UNIT
        if t["k"] == "adt":
            ad = self.prog.adts.get(t["p"])
            if ad and len(ad["v"]) == 1 and not ad["v"][0]["f"]:
                return Agg("adt", t["p"], 0, ())
            if t["p"].endswith("PhantomData"):
                return Agg("adt", t["p"], 0, ())
        return Opq("const " + c.get("s", ""), c["ty"])

    def pin(self, st, v, fid):
        """turn references into a dying constant frame into value references"""
        if isinstance(v, Ref) and v.fid == fid:
            return VRef(self.pin(st, self.load(st, ("L", fid, v.local, v.proj)), fid))
        if isinstance(v, Agg):
            return Agg(v.kind, v.key, v.variant, tuple(self.pin(st, x, fid) for x in v.f))
        return v

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, st, fid, r, body, dest=None):
        k = r["r"]
        if k == "use":
            return self.operand(st, fid, r["o"], body)
        if k in ("ref", "rawptr"):
            p = r["p"]
            cur = self.loc(st, fid, p)
            if cur[0] == "L":
                return Ref(cur[1], cur[2], cur[3])
            if cur[0] == "E":
                return ERef(cur[1], cur[2])
            return VRef(self.proj_get(st, cur[1], cur[2]))
        if k == "agg":
            ops = tuple(self.operand(st, fid, o, body) for o in r["a"])
            if r["k"] == "adt":
                return Agg("adt", r["n"], r["v"], ops)
            return Agg(r["k"], r["n"], 0, ops)
        if k == "disc":
            v = self.load(st, self.loc(st, fid, r["p"]))
            w = self.val(st, v)
            if isinstance(w, Agg):
                return Lin(self.disc_value(w))
            return ("disc", v)
        if k == "bin":
            a = self.operand(st, fid, r["l"], body)
            b = self.operand(st, fid, r["x"], body)
            return self.binop(st, r["b"], a, b)
        if k == "un":
            a = self.operand(st, fid, r["o"], body)
            if r["u"] == "Not":
                if is_bool(a):
                    return bnot(a)
                return self._opq(st, "not")
            if r["u"] == "Neg":
                if isinstance(a, Lin):
                    return -a
                if is_float(a):
                    return T.neg(a)
            if r["u"] == "PtrMetadata":
                v = self.val(st, a)
                if isinstance(v, SliceV):
                    return self.models.size(v.arr.dims)
                if isinstance(v, Agg) and v.kind == "array":
                    return Lin(len(v.f))
                if isinstance(v, Seq):
                    return self.models.node_len(self, st, v.node)
            return self._opq(st, f"unary {r['u']}")
        if k == "cast":
            a = self.operand(st, fid, r["o"], body)
            kk = r["k"]
            if kk.startswith("PointerCoercion") or kk in ("PtrToPtr", "Transmute", "BoxDerefTransmute"):
                return a
            if kk == "IntToInt":
                if isinstance(a, bool):
                    return Lin(int(a))
                if is_bool(a):
                    return ("boolint", a)
                return a
            if kk == "FloatToFloat":
                self.ev("cast", st, (kk,), "float to float cast")
                return a
            if kk == "IntToFloat":
                if isinstance(a, Lin):
                    return T.const(a.c) if a.is_const() else mk("i2f", a)
            self.ev("cast", st, (kk,), "cast")
            return self._opq(st, f"cast {kk}")
        if k == "repeat":
            a = self.operand(st, fid, r["o"], body)
            if r["n"] is not None and r["n"] <= 64:
                return Agg("array", None, 0, (a,) * r["n"])
            return self._opq(st, "repeat")
        return self._opq(st, f"rvalue {k}")

    BIG = 1 << 60

    def binop(self, st, b, a, c):
        if isinstance(a, Lin) and isinstance(c, Lin):
            if b in ("Add", "AddUnchecked"):
                return a + c
            if b == "AddWithOverflow":
                return tup(a + c, False)
            if b == "SubWithOverflow":
                return tup(a - c, bnot(cge(a - c)))
            if b in ("Sub", "SubUnchecked"):
                if st.facts.ent_ge(a - c):
                    return a - c
                return ("subwrap", a, c)
            if b in ("Mul", "MulWithOverflow", "MulUnchecked"):
                v = lin_mul(a, c)
                return tup(v, False) if b == "MulWithOverflow" else v
            if b == "Eq":
                return ceq(st.facts.canon(a - c))
            if b == "Ne":
                return bnot(ceq(st.facts.canon(a - c)))
            if b == "Lt":
                return cge(c - a - 1)
            if b == "Le":
                return cge(c - a)
            if b == "Gt":
                return cge(a - c - 1)
            if b == "Ge":
                return cge(a - c)
            if b == "Div" and c.is_const() and c.c > 0:
                return self.int_div(st, a, c.c)
            if b == "Rem" and c.is_const() and c.c > 0:
                q = self.int_div(st, a, c.c)
                return a - q.scale(c.c)
            if b in ("Div", "Rem") and st.facts.ent_ge(c - 1):
                if st.facts.ent_ge(c - a - 1):
                    return ZERO if b == "Div" else a
                q, m = L(app("div", a, c)), L(app("rem", a, c))
                f = st.facts.add_eq(lin_mul(q, c) + m - a)
                for x in (q, m, c - m - 1, a - q):
                    f = f.add_ge(x) if f is not None else None
                if f is not None:
                    st.facts = f
                return q if b == "Div" else m
            return self._opq(st, f"int {b}")
        if is_float(a) and is_float(c):
            if b == "Add":
                return T.add(a, c)
            if b == "Sub":
                return T.sub(a, c)
            if b == "Mul":
                return T.mul(a, c)
            if b == "Div":
                return T.div(a, c)
            if b == "Lt":
                return fcmp("flt", a, c)
            if b == "Le":
                return fcmp("fle", a, c)
            if b == "Gt":
                return fcmp("flt", c, a)
            if b == "Ge":
                return fcmp("fle", c, a)
            if b == "Eq":
                return fcmp("feq", a, c)
            if b == "Ne":
                return bnot(fcmp("feq", a, c))
        if is_bool(a) and is_bool(c):
            if b == "BitAnd":
                return band(a, c)
            if b == "BitOr":
                return bnot(band(bnot(a), bnot(c)))
            if b in ("Eq", "Ne"):
                if isinstance(a, bool):
                    a, c = c, a
                if isinstance(c, bool):
                    r = a if c else bnot(a)
                else:
                    r = mk("bapp", "eq", *sorted((a, c), key=lambda n: n.id))
                return r if b == "Eq" else bnot(r)
        if isinstance(a, tuple) and a and a[0] == "disc":
            a = a[1]
        if isinstance(a, Opq) or isinstance(c, Opq):
            return Opq("op on opaque")
        return self._opq(st, f"binop {b} {type(a).__name__}")

    def int_div(self, st, a, k):
        if a.is_const():
            return Lin(a.c // k)
        q = L(app(f"div{k}", a))
        f = st.facts.add_ge(a - q.scale(k))
        f = f.add_ge(q.scale(k) + (k - 1) - a) if f else f
        if f is not None:
            st.facts = f
        return q

    # ------------------------------------------------------------------ branching
    def split(self, st, c):
        """-> (state if true | None, state if false | None); st may be reused"""
        if isinstance(c, bool):
            return (st, None) if c else (None, st)
        if isinstance(c, Opq):
            a, b = st.copy(), st
            self.taint(a, f"branch on opaque ({c.why})")
            self.taint(b, f"branch on opaque ({c.why})")
            return a, b
        if c.op == "bnot":
            t, f = self.split(st, c.a[0])
            return f, t
        if c.op == "band":
            t, f1 = self.split(st, c.a[0])
            if t is None:
                return None, f1
            t2, f2 = self.split(t, c.a[1])
            # merge of the two false branches is represented by losing the literal
            if f1 is None:
                return t2, f2
            if f2 is None:
                return t2, f1
            base = f1.copy()
            base.facts = f1.facts.subset_entailed_by(f2.facts)
            if not self.join_values:
                base.facts = base.facts.add_lit(c, False) or base.facts
            return t2, base
        if c.op == "bor":
            f, t = self.split(st, mk("band", bnot(c.a[0]), bnot(c.a[1])))
            return t, f
        if c.op == "cge":
            l = c.a[0]
            ft = st.facts.add_ge(l)
            ff = st.facts.add_ge(-l - 1)
        elif c.op == "ceq":
            l = c.a[0]
            ft = st.facts.add_eq(l)
            ff = st.facts.add_ne(l)
        else:
            v = self.lit_val(st, c)
            if v is not None:
                return (st, None) if v else (None, st)
            ft = st.facts.add_lit(c, True)
            ff = st.facts.add_lit(c, False)
        if ft is None and ff is None:
            return None, None
        if ff is None:
            st.facts = ft
            return st, None
        if ft is None:
            st.facts = ff
            return None, st
        a = st.copy()
        a.facts = ft
        st.facts = ff
        return a, st

    def lit_val(self, st, c):
        v = st.facts.lits.get(c)
        if v is not None:
            return v
        if c.op in ("flt", "fle", "feq"):
            a, b = c.a
            li = st.facts.lits
            if self.real and c.op == "fle" and T.is_c(a, 0) and nonneg(b):
                return True
            if self.real and c.op == "flt" and T.is_c(b, 0) and nonneg(a):
                return False
            if c.op == "flt":
                if li.get(mk("flt", b, a)) or li.get(mk("feq", a, b)) or li.get(mk("feq", b, a)):
                    return False
                if li.get(mk("fle", a, b)) is False:
                    return False
                if li.get(mk("fle", b, a)):
                    return False
            elif c.op == "fle":
                if li.get(mk("flt", a, b)) or li.get(mk("feq", a, b)) or li.get(mk("feq", b, a)):
                    return True
                if li.get(mk("flt", b, a)):
                    return False
            else:
                r = li.get(mk("feq", b, a))
                if r is not None:
                    return r
                if li.get(mk("flt", a, b)) or li.get(mk("flt", b, a)):
                    return False
                if li.get(mk("fle", a, b)) is False or li.get(mk("fle", b, a)) is False:
                    return False
        return None

    # ------------------------------------------------------------------ calls
    def call_value(self, st, fv, args, want=None):
        """call a closure / fn value with a list of args (already untupled)"""
        byref = fv
        fv = self.val(st, fv)
        if isinstance(fv, FnV):
            return self.call_fn(st, fv.f, args, None)
        if isinstance(fv, Agg) and fv.kind == "closure":
            fn = self.prog.fns.get(fv.key)
            if fn is None:
                self.taint(st, "foreign closure")
                return [(st, Opq("closure"))]
            # closure body takes self (by ref or by value) as first arg
            t = self.prog.types[fn.body.locals[1]]
            if t["k"] in ("ref", "ptr"):
                if isinstance(byref, Ref):
                    # find the reference to the closure object itself
                    v = byref
                    while isinstance(self.load(st, self.deref(st, v)), (Ref, VRef)):
                        v = self.load(st, self.deref(st, v))
                    selfv = v
                elif isinstance(byref, VRef):
                    selfv = byref
                else:
                    # closure object stored by value: keep it alive in a frame of its own
                    self.fid += 1
                    st.frames[self.fid] = {0: fv}
                    selfv = Ref(self.fid, 0, ())
            else:
                selfv = fv
            return self.inline(st, fn, [selfv] + list(args))
        if isinstance(fv, OpqFn):
            h = getattr(self, "opq_call", None)
            if h is not None:
                r = h(self, st, fv, args)
                if r is not None:
                    return r
        self.taint(st, f"call of unknown function value {fv!r}"[:80])
        self.havoc_args(st, args)
        return [(st, Opq("unknown fn value"))]

    def havoc_args(self, st, args, seen=None):
        seen = set() if seen is None else seen
        for a in args:
            if isinstance(a, Ref):
                v = self.load(st, self.deref(st, a))
                if (a.fid, a.local) not in seen:
                    seen.add((a.fid, a.local))
                    self.havoc_args(st, [v], seen)
            elif isinstance(a, ArrV):
                st.heap[a.obj] = mk("fresh", uid("havoc"), a.nd)
            elif isinstance(a, ERef):
                st.heap[a.arr.obj] = mk("fresh", uid("havoc"), a.arr.nd)
            elif isinstance(a, Agg):
                self.havoc_args(st, a.f, seen)

    def resolve(self, st, f, args):
        """local function to inline for this callee, or None"""
        P = self.prog
        for k in (f["res"], f["key"]):
            if k in P.fns and not P.fns[k].in_trait:
                return P.fns[k]
        tr = f["trait"]
        if tr is None:
            return P.fns.get(f["key"])
        cands = P.by_trait.get((tr, f["name"]), [])
        if cands and args:
            v = args[0]
            best = None
            for sty, key in cands:
                sc = self.match_self(st, sty, v)
                if sc and (best is None or sc > best[0]):
                    best = (sc, key)
            if best:
                return P.fns[best[1]]
        if cands and not args and len(cands) == 1:
            return P.fns[cands[0][1]]
        d = P.defaults.get((tr, f["name"]))
        if d:
            return P.fns[d]
        return None

    def match_self(self, st, sty, v):
        P = self.prog
        t = P.types[sty]
        v = self.val(st, v)
        if t["k"] == "ref":
            return self.match_self(st, t["t"], v)
        if t["k"] == "adt":
            if t["p"].endswith("::ArrayBase"):
                if not isinstance(v, ArrV):
                    return 0
                nd = P.ndim(sty)
                if nd is None:
                    return 2
                return 3 if nd == len(v.axes) else 0
            if isinstance(v, Agg) and v.key == t["p"]:
                return 3
            return 0
        if t["k"] == "tuple":
            if isinstance(v, Agg) and v.kind == "tuple" and len(v.f) == len(t["a"]):
                for x, y in zip(t["a"], v.f):
                    if not self.match_self(st, x, y):
                        return 0
                return 3
            return 0
        if t["k"] == "param":
            return 1
        if t["k"] == "prim":
            if t["n"] in ("f64", "f32"):
                return 1 if is_float(v) else 0
            if t["n"] in ("usize", "u64", "i32", "isize"):
                return 2 if isinstance(v, Lin) else 0
        return 0

    def call_fn(self, st, f, args, ctx):
        self.calls += 1
        for k in (f["res"], f["key"]):
            if k in self.stubs:
                r = self.stubs[k](self, st, f, args)
                if r is not None:
                    return r
        m = self.models.lookup_first(self, st, f, args)
        if m is not None:
            r = m(self, st, f, args, ctx)
            if r is not None:
                return r
        fn = self.resolve(st, f, args)
        if fn is not None and fn.key in self.stubs:
            r = self.stubs[fn.key](self, st, f, args)
            if r is not None:
                return r
        if fn is not None:
            return self.inline(st, fn, args)
        m = self.models.lookup(self, st, f, args)
        if m is not None:
            r = m(self, st, f, args, ctx)
            if r is not None:
                return r
        self.taint(st, f"unmodelled call {f['path']}")
        self.havoc_args(st, args)
        return [(st, Opq("unmodelled " + f["path"]))]

    def inline(self, st, fn, args):
        if len(self.stack) > 60:
            self.taint(st, "recursion")
            return [(st, Opq("recursion"))]
        body = fn.body
        self.fid += 1
        fid = self.fid
        fr = {}
        st.frames[fid] = fr
        if fn.kind == "Closure" and body.spread is None and body.nargs == 2 and len(args) == 2:
            pass
        args = list(args)
        if fn.kind == "Closure":
            # closures take (self, args...) untupled in MIR
            pass
        if len(args) != body.nargs:
            if body.spread is not None:
                k = body.spread - 1
                args = args[:k] + [tup(*args[k:])]
            if len(args) != body.nargs:
                self.taint(st, f"arity {fn.key}")
                return [(st, Opq("arity"))]
        for i, a in enumerate(args):
            fr[i + 1] = a
        self.stack.append((fn.key, fn.line))
        try:
            rets, leaves, backs = self.region(fn, fid, None, [(0, st)], None)
        finally:
            self.stack.pop()
        out = []
        for s in rets:
            v = s.frames[fid].get(0, UNIT)
            v = self.unpin(s, v, fid)
            del s.frames[fid]
            out.append((s, v))
        if self.join_values and len(out) > 1 and not self.pure:
            for s, v in out:
                self.gc(s, v)
        return self.merge_ret(out)

    def gc(self, st, extra=None):
        """forget facts about integers that nothing refers to any more, and arrays nobody holds
        (shape mode only: element values do not matter there)"""
        live, objs, seen = set(), set(), set()

        def w(v):
            if isinstance(v, Lin):
                for s, _ in v.t:
                    live.add(s)
                return
            if isinstance(v, tuple):
                for x in v:
                    w(x)
                return
            if isinstance(v, N):
                live.update(T.syms_of(v))
                return
            if v is None or isinstance(v, (str, int, bool)):
                return
            if isinstance(v, ArrV):
                objs.add(v.obj)
                w(v.axes)
                w(v.fixed)
                for d in OBJ[v.obj][0]:
                    w(d)
            elif isinstance(v, Agg):
                w(v.f)
            elif isinstance(v, It):
                w(v.node)
                w(v.pos)
            elif isinstance(v, Seq):
                w(v.node)
            elif isinstance(v, SliceV):
                w(v.arr)
            elif isinstance(v, ERef):
                w(v.arr)
                w(v.idx)
            elif isinstance(v, VRef):
                w(v.v)

        for d in st.frames.values():
            for v in d.values():
                w(v)
        w(extra)
        for kap, heads in self.active:
            live.add(kap)
            for H in heads:
                for e in H.ints.values():
                    w(e)
        for o in list(st.heap):
            if o not in objs:
                del st.heap[o]
                continue
            c = st.heap[o]
            if c.op not in ("base", "fresh", "fill", "eye") and any(
                "'" in s and s not in live for s in T.syms_of(c)
            ):
                st.heap[o] = mk("fresh", uid("gc"), len(OBJ[o][0]))
        live |= {y for s in list(live) if s in APP for y in Lin(0, ((s, 1),)).allsyms()}
        st.facts = st.facts.project(live)

    def unpin(self, st, v, fid):
        return v

    def call_key(self, st, key, args):
        return self.inline(st, self.prog.fns[key], args)

    def merge(self, sts):
        if self.join_values:
            return [s for s, _ in self.value_join([(s, None) for s in sts])]
        return merge_states(sts)

    def merge_ret(self, pairs):
        pairs = merge_same(pairs) if not self.join_values else self.value_join(pairs)
        return pairs

    def value_join(self, pairs):
        """join states that differ in element values only (shapes and integers kept apart)"""
        out = []
        for s, v in pairs:
            for i, (o, w) in enumerate(out):
                r = self.vjoin(o, w, s, v)
                if r is not None:
                    out[i] = r
                    break
            else:
                out.append((s, v))
        return out if len(out) <= KEEP else merge_same(out)

    def vjoin(self, a, va, b, vb):
        if a.frames.keys() != b.frames.keys():
            return None
        fa, fb = a.facts, b.facts
        weak = None
        if fa is fb or fa.key() == fb.key():
            weak = fa
        else:
            la = Facts(fa.ge, fa.sub, {}, fa.ne)
            lb = Facts(fb.ge, fb.sub, {}, fb.ne)
            if weaker(la, lb):
                weak = drop_lits(fa, fb)
            elif weaker(lb, la):
                weak = drop_lits(fb, fa)
        if weak is None:
            return None
        chg = []

        class No(Exception):
            pass

        def w(x, y):
            if x is y or x == y:
                return x
            if isinstance(x, N) and isinstance(y, N):
                if is_bool(x) != is_bool(y):
                    raise No
                if is_bool(x):
                    return mk("bsym", uid("j"))
                return mk("fsym", uid("j"))
            if isinstance(x, Lin) and isinstance(y, Lin):
                if fb.ent_eq(x, y):
                    return x
                if fa.ent_eq(x, y):
                    return y
                raise No
            if type(x) is not type(y):
                raise No
            if isinstance(x, Agg):
                if x.kind != y.kind or x.key != y.key or x.variant != y.variant or len(x.f) != len(y.f):
                    raise No
                return Agg(x.kind, x.key, x.variant, tuple(w(p, q) for p, q in zip(x.f, y.f)))
            if isinstance(x, tuple):
                if len(x) != len(y):
                    raise No
                return tuple(w(p, q) for p, q in zip(x, y))
            if isinstance(x, VRef):
                return VRef(w(x.v, y.v))
            if isinstance(x, ArrV) and x.owned and y.owned and len(x.axes) == len(y.axes):
                # different allocations of equal shape
                if is_plain(x) and is_plain(y):
                    d = tuple(w(p, q) for p, q in zip(x.dims, y.dims))
                    chg.append(d)
                    return ("newarr", d)
            raise No

        try:
            fr = {}
            for f, d in a.frames.items():
                e = b.frames[f]
                if d.keys() != e.keys():
                    return None
                if d == e:
                    continue
                fr[f] = {l: w(d[l], e[l]) for l in d}
            v = w(va, vb)
            if chg:
                return None
        except No:
            return None
        heap = dict(a.heap)
        for o, c in b.heap.items():
            c0 = heap.get(o)
            if c0 is None:
                heap[o] = c
            elif c0 is not c:
                heap[o] = mk("fresh", uid("jc"), len(OBJ[o][0]))
        for f, d in fr.items():
            a.frames[f] = d
        a.heap = heap
        a.facts = weak
        a.taint = a.taint | b.taint
        return (a, v)

    # ------------------------------------------------------------------ regions
    def region(self, fn, fid, blocks, starts, header):
        """run until return / leaving `blocks` / back to header"""
        body = fn.body
        pend = {}
        rets, leaves, backs = [], [], []

        def route(b, s):
            if header is not None and b == header:
                backs.append(s)
            elif blocks is not None and b not in blocks:
                leaves.append((b, s))
            else:
                pend.setdefault(b, []).append(s)

        first = True
        for b, s in starts:
            pend.setdefault(b, []).append(s)
        while pend:
            b = min(pend, key=lambda x: body.rpo[x])
            sts = pend.pop(b)
            if b in body.loops and not (first and b == header):
                if len(sts) > 1:
                    for s in sts:
                        prune(s, fid, body, b)
                    sts = self.merge(sts)
                for s in sts:
                    r, lv = self.mir_loop(fn, fid, b, s)
                    rets += r
                    for tb, s2 in lv:
                        route(tb, s2)
                first = False
                continue
            first = False
            if len(sts) > 1:
                for s in sts:
                    prune(s, fid, body, b)
                sts = self.merge(sts)
            for s in sts:
                for tb, s2 in self.block(fn, fid, b, s):
                    if tb == "ret":
                        rets.append(s2)
                    else:
                        route(tb, s2)
        return rets, leaves, backs

    def block(self, fn, fid, b, st):
        body = fn.body
        bb = body.bbs[b]
        self.visited.add((fn.key, b))
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Stop("step limit")
        fr = st.frames[fid]
        sts = [st]
        for ln, p, r in bb["s"]:
            if r["r"] == "sd":
                for s in sts:
                    s.frames[fid].pop(p[0], None)
                continue
            self.stack[-1] = (fn.key, ln)
            nxt = []
            for s in sts:
                if r["r"] == "setdisc":
                    self._opq(s, "set discriminant")
                    nxt.append(s)
                    continue
                v = self.rvalue(s, fid, r, body, p)
                if type(v) is tuple and v and v[0] == "boolint":
                    t, f = self.split(s, v[1])
                    for x, y in ((t, 1), (f, 0)):
                        if x is not None:
                            self.store(x, self.loc(x, fid, p), Lin(y))
                            nxt.append(x)
                    continue
                if type(v) is tuple and v and v[0] == "subwrap":
                    t, f = self.split(s, cge(v[1] - v[2]))
                    if t is not None:
                        self.store(t, self.loc(t, fid, p), v[1] - v[2])
                        nxt.append(t)
                    if f is not None:
                        self.ev("wrap", f, None, "unsigned subtraction wraps around")
                        big = fresh("wrapped")
                        f.facts = f.facts.add_ge(L(big) - self.BIG)
                        self.store(f, self.loc(f, fid, p), L(big))
                        nxt.append(f)
                    continue
                if not p[1]:
                    s.frames[fid][p[0]] = v
                else:
                    self.store(s, self.loc(s, fid, p), v)
                nxt.append(s)
            sts = nxt
        self.stack[-1] = (fn.key, bb["l"])
        out = []
        for s in sts:
            out += self.terminator(fn, fid, bb, s)
        return out

    def terminator(self, fn, fid, bb, st):
        t = bb["t"]
        k = t["t"]
        body = fn.body
        if k == "goto":
            return [(t["to"], st)]
        if k == "drop":
            p = t["p"]
            return [(t["to"], st)]
        if k == "return":
            return [("ret", st)]
        if k == "unreachable":
            return []
        if k == "assert":
            c = self.operand(st, fid, t["c"], body)
            if not t["e"]:
                c = bnot(c) if not isinstance(c, Opq) else c
            if isinstance(c, Opq):
                self.taint(st, "assert on opaque")
                return [(t["to"], st)]
            a, f = self.split(st, c)
            if f is not None:
                self.panic(f, t["m"], f"assert {t['m']}")
            elif a is not None:
                self.ev("obl", a, (t["m"], True, ()), f"assert {t['m']}")
            return [(t["to"], a)] if a is not None else []
        if k == "switch":
            return self.switch(fn, fid, t, st)
        if k == "call":
            return self.call_term(fn, fid, bb, t, st)
        self.taint(st, f"terminator {k}")
        return []

    def switch(self, fn, fid, t, st):
        v = self.operand(st, fid, t["o"], fn.body)
        if is_bool(v):
            # values: [[0, bbF]], else bbT
            tt, ff = self.split(st, v)
            m = dict((x[0], x[1]) for x in t["v"])
            out = []
            if tt is not None:
                out.append((m.get(1, t["else"]), tt))
            if ff is not None:
                out.append((m.get(0, t["else"]), ff))
            return out
        if isinstance(v, tuple) and v and v[0] == "disc":
            v = self.val(st, v[1])
            if isinstance(v, Agg):
                d = self.disc_value(v)
                for x, b in t["v"]:
                    if x == d:
                        return [(b, st)]
                return [(t["else"], st)]
            if isinstance(v, N) and v.op == "ordering":
                # core::cmp::Ordering value given by a comparison
                if self.real:
                    lt, ge = self.split(st, fcmp("flt", v.a[0], v.a[1]))
                    eq, gt = self.split(ge, fcmp("feq", v.a[0], v.a[1])) if ge is not None else (None, None)
                    tab = {}
                    for x, b in t["v"]:
                        tab[-1 if x > 127 else x] = b
                    return [(tab.get(d, t["else"]), s) for d, s in ((-1, lt), (0, eq), (1, gt)) if s is not None]
                return [(b, st.copy()) for b in {x[1] for x in t["v"]} | {t["else"]}]
            out = []
            for b in dict.fromkeys([x[1] for x in t["v"]] + [t["else"]]):
                s = st.copy()
                self.taint(s, f"match on {type(v).__name__}")
                out.append((b, s))
            return out
        if isinstance(v, Lin):
            out = []
            cur = st
            for x, b in t["v"]:
                a, f = self.split(cur, ceq(cur.facts.canon(v - x)))
                if a is not None:
                    out.append((b, a))
                cur = f
                if cur is None:
                    break
            if cur is not None:
                out.append((t["else"], cur))
            return out
        out = []
        for b in dict.fromkeys([x[1] for x in t["v"]] + [t["else"]]):
            s = st.copy()
            self.taint(s, f"switch on {type(v).__name__}")
            out.append((b, s))
        return out

    def disc_value(self, v):
        ad = self.prog.adts.get(v.key)
        if ad and ad["enum"]:
            d = ad["v"][v.variant]["d"]
            if d is not None:
                d = int(d)
                return d if d >= 0 else d + (1 << 8)
        return v.variant

    def call_term(self, fn, fid, bb, t, st):
        body = fn.body
        fo = self.operand(st, fid, t["f"], body)
        args = [self.operand(st, fid, o, body) for o in t["a"]]
        dest = t["d"]
        dty = body.locals[dest[0]] if not dest[1] else None
        ctx = {"dty": dty, "fn": fn, "line": bb["l"]}
        # moved-out whole locals are dead afterwards
        for o in t["a"]:
            if o["o"] == "move" and not o["p"][1] and o["p"][0] not in body.taken:
                st.frames[fid].pop(o["p"][0], None)
        if isinstance(fo, FnV):
            f = fo.f
            res = self.call_fn(st, f, args, ctx)
        else:
            res = self.call_value(st, fo, args)
        self.stack[-1] = (fn.key, bb["l"])
        if t["to"] is None:
            return []
        out = []
        for s, v in res:
            if not dest[1]:
                s.frames[fid][dest[0]] = v
            else:
                self.store(s, self.loc(s, fid, dest), v)
            out.append((t["to"], s))
        return out

    # ------------------------------------------------------------------ loops
    def mir_loop(self, fn, fid, h, st):
        from .loops import run_loop

        body = fn.body
        blocks = body.loops[h]
        prune(st, fid, body, h)
        site = (fn.key, body.bbs[h]["l"])

        def step(s):
            rets, leaves, backs = self.region(fn, fid, blocks, [(h, s)], h)
            for x in backs:
                prune(x, fid, body, h)
            return backs, [("ret", x) for x in rets] + leaves

        saved = self.stack[-1]
        outs = run_loop(self, st, step, ("mir", fn.key, h), fid)
        self.stack[-1] = saved
        if self.join_values and len(outs) > 1 and not self.pure:
            for tag, s in outs:
                if tag != "ret":
                    prune(s, fid, body, tag)
                self.gc(s)
        rets = [s for tag, s in outs if tag == "ret"]
        lv = [(tag, s) for tag, s in outs if tag != "ret"]
        return rets, lv


def prune(st, fid, body, b):
    live = body.live[b]
    fr = st.frames[fid]
    dead = [l for l in fr if l not in live and l not in body.taken]
    for l in dead:
        del fr[l]


def reach(st):
    return st


def same_store(a, b):
    if a.frames.keys() != b.frames.keys():
        return False
    for k, d in a.frames.items():
        if d != b.frames[k]:
            return False
    for o, c in a.heap.items():
        c2 = b.heap.get(o)
        if c2 is not None and c2 is not c:
            return False
    return True


def join2(a, b):
    if a.facts is not b.facts:
        f, g = a.facts, b.facts
        a.facts = either(f.subset_entailed_by(g), f, g)
    a.taint = a.taint | b.taint
    for o, c in b.heap.items():
        a.heap.setdefault(o, c)
    return a


def weaker(f, g):
    """f (weaker) is implied by g"""
    if f is g or f.key() == g.key():
        return True
    for a, v in f.lits.items():
        if g.lits.get(a) != v:
            return False
    for l in f.ge:
        if not g.ent_ge(l):
            return False
    for s, v in f.sub.items():
        if not g.ent_eq(L(s), v):
            return False
    for d in f.ne:
        if not g.ent_ne(d):
            return False
    return True


KEEP = 8


def merge_pairs(items, same, keep):
    """items: [(state, x)].  States with equal stores are joined when nothing is lost, or when
    there are too many of them."""
    out = []
    for s, v in items:
        for i, (o, w) in enumerate(out):
            if same(v, w) and same_store(o, s):
                if weaker(o.facts, s.facts):
                    pass
                elif weaker(s.facts, o.facts):
                    o.facts = s.facts
                elif only_lit_differs(o.facts, s.facts):
                    o.facts = drop_lit(o.facts, s.facts)
                else:
                    continue
                o.taint = o.taint | s.taint
                o.notes = o.notes + tuple(x for x in s.notes if x not in o.notes)
                for ob, c in s.heap.items():
                    o.heap.setdefault(ob, c)
                break
        else:
            out.append((s, v))
    if len(out) <= keep:
        return out
    res = []
    for s, v in out:
        for o, w in res:
            if same(v, w) and same_store(o, s):
                join2(o, s)
                break
        else:
            res.append((s, v))
    return res


def is_plain(a):
    return not a.fixed and len(a.axes) == a.nd


def drop_lits(f, g):
    lits = {a: v for a, v in f.lits.items() if g.lits.get(a) == v}
    return f if len(lits) == len(f.lits) else Facts(f.ge, f.sub, lits, f.ne)


def only_lit_differs(f, g):
    """one literal with opposite values, everything else equal"""
    if f.ge != g.ge or f.ne != g.ne or f.sub != g.sub or f.lits.keys() != g.lits.keys():
        return False
    return sum(1 for a, v in f.lits.items() if g.lits[a] != v) <= 1


def ite_states(sts):
    """unite states that differ in one literal and in element values by conditional values (exact)"""
    sts = list(sts)
    for single in (True, False):
        again = len(sts) > 1
        while again:
            again = False
            for i in range(len(sts)):
                for j in range(i + 1, len(sts)):
                    if single and not one_lit(sts[i].facts, sts[j].facts):
                        continue
                    m = ite_pair(sts[i], sts[j])
                    if m is not None:
                        sts[i] = m
                        del sts[j]
                        again = len(sts) > 1
                        break
                if again:
                    break
    return sts


def one_lit(f, g):
    """the facts differ in the value of one literal"""
    if f.ge != g.ge or f.ne != g.ne or f.sub != g.sub or f.lits.keys() != g.lits.keys():
        return False
    return sum(1 for a, v in f.lits.items() if g.lits[a] != v) == 1


EXACT = [False]  # keep what separates joined states as an alternative


def beyond(f, common):
    """everything f says beyond the common facts: boolean terms that must all hold"""
    c = [a if v else bnot(a) for a, v in f.lits.items() if common.lits.get(a) != v]
    c += [cge(l) for l in sorted(f.ge, key=repr) if not common.ent_ge(l)]
    c += [bnot(ceq(l)) for l in sorted(f.ne, key=repr) if not common.ent_ne(l)]
    c += [ceq(L(x) - l) for x, l in sorted(f.sub.items()) if not common.ent_eq(L(x), l)]
    return [x for x in c if not isinstance(x, bool)]


def either(common, f, g):
    """the facts common to f and g, with their disjunction as a condition in exact mode"""
    if not EXACT[0]:
        return common
    alts = []
    for h in (f, g):
        c = beyond(h, common)
        if not c:
            return common
        olds = [x for x in c if x.op == "alt"]
        if len(olds) == 1 and len(c) == 1:
            alts += list(olds[0].a)
        else:
            alts.append(tuple(c))
    return common.add_lit(mk("alt", *dict.fromkeys(alts)), True) or common


def conditions(f, common):
    """what f says beyond the common facts, as one boolean term (None: nothing)"""
    c = []
    for a, v in f.lits.items():
        if common.lits.get(a) != v:
            c.append(a if v else bnot(a))
    for l in sorted(f.ge, key=repr):
        if not common.ent_ge(l):
            c.append(cge(l))
    for l in sorted(f.ne, key=repr):
        if not common.ent_ne(l):
            c.append(bnot(ceq(l)))
    for x, l in sorted(f.sub.items()):
        if not common.ent_eq(L(x), l):
            c.append(ceq(L(x) - l))
    c = [x for x in c if not isinstance(x, bool)]
    if not c or len(c) > 6:
        return None
    r = c[0]
    for x in c[1:]:
        r = mk("band", r, x)
    return r


def guards(c):
    """a conjunction of integer conditions as a list of linear forms >= 0"""
    if c is None:
        return None
    if c.op == "band":
        a, b = guards(c.a[0]), guards(c.a[1])
        return None if a is None or b is None else a + b
    if c.op == "cge":
        return [c.a[0]]
    if c.op == "ceq":
        return [c.a[0], -c.a[0]]
    if c.op == "bnot" and c.a[0].op == "cge":
        return [-c.a[0].a[0] - 1]
    return None


def ite_pair(s, t):
    f, g = s.facts, t.facts
    if s.frames.keys() != t.frames.keys():
        return None
    common = f if f.key() == g.key() else f.subset_entailed_by(g)
    c = conditions(f, common)
    d = conditions(g, common)
    if c is None or d is not None and d.op != "band" and (c.op == "band" or d.op != "bnot" and c.op == "bnot"):
        if d is None:
            return None
        s, t, c, d = t, s, d, c
    lf = common
    dd = d

    class No(Exception):
        pass

    def w(x, y):
        if x is y or x == y:
            return x
        if is_float(x) and is_float(y):
            return T.ite(c, x, y)
        if isinstance(x, Lin) and isinstance(y, Lin):
            if g.ent_eq(x, y) and t.facts is g or t.facts.ent_eq(x, y):
                return x
            if s.facts.ent_eq(x, y):
                return y
            raise No
        if isinstance(x, Agg) and isinstance(y, Agg) and x.kind == y.kind and x.key == y.key \
                and x.variant == y.variant and len(x.f) == len(y.f):
            return Agg(x.kind, x.key, x.variant, tuple(w(p, q) for p, q in zip(x.f, y.f)))
        if isinstance(x, It) and isinstance(y, It):
            return It(w(x.node, y.node), w(x.pos, y.pos))
        if isinstance(x, VRef) and isinstance(y, VRef):
            return VRef(w(x.v, y.v))
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            return tuple(w(p, q) for p, q in zip(x, y))
        raise No

    def chain(x):
        r = [x]
        while x.op == "upd":
            x = x.a[0]
            r.append(x)
        return r

    def content(x, y):
        if x is y:
            return x
        if x.op == "upd" and y.op == "upd" and x.a[1] == y.a[1] and x.a[2] == y.a[2]:
            return mk("upd", content(x.a[0], y.a[0]), x.a[1], x.a[2], T.ite(c, x.a[3], y.a[3]))
        cx, cy = chain(x), chain(y)
        z = next((n for n in cx if n in cy), None)
        if z is None:
            raise No
        r = z
        ga, gb = guards(c), guards(dd)
        for ch, then in ((cx, True), (cy, False)):
            for u in reversed(ch[:ch.index(z)]):
                gs = ga if then else gb
                if ga is not None and gb is not None:
                    bv = tuple((fresh("g"), ZERO, L(app("ind", l))) for l in gs)
                    r = mk("upd", r, bv + u.a[1], u.a[2], u.a[3])
                    continue
                fx = lf
                for b_, lo, hi in u.a[1]:
                    fx = fx.add_ge(L(b_) - lo) or fx
                    fx = fx.add_ge(hi - L(b_) - 1) or fx
                old = T.read(r, u.a[2], fx)
                r = mk("upd", r, u.a[1], u.a[2], T.ite(c, u.a[3], old) if then else T.ite(c, old, u.a[3]))
        return r

    try:
        r = s.copy()
        for fr, d in s.frames.items():
            e = t.frames[fr]
            if d is e:
                continue
            n = {}
            for l in d.keys() & e.keys():
                n[l] = w(d[l], e[l])
            r.frames[fr] = n
        for o in s.heap.keys() & t.heap.keys():
            if s.heap[o] is not t.heap[o]:
                r.heap[o] = content(s.heap[o], t.heap[o])
        for o, x in t.heap.items():
            r.heap.setdefault(o, x)
    except No:
        return None
    r.facts = either(lf, f, g)
    r.taint = s.taint | t.taint
    return r


def drop_lit(f, g):
    lits = {a: v for a, v in f.lits.items() if g.lits.get(a) == v}
    return Facts(f.ge, f.sub, lits, f.ne)


def merge_states(sts, keep=KEEP):
    return [s for s, _ in merge_pairs([(s, None) for s in sts], lambda a, b: True, keep)]


def merge_same(pairs, keep=KEEP):
    return merge_pairs(pairs, lambda a, b: a == b, keep)


def fconst_of(v):
    from fractions import Fraction

    if v in ("NaN", "inf", "-inf"):
        return mk("fconst", v)
    return T.const(Fraction(v))


def fcmp(op, a, b):
    if a.op == "c" and b.op == "c":
        x, y = a.a[0], b.a[0]
        return {"flt": x < y, "fle": x <= y, "feq": x == y}[op]
    return mk(op, a, b)


def nonneg(t, d=0):
    """is the term a non-negative real number by its form (real arithmetic, NaN aside)"""
    if d > 12:
        return False
    if t.op == "c":
        return t.a[0] >= 0
    if t.op in ("abs", "sqrt", "hypot"):
        return True
    if t.op == "mul":
        a, b = t.a
        return a is b or (nonneg(a, d + 1) and nonneg(b, d + 1))
    if t.op in ("add", "div", "fmin"):
        return all(nonneg(x, d + 1) for x in t.a)
    if t.op == "fmax":
        return any(nonneg(x, d + 1) for x in t.a)
    if t.op == "sum":
        return nonneg(t.a[3], d + 1)
    return False


def band(a, b):
    if isinstance(a, bool):
        return b if a else False
    if isinstance(b, bool):
        return a if b else False
    return mk("band", a, b)


from .lin import prod as lin_mul  # noqa: E402
