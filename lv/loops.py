"""Loop fixpoints: constant -> affine -> widened locations, signature-partitioned heads,
inductive linear invariants, then summarisation of independent array updates ('par') and
reductions ('red')."""
from .lin import Lin, L, Facts, fresh, app, SYMINFO, ZERO, ONE, APP, declare
from . import lin as LN
from . import term as T
from .term import N, mk, read, uid
from .values import *


class Mismatch(Exception):
    pass


def sig(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, Lin):
        return "i"
    if isinstance(v, N):
        return "b" if v.op in BOOL_OPS else "f"
    if isinstance(v, Agg):
        return (v.kind, v.key, v.variant, tuple(sig(x) for x in v.f))
    if isinstance(v, ArrV):
        if v.owned:
            return ("own", len(v.axes))
        return ("arr", v.obj, len(v.axes))
    if isinstance(v, Ref):
        return ("ref", v.fid, v.local, v.proj)
    if isinstance(v, ERef):
        return ("eref", sig(v.arr))
    if isinstance(v, VRef):
        return ("vref", sig(v.v))
    if isinstance(v, It):
        return ("it", signode(v.node))
    if isinstance(v, Seq):
        return ("seq",)
    if isinstance(v, SliceV):
        return ("slice", sig(v.arr))
    if isinstance(v, FnV):
        return ("fn", v.f["key"])
    if isinstance(v, OpqFn):
        return v
    if isinstance(v, tuple):
        return tuple(sig(x) for x in v)
    if isinstance(v, Opq):
        return "opq"
    return v


def signode(n):
    return tuple(
        signode(x) if isinstance(x, tuple) else (sig(x) if not isinstance(x, (str, int)) else x)
        for x in n
    )


def state_sig(st, fids, live):
    o = []
    for f in fids:
        fr = st.frames.get(f, {})
        for l in sorted(fr, key=str):
            if (f, l) in live:
                o.append((f, l, sig(fr[l])))
    return tuple(o)


# ------------------------------------------------------------------ locality by age
class Age:
    def __init__(self):
        self.c = LN._ctr[0]
        self.u = T._uid[0]
        self.memo = {}

    def sym(self, s):
        if s in APP:
            return any(self.sym(x) for a in APP[s][1] for x in a.allsyms())
        i = s.rfind("'")
        return i >= 0 and s[i + 1:].isdigit() and int(s[i + 1:]) > self.c

    def lin(self, l):
        return any(self.sym(s) for s in l.syms())

    def name(self, s):
        i = s.rfind("~")
        return i >= 0 and s[i + 1:].isdigit() and int(s[i + 1:]) > self.u

    def term(self, t):
        """does t mention anything created after the loop started (incl. bound variables)"""
        r = self.memo.get(t)
        if r is None:
            r = any(self.sym(s) for s in T.syms_of(t)) or any(
                isinstance(x.a[0], str) and self.name(x.a[0])
                for x in T.nodes_of(t)
                if x.op in ("fsym", "base", "fresh", "bsym") and x.a
            )
            self.memo[t] = r
        return r

    def free(self, t, bound=frozenset()):
        """free loop-local integer symbols and local float/content names of t"""
        out = set()
        seen = set()

        def w(x, b):
            if isinstance(x, Lin):
                for s in x.allsyms():
                    if s not in b and s not in APP and self.sym(s):
                        out.add(s)
                return
            if isinstance(x, tuple):
                for y in x:
                    w(y, b)
                return
            if not isinstance(x, N):
                return
            if (x, b) in seen:
                return
            seen.add((x, b))
            if x.op in ("fsym", "base", "fresh", "bsym"):
                if isinstance(x.a[0], str) and self.name(x.a[0]):
                    out.add(x)
                return
            if x.op in ("sum", "ball"):
                w(x.a[1], b)
                w(x.a[2], b)
                w(x.a[3], b | {x.a[0]})
                return
            if x.op == "fold":
                w(x.a[2], b)
                w(x.a[3], b)
                w(x.a[4], b)
                w(x.a[5], b | {x.a[1]})
                return
            if x.op == "lam":
                w(x.a[1], b | set(x.a[0]))
                return
            if x.op == "upd":
                w(x.a[0], b)
                b2 = b | {v[0] for v in x.a[1]}
                for v in x.a[1]:
                    w(v[1], b2)
                    w(v[2], b2)
                w(x.a[2], b2)
                w(x.a[3], b2)
                return
            for y in x.a:
                w(y, b)

        w(t, frozenset(bound))
        return out


class Head:
    def __init__(self, st, entry):
        self.st = st
        self.modes = {}
        self.ints = {}  # path -> Lin
        self.cands = set()
        self.entry = entry  # is entry group
        self.par = {}  # obj -> summary node (content mode override)
        self.red = {}  # path -> term override
        self.ball = None  # what held in every finished iteration
        self.lossy = False


class LoopRec:
    __slots__ = ("key", "stack", "kap", "heads", "backs", "outs", "entry", "taint", "outer", "raws", "line", "dest")

    def __init__(self, **k):
        for a, b in k.items():
            setattr(self, a, b)


def run_loop(ex, st, step, key, fid):
    age = Age()
    kap = fresh("k")
    entry = st.copy()
    live = {(f, l) for f, d in st.frames.items() for l in d}
    fids = sorted(st.frames)
    objs = list(st.heap)
    heads = []
    from .interp import OBJ, ite_states

    # ------------------------------------------------ widening of one value
    def phi_int(H, path, name="p"):
        s = fresh(name, False)
        H.modes[path] = ("phi", s)
        H.ints[path] = L(s)
        return L(s)

    def walk(H, hv, iv, path, inc, m, back):
        """merge incoming iv into head value hv; records substitution m for head symbols"""
        if isinstance(hv, Lin) and isinstance(iv, Lin):
            mode = H.modes.get(path)
            if mode is None:
                if hv == iv or not inc.facts.canon(iv - hv).t and inc.facts.canon(iv - hv).c == 0:
                    return hv
                if inc.facts.ent_eq(iv - hv):
                    return hv
                H.changed = True
                d = inc.facts.canon(iv - hv)
                if back and H.entry and d.is_const() and not H.noaff and not age.lin(hv):
                    H.modes[path] = ("aff", hv, d.c)
                    e = hv + L(kap).scale(d.c)
                    H.ints[path] = e
                    H.newints.append(path)
                    return e
                r = phi_int(H, path)
                H.newints.append(path)
                m[H.modes[path][1]] = iv
                H.init[H.modes[path][1]] = hv
                return r
            if mode[0] == "aff":
                if inc.facts.ent_eq(iv - hv - mode[2]):
                    return hv
                H.changed = True
                r = phi_int(H, path)
                H.newints.append(path)
                m[H.modes[path][1]] = iv
                H.init[H.modes[path][1]] = mode[1]
                return r
            m[mode[1]] = iv
            return hv
        if isinstance(hv, bool) and isinstance(iv, bool) and hv == iv:
            return hv
        if is_bool(hv) and is_bool(iv):
            if hv == iv:
                return hv
            if isinstance(hv, N) and H.modes.get(path, (None,))[0] == "phib":
                return hv
            H.changed = True
            H.modes[path] = ("phib",)
            return mk("bsym", uid("phib"))
        if is_float(hv) and is_float(iv):
            if hv is iv:
                return hv
            md = H.modes.get(path)
            if md and md[0] == "red":
                return hv
            if md and md[0] == "phif":
                return hv
            H.changed = True
            n = mk("fsym", uid("phi"))
            H.modes[path] = ("phif", n, hv)
            return n
        if type(hv) is not type(iv):
            raise Mismatch((hv, iv))
        if hv == iv:
            if isinstance(hv, (Agg, It, Seq, ArrV)):
                # still need the substitution of head symbols inside
                pass
            else:
                return hv
        if isinstance(hv, Agg):
            if hv.kind != iv.kind or hv.key != iv.key or hv.variant != iv.variant or len(hv.f) != len(iv.f):
                raise Mismatch((hv, iv))
            f = tuple(
                walk(H, a, b, path + (i,), inc, m, back) for i, (a, b) in enumerate(zip(hv.f, iv.f))
            )
            return hv if f == hv.f else Agg(hv.kind, hv.key, hv.variant, f)
        if isinstance(hv, It):
            n = walk(H, hv.node, iv.node, path + ("n",), inc, m, back)
            p = walk(H, hv.pos, iv.pos, path + ("p",), inc, m, back)
            return It(n, p)
        if isinstance(hv, Seq):
            md = H.modes.get(path)
            if md is None:
                saved = dict(H.modes), dict(H.ints), dict(H.init), list(H.newints), H.changed, dict(m)
                try:
                    if signode(hv.node) != signode(iv.node):
                        raise Mismatch((hv, iv))
                    return Seq(walk(H, hv.node, iv.node, path + ("n",), inc, m, back))
                except Mismatch:
                    H.modes, H.ints, H.init, H.newints, H.changed = saved[:5]
                    m.clear()
                    m.update(saved[5])
                k1 = ex.models.elem_kind(ex, H.st if not back else inc, hv.node)
                k2 = ex.models.elem_kind(ex, inc, iv.node)
                kd = k1 if k2 in ("any", k1) else (k2 if k1 == "any" else None)
                H.changed = True
                H.modes[path] = ("phis", kd)
                l0 = ex.models.node_len(ex, H.st, hv.node)
                l1 = ex.models.node_len(ex, inc, iv.node)
                ln = walk(H, l0, l1, path + ("len",), inc, m, back)
                return Seq(("opq", uid("phis"), ln, kd) if kd else ("opq", uid("phis"), ln))
            l0 = hv.node[2]
            l1 = ex.models.node_len(ex, inc, iv.node)
            ln = walk(H, l0, l1, path + ("len",), inc, m, back)
            kd = md[1]
            if kd is not None and ex.models.elem_kind(ex, inc, iv.node) not in (kd, "any"):
                H.modes[path] = ("phis", None)
                H.changed = True
                return Seq(("opq", uid("phis"), ln))
            return hv if ln == l0 else Seq(hv.node[:2] + (ln,) + hv.node[3:])
        if isinstance(hv, SliceV):
            return SliceV(walk(H, hv.arr, iv.arr, path + ("a",), inc, m, back))
        if isinstance(hv, ERef):
            return ERef(
                walk(H, hv.arr, iv.arr, path + ("a",), inc, m, back),
                walk(H, hv.idx, iv.idx, path + ("i",), inc, m, back),
            )
        if isinstance(hv, VRef):
            return VRef(walk(H, hv.v, iv.v, path + ("v",), inc, m, back))
        if isinstance(hv, ArrV):
            if hv.obj == iv.obj:
                if hv == iv and not any(path + ("x", j) in H.modes for j in range(4)):
                    pass
                ax = walk(H, hv.axes, iv.axes, path + ("ax",), inc, m, back)
                fx = walk(H, hv.fixed, iv.fixed, path + ("fx",), inc, m, back)
                if hv.nd != iv.nd:
                    raise Mismatch((hv, iv))
                return ArrV(hv.obj, ax, fx, hv.nd, hv.owned)
            if hv.owned and iv.owned and len(hv.axes) == len(iv.axes):
                md = H.modes.get(path)
                if md and md[0] == "phio":
                    po = md[1]
                    for j, (a, b) in enumerate(zip(hv.axes, iv.axes)):
                        d = walk(H, a[1], b[1], path + ("d", j), inc, m, back)
                        if d != a[1]:
                            H.changed = True
                            dims = tuple(
                                d if jj == j else x[1] for jj, x in enumerate(hv.axes)
                            )
                            hv = phi_array(H, path, dims, po)
                    return hv
                H.changed = True
                dims = tuple(
                    walk(H, a[1], b[1], path + ("d", j), inc, m, back)
                    for j, (a, b) in enumerate(zip(hv.axes, iv.axes))
                )
                return phi_array(H, path, dims, None)
            raise Mismatch((hv, iv))
        if isinstance(hv, tuple):
            if len(hv) != len(iv):
                raise Mismatch((hv, iv))
            return tuple(
                walk(H, a, b, path + (i,), inc, m, back) for i, (a, b) in enumerate(zip(hv, iv))
            )
        if hv == iv:
            return hv
        if isinstance(hv, Opq):
            return hv
        raise Mismatch((hv, iv))

    def phi_array(H, path, dims, po):
        o = uid("phia")
        OBJ[o] = (dims, {"name": "phi", "origin": ("phi", key), "site": ex.site()})
        if po is not None:
            H.st.heap.pop(po, None)
        H.st.heap[o] = mk("fresh", uid("phic"), len(dims))
        H.modes[path] = ("phio", o)
        return ArrV(
            o, tuple((((i, ZERO, 1),), d) for i, d in enumerate(dims)), (), len(dims), True
        )

    # ------------------------------------------------ absorbing an arrival
    def absorb(H, inc, back):
        H.changed = False
        H.newints = []
        m = {}
        for f in fids:
            hf = H.st.frames[f]
            inf = inc.frames.get(f, {})
            for l in list(hf):
                if l not in inf:
                    del hf[l]
                    live.discard((f, l))
                    H.changed = True
                    continue
                try:
                    nv = walk(H, hf[l], inf[l], (f, l), inc, m, back)
                except Mismatch as e:
                    if not isinstance(hf[l], Opq):
                        nv = Opq("loop-carried value of varying form")
                        H.st.taint = H.st.taint | {f"loop value mismatch @{key[1]}"}
                        H.changed = True
                    else:
                        nv = hf[l]
                hf[l] = nv
        for o in objs:
            hc = H.st.heap.get(o)
            ic = inc.heap.get(o)
            if hc is None or ic is None or hc is ic:
                continue
            md = H.modes.get(("h", o))
            if md:
                continue
            H.changed = True
            n = mk("fresh", uid("phic"), len(OBJ[o][0]))
            H.modes[("h", o)] = ("phic", n, hc)
            H.st.heap[o] = n
        if not inc.taint <= H.st.taint:
            H.st.taint = H.st.taint | inc.taint
            H.changed = True
        # literals of the entry that are about immutable terms stay valid
        # candidate check (only those the arriving iteration was run with)
        if H.cands:
            mm = dict(m)
            if back:
                mm[kap] = L(kap) + 1
            for c in sorted(H.cands, key=repr):
                t = c.subst(mm) if mm else c
                if not inc.facts.ent_ge(t):
                    H.cands.discard(c)
                    H.changed = True
        if H.newints:
            gen_cands(H)
        return H.changed

    def gen_cands(H):
        allp = set()
        for l, v in H.st.frames.get(fid, {}).items():
            collect_ints(H.st, v, allp)
        iv = set(H.ints.values())
        vary = {s for e in iv for s in e.syms() if age.sym(s)}
        pool = [ZERO] + sorted(
            (p for p in allp if not (set(p.allsyms()) & vary) and p not in iv and not age.lin(p)),
            key=repr,
        )[:40]
        pe = [H.ints[p] for p in H.newints]
        others = [H.ints[p] for p in H.ints if p not in H.newints]
        kk = L(kap)
        used = any(kap in e.syms() for e in iv)
        new = set()

        def pair(e, p):
            d = e - p
            if not d.t:
                return
            for c in (d, d - 1, -d, -d - 1):
                new.add(c)

        for i, e in enumerate(pe):
            for p in pool:
                pair(e, p)
            for p in pe[i + 1:] + others:
                pair(e, p)
        if used:
            H.usek = True
        # entry filter: evaluate with initial values
        m = dict(H.init)
        m[kap] = ZERO
        f0 = H.entry_facts
        for c in new:
            t = c.subst(m)
            if any(age.sym(s) for s in t.syms()) and H.entry:
                # depends on an array-dimension phi without recorded initial value
                pass
            if f0.ent_ge(t):
                H.cands.add(c)

    def collect_ints(st_, v, out, dep=0):
        if dep > 6:
            return
        if isinstance(v, Lin):
            out.add(v)
        elif isinstance(v, Agg):
            for x in v.f:
                collect_ints(st_, x, out, dep + 1)
        elif isinstance(v, ArrV):
            for d in v.dims:
                out.add(d)
        elif isinstance(v, It):
            ln = ex.models.node_len_pure(ex, st_, v.node)
            if ln is not None:
                out.add(ln)
            collect_ints(st_, v.node, out, dep + 1)
        elif isinstance(v, tuple):
            for x in v:
                collect_ints(st_, x, out, dep + 1)
        elif isinstance(v, Ref):
            try:
                collect_ints(st_, ex.load(st_, ex.deref(st_, v)), out, dep + 1)
            except Exception:
                pass

    def mkhead(s, is_entry):
        H = Head(s, is_entry)
        H.changed = False
        H.newints = []
        H.init = {}
        H.noaff = False
        H.usek = False
        H.raw = None
        H.entry_facts = entry.facts if is_entry else s.facts
        H.sig = None
        return H

    def localize(H):
        """new head group reached through a back edge: everything iteration-specific is widened"""

        def w(v, path):
            if isinstance(v, Lin):
                if age.lin(v):
                    r = phi_int(H, path)
                    H.init[H.modes[path][1]] = v
                    H.newints.append(path)
                    return r
                return v
            if isinstance(v, bool):
                return v
            if isinstance(v, N):
                if not age.term(v):
                    return v
                if v.op in BOOL_OPS:
                    H.modes[path] = ("phib",)
                    return mk("bsym", uid("phib"))
                n = mk("fsym", uid("phi"))
                H.modes[path] = ("phif", n, v)
                return n
            if isinstance(v, Agg):
                return Agg(v.kind, v.key, v.variant, tuple(w(x, path + (i,)) for i, x in enumerate(v.f)))
            if isinstance(v, It):
                return It(w(v.node, path + ("n",)), w(v.pos, path + ("p",)))
            if isinstance(v, Seq):
                return Seq(w(v.node, path + ("n",)))
            if isinstance(v, SliceV):
                return SliceV(w(v.arr, path + ("a",)))
            if isinstance(v, ERef):
                return ERef(w(v.arr, path + ("a",)), w(v.idx, path + ("i",)))
            if isinstance(v, VRef):
                return VRef(w(v.v, path + ("v",)))
            if isinstance(v, ArrV):
                if v.owned and age.name(v.obj):
                    dims = tuple(w(d, path + ("d", j)) for j, d in enumerate(v.dims))
                    return phi_array(H, path, dims, None)
                return ArrV(
                    v.obj, w(v.axes, path + ("ax",)), w(v.fixed, path + ("fx",)), v.nd, v.owned
                )
            if isinstance(v, tuple):
                return tuple(w(x, path + (i,)) for i, x in enumerate(v))
            return v

        for f in fids:
            fr = H.st.frames.get(f, {})
            for l in list(fr):
                fr[l] = w(fr[l], (f, l))
        for o in objs:
            c = H.st.heap.get(o)
            if c is not None and age.term(c):
                n = mk("fresh", uid("phic"), len(OBJ[o][0]))
                H.modes[("h", o)] = ("phic", n, c)
                H.st.heap[o] = n
        inc_facts = H.st.facts
        H.st.facts = entry.facts
        H.entry_facts = inc_facts
        gen_cands(H)
        for c in list(H.cands):
            m = dict(H.init)
            m[kap] = L(kap) + 1
            if not inc_facts.ent_ge(c.subst(m)):
                H.cands.discard(c)

    def head_state(H):
        s = H.st.copy()
        f = entry.facts
        if any(kap in e.syms() for e in H.ints.values()) or True:
            pass
        # lits stay
        for c in sorted(H.cands, key=repr):
            g = f.add_ge(c)
            if g is not None:
                f = g
        s.facts = f
        for o, n in H.par.items():
            s.heap[o] = n
        if H.ball is not None:
            s.facts = s.facts.add_lit(H.ball, True) or s.facts
        if H.lossy:
            s.notes = s.notes + (("lossy", key),)
        return s

    first = entry.copy()
    H0 = mkhead(first, True)
    H0.sig = state_sig(first, fids, live)
    heads.append(H0)

    def run_pass():
        outs, arr = [], []
        for H in list(heads):
            b, o = step(head_state(H))
            outs += [(t, s, H) for t, s in o]
            H.raw = b
            if not ex.join_values and len(b) > 1:
                H.raw = [s.copy() for s in b]
                b = ite_states([elim(s, age, kap) for s in trim(b, live)])
            arr += [(s, H) for s in b]
        return outs, arr

    npass = 0
    ex.active.append((kap, heads))
    emark, lmark = len(ex.events), len(ex.loops)
    while True:
        npass += 1
        if npass > 14:
            for H in heads:
                H.noaff = True
                H.cands = set()
        if npass > 40:
            ex.taint(st, "loop fixpoint did not stabilise")
            for H in heads:
                H.st.taint = H.st.taint | st.taint
            break
        del ex.events[emark:]
        del ex.loops[lmark:]
        outs, arr = run_pass()
        changed = False
        stale = set()
        for s, src in arr:
            sg = state_sig(s, fids, live)
            for H in heads:
                if H.sig == sg or (H.sig is not None and same_shape(H.sig, sg)):
                    if H in stale:
                        # the arrival was computed from an outdated head: next pass
                        break
                    if absorb(H, s, True):
                        changed = True
                        stale.add(H)
                        H.sig = state_sig(H.st, fids, live)
                    break
            else:
                if len(heads) >= 24:
                    ex.taint(st, "too many loop head shapes")
                    heads[0].st.taint = heads[0].st.taint | st.taint
                    continue
                n = mkhead(s.copy(), False)
                # keep only head locations
                for f in list(n.st.frames):
                    if f not in fids:
                        del n.st.frames[f]
                        continue
                    for l in list(n.st.frames[f]):
                        if (f, l) not in live:
                            del n.st.frames[f][l]
                localize(n)
                n.sig = sg
                heads.append(n)
                changed = True
        if not changed:
            break

    # ------------------------------------------------ summaries
    if len(heads) == 1 and len(arr) == 1:
        H = heads[0]
        if H.usek or True:
            raw = H.raw
            r = try_summaries(ex, H, arr[0][0], age, kap, entry, run_pass, emark, lmark, walkfloat)
            if r is not None:
                outs, arr = r
            else:
                H.raw = raw
    if ex.quantify:
        for H in heads:
            r = every(H, H.raw, head_state(H).facts, age, kap) if len(heads) == 1 else False
            if r is False:
                H.lossy = True
            elif r is not None:
                H.ball = r
        if any(H.ball is not None or H.lossy for H in heads):
            del ex.events[emark:]
            del ex.loops[lmark:]
            outs, arr = run_pass()
    rec = LoopRec(
        key=key,
        stack=tuple(ex.stack),
        kap=kap,
        heads=[(H, head_state(H)) for H in heads],
        backs=arr,
        outs=[(t, s.facts, H, bool(s.taint)) for t, s, H in outs],
        entry=entry,
        taint=frozenset(),
        outer=tuple(k for k, _ in ex.active[:-1]),
        raws=[(s, H) for H in heads for s in (H.raw or ())],
        line=ex.site(),
        dest=dests(heads, fids, live),
    )
    ex.loops.append(rec)
    ex.active.pop()
    res = []
    for t, s, H in outs:
        res.append((t, s))
    return res


def dests(heads, fids, live):
    """which head form each end state of an iteration arrives at (by identity)"""
    out = {}
    if len(heads) > 1:
        for H in heads:
            for s in H.raw or ():
                sg = state_sig(s, fids, live)
                for i, G in enumerate(heads):
                    if G.sig == sg or (G.sig is not None and same_shape(G.sig, sg)):
                        out[id(s)] = i
                        break
    return out


def elim(s, age, kap):
    """replace symbols of finished inner loops that the facts define"""
    f = s.facts
    m = {x: l for x, l in f.sub.items() if x != kap and age.sym(x) and x not in APP}
    if not m:
        return s
    s.facts = Facts(f.ge, {x: l for x, l in f.sub.items() if x not in m}, f.lits, f.ne)
    for o, c in s.heap.items():
        s.heap[o] = T.subst(c, m)

    def w(v):
        if isinstance(v, Lin):
            return v.subst(m)
        if isinstance(v, N):
            return T.subst(v, m)
        if isinstance(v, Agg):
            return Agg(v.kind, v.key, v.variant, tuple(w(x) for x in v.f))
        if isinstance(v, VRef):
            return VRef(w(v.v))
        if isinstance(v, It):
            return It(w(v.node), w(v.pos))
        if isinstance(v, Seq):
            return Seq(w(v.node))
        if isinstance(v, ArrV):
            return ArrV(v.obj, w(v.axes), w(v.fixed), v.nd, v.owned)
        if isinstance(v, tuple):
            return tuple(w(x) for x in v)
        return v

    for d in s.frames.values():
        for l, v in d.items():
            d[l] = w(v)
    return s


def trim(sts, live):
    """only the locations that exist at the loop head matter at a back edge"""
    for s in sts:
        for f in list(s.frames):
            d = {l: v for l, v in s.frames[f].items() if (f, l) in live}
            if d:
                s.frames[f] = d
            else:
                del s.frames[f]
    return sts


def every(H, backs, head, age, kap):
    """what the conditions of the back states say about each finished iteration: a quantified
    literal, None when there is nothing to say, False when it cannot be expressed"""
    parts = []
    some = False

    def local(l):
        return any(age.sym(x) for x in l.allsyms() if x != kap and x not in APP)

    for s in backs:
        f = s.facts
        conj = []
        for a, v in f.lits.items():
            if head.lits.get(a) == v:
                continue
            t = resolve(a, f)
            if isinstance(t, bool):
                continue
            if age.free(t, {kap}):
                return False
            conj.append(t if v else bnot(t))
            some = True
        cons = [(l, cge) for l in f.ge if not head.ent_ge(l)]
        cons += [(l, lambda d: bnot(ceq(d))) for l in f.ne if not head.ent_ne(l)]
        cons += [(L(x) - l, ceq) for x, l in f.sub.items() if not head.ent_eq(L(x), l)]
        for l, mkc in cons:
            if local(l):
                if not inner_only(l, age, kap):
                    return False
                continue
            conj.append(mkc(l))
        t = True
        for c in conj:
            if isinstance(c, bool):
                continue
            t = c if t is True else mk("band", t, c)
        parts.append(t)
    if not some:
        return None
    body = None
    for t in parts:
        if t is True:
            return False
        body = t if body is None else mk("bor", body, t)
    q = fresh("q")
    return mk("ball", q, ZERO, L(kap), T.subst(body, {kap: L(q)}))


def inner_only(l, age, kap):
    """a constraint about the counter of a finished inner loop says nothing about this one"""
    return True


def same_shape(a, b):
    return a == b


def walkfloat(st, path):
    """value at path (fid, local, idx...)"""
    v = st.frames[path[0]][path[1]]
    for e in path[2:]:
        if isinstance(v, Agg):
            v = v.f[e]
        elif isinstance(v, VRef) and e == "v":
            v = v.v
        else:
            return None
    return v


def setfloat(st, path, val):
    def s(v, p):
        if not p:
            return val
        if isinstance(v, Agg):
            f = list(v.f)
            f[p[0]] = s(f[p[0]], p[1:])
            return Agg(v.kind, v.key, v.variant, tuple(f))
        return v

    st.frames[path[0]][path[1]] = s(st.frames[path[0]][path[1]], path[2:])


ASSOC = {"add", "sub", "mul", "fmax", "fmin"}


def try_summaries(ex, H, arrst, age, kap, entry, run_pass, emark, lmark, getf):
    """replace widened arrays / floats by closed forms when the single back state allows it"""
    phis = {}
    conts = {}
    for path, md in H.modes.items():
        if md[0] == "phic":
            conts[path[1]] = (md[1], md[2])
        elif md[0] == "phif" and md[1] is not None:
            phis[path] = (md[1], md[2])
    if not conts and not phis:
        return None
    K = L(kap)
    csub = {n: e for n, e in conts.values()}
    plan_c, plan_f = {}, {}
    f0 = arrst.facts
    for o, (n, e) in conts.items():
        c = arrst.heap[o]
        ups = []
        while c.op == "upd":
            ups.append(c)
            c = c.a[0]
        if c is not n or not ups or len(ups) > 6:
            continue
        ups.reverse()
        new = []
        good = True
        for u in ups:
            bv = tuple((b, f0.canon(lo), f0.canon(hi)) for b, lo, hi in u.a[1])
            idx = tuple(f0.canon(i) for i in u.a[2])
            val = resolve(T.subst(u.a[3], {}, csub), f0, bv=bv)
            bound = {b[0] for b in bv} | {kap}
            if age.free(val, bound) or age.free(idx, bound) or any(
                age.free(x, bound) for b in bv for x in b[1:]
            ):
                good = False
                break
            new.append((bv, idx, val))
        if good and injective(new, kap, f0, H):
            plan_c[o] = (e, new)
    for path, (n, init) in phis.items():
        v = getf(arrst, path)
        if v is None or not isinstance(v, N):
            continue
        if v.op in ASSOC and v.a[0] is n:
            op, t = v.op, v.a[1]
        elif v.op in ("add", "mul", "fmax", "fmin") and v.a[1] is n:
            op, t = v.op, v.a[0]
        else:
            continue
        t = resolve(T.subst(t, {}, csub), f0)
        if age.free(t, {kap}) or n in T.nodes_of(t):
            continue
        plan_f[path] = (op, init, t)
    if not plan_c and not plan_f:
        return None

    def summary(o, upto):
        e, new = plan_c[o]
        c = e
        for bv, idx, val in new:
            q = fresh("it")
            m = {kap: L(q)}
            # fresh names for the inner bound variables
            nb = []
            for b, lo, hi in bv:
                b2 = fresh("b")
                m[b] = L(b2)
                nb.append((b2, lo, hi))
            nbv = ((q, ZERO, upto),) + tuple((b, lo.subst(m), hi.subst(m)) for b, lo, hi in nb)
            c = mk("upd", c, nbv, tuple(i.subst(m) for i in idx), T.subst(val, m))
        return c

    def redval(path, upto):
        op, init, t = plan_f[path]
        q = fresh("q")
        tq = T.subst(t, {kap: L(q)})
        return red_term(op, init, q, upto, tq)

    saved_ev, saved_lp = ex.events[emark:], ex.loops[lmark:]
    keepvals = {}
    while plan_c or plan_f:
        H.par = {o: summary(o, K) for o in plan_c}
        keepvals = {}
        reds = {}
        for path in plan_f:
            keepvals[path] = H.modes[path][1]
            reds[path] = redval(path, K)
            setfloat(H.st, path, reds[path])
        del ex.events[emark:]
        del ex.loops[lmark:]
        outs, arr = run_pass()
        bad_c, bad_f = set(), set()
        if len(arr) != 1:
            bad_c, bad_f = set(plan_c), set(plan_f)
        else:
            s = arr[0][0]
            for o in plan_c:
                if not check_par(s, o, H.par[o], plan_c[o][1]):
                    bad_c.add(o)
            for path in plan_f:
                op, init, t = plan_f[path]
                v = getf(s, path)
                okk = False
                if isinstance(v, N) and v.op == op:
                    if v.a[0] is reds[path]:
                        okk = alpha(resolve(v.a[1], s.facts)) is alpha(resolve(t, s.facts))
                    elif op != "sub" and v.a[1] is reds[path]:
                        okk = alpha(resolve(v.a[0], s.facts)) is alpha(resolve(t, s.facts))
                if not okk and isinstance(v, N):
                    okk = alpha(resolve(v, s.facts)) is alpha(
                        resolve(T.rebuild(op, (reds[path], t)), s.facts)
                    )
                if not okk:
                    bad_f.add(path)
        for path in plan_f:
            if path in bad_f or bad_c or bad_f:
                setfloat(H.st, path, keepvals[path])
        if not bad_c and not bad_f:
            for path in plan_f:
                H.modes[path] = ("red", reds[path])
            return outs, arr
        for o in bad_c:
            del plan_c[o]
        for p in bad_f:
            del plan_f[p]
    H.par = {}
    ex.events[emark:] = saved_ev
    ex.loops[lmark:] = saved_lp
    return None


def red_term(op, init, q, upto, t):
    if op == "add":
        return T.add(init, T.mksum(q, ZERO, upto, t))
    if op == "sub":
        return T.sub(init, T.mksum(q, ZERO, upto, t))
    return mk("fold", op, q, ZERO, upto, init, t)


def injective(ups, kap, facts, H):
    """writes of different iterations never hit the same element"""
    for i, (bv1, ix1, _) in enumerate(ups):
        for j, (bv2, ix2, _) in enumerate(ups):
            k1, k2 = fresh("k1"), fresh("k2")
            m1, m2 = {kap: L(k1)}, {kap: L(k2)}
            for b in bv1:
                m1[b[0]] = L(fresh("b"))
            for b in bv2:
                m2[b[0]] = L(fresh("b"))
            # only facts that do not speak about this iteration are shared by both
            f = Facts(
                frozenset(g for g in facts.ge if kap not in g.syms()),
                {s: v for s, v in facts.sub.items() if kap not in v.syms() and s != kap},
            )
            for g in facts.ge:
                if kap in g.syms():
                    for mm in (m1, m2):
                        f = f.add_ge(g.subst(mm)) if f is not None else None
            f = f.add_ge(L(k2) - L(k1) - 1) if f is not None else None
            for bv, mm in ((bv1, m1), (bv2, m2)):
                for b, lo, hi in bv:
                    g = T.guard_of(hi)
                    if g is not None:
                        f = f.add_ge(g.subst(mm)) if f is not None else None
                        continue
                    if f is not None:
                        f = f.add_ge(mm[b] - lo.subst(mm))
                    if f is not None:
                        f = f.add_ge(hi.subst(mm) - mm[b] - 1)
            for a, b in zip(ix1, ix2):
                if f is not None:
                    x, y = a.subst(m1), b.subst(m2)
                    f = f.add_eq(x - y)
                    # a permutation is injective
                    px, py = perm_arg(x), perm_arg(y)
                    if f is not None and px and py and px[0] == py[0]:
                        for u, w in zip(px[1], py[1]):
                            f = f.add_eq(u - w) if f is not None else None
            if f is not None:
                return False
    return True


def perm_arg(l):
    if l.c == 0 and len(l.t) == 1 and l.t[0][1] == 1 and l.t[0][0] in APP:
        fn, args = APP[l.t[0][0]]
        if fn.startswith("perm:"):
            return fn, args
    return None


def check_par(s, o, head, new):
    c = s.heap[o]
    ups = []
    while c is not head and c.op == "upd":
        ups.append(c)
        c = c.a[0]
    if c is not head or len(ups) != len(new):
        return False
    ups.reverse()
    for u, (bv, idx, val) in zip(ups, new):
        if len(u.a[1]) != len(bv):
            return False
        m = {a[0]: L(b[0]) for a, b in zip(u.a[1], bv)}
        for a, b in zip(u.a[1], bv):
            if not s.facts.ent_eq(a[1].subst(m), b[1]) or not s.facts.ent_eq(a[2].subst(m), b[2]):
                return False
        g = s.facts
        for b, lo, hi in bv:
            gd = T.guard_of(hi)
            if gd is not None:
                g = g.add_ge(gd) if g is not None else None
                continue
            g = g.add_ge(L(b) - lo) if g is not None else None
            g = g.add_ge(hi - L(b) - 1) if g is not None else None
        if g is not None and not all(g.ent_eq(i.subst(m), j) for i, j in zip(u.a[2], idx)):
            return False
        v = resolve(T.subst(u.a[3], m), s.facts, bv=bv)
        w = resolve(val, s.facts, bv=bv)
        if v is not w and alpha(v) is not alpha(w):
            return False
    return True


# ------------------------------------------------------------------ term helpers
def resolve(t, facts, bv=(), memo=None):
    """re-read every element selection under (stronger) facts; integer parts canonicalised"""
    f = facts
    for b, lo, hi in bv:
        f = f.add_ge(L(b) - lo)
        if f is None:
            return t
        f = f.add_ge(hi - L(b) - 1)
        if f is None:
            return t
    return _res(t, f, {} if memo is None else memo)


def _res(t, f, memo):
    if isinstance(t, Lin):
        return f.canon(t)
    if isinstance(t, tuple):
        return tuple(_res(x, f, memo) for x in t)
    if not isinstance(t, N):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if op in ("c", "fsym", "base", "fresh", "fconst", "bsym"):
        r = t
    elif op == "sel":
        idx = tuple(f.canon(i) for i in t.a[1])
        v = read(t.a[0], idx, f)
        if v.op == "sel" and v.a[0] is t.a[0]:
            r = v
        else:
            r = _res(v, f, memo)
    elif op == "sum":
        q, lo, hi, body = t.a
        lo, hi = f.canon(lo), f.canon(hi)
        g = f.add_ge(L(q) - lo)
        g = g.add_ge(hi - L(q) - 1) if g is not None else None
        if g is None:
            r = T.F0
        else:
            b = _res(body, g, {})
            r = T.mksum(q, lo, hi, b, f)
    elif op == "fold":
        o, q, lo, hi, init, body = t.a
        lo, hi = f.canon(lo), f.canon(hi)
        init = _res(init, f, memo)
        g = f.add_ge(L(q) - lo)
        g = g.add_ge(hi - L(q) - 1) if g is not None else None
        r = init if g is None else mk("fold", o, q, lo, hi, init, _res(body, g, {}))
    elif op in ("upd", "lam", "view", "mm", "ew", "cat", "fill", "eye", "opq"):
        r = t
    else:
        r = T.rebuild(op, tuple(_res(x, f, memo) for x in t.a))
    memo[t] = r
    return r


_alpha = {}
_height = {}


def height(t):
    r = _height.get(t)
    if r is None:
        r = 0
        st = [t.a]
        for x in t.a:
            r = max(r, _h(x))
        if t.op in ("sum", "fold", "lam", "upd"):
            r += 1
        _height[t] = r
    return r


def _h(x):
    if isinstance(x, N):
        return height(x)
    if isinstance(x, tuple):
        return max([_h(y) for y in x], default=0)
    return 0


def alpha(t):
    """canonical names for bound variables"""
    if isinstance(t, tuple):
        return tuple(alpha(x) for x in t)
    if not isinstance(t, N):
        return t
    r = _alpha.get(t)
    if r is not None:
        return r
    op = t.op
    if op == "sum":
        q, lo, hi, body = t.a
        b = alpha(body)
        nq = declare(f"#q{height(b)}")
        r = mk("sum", nq, lo, hi, T.subst(b, {q: L(nq)}))
    elif op == "fold":
        o, q, lo, hi, init, body = t.a
        b = alpha(body)
        nq = declare(f"#q{height(b)}")
        r = mk("fold", o, nq, lo, hi, alpha(init), T.subst(b, {q: L(nq)}))
    elif op == "lam":
        b = alpha(t.a[1])
        h = height(b)
        m = {v: L(declare(f"#l{h}_{i}")) for i, v in enumerate(t.a[0])}
        r = mk("lam", tuple(f"#l{h}_{i}" for i in range(len(t.a[0]))), T.subst(b, m))
    elif op == "upd":
        prev = alpha(t.a[0])
        val = alpha(t.a[3])
        h = height(val)
        m = {v[0]: L(declare(f"#u{h}_{i}")) for i, v in enumerate(t.a[1])}
        bv = tuple(
            (f"#u{h}_{i}", v[1].subst(m), v[2].subst(m)) for i, v in enumerate(t.a[1])
        )
        r = mk("upd", prev, bv, tuple(i.subst(m) for i in t.a[2]), T.subst(val, m))
    elif op in ("c", "fsym", "base", "fresh", "fconst", "bsym"):
        r = t
    else:
        r = mk(op, *[alpha(x) for x in t.a])
    _alpha[t] = r
    return r
