"""C18, C24: the truncated solvers around the block eigensolver.

The solver itself is replaced by an arbitrary function of its arguments: any eigenpairs and residual
norms, and any of the outcomes it has.  What reaches it, in every call of a history, and what is made
of what it returns, are terms over the configuration."""
from .p_iter import *
from .entries import Entry, lobkey


# ---------------------------------------------------------------- the solver and the generator as unknowns
def note(st, x):
    """add to the history of a path (histories keep states apart)"""
    fr = dict(st.frames.get(-1, {}))
    fr[len(fr)] = VRef(Agg("adt", repr(x[:2]), 0, x))
    st.frames[-1] = fr


def history(st):
    fr = st.frames.get(-1, {})
    return [fr[i].v.f for i in range(len(fr))]


def trunc_stubs(R):
    ex, P = R.ex, R.P
    R.lobs, R.rnds = {}, {}
    le = R.adt("LinalgError")
    vi = {v["n"]: i for i, v in enumerate(P.adts[le]["v"])}
    lo = R.adt("Lobpcg")

    def lob(ex_, st, f, args):
        x = ex.val(st, args[1])
        if not isinstance(x, ArrV) or len(x.axes) != 2:
            return None
        n, m = x.dims
        k = sum(1 for z in history(st) if z[0] == "lob")
        nm = T.uid("lob")
        rec = {"k": k, "args": list(args), "st": st.copy(), "stack": tuple(ex.stack)}
        R.lobs[nm] = rec
        for part, fn in (("op", args[0]), ("pre", args[2])):
            s = st.copy()
            R.blocks[nm + part] = (part, k)
            blk = ex.new_arr(s, (n, m), mk("fresh", nm + part, 2), "blk")
            r = ex.call_value(s, fn, [blk if part == "op" else ArrV(blk.obj, blk.axes, blk.fixed, blk.nd, False)])
            rec[part] = (blk, [(s2, ex.val(s2, v)) for s2, v in r])
        s = st.copy()
        note(s, ("lob", nm))
        out = []
        good, rest = ex.split(s, mk("bapp", "lobok:" + nm))
        some_, none_ = ex.split(rest, mk("bapp", "lobhas:" + nm)) if rest is not None else (None, None)
        npd = Agg("adt", le, vi["NotPositiveDefinite"], ())

        def res(s):
            for q in (".w", ".v", ".r"):
                R.blocks[nm + q] = (q, k)
            fields = {"eigvals": ex.new_arr(s, (m,), mk("fresh", nm + ".w", 1), "lvals"),
                      "eigvecs": ex.new_arr(s, (n, m), mk("fresh", nm + ".v", 2), "lvecs"),
                      "rnorm": Seq(("opq", nm + ".r", m, "f"))}
            return Agg("adt", lo, 0, tuple(fields[f] for f in P.adts[lo]["v"][0]["f"]))
        if good is not None:
            out.append((good, ok(res(good))))
        if some_ is not None:
            out.append((some_, err(tup(npd, some(res(some_))))))
        if none_ is not None:
            out.append((none_, err(tup(npd, NONE))))
        return out

    def rnd_(ex_, st, f, args):
        d = ex.val(st, args[0])
        dims = ex.models.dims_of(ex, st, d)
        if dims is None:
            return None
        v, loc = args[1], None
        for _ in range(4):
            if isinstance(v, Ref):
                loc = ex.deref(st, v)
                v = ex.load(st, loc)
        if not (isinstance(v, Agg) and v.key == "rng"):
            return None
        s = st.copy()
        if loc is not None:
            ex.store(s, loc, Agg("adt", "rng", 0, (v.f[0] + 1,)))
        nm = T.uid("rnd")
        R.blocks[nm] = ("rnd", v.f[0])
        R.rnds[nm] = v.f[0]
        return [(s, ex.new_arr(s, dims, mk("fresh", nm, len(dims)), "rnd"))]

    def corr(ex_, st, f, args):
        return [(st, mk("fconst", "correction"))]

    R.blocks = {}
    ex.stubs[lobkey(R)] = lob
    for k, f in P.fns.items():
        if f.name == "random" and f.kind == "Fn":
            ex.stubs[k] = rnd_
        if f.name == "correction":
            ex.stubs[k] = corr
    for (tr, n), l in P.by_trait.items():
        if n == "correction":
            ex.stubs[f"{tr}::{n}"] = corr


def configured(R, st, kind, order, square, cons, pre, reverse=False):
    p = R.mat(st, "P", "Pr", "Pr" if square else "Pc")
    outs = R.call(st, R.method(kind, "new_with_rng"), [p, R.enum("Order", order), Agg("adt", "rng", 0, (ZERO,))])
    steps = [("precision", lambda s: mk("fsym", "prec")), ("maxiter", lambda s: L(declare("maxit")))]
    if cons:
        steps.append(("orthogonal_to", lambda s: R.mat(s, "Y", "Pr", "Yc")))
    if pre:
        steps.append(("precondition_with", lambda s: R.mat(s, "G", "Pr", "Pr")))
    for n, g in steps[::-1] if reverse else steps:
        outs = [x for s, v in outs for x in R.call(s, R.method(kind, n), [v, g(s)])]
    return outs


def of_adt(R, name, suffix):
    ks = [k for k, f in R.P.fns.items() if f.name == name and f.selfty is not None
          and R.P.types[f.selfty].get("p", "").endswith(suffix)]
    if len(ks) != 1:
        raise Missing(f"{suffix}::{name}")
    return ks[0]


# scenarios: the outcome of every call of the solver
KINDS = [
    ("ok",) * 4, ("some",) * 4, ("ok", "none"), ("ok", "ok", "none"), ("none",),
    ("ok", "bad0"), ("bad1", "ok"), ("some", "somebad", "ok"), ("ok", "some", "badlast"), ("some", "ok", "some"),
]


class TrPoint(UPoint):
    """a configuration and the outcome of every call of the solver"""

    def child(self, *a):
        p = super().child(*a)
        p.R = self.R
        return p

    def kind(self, k):
        l = KINDS[self.seed[0] % len(KINDS)]
        return l[k] if k < len(l) else "ok"

    def b(self, t):
        if isinstance(t, N) and t.op == "bapp" and isinstance(t.a[0], str) and t.a[0].startswith(("lobok:", "lobhas:")):
            q, nm = t.a[0].split(":")
            kd = self.kind(self.R.lobs[nm]["k"])
            return kd in ("ok", "bad0", "bad1", "badlast") if q == "lobok" else kd != "none"
        return super().b(t)

    def drawn(self, part, k, idx):
        if isinstance(k, Lin):
            k = self.int(k)
        x = rnd((self.seed[0], "lob"), part, k, idx)
        if part == ".w" and self.R.svd:
            # eigenvalues of a Gram matrix; some of them vanish but for rounding
            return x * x if abs(x) >= 0.8 else 1e-9 * (1 + idx[0]) * (-1 if x < 0 and self.R.svd == "Largest" else 1)
        return x

    def _read(self, c, idx):
        if c.op == "fresh" and c.a[0] in self.R.blocks:
            return self.drawn(*self.R.blocks[c.a[0]], tuple(idx))
        return super()._read(c, idx)

    def _f(self, t):
        if t.op == "fapp" and len(t.a) == 2 and t.a[0] in self.R.blocks:
            i = self.int(t.a[1])
            kd = self.kind(self.R.blocks[t.a[0]][1])
            bad = kd in ("bad0", "somebad") and i == 0 or kd == "bad1" and i == 1 or kd == "badlast" and i >= 1
            return 25.0 + i if bad else 1e-7 * (1 + i)
        if t.op == "fconst" and t.a[0] == "correction":
            return 1.0
        return super()._f(t)


def failing(p, k, num):
    """does call k of the solver fail or leave a pair unconverged"""
    kd = p.kind(k)
    return kd == "none" or kd in ("bad0", "somebad") and num >= 1 or kd in ("bad1", "badlast") and num >= 2


def trunc_arrays(key3, ints):
    key = ("trunc", key3[0])
    return {n: (lambda ix, n=n: rnd(key, n, ix)) for n in ("P", "Y", "G")}


def tpoint(R):
    def make(seed, facts, ex, grid=False, shared=None, **k):
        p = TrPoint(seed, facts, ex, grid, shared, **k)
        p.R = R
        return p
    return make


def same(a, b, tol=1e-9):
    return len(a) == len(b) and all(close(x, y, tol) for r, q in zip(a, b) for x, y in zip(r, q)) and \
        all(len(r) == len(q) for r, q in zip(a, b))


def cols(m):
    return sorted([tuple(c) for c in zip(*m)]) if m else []


def one_state(l, what, p):
    if len(l) == 1:
        return l[0]
    hit = []
    for s, v in l:
        try:
            if exact_at(p, s.facts):
                hit.append((s, v))
        except (Undefined, Infeasible):
            pass
    if len(hit) != 1:
        raise Unknown(what)
    return hit[0]


def judge_call(R, p, nm, order, svd, pre, cons_want, last_rnd, square_of=None):
    """one call of the solver: everything configured arrives; returns (requested pairs, generator state)"""
    rec = R.lobs[nm]
    s, args = rec["st"], rec["args"]
    P = given(p, "P", *p_dims(p, svd))
    n, m = p_dims(p, svd)
    gram = None
    if svd:
        gram = mm(tr(P), P) if n > m else mm(P, tr(P))
    want = gram if svd else P
    # initial block
    x = R.ex.val(s, args[1])
    xd = [p.int(d) for d in x.dims]
    if xd[0] != len(want):
        raise Bad(f"the initial block has {xd[0]} rows for an operator on {len(want)}")
    got = matrix(R, s, p, x)
    cand = [k for k in R.rnds.values()]
    state = None
    for k in sorted({p.int(k) for k in cand}):
        try:
            if same(got, [[p.drawn("rnd", k, (i, j)) for j in range(xd[1])] for i in range(xd[0])]):
                state = k
        except Unknown:
            pass
    if xd[0] and xd[1]:
        if state is None:
            raise Unknown("initial block")
        if state <= last_rnd:
            raise Bad("the random generator is not advanced between two calls of the solver")
    # operator
    blk, l = rec["op"]
    s2, v = one_state(l, "operator", p)
    if s2.taint - s.taint:
        raise Unknown(taint_text(s2.taint))
    b = [[p.drawn("op", rec["k"], (i, j)) for j in range(xd[1])] for i in range(xd[0])]
    if not same(matrix(R, s2, p, v), mm(want, b)):
        raise Bad("the operator given to the solver is not " + ("the Gram matrix of the problem" if svd else "the problem matrix"))
    # preconditioner
    blk, l = rec["pre"]
    s2, v = one_state(l, "preconditioner", p)
    if s2.taint - s.taint:
        raise Unknown(taint_text(s2.taint))
    b = [[p.drawn("pre", rec["k"], (i, j)) for j in range(xd[1])] for i in range(xd[0])]
    if pre:
        b = mm(given(p, "G", n, n), b)
    if not same(matrix(R, s2, p, blk), b):
        raise Bad("the preconditioner given to the solver is not the one configured" if pre
                  else "the solver is given a preconditioner although none is configured")
    # constraints
    y = R.ex.val(s, args[3])
    if not isinstance(y, Agg) or y.key != OPTION:
        raise Unknown("constraints argument")
    have = cols(matrix(R, s, p, y.f[0])) if y.variant == 1 else []
    if len(have) != len(cons_want) or any(not close(a, b) for c, d in zip(have, sorted(cons_want)) for a, b in zip(c, d)):
        raise Bad("the constraints given to the solver are not those configured and yielded so far")
    # numbers
    pw = p.f(mk("fsym", "prec"))
    if not close(p.f(R.ex.val(s, args[4])), pw * pw if svd else pw):
        raise Bad("the precision given to the solver is not " + ("the square of the configured one" if svd else "the configured one"))
    if p.int(R.ex.val(s, args[5])) != p.isym("maxit"):
        raise Bad("the iteration limit given to the solver is not the configured one")
    o = R.ex.val(s, args[6])
    if not isinstance(o, Agg):
        raise Unknown("order argument")
    if R.P.adts[o.key]["v"][o.variant]["n"] != order:
        raise Bad("the order given to the solver is not the configured one")
    return xd[1], (last_rnd if state is None else state)


def p_dims(p, svd):
    return (p.isym("Pr"), p.isym("Pc")) if svd else (p.isym("Pr"), p.isym("Pr"))


def calls_of(s):
    return [z[1] for z in history(s) if z[0] == "lob"]


def y_cols(p, cons):
    return [tuple(rnd(("trunc", p.seed[0]), "Y", (i, j)) for i in range(p.isym("Pr"))) for j in range(p.isym("Yc"))] if cons else []


def result_of(R, s, p, k, n, q):
    return ([p.drawn(".w", k, (j,)) for j in range(q)], [[p.drawn(".v", k, (i, j)) for j in range(q)] for i in range(n)])


def c18_direct(kind, order, cons, pre, reverse):
    svd = kind == "TruncatedSvd"
    name = f"{kind}.decompose{'.constrained' if cons else ''}{'.preconditioned' if pre else ''}.{order}{'.r' if reverse else ''}"

    def f(R, st):
        trunc_stubs(R)
        R.svd = svd
        outs = configured(R, st, kind, order, not svd, cons, pre, reverse)
        num = L(declare("num"))
        return [x for s, v in outs for x in R.call(s, R.method(kind, "decompose"), [v if svd else R.ref(s, v), num])]

    def run(P, stats):
        R = vrun(P, stats, name, Entry(name, f))

        def judge(s, v, p, ints):
            c = calls_of(s)
            if p.isym("Pr") == 0 or svd and p.isym("Pc") == 0:
                return None
            num = p.isym("num")
            v = R.ex.val(s, v)
            if num == 0:
                if not is_agg(v, RESULT, 0):
                    raise Bad("requesting no pairs is an error")
                if not svd:
                    r = R.ex.val(s, v.f[0])
                    if p.int(R.ex.val(s, R.field(r, "eigvals")).dims[0]) != 0 or p.int(R.ex.val(s, R.field(r, "eigvecs")).dims[1]) != 0:
                        raise Bad("requesting no pairs gives some")
                return True
            if len(c) != 1:
                raise Bad(f"the solver is called {len(c)} times")
            q, _ = judge_call(R, p, c[0], order, svd, pre, y_cols(p, cons), -1)
            if q != num:
                raise Bad(f"the solver is asked for {q} pairs instead of {num}")
            kd = p.kind(0)
            if not svd:
                if is_agg(v, RESULT, 0) != (kd not in ("some", "somebad", "none")):
                    raise Bad("the outcome is not that of the solver")
                r = None
                if is_agg(v, RESULT, 0):
                    r = v.f[0]
                else:
                    o = R.ex.val(s, R.ex.val(s, v.f[0]).f[1])
                    if is_agg(o, OPTION, 1) != (kd != "none"):
                        raise Bad("the iterate returned by the solver with its error is lost")
                    r = o.f[0] if is_agg(o, OPTION, 1) else None
                if r is not None:
                    r = R.ex.val(s, r)
                    w, x = result_of(R, s, p, 0, p.isym("Pr"), num)
                    if not same([matrix(R, s, p, R.field(r, "eigvals"))], [w]) or not same(matrix(R, s, p, R.field(r, "eigvecs")), x):
                        raise Bad("the result is not that of the solver")
            elif is_agg(v, RESULT, 0) != (kd != "none"):
                raise Bad("a usable iterate is dropped" if kd != "none" else "a result is returned although the solver gave none")
            return True
        dims = ["Pr"] + (["Pc"] if svd else []) + ["num"] + (["Yc"] if cons else [])
        return uoutcome(R, name, judge, dims, 3, "every setting reaches the solver unchanged", trunc_arrays,
                        seeds=(0, 1, 4, 5), point=tpoint(R), maxpts=1500)
    return name, run


def c18_iter(ctor, cons, pre, steps):
    name = f"TruncatedEigIterator.{ctor}{'.constrained' if cons else ''}{'.preconditioned' if pre else ''}"
    order = "Smallest" if pre else "Largest"

    def f(R, st):
        trunc_stubs(R)
        R.svd = False
        step = L(declare("step"))
        st.facts = st.facts.add_ge(step - 1)
        if ctor == "into_iter":
            st.facts = st.facts.add_eq(step - 1)
        out = []
        for s, v in configured(R, st, "TruncatedEig", order, True, cons, pre):
            if ctor == "into_iter":
                its = R.call(s, of_adt(R, "into_iter", "TruncatedEig"), [v])
            elif ctor == "new":
                its = R.call(s, R.method("TruncatedEigIterator", "new"), [v, step])
            else:
                its = R.call(s, R.method("TruncatedEig", "into_iter_step_size"), [v, step])
            for s2, it in its:
                if is_agg(it, RESULT):
                    if it.variant == 1:
                        out.append((s2, it))
                        continue
                    it = it.f[0]
                ref = R.ref(s2, it)
                nx = of_adt(R, "next", "TruncatedEigIterator")
                cur = [s2]
                for i in range(steps):
                    nxt = []
                    for s3 in cur:
                        for s4, r in R.call(s3, nx, [ref]):
                            note(s4, ("step", i, r))
                            if is_agg(r, OPTION, 0):
                                out.append((s4, ok(UNIT)))
                            else:
                                nxt.append(s4)
                    cur = nxt
                out += [(s3, ok(UNIT)) for s3 in cur]
        return out

    def run(P, stats):
        R = vrun(P, stats, name, Entry(name, f))

        def judge(s, v, p, ints):
            if not is_agg(v, RESULT, 0):
                raise Bad("the iterator cannot be made")
            n, step = p.isym("Pr"), p.isym("step")
            if n == 0:
                return None
            seq = history(s)
            cons_now, given_, rnd_state, k = y_cols(p, cons), 0, -1, 0
            pend = []
            for z in seq:
                if z[0] == "lob":
                    if pend:
                        raise Bad("one step calls the solver twice")
                    q, rnd_state = judge_call(R, p, z[1], order, False, pre, cons_now, rnd_state)
                    if q > step:
                        raise Bad(f"a step asks for {q} pairs, the step size is {step}")
                    if given_ + q > n:
                        raise Bad(f"more than {n} pairs are requested in total")
                    if q == 0:
                        raise Bad("a step asks for no pairs")
                    pend = [(k, q)]
                    k += 1
                    continue
                r = z[2]
                r = R.ex.val(s, r) if not isinstance(r, Agg) else r
                if not isinstance(r, Agg) or r.key != OPTION:
                    raise Unknown("item")
                if r.variant == 0:
                    if not pend and given_ < n:
                        raise Bad(f"the iterator ends after {given_} of {n} pairs")
                    if pend and not failing(p, *pend[0]):
                        raise Bad("the iterator ends at a converged step")
                    return True
                if not pend:
                    raise Bad("a block is yielded without a call of the solver")
                if failing(p, *pend[0]):
                    raise Bad("a block is yielded although the step failed or a pair did not converge")
                w, x = (R.ex.val(s, y) for y in R.ex.val(s, r.f[0]).f)
                k0, q = pend[0]
                ww, xx = result_of(R, s, p, k0, n, q)
                if not same([matrix(R, s, p, w)], [ww]) or not same(matrix(R, s, p, x), xx):
                    raise Bad("the block yielded is not the result of the step")
                cons_now = cons_now + [tuple(c) for c in zip(*xx)]
                given_ += q
                pend = []
            return True
        dims = ["Pr"] + (["Yc"] if cons else []) + (["step"] if ctor != "into_iter" else [])
        return uoutcome(R, name, judge, dims, 4, "the iterator keeps its books", trunc_arrays,
                        seeds=range(len(KINDS)), point=tpoint(R), maxpts=3000)
    return name, run


def c18_jobs(t):
    J = []
    for order, cons, pre, rev in (("Largest", 0, 0, 0), ("Smallest", 1, 0, 1), ("Smallest", 0, 1, 1), ("Largest", 1, 1, 0),
                                  ("Largest", 1, 1, 1)):
        nm, run = c18_direct("TruncatedEig", order, cons, pre, rev)
        J.append(vjob(nm, run, 5))
    for order, rev in (("Largest", 0), ("Smallest", 1)):
        nm, run = c18_direct("TruncatedSvd", order, 0, 0, rev)
        J.append(vjob(nm, run, 8))
    for ctor, cons, pre, steps in (("into_iter", 0, 0, 4), ("into_iter", 1, 1, 4), ("into_iter_step_size", 0, 1, 4), ("new", 1, 0, 3)):
        nm, run = c18_iter(ctor, cons, pre, steps)
        J.append(vjob(nm, run, 20))
    return J


spec(
    "C18",
    jobs=c18_jobs,
    rule="the arguments of every call of the block eigensolver, as terms over the configuration, are the configured ones; the blocks "
    "yielded by up to three steps of the iterator are the solver's, added to the constraints of later calls, and end where the solver fails",
    explain="truncated eigen- and singular value solvers with and without constraints and preconditioner, setters in both orders, all "
    "outcomes of the solver; the operator and preconditioner closures applied to an arbitrary block; iterator histories of two to three steps",
    technique=TECH, assumptions=ASSUME + UASSUME + ["the block eigensolver returns arbitrary pairs and residual norms (C16, C17, C32 are about them)",
                                          "a residual norm above 25 counts as unconverged, one below 1e-6 as converged"],
)


# ---------------------------------------------------------------- C24
def c24(order, acc):
    name = f"TruncatedSvd.{acc}.{order}"

    def f(R, st):
        trunc_stubs(R)
        R.svd = order
        num = L(declare("num"))
        out = []
        for s, v in configured(R, st, "TruncatedSvd", order, False, 0, 0):
            for s2, r in R.call(s, R.method("TruncatedSvd", "decompose"), [v, num]):
                if not is_agg(r, RESULT, 0):
                    continue
                for s3, w in R.call(s2, R.method("TruncatedSvdResult", acc), [R.ref(s2, r.f[0])]):
                    out.append((s3, ok(w)))
        return out

    def run(P, stats):
        R = vrun(P, stats, name, Entry(name, f))

        def judge(s, v, p, ints):
            n, m, num = p.isym("Pr"), p.isym("Pc"), p.isym("num")
            if n == 0 or m == 0 or num > min(n, m):
                return None
            v = R.ex.val(s, v.f[0])
            u = t = None
            if acc == "values":
                w = v
            else:
                u, w, t = (R.ex.val(s, x) for x in v.f)
            got = matrix(R, s, p, w)
            lam = [p.drawn(".w", 0, (j,)) for j in range(num)]
            idx = list(range(num))
            if order == "Largest" and lam:
                cut = p.eps * max(lam)
                idx = [j for j in idx if lam[j] > cut]
            idx.sort(key=lambda j: lam[j], reverse=order == "Largest")
            want = [math.sqrt(lam[j]) for j in idx]
            if len(got) != len(want):
                raise Bad(f"{len(got)} singular values are reported instead of the {len(want)} "
                          + ("above the cut-off" if order == "Largest" else "requested"))
            if any(not close(a, b, 1e-9) or abs(a - b) > 1e-6 * b for a, b in zip(got, want)):
                raise Bad("the values are not the square roots of the solver's eigenvalues in the requested order")
            if u is None:
                return True
            du, dt = [p.int(d) for d in u.dims], [p.int(d) for d in t.dims]
            if num == 0:
                if du[1] or dt[0]:
                    raise Bad("no values but vectors are reported")
                return True
            if du != [n, len(idx)] or dt != [len(idx), m]:
                raise Bad(f"the factors have shapes {du} and {dt}")
            u, v = matrix(R, s, p, u), tr(matrix(R, s, p, t)) if idx else [[] for _ in range(m)]
            x = [[p.drawn(".v", 0, (i, j)) for j in idx] for i in range(min(n, m))]
            P = given(p, "P", n, m)
            short, long_, A = (v, u, P) if n > m else (u, v, tr(P))
            if not idx:
                return True
            if not same(short, x):
                raise Bad("the vectors of the shorter side are not the solver's vectors of the reported values")
            img = mm(A, short)
            if not all(close(long_[i][j] * want[j], img[i][j], 1e-7) for i in range(len(img)) for j in range(len(idx))):
                raise Bad("a value times its longer vector is not the problem applied to its shorter vector")
            return True
        vs = uoutcome(R, name, judge, ["Pr", "Pc", "num"], 3, "triplets are those of the solver's eigenpairs", trunc_arrays,
                      seeds=(0, 10, 20, 30, 40, 1, 11), point=tpoint(R), maxpts=3000)
        return vs
    return name, run


spec(
    "C24",
    jobs=lambda t: [vjob(*c24(o, acc), 8) for o in ("Largest", "Smallest") for acc in ("values", "values_vectors")],
    rule="the result terms of the accessors, over arbitrary eigenpairs of the solver, equal the definition of the singular triplets",
    explain="values and values_vectors, both orders, tall and wide problems, repeated, vanishing and slightly negative eigenvalues, and "
    "no requested pairs",
    technique=TECH, assumptions=ASSUME + UASSUME + ["the block eigensolver returns arbitrary pairs (C16, C17, C32 are about them)"],
)
