"""C05: only the designated triangle matters; C15: variants agree; C20: results scale."""
from .p_factor import *


# ---------------------------------------------------------------- access rule (all sizes)
class Access:
    """every element access to a version of one argument, under the facts of the path"""

    def __init__(self, R, base, ok):
        self.R, self.base, self.ok = R, base, ok
        self.lin = {}
        self.good, self.bad = 0, {}
        self.seen = set()
        self.writes = []
        heads = {}
        for rec in R.ex.loops:
            for H, hs in rec.heads:
                for path, md in H.modes.items():
                    if md[0] == "phic":
                        heads[md[1]] = rec.entry.heap.get(path[1])
                    elif md[0] == "phio":
                        c = H.st.heap.get(md[1])
                        if c is not None:
                            heads[c] = None
        self.heads = heads

    def lineage(self, c, dep=0):
        """is the content a version of the argument (the argument itself, a copy, or updates of it)"""
        r = self.lin.get(c)
        if r is not None or dep > 60:
            return bool(r)
        self.lin[c] = False
        if c.op == "base":
            r = c.a[0] == self.base
        elif c.op == "upd":
            r = self.lineage(c.a[0], dep + 1)
        elif c.op == "view":
            r = self.lineage(c.a[0], dep + 1)
        elif c in self.heads and self.heads[c] is not None:
            r = self.lineage(self.heads[c], dep + 1)
        else:
            r = False
        self.lin[c] = r
        return r

    def under(self, c, idx):
        """index in the argument itself (views resolved)"""
        while True:
            if c.op == "view":
                axes, fixed, nd = c.a[1:]
                out = [Lin(0)] * nd
                for (parts, ln), i in zip(axes, idx):
                    for oa, off, st in parts:
                        k = st if isinstance(st, int) else (st.c if st.is_const() else None)
                        if k is None:
                            return None
                        out[oa] = out[oa] + off + i * k
                for oa, i in fixed:
                    out[oa] = i
                c, idx = c.a[0], tuple(out)
            elif c.op == "upd":
                c = c.a[0]
            elif c in self.heads and self.heads[c] is not None:
                c = self.heads[c]
            else:
                return idx

    def check(self, c, idx, f, what, where):
        ix = self.under(c, idx)
        if f is None:
            return
        if ix is None or len(ix) != 2:
            self.bad.setdefault((what, "index not affine"), where)
        elif self.ok(f, ix):
            self.good += 1
        else:
            self.bad.setdefault((what, f"[{f.canon(ix[0])},{f.canon(ix[1])}]"), where)

    def bind(self, f, vs):
        for n, lo, hi in vs:
            f = f.add_ge(L(n) - lo) if f is not None else None
            f = f.add_ge(hi - L(n) - 1) if f is not None else None
        return f

    def walk(self, t, f, where):
        if f is None or not isinstance(t, N):
            if isinstance(t, tuple):
                for x in t:
                    self.walk(x, f, where)
            return
        k = (t, f)
        if k in self.seen:
            return
        self.seen.add(k)
        o, a = t.op, t.a
        if o == "sel":
            if self.lineage(a[0]):
                self.check(a[0], a[1], f, "read", where)
            self.walk(a[0], f, where)
        elif o == "sum":
            self.walk(a[3], self.bind(f, [(a[0], a[1], a[2])]), where)
        elif o == "fold":
            self.walk(a[4], f, where)
            self.walk(a[5], self.bind(f, [(a[1], a[2], a[3])]), where)
        elif o == "upd":
            g = self.bind(f, a[1])
            if self.lineage(a[0]):
                self.check(a[0], a[2], g, "write", where) if self.writes is not None else None
            self.walk(a[3], g, where)
            self.walk(a[0], f, where)
        elif o == "lam":
            self.walk(a[1], f, where)
        elif o in ("mm", "ew"):
            for x in a:
                if isinstance(x, N) and x.op == "view" and self.lineage(x):
                    self.bad.setdefault(("read", f"whole array in {o}"), where)
                self.walk(x, f, where)
        elif o == "ball":
            self.walk(a[3], self.bind(f, [(a[0], a[1], a[2])]), where)
        else:
            for x in a:
                self.walk(x, f, where)

    def state(self, s, where, vals=()):
        for c in s.heap.values():
            self.walk(c, s.facts, where)
        for l in s.facts.lits:
            self.walk(l, s.facts, where)
        for v in vals:
            self.value(v, s, where)

    def value(self, v, s, where):
        if isinstance(v, N):
            self.walk(v, s.facts, where)
        elif isinstance(v, Agg):
            for x in v.f:
                self.value(x, s, where)
        elif isinstance(v, tuple):
            for x in v:
                self.value(x, s, where)

    def run(self):
        for rec in self.R.ex.loops:
            w = rec.key[1].split("::")[-1] if isinstance(rec.key, tuple) else str(rec.key)
            for s, H in rec.raws:
                self.state(s, w)
                for fr in s.frames.values():
                    for v in fr.values():
                        if is_float(v):
                            self.walk(v, s.facts, w)
        for s, v in self.R.res:
            self.state(s, self.R.entry.name, [v])
        return self


def fork_check(R, name, rule, dims, maxd, arrays2, extract, msg, seeds=(1, 2, 3), point=UPoint, mind=0, tol=1e-7):
    """two inputs that must give the same data"""
    bad, hit, und = None, 0, 0
    for ints in all_dims(dims, maxd, mind):
        for sd in seeds:
            pair = arrays2((sd, False, tuple(sorted(ints.items()))), ints)
            if pair is None:
                continue
            rs = [results(R, (sd,), ints, a, extract, point) for a in pair]
            if any(r is None for r in rs):
                und += 1
                continue
            if any(not r for r in rs):
                continue
            # some pair of states agrees: not a definite difference
            why = [same(x[0], y[0], tol) for x in rs[0] for y in rs[1]]
            if None in why:
                hit += 1
            elif bad is None:
                bad = (why[0], ints, rs[0][0][1])
    out = []
    if bad:
        out.append(Verdict("violation", rule, name, f"{msg}: {bad[0]}", name, [f"dimensions {bad[1]}", f"under {facts_text(bad[2].facts)}"]))
    if und:
        out.append(Verdict("undetermined", rule, name, f"{und} points without a closed form", name))
    if hit:
        out.append(Verdict("ok", rule, name, "", name, n=hit))
    if not out:
        out.append(Verdict("undetermined", rule, name, "no comparable return state", name))
    return out


def access_verdicts(A, name, rule, confirmed):
    """a failing access is a violation only together with a difference of results"""
    out = [Verdict("ok", rule, name, "", name, n=A.good)] if A.good else []
    for (what, ix), where in A.bad.items():
        out.append(Verdict("violation" if confirmed and what == "read" else "undetermined", rule, where,
                           f"{what} of an element outside the designated triangle: {ix}", name))
    return out


def lower_of(a, key, tag):
    return lambda ix: a[ix[0]][ix[1]] if ix[0] >= ix[1] else rnd(key, tag, ix)


def c05_chol(name):
    """factor, solve and inverse: the strict upper triangle is not read, the dirty forms keep it"""
    solve = name.startswith(("solvec", "invc"))
    dirty = "dirty" in name or solve

    def run(P, stats):
        R = vrun(P, stats, name, real=False)

        def pair(key3, ints):
            n = ints["Ar"]
            if n != ints["Ac"] or n == 0:
                return None
            key = (key3[0], n)
            l, a = spd(key, n)
            if key3[0] % 3 == 2:
                j = int(h01(key, "j") * n)
                a[j][j] -= l[j][j] ** 2 + 1
            b = lambda ix: rnd(key, "b", ix)
            return [{"A": lower_of(a, key, t), "B": b} for t in ("u1", "u2")]

        def extract(R, s, p, v):
            d = flat(R, s, p, v)
            if not solve and is_agg(v, RESULT, 0):
                n = d[3][0][1][0]
                x = d[3][0][2]
                return ("arr", (n,), [x[i * n + j] for i in range(n) for j in range(i + 1)])
            return d
        dims = ["Ar", "Ac"] + (["Br", "Bc"] if "B" in R.inp else [])
        out = fork_check(R, name, "result depends only on the lower triangle", dims, 4 if len(dims) < 3 else 3, pair, extract,
                         "the strict upper triangle of the matrix influences the result", point=NanPoint)
        diff = any(v.status == "violation" for v in out)
        acc = Access(R, "A", lambda f, ix: f.ent_ge(ix[0] - ix[1]))
        acc.writes = None
        acc.run()
        out += access_verdicts(acc, name, "every element read of the matrix lies in the lower triangle", diff)
        # what the forms that skip cleaning leave in the strict upper triangle
        if dirty and "B" not in R.inp and not name.startswith("inv") or name in ("solvec_inplace", "solvec_into", "solvec", "invc_inplace"):
            def judge(s, v, p, ints):
                if not is_agg(v, RESULT, 0) or ints["Ar"] != ints["Ac"]:
                    return None
                n = ints["Ar"]
                x = R.ex.val(s, v.f[0])
                for lab, y in (("result", x if not solve else None), ("argument", R.inp["A"] if "into" not in name or solve else None)):
                    if y is None or not isinstance(y, ArrV) or R.entry.intact and ("Ok", "A") in R.entry.intact and lab == "argument":
                        continue
                    for i in range(n):
                        for j in range(i + 1, n):
                            if not close(elem(R, s, p, y, (i, j)), p.arrays["A"]((i, j))):
                                raise Bad(f"the strict upper triangle of the {lab} is modified")
                return True
            out += uoutcome(R, name, judge, dims, 4 if len(dims) < 3 else 3, "the strict upper triangle is left exactly as it was", spd_arrays)
        return out
    return run


def c05_tri(name, up):
    def run(P, stats):
        R = vrun(P, stats, name)

        def pair(key3, ints):
            if ints["Ar"] != ints["Ac"] or ints["Ar"] != ints["Br"] or ints["Ar"] == 0:
                return None
            key = (key3[0], tuple(sorted(ints.items())))
            inside = (lambda ix: ix[1] >= ix[0]) if up else (lambda ix: ix[1] <= ix[0])
            b = lambda ix: rnd(key, "b", ix)
            return [{"A": lambda ix, t=t: rnd(key, "a" if inside(ix) else t, ix), "B": b} for t in ("x", "y")]
        out = fork_check(R, name, "result depends only on the designated triangle", ["Ar", "Ac", "Br", "Bc"], 4, pair, flat,
                         "the other triangle of the coefficient matrix influences the result")
        diff = any(v.status == "violation" for v in out)
        acc = Access(R, "A", (lambda f, ix: f.ent_ge(ix[1] - ix[0])) if up else (lambda f, ix: f.ent_ge(ix[0] - ix[1])))
        acc.run()
        out += access_verdicts(acc, name, "every element read of the coefficient matrix lies in the designated triangle", diff)
        a = R.inp["A"]
        n = 0
        for s, v in R.res:
            if s.heap.get(a.obj) is R.seed["A"]:
                n += 1
            elif s.taint:
                out.append(Verdict("undetermined", "the coefficient matrix is not modified", name, taint_text(s.taint), name))
            else:
                out.append(Verdict("violation", "the coefficient matrix is not modified", name,
                                   "the coefficient matrix is modified", name, [facts_text(s.facts)]))
        if n:
            out.append(Verdict("ok", "the coefficient matrix is not modified", name, "", name, n=n))
        return out
    return run


def qr_entry(name, n, br):
    """a method of a QR decomposition with arbitrary stored data"""
    def drv(R, st):
        a, d = R.mat(st, "A"), R.vec(st, "D", "Ac")
        st = st.with_facts(st.facts.add_ge(L("Ar") - L("Ac")))
        fs = {"qr": a, "diag": d}
        k = R.adt("QRDecomp")
        names = R.P.adts[k]["v"][0]["f"]
        if set(names) != set(fs):
            raise Missing("fields of QRDecomp")
        q = Agg("adt", k, 0, tuple(fs[x] for x in names))
        args = [q] + ([R.mat(st, "B")] if br else [])
        return R.call(st, R.method("QRDecomp", n), args)
    return Entry(name, drv)


def c05_qr(n):
    def run(P, stats):
        name = f"QRDecomp.{n}"
        R = vrun(P, stats, name, qr_entry(name, n, n != "inverse"))

        def pair(key3, ints):
            r, c = ints["Ar"], ints["Ac"]
            if r < c or c == 0 or n == "inverse" and r != c or "Br" in ints and ints["Br"] != (c if "_tr" in n else r):
                return None
            key = (key3[0], tuple(sorted(ints.items())))
            # each axis and its negative describe the same reflection
            g = lambda ix, sg: (sg if ix[0] >= ix[1] else 1.0) * rnd(key, "a", ix)
            d = lambda ix: rnd(key, "d", ix)
            b = lambda ix: rnd(key, "b", ix)
            return [{"A": lambda ix, sg=sg: g(ix, sg), "D": d, "B": b} for sg in (1.0, -1.0)]
        return fork_check(R, name, "triangular solve reads only the triangular factor", ["Ar", "Ac"] + (["Br", "Bc"] if n != "inverse" else []),
                          3, pair, flat, "data stored in the opposite triangle (or diagonal) influences the triangular solve")
    return run


def c05_jobs(t):
    out = [vjob(m, c05_chol(m)) for m in E if "chol" in E[m].groups]
    for up in ("Upper", "Lower"):
        for m in ("solve_triangular_inplace", "solve_triangular_into", "solve_triangular"):
            out.append(vjob(f"{m}.{up}", c05_tri(f"{m}.{up}", up == "Upper")))
    return out + [vjob(f"QRDecomp.{n}", c05_qr(n)) for n in ("solve_into", "solve_tr_into", "inverse")]


spec(
    "C05",
    jobs=c05_jobs,
    rule="index facts prove every element read of the matrix inside the designated triangle; results are unchanged when the "
    "rest of the matrix changes; coefficient matrix unchanged; dirty forms keep the strict upper triangle",
    explain="every element read of the designated-triangle operand recorded in any loop or return state of the summarised "
    "program (all sizes; linear index facts of the path); pairs of inputs that differ only outside the triangle give the "
    "same outcome; contents left outside the triangle; the coefficient matrix's content on return; sign of the stored "
    "Householder axes does not influence QR solves",
    technique="access (read/write index) analysis over linear facts on the summarised MIR, non-interference of the result terms",
    assumptions=ASSUME + UASSUME,
)
