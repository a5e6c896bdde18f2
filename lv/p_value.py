"""C06, C08, C14, C22: the summary terms of results against their definitions."""
import itertools, math
from .check import Job, Verdict
from .props import spec
from .entries import *
from .values import *
from .ident import *
from .p_shape import note_functions, taint_text, facts_text

TECH = ("abstract interpretation of the MIR computing closed-form summary terms (loops summarised, sizes symbolic), "
        "identity testing of the extracted terms against the definition")
ASSUME = ["identities are decided on the extracted terms at pseudo-random atoms for all small index ranges "
          "(Schwartz-Zippel style); real arithmetic, no rounding, no NaN"]


class Bad(Exception):
    """a definite difference"""


def vrun(P, stats, name, entry=None, **opts):
    R = Run(P, entry or E[name], jv=False, real=True, quick=False)
    for k, v in opts.items():
        setattr(R.ex, k, v)
    R.go()
    note_functions(R, stats)
    stats["return_states"] = stats.get("return_states", 0) + len(R.res)
    return R


def elem(R, s, p, v, idx):
    """element of an array value of state s at point p"""
    for i, d in zip(idx, v.dims):
        if not 0 <= i < p.int(d):
            raise Undefined()
    pos = tuple(p.int(x) for x in v.index(tuple(Lin(i) for i in idx)))
    return p.read(s.heap[v.obj], pos)


def table(R, s, p, v):
    """all elements of an array value as {idx: float}"""
    dims = [p.int(d) for d in v.dims]
    return {ix: elem(R, s, p, v, ix) for ix in itertools.product(*[range(d) for d in dims])}


def outcome(R, name, judge, dims, maxd=3, rule="", seeds=(1, 2), mind=0, where=None, maxpts=600, arrays=None,
            modes=(False, True), states=None, choices=64, point=FPoint):
    """At every point (small dimensions, pseudo-random atoms) the return states whose facts hold
    include the one really taken.  judge(s, v, p, ints): True = agrees with the definition, None =
    nothing to compare, raises Bad on a difference.  A violation needs every state that can hold
    to disagree."""
    rule_w = where or name
    states = R.res if states is None else states
    per = []
    keys = {}
    for n, (s, v) in enumerate(states):
        for f, ints in dim_facts(s.facts, dims, maxd, mind):
            keys.setdefault(tuple(sorted(ints.items())), []).append((n, s, v, f))
    hit, und, bad = 0, {}, {}
    cnt = 0
    for key in sorted(keys):
        ints = dict(key)
        for sd in seeds:
            for grid in modes:
                cnt += 1
                if cnt > maxpts:
                    break
                good, maybe, worse = False, False, []
                sure = {"good": False, "bad": None}

                def unknown(e, s):
                    und.setdefault(f"no closed form ({e})" + (" [" + taint_text(s.taint) + "]" if s.taint else ""), 1)
                notes = []
                for n, s, v, f in keys[key]:
                    verdict = None
                    script, tries, bounded = [], 0, True
                    while script is not None:
                        tries += 1
                        if tries > choices:
                            verdict = "maybe"
                            break
                        p = point((sd, grid), f, R.ex, grid, ints=dict(ints))
                        p.script = script
                        if arrays is not None:
                            p.arrays = arrays((sd, grid, key), ints)
                        why = None
                        try:
                            h = holds_at(p, p.facts)
                        except Infeasible:
                            h = False
                        except Undefined:
                            h = None
                        except Unknown as e:
                            h, why = None, e
                        bounded = bounded and p.bounded
                        if h:
                            exact = not p.loose and not s.taint
                            try:
                                verdict = "good" if judged(judge, s, v, p, ints) else "none"
                                if exact:
                                    sure["good"] = True
                                break
                            except Infeasible:
                                h = False
                            except Undefined:
                                h = None
                            except Unknown as e:
                                h, why = None, e
                                if exact:
                                    sure["good"] = True
                            except Bad as e:
                                verdict = "bad"
                                worse.append((str(e), s))
                                if exact and not p.loose:
                                    sure["bad"] = (str(e), s)
                                break
                        if h is None:
                            verdict = "maybe"
                            if why is not None:
                                notes.append((why, s))
                                break
                        elif verdict is None and not bounded:
                            verdict = "open"
                        script = p.next_script()
                    if verdict == "good":
                        good = True
                    elif verdict in ("maybe", "none", "open"):
                        maybe = True
                if sure["bad"] and not sure["good"]:
                    bad.setdefault(sure["bad"][0], (sure["bad"][1], ints))
                    continue
                if not sure["good"]:
                    for e, s in notes:
                        unknown(e, s)
                if worse and not good and not maybe and not any(s.taint for _, s in worse):
                    bad.setdefault(worse[0][0], (worse[0][1], ints))
                elif worse and not sure["good"]:
                    for e, s in worse:
                        und.setdefault(e + " on some path" + (" [" + taint_text(s.taint) + "]" if s.taint else ""), 1)
                elif good:
                    hit += 1
    out = []
    for b, (s, ints) in bad.items():
        out.append(Verdict("violation", rule, rule_w, b, name, [f"dimensions {ints}", f"under {facts_text(s.facts)}"]))
    for u in und:
        out.append(Verdict("undetermined", rule, rule_w, u, name))
    if hit:
        out.append(Verdict("ok", rule, rule_w, "", name, n=hit))
    if not out:
        out.append(Verdict("undetermined", rule, rule_w, "no comparable return state", name))
    return out


def judged(judge, s, v, p, ints):
    """the judgement, unless the loop iterations it looked at are impossible"""
    try:
        r = judge(s, v, p, ints)
    except Bad:
        if not p.passed(p.facts):
            raise Infeasible()
        raise
    if not p.passed(p.facts):
        raise Infeasible()
    return r


def vjob(name, fn, cost=1):
    return Job(name, fn, cost)


# ---------------------------------------------------------------- C22
def c22(name, kind, nd):
    def run(P, stats):
        R = vrun(P, stats, name)
        inp = R.inp["A" if nd == 2 else "V"]
        s0 = R.seed["A" if nd == 2 else "V"]

        def judge(s, v, p, ints):
            if not is_float(v):
                raise Unknown("result")
            dims = [p.int(d) for d in inp.dims]
            xs = [p.read(s0, ix) for ix in itertools.product(*[range(d) for d in dims])]
            want = {"norm_l1": sum(map(abs, xs)), "norm_l2": math.sqrt(sum(x * x for x in xs)),
                    "norm_max": max(map(abs, xs), default=0.0)}[kind]
            got = p.f(v)
            if not close(got, want):
                raise Bad(f"{kind} differs from its definition" + (" on an empty array" if not xs else ""))
            return True
        return outcome(R, name, judge, ["Ar", "Ac"] if nd == 2 else ["Vn"], 3 if nd == 2 else 5,
                       "norm equals its definition")
    return run


spec(
    "C22",
    jobs=lambda t: [vjob(f"{k}.{d}d", c22(f"{k}.{d}d", k, d)) for k in ("norm_l1", "norm_l2", "norm_max") for d in (1, 2)],
    rule="the closed-form summary of each norm (one- and two-dimensional) equals the definition over all elements",
    explain="the result term of each norm method over an array of symbolic shape, with element reads described by the "
    "iteration order of the library, is compared with the definition for every small shape including empty ones",
    technique=TECH, assumptions=ASSUME,
)


# ---------------------------------------------------------------- C14
def c14(name, order):
    svd = "svd" in name

    def run(P, stats):
        R = vrun(P, stats, name)
        inp, seed = R.inp, R.seed
        dims = ["N"] + (["M"] if "vecs" in inp or "U" in inp else []) + (["C"] if "Vt" in inp else [])

        def judge(s, v, p, ints):
            r = R.ex.val(s, v.f[0])
            if svd:
                u, w, t = (R.ex.val(s, x) for x in r.f)
                parts = []
                for lab, x, nm, ax in (("left vectors", u, "U", 1), ("right vectors", t, "Vt", 0)):
                    if not isinstance(x, Agg) or x.key != OPTION:
                        raise Unknown(lab)
                    if (x.variant == 1) != (nm in inp):
                        raise Bad(f"{lab} appear or disappear")
                    if x.variant == 1:
                        parts.append((lab, R.ex.val(s, x.f[0]), nm, ax))
            elif "vecs" in inp:
                w, u = (R.ex.val(s, x) for x in r.f)
                parts = [("eigenvectors", u, "vecs", 1)]
            else:
                w, parts = r, []
            n = p.int(inp["vals"].dims[0])
            old = [p.read(seed["vals"], (i,)) for i in range(n)]
            if p.int(w.dims[0]) != n:
                raise Bad("number of values changes")
            new = [elem(R, s, p, w, (i,)) for i in range(n)]
            if sorted(new) != sorted(old):
                raise Bad("values are not a permutation of the original values")
            want = sorted(old, reverse=order == "desc")
            if new != want:
                raise Bad("values are not in the requested order")
            # the same permutation: every vector travels with its value
            rows = lambda get, k: [tuple(get(i, k) for i in range(k2)) for k2 in (0,)]
            lists_old, lists_new = [[x] for x in old], [[x] for x in new]
            for lab, x, nm, ax in parts:
                d = [p.int(q) for q in x.dims]
                d0 = [p.int(q) for q in inp[nm].dims]
                if d != d0:
                    raise Bad(f"{lab} change their shape")
                for k in range(n):
                    for i in range(d[1 - ax]):
                        ix = (i, k) if ax == 1 else (k, i)
                        lists_old[k].append((lab, p.read(seed[nm], ix)))
                        lists_new[k].append((lab, elem(R, s, p, x, ix)))
            key = lambda l: repr(l)
            if sorted(lists_old, key=key) != sorted(lists_new, key=key):
                raise Bad("values and " + " and ".join(l for l, *_ in parts) + " are not permuted together")
            return True
        maxd = 3
        return outcome(R, name, judge, dims, maxd, "sorting applies one order-giving permutation to all parts",
                       seeds=(1, 2, 3, 4))
    return run


def sort_jobs(t):
    out = []
    for n in E:
        if "sort" not in E[n].groups:
            continue
        o = "desc" if "Largest" in n or n.endswith("desc") else "asc"
        out.append(vjob(n, c14(n, o)))
    return out


spec(
    "C14",
    jobs=sort_jobs,
    rule="result values are the ordered input values; each vector travels with its value; absent parts stay absent",
    explain="the closed forms of all parts returned by every sorting operation (sort_eig, sort_svd, their _asc/_desc "
    "shorthands, values-only, factors present or absent); the comparator closure is analysed on two generic elements and "
    "the sort is interpreted as the permutation that comparator induces",
    technique=TECH, assumptions=ASSUME + ["slice::sort_by orders by its comparator (stable)"],
)


# ---------------------------------------------------------------- C06
def c06_extract(name, up):
    def run(P, stats):
        R = vrun(P, stats, name)
        a, sd = R.inp["A"], R.seed["A"]

        def judge(s, v, p, ints):
            if not is_agg(v, RESULT, 0):
                return None
            x = R.ex.val(s, v.f[0])
            if not isinstance(x, ArrV):
                x = a
            n = p.int(a.dims[0])
            if p.int(a.dims[1]) != n:
                return None
            for i in range(n):
                for j in range(n):
                    out = i > j if up else i < j
                    want = 0.0 if out else p.read(sd, (i, j))
                    for lab, y in (("result", x), ("argument", a)):
                        if lab == "argument" and "inplace" not in name:
                            continue
                        if not close(elem(R, s, p, y, (i, j)), want):
                            raise Bad(f"element {'outside' if out else 'inside'} the {'upper' if up else 'lower'} triangle is "
                                      + ("not zeroed" if out else "changed"))
            return True
        return outcome(R, name, judge, ["Ar", "Ac"], 7, "triangular extraction zeroes exactly the complement")
    return run


def c06_chol(name):
    def run(P, stats):
        R = vrun(P, stats, name)

        def judge(s, v, p, ints):
            if not is_agg(v, RESULT, 0):
                return None
            x = R.ex.val(s, v.f[0])
            n = p.int(x.dims[0])
            for i in range(n):
                for j in range(i + 1, n):
                    if elem(R, s, p, x, (i, j)) != 0.0:
                        raise Bad("strict upper triangle of the cleaned factor is not zero")
                    if "inplace" in name and elem(R, s, p, R.inp["A"], (i, j)) != 0.0:
                        raise Bad("strict upper triangle of the argument is not zeroed")
            return True
        return outcome(R, name, judge, ["Ar", "Ac"], 7, "cleaned factor has a zero strict upper triangle")
    return run


def c06_test(name, up):
    def run(P, stats):
        R = vrun(P, stats, name, quantify=True)

        def arrays(seed, ints):
            dense = (1.0, 1.0, 0.5)[seed[0] % 3]
            comp = [(i, j) for i in range(ints["Ar"]) for j in range(ints["Ac"]) if (i > j if up else i < j)]
            one = comp[seed[0] // 3 % len(comp)] if comp and seed[0] % 3 == 1 else None

            def at(ix):
                if ix == one:
                    return 1.5
                if (ix[0] > ix[1] if up else ix[0] < ix[1]) and h01(seed, "z", ix) < dense:
                    return 0.0
                return 0.0 if h01(seed, "y", ix) < 0.25 else 1.0 + h01(seed, "x", ix)
            return {"A": at}

        def judge(s, v, p, ints):
            if not (isinstance(v, bool) or is_bool(v)):
                raise Unknown("answer")
            got = p.b(v)
            r, c = ints["Ar"], ints["Ac"]
            f = p.arrays["A"]
            want = r == c and all(f((i, j)) == 0 for i in range(r) for j in range(c) if (i > j if up else i < j))
            if got != want:
                raise Bad(f"the answer is {str(got).lower()} for a matrix that is {'not ' if not want else ''}"
                          f"{'upper' if up else 'lower'} triangular" + (" (not square)" if r != c else ""))
            return True
        return outcome(R, name, judge, ["Ar", "Ac"], 4, "triangularity test is true exactly when the complement is zero",
                       seeds=range(30), arrays=arrays, modes=(False,), maxpts=2000)
    return run


def c06_jobs(t):
    out = []
    for up in ("Upper", "Lower"):
        for m in ("triangular_inplace", "into_triangular"):
            out.append(vjob(f"{m}.{up}", c06_extract(f"{m}.{up}", up == "Upper")))
        out.append(vjob(f"is_triangular.{up}", c06_test(f"is_triangular.{up}", up == "Upper")))
    for m in ("cholesky_inplace", "cholesky_into", "cholesky"):
        out.append(vjob(m, c06_chol(m)))
    return out


spec(
    "C06",
    jobs=c06_jobs,
    rule="extraction: closed form of every element; test: elements proved (non-)zero on the paths to each answer; "
    "cleaned factor: closed form of the strict upper triangle",
    explain="result terms of the triangular conversions and of the cleaned Cholesky factors for a matrix of symbolic "
    "size; path conditions of the triangularity test, those of its loops as quantified facts",
    technique=TECH, assumptions=ASSUME,
)


# ---------------------------------------------------------------- comparing evaluations of one or two entries
def flat(R, s, p, v, dep=0):
    """a result value as plain data: arrays as (shape, elements), floats, integers, truth values"""
    v = R.ex.val(s, v)
    if dep > 8:
        raise Unknown("nesting")
    if isinstance(v, ArrV):
        t = table(R, s, p, v)
        return ("arr", tuple(p.int(d) for d in v.dims), [t[k] for k in sorted(t)])
    if isinstance(v, Agg):
        return ("agg", v.key if v.kind != "tuple" else "", v.variant, [flat(R, s, p, x, dep + 1) for x in v.f])
    if isinstance(v, bool):
        return ("bool", v)
    if isinstance(v, Lin):
        return ("int", p.int(v))
    if isinstance(v, N) and is_bool(v):
        return ("bool", p.b(v))
    if is_float(v):
        return ("num", p.f(v))
    raise Unknown(f"value {type(v).__name__}")


def same(a, b, tol=1e-7):
    """None when the data agree, otherwise what differs"""
    if a[0] != b[0]:
        return "kinds of results differ"
    if a[0] == "arr":
        if a[1] != b[1]:
            return "shapes differ"
        m = 1.0 + max([abs(x) for x in a[2]] + [abs(x) for x in b[2]], default=0.0)
        return None if all(abs(x - y) <= tol * m for x, y in zip(a[2], b[2])) else "elements differ"
    if a[0] == "agg":
        if a[2] != b[2] or len(a[3]) != len(b[3]):
            return "outcomes differ (Ok/Err, Some/None or error kind)"
        for x, y in zip(a[3], b[3]):
            r = same(x, y, tol)
            if r:
                return r
        return None
    if a[0] == "num":
        return None if abs(a[1] - b[1]) <= tol * (1 + abs(a[1]) + abs(b[1])) else "values differ"
    return None if a[1] == b[1] else "values differ"


def results(R, key, ints, arrays, extract, point, maxtry=64):
    """data of every return state that holds at the point; None when one cannot be decided"""
    out, loose, maybe = [], [], False
    for s, v in R.res:
        f = s.facts
        for d, x in ints.items():
            f = f.add_eq(L(d) - x) if f is not None else None
        if f is None:
            continue
        script, n = [], 0
        while script is not None:
            n += 1
            if n > maxtry:
                maybe = True
                break
            p = point(key, f, R.ex, False, ints=dict(ints))
            p.script, p.arrays = script, arrays
            try:
                if holds_at(p, p.facts):
                    d = extract(R, s, p, v)
                    if not p.passed(p.facts):
                        raise Infeasible()
                    if s.taint:
                        maybe = True
                    else:
                        (loose if p.loose else out).append((d, s))
                    break
            except Infeasible:
                pass
            except Undefined:
                maybe = True
            except Unknown:
                maybe = True
                break
            script = p.next_script()
    return out or (None if maybe else loose)


def all_dims(dims, maxd, mind=0):
    return [dict(zip(dims, c)) for c in itertools.product(range(mind, maxd + 1), repeat=len(dims))]
