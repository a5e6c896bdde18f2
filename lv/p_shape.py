"""C01-C04, C07: obligations and return states of the abstract interpretation of every public
operation on arguments of arbitrary shape."""
from .check import Job, Verdict
from .props import spec
from .entries import *
from .values import *


def taint_text(t):
    return "; ".join(sorted(str(x) for x in t)[:3])


def loc(site):
    k, l = site
    return k.replace("linfa_linalg::", "")


def pathof(stack):
    return [f"{k.replace('linfa_linalg::', '')}:{l}" for k, l in stack]


def note_functions(R, stats):
    stats.setdefault("functions", set()).update(
        k.replace("linfa_linalg::", "") for e in R.ex.events for k, _ in e.stack)
    stats["functions"] |= {k.replace("linfa_linalg::", "") for k, _ in R.ex.visited}
    stats["analysed_calls"] = stats.get("analysed_calls", 0) + len(R.ex.events)


def entry_jobs(groups_fn, body, release=False, tier="quick"):
    out = []
    for n, e in E.items():
        if groups_fn(e, tier):
            out.append(Job(n, body(n, tier == 'quick'), e.cost, release))
    return out


# ---------------------------------------------------------------- C01 / C02
def obl_job(select, rule, release):
    def body(name, quick=True):
        def run(P, stats):
            R = Run(P, E[name], release=release, quick=quick).go()
            note_functions(R, stats)
            stats["return_states"] = stats.get("return_states", 0) + len(R.res)
            agg = {}
            for e in R.ex.events:
                if e.kind != "obl" or not select(e):
                    continue
                k, okk = e.data[0], e.data[1]
                if okk:
                    a = agg.setdefault(("ok", k, e.site), [0, e])
                elif e.taint:
                    a = agg.setdefault(("undetermined", k, e.site), [0, e])
                else:
                    a = agg.setdefault(("violation", k, e.site), [0, e])
                a[0] += 1
            out = []
            for (s, k, site), (n, e) in agg.items():
                what = f"{k}: {generic(e.msg) if s != 'ok' else ''}"
                if s == "undetermined":
                    what += " [" + taint_text(e.taint) + "]"
                v = Verdict(s, rule(k), loc(site), what, name, pathof(e.stack) if s != "ok" else (), n)
                if s == "violation":
                    v.path = pathof(e.stack) + [f"under {facts_text(e.facts)}", f"obligation {e.msg}"]
                out.append(v)
            return out

        return run

    return body


def generic(msg):
    import re

    return re.sub(r"['~]?\d+", "#", msg)[:120]


def facts_text(f):
    return repr(f)[:600]


def is_mem(e):
    return e.data[0] == "uget"


quickset = lambda e, t: True

spec(
    "C01",
    jobs=lambda t: entry_jobs(lambda e, t: True, obl_job(is_mem, lambda k: "unchecked element access", True), True, t),
    rule="every access compiled to an unchecked element read, write or swap is within the array for every shape",
    explain="abstract interpretation of the release-configuration MIR of every public operation on arguments of "
    "symbolic shape; each unchecked access (uget, uget_mut, uswap) is an obligation 0 <= index < dim discharged by "
    "linear facts on dimensions and loop counters; counts are obligations per access site and calling context",
    assumptions=["safe ndarray operations never leave their arrays (they check)",
                 "the caller's operator and preconditioner closures are safe code"],
)


def is_panic(e):
    if e.data[0] == "uget":
        return False
    return True


spec(
    "C02",
    jobs=lambda t: entry_jobs(lambda e, t: True, obl_job(is_panic, lambda k: k, False), False, t),
    rule="no reachable panic: index, slice, shape mismatch, unwrap of an absent value, explicit panic, overflow check",
    explain="abstract interpretation of the debug-configuration MIR of every public operation on arguments of "
    "symbolic shape; every operation that can panic is an obligation discharged by linear facts on shapes",
    assumptions=["element values are ordered (no NaN reaches an ordering comparison); the property excepts value-dependent panics",
                 "the operator given to lobpcg returns blocks of the shape it was given, the preconditioner keeps the shape, "
                 "constraints have full column rank"],
)


# ---------------------------------------------------------------- C03 / C04 / C07
def split_k(R, st):
    """states with the orientation decided, for entries whose requirements depend on it"""
    return [st]


def reqs_of(R, st):
    r = R.entry.reqs
    return r(R, st) if callable(r) else r


def show(v):
    return repr(v)[:160]


def c03(name, quick=True):
    def run(P, stats):
        R = Run(P, E[name], quick=quick).go()
        note_functions(R, stats)
        e = E[name]
        out = []
        stats["return_states"] = stats.get("return_states", 0) + len(R.res)

        def add(status, st, rule, what):
            if status == "violation" and st.taint:
                status = "undetermined"
                what += " [" + taint_text(st.taint) + "]"
            out.append(Verdict(status, rule, name, what, name, [f"return state: {facts_text(st.facts)}"]))

        for st0, v in R.res:
            for f in orientations(st0.facts, e):
                st = st0.with_facts(f)
                v_ = R.ex.val(st, v)
                if is_agg(v_, RESULT, 1):
                    en, fields = R.err(v_)
                    if en is None:
                        add("undetermined", st, "error kind", f"error value not understood: {show(v_)}")
                        continue
                    rs = [r for r in reqs_of(R, st) if r.err == en]
                    if rs:
                        r = rs[0]
                        if not all(holds(f, c) for c in r.viol):
                            add("violation", st, "rejected only when violated",
                                f"{en} returned although the requirement may hold")
                        else:
                            add("ok", st, "rejected only when violated", en)
                        for k, w in r.fields.items():
                            g = fields.get(k)
                            if isinstance(g, Lin) and f.ent_eq(g, w):
                                add("ok", st, "error dimensions", f"{en}.{k}")
                            else:
                                add("violation", st, "error dimensions", f"{en}.{k} is {show(g)}, must be {w!r}")
                    elif en in e.value_errs:
                        # an error about the values; other requirements may be violated as well
                        add("ok", st, "value error", en)
                    else:
                        add("violation", st, "error kind", f"{en} is not an error of this operation for its arguments")
                elif is_agg(v_, RESULT, 0) or not is_agg(v_, RESULT):
                    for r in reqs_of(R, st):
                        if any(possible(f, c) for c in r.viol):
                            add("violation", st, "requirement enforced",
                                f"succeeds although {r.err} must be reported")
                        else:
                            add("ok", st, "requirement enforced", r.err)
                    if not reqs_of(R, st):
                        add("ok", st, "never rejected", "")
                else:
                    add("undetermined", st, "result", f"not understood: {show(v_)}")
        if not out:
            out.append(Verdict("undetermined", "result", name, "no return state", name))
        return out

    return run


def orientations(f, e):
    """facts split by matrix orientation where the requirement depends on it"""
    if not getattr(e, "orient", None):
        return [f]
    a, b = map(sym, e.orient)
    return [g for g in (f.add_ge(a - b - 1), f.add_ge(b - a)) if g is not None]


spec(
    "C03",
    jobs=lambda t: entry_jobs(lambda e, t: True, c03, False, t),
    rule="on every return path: an argument error is returned only under facts that violate its requirement, with "
    "the true dimensions; a success or value error only under facts that satisfy every requirement",
    explain="abstract interpretation of every public operation on symbolic shapes; each return state carries the "
    "linear facts of its paths and is compared with the requirement table (square, rows >= columns, non-empty, "
    "matching right-hand-side rows)",
    assumptions=["constraints have full column rank (documented panic otherwise)"],
)


def c04(name, quick=True):
    def run(P, stats):
        R = Run(P, E[name], quick=quick).go()
        note_functions(R, stats)
        e = E[name]
        out = []

        def add(status, st, rule, what):
            if status == "violation" and st.taint:
                status = "undetermined"
                what += " [" + taint_text(st.taint) + "]"
            out.append(Verdict(status, rule, name, what, name, [f"return state: {facts_text(st.facts)}"]))

        for st, v in R.res:
            v = R.ex.val(st, v)
            if is_agg(v, RESULT, 1):
                continue
            v = v.f[0] if is_agg(v, RESULT, 0) else v
            for item in e.shapes(R, st, v):
                lab, x, want = item[:3]
                f = item[3] if len(item) > 3 else st.facts
                if isinstance(x, Seq):
                    got = (R.ex.models.node_len(R.ex, st, x.node),)
                elif isinstance(x, ArrV):
                    got = x.dims
                else:
                    got = None
                if want is None:
                    if x is None:
                        add("ok", st, "part absent when not requested", lab)
                    else:
                        add("violation", st, "part absent when not requested", f"{lab} is present")
                elif x is None:
                    add("violation", st, "part present when requested", f"{lab} is absent")
                elif got is None:
                    add("undetermined", st, "shape", f"{lab} not understood: {show(x)}")
                elif len(got) != len(want):
                    add("violation", st, "shape", f"{lab} has {len(got)} axes, must have {len(want)}")
                else:
                    for i, (g, w) in enumerate(zip(got, want)):
                        if f.ent_eq(g, w):
                            add("ok", st, "shape", lab)
                        else:
                            add("violation", st, "shape", f"{lab} axis {i} has length {generic_lin(g)}, must be {w!r}")
        return out

    return run


def generic_lin(g):
    return generic(repr(g))


spec(
    "C04",
    jobs=lambda t: entry_jobs(lambda e, t: e.shapes is not None, c04, False, t),
    rule="on every successful return path every part of the result has the documented dimensions, optional parts "
    "are present exactly when requested",
    explain="abstract interpretation of every public operation on symbolic shapes; the dimensions of the returned "
    "arrays are compared with the documented ones under the linear facts of each return state",
)


def c07(name, quick=True):
    def run(P, stats):
        R = Run(P, E[name], quick=quick).go()
        note_functions(R, stats)
        e = E[name]
        out = []
        for st, v in R.res:
            v = R.ex.val(st, v)
            if not is_agg(v, RESULT, 1):
                continue
            en, _ = R.err(v)
            for errs, inp in e.intact:
                if errs == "Ok" or (errs != "*" and errs != en):
                    continue
                a = R.inp.get(inp)
                if a is None:
                    continue
                what = f"{inp} on {en or 'error'}"
                if st.heap.get(a.obj) is R.seed[inp]:
                    out.append(Verdict("ok", "operand intact on error", name, what, name))
                else:
                    s = "undetermined" if st.taint else "violation"
                    out.append(Verdict(s, "operand intact on error", name,
                                       f"{inp} may have been modified when {en or 'an error'} is returned"
                                       + (" [" + taint_text(st.taint) + "]" if st.taint else ""), name,
                                       [f"return state: {facts_text(st.facts)}"]))
        return out

    return run


def inplace_errs(e, t):
    """operations that are given their operand to overwrite"""
    return "inplace" in e.name and any(x[0] != "Ok" for x in e.intact) or "rotate" in e.groups


spec(
    "C07",
    jobs=lambda t: entry_jobs(inplace_errs, c07, False, t),
    rule="on every path returning an error the caller's operand holds its initial contents",
    explain="abstract interpretation with array contents as terms over the initial contents; on each error return "
    "the content of the operand must be the initial term",
)
