"""C23: the memory layout of an argument never changes a result.

Operations of ndarray that go by logical index cannot see the layout, so a function whose callees
are all of that kind is settled by an effect analysis.  Where a body uses an operation that can see
it, the entry is interpreted with the layout of every argument left open: such an operation forks
on "row-major" and "one block of memory", and states of different layouts are compared."""
import re
import itertools
from types import SimpleNamespace
from .p_indep import *
from .p_effects import calls, fname
from .p_shape import loc, pathof, facts_text
from .interp import OBJ

NAMES = {
    "as_slice", "as_slice_mut", "to_slice", "into_slice", "as_slice_memory_order", "as_slice_memory_order_mut",
    "to_slice_memory_order", "into_slice_memory_order", "into_raw_vec", "into_raw_vec_and_offset", "as_ptr", "as_mut_ptr",
    "strides", "stride_of", "is_standard_layout", "into_shape", "into_shape_with_order", "into_shape_clone", "reshape",
    "raw_view", "raw_view_mut", "axes", "max_stride_axis", "merge_axes", "from_shape_vec_unchecked", "from_shape_ptr",
    "fold", "get_ptr", "get_mut_ptr", "as_raw_slice", "move_into_uninit", "into_scalar_order", "to_shape", "flatten", "into_flat",
}
RAW = re.compile(r"^(core|std)::(slice::(raw::)?from_raw_parts|ptr::|intrinsics::(copy|offset|arith_offset))")
DOCUMENTED = ("sort_eig",)  # the values-only sort documents that it needs a contiguous array


def is_sensitive(g):
    if g["krate"] == "ndarray" and g["name"] in NAMES and "iter" not in g["path"].split("::")[-2].lower():
        return not (g["name"] == "fold" and "ArrayBase" not in g["path"])
    return bool(RAW.search(g["path"])) and "write" not in g["name"] and "drop" not in g["name"]


def prescan(P):
    """(function, line, callee) of the calls that can see a layout; (function, line) of the documented one"""
    hits, ok = [], []
    for f in P.fns.values():
        for ln, g, t in calls(f):
            if g["krate"] != P.crate and is_sensitive(g):
                self_1d = (f.trait or "").endswith("EigSort") and f.key.split("::")[-1] in DOCUMENTED and P.ndim(f.selfty) == 1
                (ok if self_1d else hits).append((f, ln, g))
    return hits, ok


def c23_scan(P, stats):
    hits, ok = prescan(P)
    bad = {}
    n = 0
    for f, ln, g in hits:
        bad.setdefault(f.key, []).append((ln, g))
    out = []
    for f in P.fns.values():
        k = sum(1 for _ in calls(f))
        n += k
        stats.setdefault("functions", set()).add(fname(f))
        if f.key not in bad:
            out.append(Verdict("ok", "every array operation goes by logical index", fname(f), "", fname(f), n=max(k, 1)))
    stats["analysed_calls"] = stats.get("analysed_calls", 0) + n
    stats["layout_sensitive_calls"] = [f"{fname(f)}:{ln} {g['name']}" for f, ln, g in hits]
    stats["documented_calls"] = [f"{fname(f)}:{ln} {g['name']}" for f, ln, g in ok]
    return out


# ---------------------------------------------------------------- layouts at a point
CONSTRUCTED = {"zeros", "ones", "from_elem", "default", "uninit", "eye", "diag", "fn", "vec", "reshaped", "raw", "coll"}


def cstrides(d, order="C"):
    out, k = [], 1
    for x in (reversed(d) if order == "C" else d):
        out.append(k)
        k *= max(x, 1)
    return tuple(reversed(out)) if order == "C" else tuple(out)


def norm(d, s):
    return [(x, y) for x, y in zip(d, s) if x != 1]


def is_std(d, s):
    return 0 in d or norm(d, s) == norm(d, cstrides(d))


def is_contig(d, s):
    """one block of memory, each element once (any order of axes, any direction)"""
    if 0 in d:
        return True
    k = 1
    for y, x in sorted((abs(y), x) for x, y in zip(d, s) if x != 1):
        if y != k:
            return False
        k *= x
    return True


class LayPoint(UPoint):
    """a point at which every argument also has a layout: C rows, F columns (reversed), S strided"""

    def obj_strides(self, o):
        dims, info = OBJ[o]
        d = tuple(self.int(x) for x in dims)
        og = info["origin"]
        if og and og[0] == "input":
            m = self.arrays["#layout"].get(og[1], "C")
            if m == "C":
                return d, cstrides(d)
            if m == "F":
                return d, (-1,) if len(d) == 1 else cstrides(d, "F")
            return d, tuple(2 * x for x in cstrides(tuple(2 * x for x in d)))
        if og and og[0] in ("copy", "clone"):
            d2, s = self.view_strides(og[1])
            if og[0] == "clone":
                return d2, s
            return d2, s if is_contig(d2, s) else cstrides(d2)
        if info["name"] in CONSTRUCTED:
            return d, cstrides(d)
        if info["name"] == "reshapedF":
            return d, cstrides(d, "F")
        raise Unknown(f"layout of {info['name']}")

    def view_strides(self, v):
        _, s = self.obj_strides(v.obj)
        out = []
        for parts, _ in v.axes:
            k = 0
            for oa, off, st in parts:
                k += s[oa] * (st if isinstance(st, int) else self.int(st))
            out.append(k)
        return tuple(self.int(x) for x in v.dims), tuple(out)

    def iapp(self, fn, a):
        if fn.startswith("layout:stride:"):
            k, i = fn.rsplit(":", 1)
            return self.view_strides(self.ex.layout_lits[k][1])[1][int(i)]
        return super().iapp(fn, a)

    def b(self, t):
        if isinstance(t, N) and t.op == "bapp" and isinstance(t.a[0], str) and t.a[0].startswith("layout:"):
            kind, v = self.ex.layout_lits[t.a[0]]
            d, s = self.view_strides(v)
            if kind == "std":
                return is_std(d, s)
            if len(d) == 2 and is_contig(d, s) and not is_std(d, s) and norm(d, s) != norm(d, cstrides(d, "F")):
                raise Unknown("reversed block")
            return is_contig(d, s)
        return super().b(t)


def lay_lits(facts):
    return any(isinstance(x, N) and x.op == "bapp" and str(x.a[0]).startswith("layout:") for l in facts.lits for x in T.nodes_of(l))


def reaching(P, targets):
    """functions from which a target can be called (a closure counts as part of the function around it)"""
    up = {}
    for f in P.fns.values():
        outer = f.key.split("::{closure")[0]
        if outer != f.key:
            up.setdefault(f.key, set()).add(outer)
        for _, g, _ in calls(f):
            if g["krate"] != P.crate:
                continue
            ks = {k for k in (g["res"], g["key"]) if k in P.fns}
            if g["res"] not in P.fns and g["trait"]:
                ks |= {k for k, h in P.fns.items() if h.trait and h.trait.split("::")[-1] == g["trait"].split("::")[-1]
                       and k.split("::")[-1] == g["name"]}
            for k in ks:
                up.setdefault(k, set()).add(f.key)
    seen, todo = set(), list(targets)
    while todo:
        k = todo.pop()
        if k not in seen:
            seen.add(k)
            todo += up.get(k, ())
    return seen


class FirstCall(Exception):
    pass


def first_call(P, e):
    """the public function an entry calls first"""
    R = Run(P, e, jv=False)

    def call(st, key, args):
        raise FirstCall(key)
    R.call = call
    try:
        R.go()
    except FirstCall as x:
        return x.args[0]
    except Exception:
        pass
    return None


COMPOSITE = ("qr.", "bidiag.", "tridiag.", "Truncated")


def c23_entry(name):
    def run(P, stats):
        hits, _ = prescan(P)
        if not hits:
            return []
        if not name.startswith(COMPOSITE):
            k = first_call(P, E[name])
            if k is not None and k not in reaching(P, {f.key for f, _, _ in hits}):
                return []
        R = vrun(P, stats, name, layouts=True)
        seen = sorted({(e.site, e.msg) for e in R.ex.events if e.kind == "layout" and not any(
            k.split("::")[-1] in DOCUMENTED and "EigSort" in (P.fns[k].trait or "") and P.ndim(P.fns[k].selfty) == 1 for k, _ in e.stack if k in P.fns)})
        keys = {f.key for f, _, _ in hits} & {k for k, _ in R.ex.visited}
        if not seen and not keys:
            return [Verdict("ok", "every array operation goes by logical index", name, "", name)]
        where = [f"{loc(s)} {m}" for s, m in seen] or sorted(keys)
        arrs = [n for n in R.inp if R.inp[n] is not None]
        dims = sorted({s for n in arrs for d in OBJ[R.inp[n].obj][0] for s, _ in d.t})
        if not dims:
            return [Verdict("undetermined", "the layout of the arguments does not matter", name, "shape of the arguments", name, where)]
        maxd = 3 if len(dims) < 4 else 2
        panics = [e for e in R.ex.events if e.kind == "obl" and not e.data[1] and e.data[2] == () and not e.taint and e.data[0] != "uget"]
        PR = SimpleNamespace(res=[(SimpleNamespace(facts=e.facts, taint=e.taint, heap={}, frames={}, ev=e), e) for e in panics], ex=R.ex)

        def extract(R, s, p, v):
            d = flat(R, s, p, v)
            more = []
            for n in arrs:
                a = R.inp[n]
                if a.obj in s.heap and not a.owned:
                    more.append(flat(R, s, p, a))
            return ("agg", "", 0, [d] + more)
        modes = [dict(zip(arrs, c)) for c in itertools.product("CFS", repeat=len(arrs))]
        hit = und = 0
        out, bad = [], None
        for ints in all_dims(dims, maxd, 0):
            for sd in (1, 2, 3, 4, 5, 6):
                key = (sd, tuple(sorted(ints.items())))
                base = {n: (lambda ix, n=n: lay_value(sd, key, n, ix)) for n in arrs}
                base["#layout"] = modes[0]
                want = results(R, (sd,), ints, base, extract, LayPoint)
                pan0 = results(PR, (sd,), ints, base, lambda R, s, p, v: v, LayPoint)
                if want is None or pan0 is None:
                    und += 1
                    continue
                for m in modes[1:]:
                    x = dict(base)
                    x["#layout"] = m
                    pan = results(PR, (sd,), ints, x, lambda R, s, p, v: v, LayPoint)
                    if pan is None:
                        und += 1
                        continue
                    new = [e for e, s in pan if not pan0]
                    if new:
                        e = new[0]
                        bad = bad or (f"{e.msg} for other layouts than row-major", e.stack, ints, m, e.facts)
                        continue
                    got = results(R, (sd,), ints, x, extract, LayPoint)
                    if got is None:
                        und += 1
                        continue
                    if not got or not want:
                        continue
                    why = [same(a[0], b[0], 1e-7) for a in want for b in got]
                    if None in why:
                        hit += 1
                    else:
                        bad = bad or (f"the result depends on the layout: {why[0]}", (), ints, m, got[0][1].facts)
        if bad:
            msg, stack, ints, m, f = bad
            out.append(Verdict("violation", "the layout of the arguments does not matter", where[0], msg, name,
                               pathof(stack) + where + [f"dimensions {ints}, layouts {m} (C row-major, F column-major or reversed, S strided)",
                                                        f"under {facts_text(f)}"]))
        if und:
            out.append(Verdict("undetermined", "the layout of the arguments does not matter", where[0], f"{und} points without a closed form", name, where))
        if hit:
            out.append(Verdict("ok", "the layout of the arguments does not matter", name, "", name, n=hit))
        return out
    return run


def lay_value(sd, key, n, ix):
    if len(ix) == 2 and sd == 2:  # symmetric and dominated by the diagonal
        i, j = sorted(ix)
        return 4.0 + h01(key, n, i) if i == j else rnd(key, n, i, j) / 4
    if sd == 4 and len(ix) == 2:  # dominated by the diagonal
        return 4.0 + h01(key, n, ix[0]) if ix[0] == ix[1] else rnd(key, n, *ix) / 4
    if sd > 4 and len(ix) == 2 and (ix[1] - ix[0]) * (11 - 2 * sd) < 0:  # upper, lower triangular
        return 0.0
    if sd == 3:
        return small(key, n, *ix)
    return rnd(key, n, *ix)


spec(
    "C23",
    jobs=lambda t: [Job("crate", c23_scan)] + [Job(n, c23_entry(n), 1) for n in sorted(E)],
    rule="no operation that can see a memory layout is applied to an argument, except by the documented values-only sort; where one is, "
    "the states of different layouts neither panic nor differ",
    explain="effect analysis over the resolved callee of every call in every body (operations of ndarray that go by memory order, "
    "strides, raw parts or pointers); operations that use one are interpreted with the layout of every argument open: the operation forks "
    "on 'row-major' and 'one block of memory', the strides of every argument, copy and view are computed for row-major, "
    "column-major (or reversed) and strided arguments of every small shape, and the outcomes are compared",
    technique="effect analysis over resolved callees; abstract interpretation forking on memory layout, non-interference of the result terms",
    assumptions=["ndarray's logical-index operations do not depend on the layout of their operands (up to rounding)"] + UASSUME,
)
