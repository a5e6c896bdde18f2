"""Loads the dump of the type-checked program and computes CFG facts (loops, liveness)."""
import json


class Body:
    def __init__(self, prog, j, owner, promoted=False):
        self.prog = prog
        self.owner = owner
        self.nargs = j["nargs"]
        self.locals = j["locals"]
        self.names = {}
        for n, p in j["names"]:
            if not p[1]:
                self.names.setdefault(p[0], n)
        self.bbs = j["bbs"]
        self.spread = j["spread"]
        if not promoted:
            self._cfg()

    def succs(self, b):
        t = self.bbs[b]["t"]
        k = t["t"]
        if k in ("goto", "drop", "assert"):
            return [t["to"]]
        if k == "switch":
            r = [x[1] for x in t["v"]]
            r.append(t["else"])
            return list(dict.fromkeys(r))
        if k == "call":
            return [t["to"]] if t["to"] is not None else []
        return []

    def _cfg(self):
        n = len(self.bbs)
        seen = set()
        order = []
        stack = [(0, iter(self.succs(0)))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succs(b):
                preds[s].append(b)
        # dominators
        dom = {b: None for b in order}
        allb = set(order)
        dom[0] = {0}
        for b in order[1:]:
            dom[b] = set(allb)
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [dom[p] for p in preds[b]]
                nd = set.intersection(*ps) if ps else set()
                nd = nd | {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        self.loops = {}
        self.irreducible = False
        for b in order:
            for s in self.succs(b):
                if s in dom[b]:
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
                elif self.rpo[s] <= self.rpo[b]:
                    self.irreducible = True
        # RPO that keeps loop bodies contiguous is not required: routing handles leaves.
        # liveness
        use = {}
        dfn = {}
        taken = set()
        for b in order:
            u, d = set(), set()

            def rd(l):
                if l not in d:
                    u.add(l)

            def pl(p):
                rd(p[0])
                for e in p[1]:
                    if e[0] == "idx":
                        rd(e[1])

            def opr(o):
                if o["o"] in ("copy", "move"):
                    pl(o["p"])

            for ln, p, r in self.bbs[b]["s"]:
                k = r["r"]
                if k == "sd":
                    d.add(p[0])
                    continue
                if k in ("use", "cast", "un", "repeat"):
                    opr(r["o"])
                elif k == "bin":
                    opr(r["l"])
                    opr(r["x"])
                elif k in ("ref", "rawptr", "disc"):
                    pl(r["p"])
                    if k != "disc" and not any(e[0] == "deref" for e in r["p"][1]):
                        taken.add(r["p"][0])
                elif k == "agg":
                    for o in r["a"]:
                        opr(o)
                if p[1]:
                    pl(p)
                else:
                    d.add(p[0])
            t = self.bbs[b]["t"]
            if t["t"] == "call":
                opr(t["f"])
                for o in t["a"]:
                    opr(o)
                if t["d"][1]:
                    pl(t["d"])
                else:
                    d.add(t["d"][0])
            elif t["t"] in ("switch",):
                opr(t["o"])
            elif t["t"] == "assert":
                opr(t["c"])
                for o in t["ops"]:
                    opr(o)
            elif t["t"] == "return":
                rd(0)
            use[b], dfn[b] = u, d
        live = {b: set() for b in order}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                o = set()
                for s in self.succs(b):
                    o |= live[s]
                i = use[b] | (o - dfn[b])
                if i != live[b]:
                    live[b] = i
                    ch = True
        self.live = live
        self.taken = taken


class Fn:
    def __init__(self, prog, j):
        self.j = j
        self.key = j["key"]
        self.path = j["path"]
        self.name = j["name"]
        self.trait = j["trait"]
        self.in_trait = j["in_trait"]
        self.selfty = j["self"]
        self.kind = j["kind"]
        self.reachable = j["reachable"]
        self.file = j["file"]
        self.line = j["line"]
        self.generics = j["generics"]
        self._b = None
        self._p = {}
        self.prog = prog

    def callees(self):
        """keys of the crate functions called directly"""
        out = set()
        for bb in self.body.bbs:
            t = bb and bb["t"]
            if t and t["t"] == "call" and t["f"].get("o") == "const" and t["f"]["k"].get("c") == "fn":
                f = t["f"]["k"]["fn"]
                for k in (f.get("res"), f["key"]):
                    if k in self.prog.fns:
                        out.add(k)
                        break
        return out

    @property
    def body(self):
        if self._b is None:
            self._b = Body(self.prog, self.j["body"], self)
        return self._b

    def promoted(self, i):
        if i not in self._p:
            self._p[i] = Body(self.prog, self.j["promoted"][i], self)
        return self._p[i]


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d["crate"]
        self.types = d["types"]
        self.fns = {f["key"]: Fn(self, f) for f in d["fns"]}
        self.statics = d["statics"]
        self.impls = d["impls"]
        self.adts = {a["p"]: a for a in d["adts"]}
        self.by_trait = {}
        for im in self.impls:
            for n, k in im["items"]:
                self.by_trait.setdefault((im["trait"], n), []).append((im["self"], k))
        self.defaults = {}
        for f in self.fns.values():
            if f.in_trait and f.kind == "AssocFn" and f.name:
                self.defaults[(f.trait, f.name)] = f.key

    def ty(self, i):
        return self.types[i]

    def tystr(self, i, dep=0):
        t = self.types[i]
        k = t["k"]
        if dep > 6:
            return ".."
        if k == "adt":
            return t["p"].split("::")[-1] + (
                "<" + ",".join(self.tystr(x, dep + 1) for x in t["a"]) + ">" if t["a"] else ""
            )
        if k in ("ref", "ptr"):
            return ("&mut " if t["m"] else "&") + self.tystr(t["t"], dep + 1)
        if k == "tuple":
            return "(" + ",".join(self.tystr(x, dep + 1) for x in t["a"]) + ")"
        if k == "array":
            return "[%s;%s]" % (self.tystr(t["t"], dep + 1), t["n"])
        if k == "slice":
            return "[%s]" % self.tystr(t["t"], dep + 1)
        if k in ("closure", "fndef"):
            return k + ":" + t["p"]
        return t.get("n", "?")

    def strip_ref(self, i):
        t = self.types[i]
        while t["k"] in ("ref", "ptr"):
            i = t["t"]
            t = self.types[i]
        return i

    def ndim(self, i):
        """number of dimensions of an ArrayBase type (None if generic / not an array)"""
        t = self.types[self.strip_ref(i)]
        if t["k"] != "adt" or not t["p"].endswith("::ArrayBase"):
            return None
        for a in t["a"][1:]:
            d = self.types[a]
            if d["k"] == "adt" and d["p"].endswith("::Dim"):
                x = self.types[d["a"][0]]
                if x["k"] == "array":
                    return x["n"]
        return None

    def is_array(self, i):
        t = self.types[self.strip_ref(i)]
        return t["k"] == "adt" and t["p"].endswith("::ArrayBase")

    def find(self, trait_suffix, name, selfpred=None):
        """impl functions of a crate trait by trait name"""
        out = []
        for (tr, n), l in self.by_trait.items():
            if n == name and tr.split("::")[-1] == trait_suffix:
                for s, k in l:
                    if selfpred is None or selfpred(self.types[s], s):
                        out.append(k)
        if not out:
            for (tr, n), k in self.defaults.items():
                if n == name and tr.split("::")[-1] == trait_suffix:
                    out.append(k)
        return out

    def find_method(self, adt_suffix, name):
        out = []
        for f in self.fns.values():
            if f.name == name and f.kind == "AssocFn" and f.trait is None and f.selfty is not None:
                t = self.types[f.selfty]
                if t["k"] == "adt" and t["p"].split("::")[-1] == adt_suffix:
                    out.append(f.key)
        return out

    def find_fn(self, path):
        return [f.key for f in self.fns.values() if f.path == path and f.kind == "Fn"]
