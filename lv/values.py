from dataclasses import dataclass
from typing import Any
from .lin import Lin, L, ZERO, ONE
from .term import N, mk


@dataclass(frozen=True)
class Agg:
    kind: str  # adt tuple array closure slice
    key: Any
    variant: int
    f: tuple

    def __repr__(self):
        k = (self.key or "").split("::")[-1] if self.kind != "closure" else "closure"
        return f"{k}{'v%d' % self.variant if self.variant else ''}({', '.join(map(repr, self.f))})"


@dataclass(frozen=True)
class Ref:
    fid: int
    local: int
    proj: tuple


@dataclass(frozen=True)
class ERef:
    arr: Any
    idx: tuple


@dataclass(frozen=True)
class VRef:
    v: Any


@dataclass(frozen=True)
class ArrV:
    obj: str
    axes: tuple  # ((parts, len)...)
    fixed: tuple
    nd: int
    owned: bool = False

    @property
    def dims(self):
        return tuple(a[1] for a in self.axes)

    def index(self, idx):
        out = [None] * self.nd
        from .term import mul_step
        for (parts, ln), i in zip(self.axes, idx):
            for oa, off, st in parts:
                out[oa] = off + mul_step(st, i)
        for oa, i in self.fixed:
            out[oa] = i
        return tuple(out)

    def __repr__(self):
        return f"Arr<{self.obj}:{','.join(repr(a[1]) for a in self.axes)}>"


@dataclass(frozen=True)
class Seq:
    node: tuple  # iterator node giving the elements

    def __repr__(self):
        return f"Seq{self.node[0]}"


@dataclass(frozen=True)
class It:
    node: tuple
    pos: Any


@dataclass(frozen=True)
class SliceV:
    arr: Any


class FnV:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __eq__(self, o):
        return isinstance(o, FnV) and self.f["key"] == o.f["key"] and self.f["res"] == o.f["res"]

    def __hash__(self):
        return hash(self.f["key"])

    def __repr__(self):
        return f"fn {self.f['key']}"


@dataclass(frozen=True)
class OpqFn:
    name: str


@dataclass(frozen=True)
class Opq:
    why: str
    ty: Any = None


UNIT = Agg("tuple", None, 0, ())
BOOL_OPS = {"cge", "ceq", "flt", "fle", "feq", "bnot", "band", "bor", "bsym", "bapp", "bopq", "alt"}


def is_bool(v):
    return isinstance(v, bool) or (isinstance(v, N) and v.op in BOOL_OPS)


def is_float(v):
    return isinstance(v, N) and v.op not in BOOL_OPS


def bnot(c):
    if isinstance(c, bool):
        return not c
    if c.op == "bnot":
        return c.a[0]
    return mk("bnot", c)


def cge(l):
    if l.is_const():
        return l.c >= 0
    return mk("cge", l)


def ceq(l):
    if l.is_const():
        return l.c == 0
    return mk("ceq", l)


OPTION = "core::option::Option"
RESULT = "core::result::Result"


def some(v):
    return Agg("adt", OPTION, 1, (v,))


NONE = Agg("adt", OPTION, 0, ())


def ok(v):
    return Agg("adt", RESULT, 0, (v,))


def err(v):
    return Agg("adt", RESULT, 1, (v,))


def tup(*a):
    return Agg("tuple", None, 0, tuple(a))


def is_agg(v, key, variant=None):
    return isinstance(v, Agg) and v.key == key and (variant is None or v.variant == variant)
