"""Drives the abstract interpreter over the public operations with symbolic arguments."""
import sys, os
from .lin import Lin, L, Facts, fresh, declare, ZERO, ONE
from . import term as T, models
from .term import N, mk
from .values import *
from .interp import Interp, State, OBJ
from .mir import Program


def new(prog, release=False):
    ex = Interp(prog, models, release)
    return ex, State()


def base_arr(ex, st, name, dims, owned=True):
    a = ex.new_arr(st, dims, mk("base", name, len(dims)), name, ("input", name))
    if not owned:
        a = ArrV(a.obj, a.axes, a.fixed, a.nd, False)
    return a


def mat(ex, st, name="A", owned=True, r=None, c=None):
    r = L(declare(r or f"{name}r"))
    c = L(declare(c or f"{name}c"))
    return base_arr(ex, st, name, (r, c), owned)


def vec(ex, st, name="b", owned=True, n=None):
    return base_arr(ex, st, name, (L(declare(n or f"{name}n")),), owned)


def one(keys, what):
    if len(keys) != 1:
        raise LookupError(f"{what}: {keys}")
    return keys[0]


def boxed(ex, st, v):
    """put a value in a driver frame, return reference"""
    ex.fid += 1
    st.frames[ex.fid] = {0: v}
    return Ref(ex.fid, 0, ())


def obls(ex):
    """aggregate obligations: (site, kind, msg) -> [n ok, n bad, first bad event]"""
    d = {}
    for e in ex.events:
        if e.kind != "obl":
            continue
        k = (e.site, e.data[0], e.msg)
        x = d.setdefault(k, [0, 0, None])
        if e.data[1]:
            x[0] += 1
        else:
            x[1] += 1
            if x[2] is None:
                x[2] = e
    return d
