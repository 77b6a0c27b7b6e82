"""Helpers shared by the checks (specification side only)."""
import itertools

import numpy as np

from symx import harness as H
from symx import spec as sp
from symx import terms as tm
from symx.arr import Sym, SymArray, apply_ufunc, lift, wrap_scalar
from symx.harness import Case, array, raster, scalar
from symx.spec import And, Iff, Implies, Ite, Not, Or, T_

NAN = float("nan")

DEFAULT_NULL = {
    "bool": True, "uint8": 255, "uint16": 65535, "uint32": 4294967295, "uint64": 18446744073709549568,
    "int8": -128, "int16": -32768, "int32": -2147483648, "int64": -9223372036854775808,
    "float16": -65504.0, "float32": -999999.0, "float64": -999999.0,
}


def default_null(dt):
    return np.dtype(dt).type(DEFAULT_NULL[np.dtype(dt).name])


def uf(f, *args, dtype=None):
    """numpy ufunc on terms with numpy's typing; returns term(s)"""
    r = apply_ufunc(f, *[wrap_scalar(T_(a)) if isinstance(a, tm.T) else a for a in args])
    if isinstance(r, tuple):
        return tuple(T_(x) for x in r)
    return T_(r)


def lab(*idx):
    return "[" + ",".join(map(str, idx)) + "]"


def raster_claims(S, o, name, mask, value, dtype=None, nv="default", shape=None, check_null=True):
    """Claims that raster output `o` has the given mask / values per cell.

    mask(i), value(i): term per cell index; value only matters where not masked.
    """
    if dtype is not None:
        yield name + " dtype", o.dtype == np.dtype(dtype) and o.data.dtype == np.dtype(dtype) and o.ddtype == np.dtype(dtype)
    yield name + " mask-dtype", o.mask.dtype == np.dtype(bool)
    if shape is not None:
        yield name + " shape", tuple(o.shape) == tuple(shape) == tuple(o.data.shape) == tuple(o.mask.shape)
        if tuple(o.data.shape) != tuple(shape) or tuple(o.mask.shape) != tuple(shape):
            return
    if isinstance(nv, str):
        nvv = default_null(o.dtype) if nv == "default" else o.nv
    else:
        nvv = nv
    if nv != "any":
        yield name + " null", (o.nv is None and nvv is None) or (
            o.nv is not None and nvv is not None and (o.nv == nvv or (o.nv != o.nv and nvv != nvv)))
    for i in np.ndindex(o.data.shape):
        m = mask(i)
        yield name + " mask" + lab(*i), Iff(o.mask.a[i], m)
        yield name + " value" + lab(*i), Implies(Not(m), S.same(o.data.a[i], value(i)))
        if check_null and o.nv is not None:
            yield name + " null-cell" + lab(*i), Implies(m, sp.exact(o.data.a[i], tm.const(np.asarray(o.nv).astype(o.data.dtype)[()], o.data.dtype)))


def geo_claims(o, x, y, name="grid"):
    yield name + " x", bool(np.array_equal(np.asarray(o.x), np.asarray(x)))
    yield name + " y", bool(np.array_equal(np.asarray(o.y), np.asarray(y)))


def splits(n, k=None):
    """all compositions of n (chunk sizes)"""
    if n == 0:
        yield ()
        return
    for f in range(1, n + 1):
        for r in splits(n - f):
            yield (f,) + r


def layouts(h, w, limit=None):
    out = list(itertools.product(splits(h), splits(w)))
    return out[:limit] if limit else out
