"""dask integration: rasters whose chunks are symbolic arrays.

Graph construction runs unchanged (on the real, empty numpy metas).  Tasks are
executed one after the other by `sym_get`, with RT.active raised so that array
constructors inside the package produce symbolic arrays.
"""
import itertools

import dask
import dask.array as da
import dask.local
import numpy as np

from . import npfuncs as nf
from . import terms as tm
from .arr import Sym, SymArray, lift, is_sym
from .core import RT

_n = itertools.count()


def sym_get(dsk, keys, **kw):
    if not RT.frames:
        return dask.local.get_sync(dsk, keys, **kw)
    RT.active += 1
    nb, RT.numba = RT.numba, 0
    try:
        return dask.local.get_sync(dsk, keys)
    finally:
        RT.active -= 1
        RT.numba = nb


def install():
    dask.config.set(scheduler=sym_get)
    from dask.array.backends import np as _  # noqa: F401  (forces registration)
    from dask.array.dispatch import concatenate_lookup, tensordot_lookup
    from dask.sizeof import sizeof
    concatenate_lookup.register(SymArray, np.concatenate)
    sizeof.register(SymArray, lambda x: int(x.size * x.dtype.itemsize))
    from dask.dataframe.dask_expr.io import _delayed
    real = _delayed.check_meta

    def check_meta(x, meta, **kw):
        """Columns of terms count as columns of the terms' dtype."""
        y = x
        for c in getattr(x, "columns", ()):
            v = list(x[c]) if x[c].dtype == object else []
            dts = {t.dtype for t in v if isinstance(t, Sym)}
            if len(dts) == 1:
                y = y.assign(**{c: np.zeros(len(v), dts.pop())})
        real(y, meta, **kw)
        return x

    _delayed.check_meta = check_meta


def dask_from_blocks(blocks, dtype, chunks, name=None):
    """dask array from a dict chunk index -> SymArray."""
    name = name or "symsrc-%d" % next(_n)
    dsk = {(name,) + k: b for k, b in blocks.items()}
    return da.Array(dsk, name, chunks=chunks, dtype=dtype, meta=np.empty((0,) * len(chunks), dtype))


def split(arr, chunks):
    """SymArray -> dict of independent block copies."""
    chunks = da.core.normalize_chunks(chunks, arr.shape, dtype=arr.dtype)
    offs = [np.concatenate([[0], np.cumsum(c)]) for c in chunks]
    out = {}
    for idx in np.ndindex(*[len(c) for c in chunks]):
        sl = tuple(slice(int(offs[d][i]), int(offs[d][i + 1])) for d, i in enumerate(idx))
        out[idx] = SymArray(arr.a[sl].copy(), arr.dtype)
    return out, chunks


def to_dask(arr, chunks):
    blocks, chunks = split(arr, chunks)
    return dask_from_blocks(blocks, arr.dtype, chunks), blocks


def compute(x):
    """Compute a dask array to a SymArray (concrete results are lifted)."""
    r = x.compute(scheduler=sym_get) if hasattr(x, "compute") else x
    if isinstance(r, SymArray):
        return r
    if is_sym(r):
        return SymArray(lift(r), r.dtype)
    r = np.asarray(r)
    return SymArray(lift(r), r.dtype)
