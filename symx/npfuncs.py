"""numpy functions on symbolic arrays (array-function protocol)."""
import itertools

import numpy as np

from . import terms as tm
from .arr import (HANDLED, STRUCTURAL, Masked, Sym, SymArray, _array_ufunc, _each,
                  apply_ufunc, cast_obj, concrete, dtype_of, implements, is_sym,
                  lift, stack_nested, t_isfinite, t_isinf, t_max, t_min,
                  t_nonzero, wrap_scalar)
from .core import RT, Unsupported
from .terms import BOOL

for _n in """concatenate stack hstack vstack dstack column_stack reshape ravel
    transpose swapaxes moveaxis rollaxis squeeze expand_dims broadcast_to
    broadcast_arrays flip fliplr flipud roll rot90 tile repeat take take_along_axis
    split array_split hsplit vsplit dsplit atleast_1d atleast_2d atleast_3d block
    diagonal diag delete resize copy tril triu unstack""".split():
    if hasattr(np, _n):
        STRUCTURAL.add(getattr(np, _n))
STRUCTURAL.add(np.lib.stride_tricks.sliding_window_view)
I64 = np.dtype(np.int64)


def A(x):
    """Symbolic array view of any operand."""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, Masked):
        return x.compress()
    if isinstance(x, (list, tuple)):
        return stack_nested(x)
    return SymArray(lift(x), dtype_of(x))


def _out(r, out):
    if out is not None:
        out[...] = r
        return out
    return r


# -- creation / copying -----------------------------------------------------


@implements(np.empty_like)
def _empty_like(a, dtype=None, order="K", subok=True, shape=None, **k):
    return empty(a.shape if shape is None else shape, dtype or dtype_of(a))


@implements(np.zeros_like)
def _zeros_like(a, dtype=None, order="K", subok=True, shape=None, **k):
    return full(a.shape if shape is None else shape, 0, dtype or dtype_of(a))


@implements(np.ones_like)
def _ones_like(a, dtype=None, order="K", subok=True, shape=None, **k):
    return full(a.shape if shape is None else shape, 1, dtype or dtype_of(a))


@implements(np.full_like)
def _full_like(a, fill_value, dtype=None, order="K", subok=True, shape=None, **k):
    return full(a.shape if shape is None else shape, fill_value, dtype or dtype_of(a))


def _shape(shape):
    if isinstance(shape, (int, np.integer, Sym)):
        return (int(shape),)
    return tuple(int(s) for s in shape)


def empty(shape, dtype=float):
    """Uninitialised memory: every cell is a fresh unconstrained variable."""
    shape = _shape(shape)
    dtype = np.dtype(dtype)
    out = np.empty(shape, dtype=object)
    if out.ndim == 0:
        out[()] = RT.fresh_var("uninit", dtype)
    else:
        for i in np.ndindex(shape):
            out[i] = RT.fresh_var("uninit", dtype)
    return SymArray(out, dtype)


def full(shape, v, dtype=None):
    shape = _shape(shape)
    if dtype is None:
        dtype = dtype_of(v)
    dtype = np.dtype(dtype)
    if is_sym(v):
        o = lift(v, dtype)
    else:
        o = lift(np.asarray(v), None)
        o = cast_obj(o, dtype)
    out = np.empty(shape, dtype=object)
    out[...] = np.broadcast_to(o, shape) if o.ndim else o[()]
    return SymArray(out, dtype)


@implements(np.copyto)
def _copyto(dst, src, casting="same_kind", where=True):
    if not isinstance(dst, SymArray):
        c = concrete(src) if is_sym(src) else src
        w = concrete(where) if is_sym(where) else where
        if c is None or w is None:
            raise Unsupported("copyto into a concrete array")
        np.copyto(dst, c, casting=casting, where=w)
        return
    if where is True:
        dst[...] = src
    else:
        dst[...] = _where(where, src, dst)


@implements(np.putmask)
def _putmask(a, mask, values):
    a[...] = _where(mask, values, a)


@implements(np.place)
def _place(a, mask, values):
    a[...] = _where(mask, values, a)


@implements(np.append)
def _append(a, values, axis=None):
    if axis is None:
        a, values, axis = A(a).ravel(), A(values).ravel(), 0
    return np.concatenate([a, values], axis=axis)


@implements(np.ix_)
def _ix(*a):
    raise Unsupported("ix_")


@implements(np.pad)
def _pad(array, pad_width, mode="constant", **kw):
    a = A(array)
    if mode == "constant":
        cv = kw.get("constant_values", 0)
        if is_sym(cv):
            cvt = A(cv).a.reshape(-1)[0]
            cvt = tm.mk_cast(cvt, a.dtype)
        elif np.ndim(cv) == 0:
            cvt = tm.const(np.asarray(cv), a.dtype)
        else:
            c = np.unique(np.asarray(cv))
            if c.size != 1:
                raise Unsupported("pad with several constants")
            cvt = tm.const(c[0], a.dtype)
        pw = np.broadcast_to(np.asarray(pad_width), (a.ndim, 2)) \
            if np.ndim(pad_width) != 1 or len(pad_width) == 2 or len(pad_width) == 1 \
            else np.asarray(pad_width)
        shape = tuple(int(n + b + e) for n, (b, e) in zip(a.shape, pw))
        out = np.empty(shape, dtype=object)
        out[...] = cvt
        out[tuple(slice(int(b), int(b) + n) for n, (b, e) in zip(a.shape, pw))] = a.a
        return SymArray(out, a.dtype)
    idx = np.arange(a.size).reshape(a.shape)
    p = np.pad(idx, pad_width, mode=mode, **kw) if mode in (
        "edge", "reflect", "symmetric", "wrap") else None
    if p is None:
        raise Unsupported("pad mode %s" % mode)
    return SymArray(a.a.reshape(-1)[p], a.dtype)


# -- selection --------------------------------------------------------------


@implements(np.where)
def _where(c, x=None, y=None):
    if x is None:
        return _nonzero(c)
    if isinstance(x, (list, tuple)):
        x = A(x)
    if isinstance(y, (list, tuple)):
        y = A(y)
    weak = {int: int, float: float, bool: BOOL}
    kx = type(x) if type(x) in (int, float) else dtype_of(x)
    ky = type(y) if type(y) in (int, float) else dtype_of(y)
    if isinstance(kx, type) and isinstance(ky, type):
        dt = np.result_type(np.dtype(kx), np.dtype(ky))
    elif isinstance(kx, type) or isinstance(ky, type):
        # python scalars are weak
        sx = x if isinstance(kx, type) else np.empty(0, kx)
        sy = y if isinstance(ky, type) else np.empty(0, ky)
        dt = np.where(np.zeros(0, bool), sx, sy).dtype
    else:
        dt = np.result_type(kx, ky)
    co = A(c)
    ct = _each(t_nonzero, co.a)
    bc, bx, by = np.broadcast_arrays(ct, lift(x, dt), lift(y, dt))
    out = np.empty(bc.shape, dtype=object)
    if out.ndim == 0:
        return SymArray(_fill0(tm.mk_ite(bc[()], bx[()], by[()])), dt)
    for i in np.ndindex(bc.shape):
        out[i] = tm.mk_ite(bc[i], bx[i], by[i])
    return SymArray(out, dt)


def _fill0(t):
    o = np.empty((), dtype=object)
    o[()] = t
    return o


@implements(np.select)
def _select(condlist, choicelist, default=0):
    r = default
    dts = [dtype_of(c) for c in choicelist] + [dtype_of(default) if is_sym(default) or isinstance(default, np.generic) else None]
    dt = np.result_type(*[d for d in dts if d is not None], *( [] if dts[-1] is not None else [default]))
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = _where(c, v, r)
    return A(r).astype(dt)


@implements(np.choose)
def _choose(a, choices, out=None, mode="raise"):
    a = A(a)
    r = choices[-1]
    for i in range(len(choices) - 2, -1, -1):
        r = _where(a == i, choices[i], r)
    return r


@implements(np.clip)
def _clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = a
    if lo is not None:
        r = apply_ufunc(np.maximum, r, lo)
    if hi is not None:
        r = apply_ufunc(np.minimum, r, hi)
    return _out(r, out)


@implements(np.nonzero)
def _nonzero(a):
    a = A(a)
    m = np.array([RT.decide(t_nonzero(t)) for t in a.a.reshape(-1)], dtype=bool)
    return np.nonzero(m.reshape(a.shape))


@implements(np.argwhere)
def _argwhere(a):
    return np.transpose(_nonzero(a))


@implements(np.flatnonzero)
def _flatnonzero(a):
    return _nonzero(A(a).ravel())[0]


@implements(np.count_nonzero)
def _count_nonzero(a, axis=None, keepdims=False):
    return _sum(A(a).astype(bool), axis=axis, keepdims=keepdims, dtype=np.int64)


@implements(np.extract)
def _extract(cond, arr):
    return A(arr).ravel()[A(cond).ravel()]


@implements(np.compress)
def _compress(cond, a, axis=None, out=None):
    c = np.array([RT.decide(t_nonzero(t)) for t in A(cond).a.reshape(-1)], dtype=bool)
    if axis is None:
        return A(a).ravel()[c]
    return np.take(A(a), np.nonzero(c)[0], axis=axis)


@implements(np.isin)
def _isin(element, test_elements, assume_unique=False, invert=False, **k):
    e = A(element)
    ts = A(list(test_elements) if isinstance(test_elements, (set, frozenset)) else test_elements).ravel()
    r = full(e.shape, False, bool)
    for v in ts:
        r = apply_ufunc(np.logical_or, r, apply_ufunc(np.equal, e, v))
    return ~r if invert else r


# -- reductions --------------------------------------------------------------


def _axes(a, axis):
    if axis is None:
        return tuple(range(a.ndim))
    if isinstance(axis, (int, np.integer)):
        axis = (axis,)
    return tuple(int(x) % a.ndim if a.ndim else 0 for x in axis)


def _reduce(a, axis, keepdims, fn, dt):
    """fn(list of terms) -> term, applied along axis."""
    a = A(a)
    if a.ndim == 0:
        return wrap_scalar(fn([a.a[()]]))
    axes = _axes(a, axis)
    rest = tuple(i for i in range(a.ndim) if i not in axes)
    o = a.a.transpose(rest + axes)
    rshape = tuple(a.shape[i] for i in rest)
    n = 1
    for i in axes:
        n *= a.shape[i]
    o = o.reshape(rshape + (n,))
    out = np.empty(rshape, dtype=object)
    if not rest:
        t = fn(list(o.reshape(-1)))
        if keepdims:
            out = np.empty((1,) * a.ndim, dtype=object)
            out[...] = t
            return SymArray(out, dt)
        return wrap_scalar(t)
    for i in np.ndindex(rshape):
        out[i] = fn(list(o[i]))
    if keepdims:
        out = out.reshape(tuple(1 if i in axes else a.shape[i] for i in range(a.ndim)))
    return SymArray(out, dt)


def _sumtype(dt):
    if RT.numba and dt.kind == "u":
        return np.dtype(np.uint64)
    return np.sum(np.zeros(1, dt)).dtype


def t_sum(ts, dt, init=None):
    r = init
    for t in ts:
        t = tm.mk_cast(t, dt)
        r = t if r is None else tm.mk_op("add", dt, r, t)
    return tm.const(0, dt) if r is None else r


@implements(np.sum)
def _sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True, **k):
    a = A(a)
    if where is not True:
        a = A(_where(where, a, tm_zero(a.dtype)))
    dt = np.dtype(dtype) if dtype is not None else _sumtype(a.dtype)
    r = _reduce(a, axis, keepdims is True, lambda ts: t_sum(ts, dt), dt)
    return _out(r, out)


def tm_zero(dt):
    return np.zeros((), dt)[()]


@implements(np.prod)
def _prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = A(a)
    dt = np.dtype(dtype) if dtype is not None else _sumtype(a.dtype)

    def f(ts):
        r = tm.const(1, dt)
        for t in ts:
            r = tm.mk_op("mul", dt, r, tm.mk_cast(t, dt))
        return r

    return _out(_reduce(a, axis, keepdims is True, f, dt), out)


def _minmax(pick, nan):
    def f(a, axis=None, out=None, keepdims=False, initial=None, where=True, **k):
        a = A(a)
        if a.size == 0:
            raise ValueError("zero-size array to reduction operation which has no identity")

        def g(ts):
            r = ts[0]
            for t in ts[1:]:
                r = pick(r, t, not nan)
            return r

        return _out(_reduce(a, axis, keepdims is True, g, a.dtype), out)

    return f


HANDLED[np.max] = HANDLED[np.amax] = _minmax(t_max, False)
HANDLED[np.min] = HANDLED[np.amin] = _minmax(t_min, False)
HANDLED[np.nanmax] = _minmax(t_max, True)
HANDLED[np.nanmin] = _minmax(t_min, True)


@implements(np.ptp)
def _ptp(a, axis=None, **k):
    return HANDLED[np.max](a, axis) - HANDLED[np.min](a, axis)


def _boolred(comb, neutral):
    def f(a, axis=None, out=None, keepdims=False, where=True, **k):
        a = A(a)
        if where is not True:
            a = A(_where(where, a.astype(bool), neutral))
        r = _reduce(a, axis, keepdims is True,
                    lambda ts: comb(*[t_nonzero(t) for t in ts]), BOOL)
        return _out(r, out)

    return f


HANDLED[np.all] = _boolred(tm.mk_and, True)
HANDLED[np.any] = _boolred(tm.mk_or, False)


def _meantype(dt):
    return np.mean(np.zeros(1, dt)).dtype


@implements(np.mean)
def _mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = A(a)
    dt = np.dtype(dtype) if dtype is not None else _meantype(a.dtype)

    def f(ts):
        return tm.mk_op("div", dt, t_sum(ts, dt), tm.const(len(ts), dt))

    return _out(_reduce(a, axis, keepdims is True, f, dt), out)


def _count(ts, dt):
    c = tm.const(0, I64)
    for t in ts:
        n = tm.mk_isnan(t)
        c = tm.mk_op("add", I64, c, tm.mk_ite(n, tm.const(0, I64), tm.const(1, I64)))
    return c


def t_count(ts):
    return _count(ts, None)


def _nz(ts, dt):
    z = tm.const(0, dt)
    return [tm.mk_ite(tm.mk_isnan(t), z, tm.mk_cast(t, dt)) for t in ts]


def t_nanmean(ts, dt):
    cnt = tm.mk_cast(t_count(ts), dt)
    return _div_count(t_sum(_nz(ts, dt), dt), ts, dt)


def _div_count(total, ts, dt):
    """total / #non-NaN as a case split over the (small) count."""
    nn = [tm.mk_isnan(t) for t in ts]
    if all(n is tm.FALSE for n in nn):
        return tm.mk_op("div", dt, total, tm.const(len(ts), dt))
    cnt = t_count(ts)
    r = tm.const(np.nan, dt)
    for k in range(1, len(ts) + 1):
        c = tm.mk_eq(cnt, tm.const(k, I64))
        r = tm.mk_ite(c, tm.mk_op("div", dt, total, tm.const(k, dt)), r)
    return r


def t_nanvar(ts, dt, ddof=0):
    mean = t_nanmean(ts, dt)
    sq = []
    z = tm.const(0, dt)
    for t in ts:
        d = tm.mk_op("sub", dt, tm.mk_cast(t, dt), mean)
        sq.append(tm.mk_ite(tm.mk_isnan(t), z, tm.mk_op("mul", dt, d, d)))
    return _div_count(t_sum(sq, dt), ts, dt)


@implements(np.nansum)
def _nansum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = A(a)
    dt = np.dtype(dtype) if dtype is not None else _sumtype(a.dtype)
    return _out(_reduce(a, axis, keepdims is True,
                        lambda ts: t_sum(_nz(ts, dt), dt), dt), out)


@implements(np.nanprod)
def _nanprod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = A(a)
    return _prod(_where(apply_ufunc(np.isnan, a) if a.dtype.kind == "f" else full(a.shape, False, bool),
                        np.ones((), a.dtype)[()], a), axis, dtype, out, keepdims)


@implements(np.nanmean)
def _nanmean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = A(a)
    dt = np.dtype(dtype) if dtype is not None else _meantype(a.dtype)
    return _out(_reduce(a, axis, keepdims is True, lambda ts: t_nanmean(ts, dt), dt), out)


def _check_ddof(ddof):
    if ddof:
        raise Unsupported("ddof")


@implements(np.var)
def _var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = A(a)
    _check_ddof(ddof)
    dt = np.dtype(dtype) if dtype is not None else _meantype(a.dtype)

    def f(ts):
        ts = [tm.mk_cast(t, dt) for t in ts]
        n = tm.const(len(ts), dt)
        m = tm.mk_op("div", dt, t_sum(ts, dt), n)
        ds = [tm.mk_op("sub", dt, t, m) for t in ts]
        return tm.mk_op("div", dt, t_sum([tm.mk_op("mul", dt, d, d) for d in ds], dt), n)

    return _out(_reduce(a, axis, keepdims is True, f, dt), out)


@implements(np.std)
def _std(a, *args, **k):
    return apply_ufunc(np.sqrt, _var(a, *args, **k))


@implements(np.nanvar)
def _nanvar(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = A(a)
    _check_ddof(ddof)
    dt = np.dtype(dtype) if dtype is not None else _meantype(a.dtype)
    return _out(_reduce(a, axis, keepdims is True, lambda ts: t_nanvar(ts, dt), dt), out)


@implements(np.nanstd)
def _nanstd(a, *args, **k):
    return apply_ufunc(np.sqrt, _nanvar(a, *args, **k))


def _lt_nanlast(a, b):
    """a sorts strictly after b (NaN last)."""
    return tm.mk_or(tm.mk_cmp("lt", b, a),
                    tm.mk_and(tm.mk_isnan(a), tm.mk_not(tm.mk_isnan(b))))


def t_sorted(ts):
    ts = list(ts)
    n = len(ts)
    # odd-even transposition network
    for r in range(n):
        for i in range(r % 2, n - 1, 2):
            a, b = ts[i], ts[i + 1]
            sw = _lt_nanlast(a, b)
            ts[i], ts[i + 1] = tm.mk_ite(sw, b, a), tm.mk_ite(sw, a, b)
    return ts


@implements(np.sort)
def _sort(a, axis=-1, kind=None, order=None, **k):
    a = A(a)
    if axis is None:
        a, axis = a.ravel(), 0
    axis = axis % a.ndim
    o = np.moveaxis(a.a, axis, -1)
    out = np.empty(o.shape, dtype=object)
    for i in np.ndindex(o.shape[:-1]):
        s = t_sorted(o[i])
        for j, t in enumerate(s):
            out[i + (j,)] = t
    return SymArray(np.moveaxis(out, -1, axis), a.dtype)


@implements(np.argsort)
def _argsort(a, axis=-1, kind=None, order=None, **k):
    a = A(a)
    if axis is None:
        a, axis = a.ravel(), 0
    axis = axis % a.ndim
    o = np.moveaxis(a.a, axis, -1)
    out = np.empty(o.shape, dtype=object)
    for i in np.ndindex(o.shape[:-1]):
        ts = list(o[i])
        ix = [tm.const(j, I64) for j in range(len(ts))]
        n = len(ts)
        for r in range(n):
            for j in range(r % 2, n - 1, 2):
                sw = _lt_nanlast(ts[j], ts[j + 1])
                ts[j], ts[j + 1] = tm.mk_ite(sw, ts[j + 1], ts[j]), tm.mk_ite(sw, ts[j], ts[j + 1])
                ix[j], ix[j + 1] = tm.mk_ite(sw, ix[j + 1], ix[j]), tm.mk_ite(sw, ix[j], ix[j + 1])
        for j in range(n):
            out[i + (j,)] = ix[j]
    return SymArray(np.moveaxis(out, -1, axis), I64)


def t_nanmedian(ts, dt):
    s = t_sorted(ts)
    cnt = t_count(ts)
    r = tm.const(np.nan, dt)
    for k in range(1, len(ts) + 1):
        if k % 2:
            m = tm.mk_cast(s[k // 2], dt)
        else:
            m = tm.mk_op("div", dt, tm.mk_op("add", dt, tm.mk_cast(s[k // 2 - 1], dt),
                                             tm.mk_cast(s[k // 2], dt)), tm.const(2, dt))
        r = tm.mk_ite(tm.mk_eq(cnt, tm.const(k, I64)), m, r)
    return r


@implements(np.nanmedian)
def _nanmedian(a, axis=None, out=None, overwrite_input=False, keepdims=False, **k):
    a = A(a)
    dt = _meantype(a.dtype)
    return _reduce(a, axis, keepdims is True, lambda ts: t_nanmedian(ts, dt), dt)


@implements(np.median)
def _median(a, axis=None, out=None, overwrite_input=False, keepdims=False, **k):
    a = A(a)
    dt = _meantype(a.dtype)

    def f(ts):
        anynan = tm.mk_or(*[tm.mk_isnan(t) for t in ts])
        return tm.mk_ite(anynan, tm.const(np.nan, dt) if dt.kind == "f" else tm.const(0, dt),
                         t_nanmedian(ts, dt))

    return _reduce(a, axis, keepdims is True, f, dt)


def _argred(gt, nanok):
    """First index of the extreme; NaN wins (numpy) unless nanok."""

    def f(a, axis=None, out=None, keepdims=False, **k):
        a = A(a)

        def g(ts):
            best, bi = ts[0], tm.const(0, I64)
            for j, t in enumerate(ts[1:], 1):
                if nanok:
                    better = tm.mk_or(tm.mk_and(tm.mk_isnan(best), tm.mk_not(tm.mk_isnan(t))), gt(t, best))
                else:
                    better = tm.mk_and(tm.mk_not(tm.mk_isnan(best)),
                                       tm.mk_or(tm.mk_isnan(t), gt(t, best)))
                best = tm.mk_ite(better, t, best)
                bi = tm.mk_ite(better, tm.const(j, I64), bi)
            if nanok and not all(tm.mk_isnan(t) is tm.FALSE for t in ts):
                if RT.decide(tm.mk_isnan(best)):
                    raise ValueError("All-NaN slice encountered")
            return bi

        if a.size == 0:
            raise ValueError("attempt to get argmax of an empty sequence")
        return _out(_reduce(a, axis, keepdims is True, g, I64), out)

    return f


HANDLED[np.argmax] = _argred(lambda t, b: tm.mk_cmp("lt", b, t), False)
HANDLED[np.argmin] = _argred(lambda t, b: tm.mk_cmp("lt", t, b), False)
HANDLED[np.nanargmax] = _argred(lambda t, b: tm.mk_cmp("lt", b, t), True)
HANDLED[np.nanargmin] = _argred(lambda t, b: tm.mk_cmp("lt", t, b), True)


@implements(np.cumsum)
def _cumsum(a, axis=None, dtype=None, out=None):
    a = A(a)
    if axis is None:
        a, axis = a.ravel(), 0
    dt = np.dtype(dtype) if dtype is not None else _sumtype(a.dtype)
    o = np.moveaxis(cast_obj(a.a, dt), axis, 0)
    r = np.empty(o.shape, dtype=object)
    for i in range(o.shape[0]):
        if i == 0:
            r[0] = o[0]
        else:
            r[i] = apply_ufunc(np.add, SymArray(r[i - 1], dt), SymArray(o[i], dt)).a \
                if o.ndim > 1 else tm.mk_op("add", dt, r[i - 1], o[i])
    return SymArray(np.moveaxis(r, 0, axis), dt)


@implements(np.diff)
def _diff(a, n=1, axis=-1, **k):
    a = A(a)
    for _ in range(n):
        o = np.moveaxis(a.a, axis, 0)
        a = SymArray(np.moveaxis(o[1:], 0, axis), a.dtype) - SymArray(np.moveaxis(o[:-1], 0, axis), a.dtype)
    return a


# -- elementwise helpers ------------------------------------------------------


@implements(np.isclose)
def _isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a = A(a) if not np.isscalar(a) else a
    b2 = A(b) if not np.isscalar(b) else b
    fa = apply_ufunc(np.add, a, 0.0) if dtype_of(a).kind != "f" else a
    fb = apply_ufunc(np.add, b2, 0.0) if dtype_of(b2).kind != "f" else b2
    d = apply_ufunc(np.absolute, apply_ufunc(np.subtract, fa, fb))
    tol = apply_ufunc(np.add, apply_ufunc(np.multiply, apply_ufunc(np.absolute, fb), rtol), atol) \
        if is_sym(fb) else atol + rtol * np.abs(fb)
    near = apply_ufunc(np.less_equal, d, tol)
    fin = apply_ufunc(np.isfinite, fb) if is_sym(fb) else np.isfinite(fb)
    r = apply_ufunc(np.logical_or, apply_ufunc(np.logical_and, near, fin),
                    apply_ufunc(np.equal, fa, fb))
    if equal_nan:
        na = apply_ufunc(np.isnan, fa) if is_sym(fa) else np.isnan(fa)
        nb_ = apply_ufunc(np.isnan, fb) if is_sym(fb) else np.isnan(fb)
        r = apply_ufunc(np.logical_or, r, apply_ufunc(np.logical_and, na, nb_))
    return r


@implements(np.allclose)
def _allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = _isclose(a, b, rtol, atol, equal_nan)
    return HANDLED[np.all](r)


@implements(np.array_equal)
def _array_equal(a, b, equal_nan=False):
    a, b = A(a), A(b)
    if a.shape != b.shape:
        return False
    r = apply_ufunc(np.equal, a, b)
    if equal_nan:
        r = apply_ufunc(np.logical_or, r, apply_ufunc(np.logical_and, apply_ufunc(np.isnan, a), apply_ufunc(np.isnan, b)))
    return HANDLED[np.all](r)


@implements(np.nan_to_num)
def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    x = A(x)
    if x.dtype.kind != "f":
        return x.copy() if copy else x
    info = np.finfo(x.dtype)
    r = _where(apply_ufunc(np.isnan, x), x.dtype.type(nan), x)
    isinf = SymArray(_each(t_isinf, A(r).a), BOOL)
    r = _where(apply_ufunc(np.logical_and, isinf, apply_ufunc(np.greater, r, x.dtype.type(0))),
               x.dtype.type(info.max if posinf is None else posinf), r)
    r = _where(apply_ufunc(np.logical_and, isinf, apply_ufunc(np.less, r, x.dtype.type(0))),
               x.dtype.type(info.min if neginf is None else neginf), r)
    if not copy:
        x[...] = r
        return x
    return r


@implements(np.round, np.around)
def _round(a, decimals=0, out=None):
    if isinstance(a, (Sym, SymArray)) and a.dtype.kind in "iub":
        return a
    if decimals == 0:
        return _out(apply_ufunc(np.rint, a), out)
    s = 10.0 ** decimals
    return _out(apply_ufunc(np.divide, apply_ufunc(np.rint, apply_ufunc(np.multiply, a, s)), s), out)


@implements(np.real)
def _real(a):
    return a


@implements(np.iscomplexobj)
def _iscomplexobj(a):
    return False


@implements(np.isrealobj)
def _isrealobj(a):
    return True


@implements(np.shape)
def _np_shape(a):
    return a.shape if is_sym(a) else np.shape(np.asarray(a, dtype=object))


@implements(np.ndim)
def _np_ndim(a):
    return a.ndim


@implements(np.size)
def _np_size(a, axis=None):
    return a.size if axis is None else a.shape[axis]


@implements(np.result_type)
def _result_type(*a):
    return np.result_type(*[x.dtype if is_sym(x) else x for x in a])


@implements(np.can_cast)
def _can_cast(f, t, casting="safe"):
    return np.can_cast(f.dtype if is_sym(f) else f, t, casting)


@implements(np.min_scalar_type)
def _mst(a):
    return a.dtype


@implements(np.common_type)
def _common_type(*a):
    return np.common_type(*[np.empty(0, dtype_of(x)) for x in a])


@implements(np.may_share_memory, np.shares_memory)
def _shares(a, b, **k):
    if isinstance(a, SymArray) and isinstance(b, SymArray):
        return np.shares_memory(a.a, b.a)
    return False


@implements(np.searchsorted)
def _searchsorted(a, v, side="left", sorter=None):
    if sorter is not None:
        raise Unsupported("searchsorted sorter")
    a = A(a)
    vo = A(v) if not np.isscalar(v) else v
    tot = None
    for e in a:
        c = apply_ufunc(np.less, e, vo) if side == "left" else apply_ufunc(np.less_equal, e, vo)
        c = c.astype(np.int64) if is_sym(c) else np.int64(c)
        tot = c if tot is None else apply_ufunc(np.add, tot, c)
    if tot is None:
        return np.int64(0) if np.isscalar(v) else full(vo.shape, 0, np.int64)
    return tot


@implements(np.digitize)
def _digitize(x, bins, right=False):
    b = np.asarray(_conc(bins))
    if np.all(np.diff(b) >= 0):
        return _searchsorted(b, x, side="left" if right else "right")
    r = _searchsorted(b[::-1].copy(), x, side="left" if right else "right")
    return len(b) - r


def _conc(x):
    c = concrete(x) if is_sym(x) else x
    if c is None:
        raise Unsupported("needs a concrete array")
    return c


@implements(np.dot)
def _dot(a, b, out=None):
    a, b = A(a), A(b)
    if a.ndim == 1 and b.ndim == 1:
        return _sum(a * b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return _matmul(a, b)


@implements(np.matmul)
def _matmul(a, b, **k):
    a, b = A(a), A(b)
    if a.ndim == 1:
        return _sum(a[:, None] * b, axis=-2) if b.ndim > 1 else _sum(a * b)
    if b.ndim == 1:
        return _sum(a * b, axis=-1)
    return _sum(a[..., :, :, None] * b[..., None, :, :], axis=-2)


@implements(np.tensordot)
def _tensordot(a, b, axes=2):
    a, b = A(a), A(b)
    if isinstance(axes, int):
        ax, bx = tuple(range(a.ndim - axes, a.ndim)), tuple(range(axes))
    else:
        ax, bx = axes
        ax = (ax,) if np.isscalar(ax) else tuple(ax)
        bx = (bx,) if np.isscalar(bx) else tuple(bx)
    ax = tuple(i % a.ndim for i in ax)
    bx = tuple(i % b.ndim for i in bx)
    ra = tuple(i for i in range(a.ndim) if i not in ax)
    rb = tuple(i for i in range(b.ndim) if i not in bx)
    n = int(np.prod([a.shape[i] for i in ax])) if ax else 1
    a2 = a.transpose(*(ra + ax)).reshape((-1, n))
    b2 = b.transpose(*(bx + rb)).reshape((n, -1))
    return _matmul(a2, b2).reshape(tuple(a.shape[i] for i in ra) + tuple(b.shape[i] for i in rb))


@implements(np.outer)
def _outer(a, b, out=None):
    a, b = A(a).ravel(), A(b).ravel()
    return a[:, None] * b[None, :]


@implements(np.einsum)
def _einsum(*a, **k):
    raise Unsupported("einsum")


@implements(np.average)
def _average(a, axis=None, weights=None, **k):
    if weights is None:
        return _mean(a, axis)
    return _sum(A(a) * A(weights), axis=axis) / _sum(A(weights), axis=axis)


@implements(np.gradient)
def _gradient(f, *varargs, axis=None, edge_order=1):
    raise Unsupported("gradient")


@implements(np.unique)
def _unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = A(ar).ravel()
    if axis is not None:
        raise Unsupported("unique axis")
    # fork on the order / equality pattern
    vals = []   # sorted representatives (terms)
    members = []
    for i, t in enumerate(a.a):
        placed = False
        isn = RT.decide(tm.mk_isnan(t))
        for p, r in enumerate(vals):
            rn = RT.decide(tm.mk_isnan(r))
            if isn and rn:
                members[p].append(i); placed = True; break
            if isn:
                continue
            if rn:
                vals.insert(p, t); members.insert(p, [i]); placed = True; break
            if RT.decide(tm.mk_eq(t, r)):
                members[p].append(i); placed = True; break
            if RT.decide(tm.mk_cmp("lt", t, r)):
                vals.insert(p, t); members.insert(p, [i]); placed = True; break
        if not placed:
            vals.append(t); members.append([i])
    o = np.empty(len(vals), dtype=object)
    for i, t in enumerate(vals):
        o[i] = t
    out = [SymArray(o, a.dtype)]
    if return_index:
        out.append(np.array([m[0] for m in members], dtype=np.intp))
    if return_inverse:
        inv = np.zeros(a.size, dtype=np.intp)
        for p, m in enumerate(members):
            inv[m] = p
        out.append(inv)
    if return_counts:
        out.append(np.array([len(m) for m in members], dtype=np.intp))
    return out[0] if len(out) == 1 else tuple(out)


@implements(np.bincount)
def _bincount(x, weights=None, minlength=0):
    raise Unsupported("bincount")


@implements(np.apply_along_axis)
def _apply_along_axis(func1d, axis, arr, *args, **kw):
    a = A(arr)
    o = a.a.transpose([i for i in range(a.ndim) if i != axis % a.ndim] + [axis % a.ndim])
    res = [A(func1d(SymArray(o[i].copy(), a.dtype), *args, **kw)) for i in np.ndindex(o.shape[:-1])]
    dt = res[0].dtype
    if res[0].ndim == 0:
        out = np.empty(o.shape[:-1], dtype=object)
        for i, r in zip(np.ndindex(o.shape[:-1]), res):
            out[i] = r.a[()]
        return SymArray(out, dt)
    raise Unsupported("apply_along_axis")


@implements(np.array_repr, np.array_str, np.array2string)
def _repr(a, *k, **kw):
    return repr(a)


@implements(np.insert)
def _insert(arr, obj, values, axis=None):
    a = A(arr)
    if axis is None:
        a, axis = a.ravel(), 0
    i = int(obj)
    n = a.shape[axis]
    i = i + n if i < 0 else i
    sl = [slice(None)] * a.ndim
    s1, s2 = list(sl), list(sl)
    s1[axis], s2[axis] = slice(0, i), slice(i, None)
    sh = list(a.shape)
    sh[axis] = 1
    v = A(values)
    v = SymArray(np.broadcast_to(lift(v, a.dtype).reshape((1,) * 0 + v.shape) if v.ndim else lift(v, a.dtype), sh), a.dtype)
    return np.concatenate([a[tuple(s1)], v, a[tuple(s2)]], axis=axis)


@implements(np.ravel_multi_index)
def _ravel_multi_index(multi_index, dims, mode="raise", order="C"):
    c = [concrete(A(x)) for x in multi_index]
    if all(x is not None for x in c):
        return np.ravel_multi_index(tuple(c), dims, mode, order)
    if mode != "raise" or order != "C":
        raise Unsupported("ravel_multi_index mode")
    out = 0
    for x, d in zip(multi_index, dims):
        ok = np.all((A(x) >= 0) & (A(x) < d))
        if not bool(ok):
            raise ValueError("invalid entry in coordinates array")
        out = out * int(d) + A(x).astype(np.intp)
    return out
