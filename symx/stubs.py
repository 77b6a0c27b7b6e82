"""Models of the native (non-Python) routines the package calls on chunks.

Each model is used only for symbolic inputs; concrete inputs reach the real
routine.  The models are checked against the real routines by the concrete
validation runs of every check that reaches them.
"""
import functools

import numpy as np

from . import terms as tm
from .arr import SymArray, apply_ufunc, is_sym, lift
from .core import RT, Unsupported


def _ext(i, n, mode):
    """source index of position i, or None for the constant fill"""
    if 0 <= i < n:
        return i
    if mode in ("constant", "grid-constant"):
        return None
    if mode == "nearest":
        return 0 if i < 0 else n - 1
    if mode in ("wrap", "grid-wrap"):
        return i % n
    if mode in ("reflect", "grid-mirror"):
        i %= 2 * n
        return i if i < n else 2 * n - 1 - i
    if mode == "mirror":
        if n == 1:
            return 0
        p = 2 * (n - 1)
        i %= p
        return i if i < n else p - i
    raise Unsupported("boundary mode %r" % (mode,))


def _norm(v, n):
    return [int(x) for x in v] if isinstance(v, (list, tuple, np.ndarray)) else [int(v)] * n


def _neigh(x, shape, origin, mode, cval, i):
    """[(window index, term)] of the window centred at i"""
    nd = len(shape)
    out = []
    for j in np.ndindex(*shape):
        src = []
        for d in range(nd):
            s = _ext(i[d] + j[d] - (shape[d] // 2 + origin[d]), x.shape[d], mode)
            if s is None:
                src = None
                break
            src.append(s)
        out.append((j, cval if src is None else x[tuple(src)]))
    return out


def _arr(x):
    return SymArray(lift(x), x.dtype) if not isinstance(x, SymArray) else x


def correlate(input, weights, output=None, mode="reflect", cval=0.0, origin=0, **k):
    if output is not None or k:
        raise Unsupported("correlate output")
    x = _arr(input)
    w = weights.astype(float) if is_sym(weights) else np.asarray(weights, dtype=float)
    origin = _norm(origin, w.ndim)
    cv = tm.const(float(cval), np.float64)
    f8 = np.dtype(float)
    xa = np.empty(x.shape, dtype=object)
    for i in np.ndindex(x.shape):
        xa[i] = tm.mk_cast(x.a[i], f8)
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(x.shape):
        acc = tm.const(0.0, f8)
        for j, t in _neigh(xa, w.shape, origin, mode, cv, i):
            wj = w.a[j] if isinstance(w, SymArray) else tm.const(w[j], f8)
            if not isinstance(w, SymArray) and w[j] == 0:
                continue
            acc = tm.mk_op("add", f8, acc, tm.mk_op("mul", f8, t, wj))
        if x.dtype.kind in "iu":
            acc = tm.mk_cast(acc, np.dtype(np.int64))
        out[i] = tm.mk_cast(acc, x.dtype)
    return SymArray(out, x.dtype)


def convolve(input, weights, output=None, mode="reflect", cval=0.0, origin=0, **k):
    w = np.asarray(weights)
    o = _norm(origin, w.ndim)
    w = w[(slice(None, None, -1),) * w.ndim]
    o = [-a - (1 if n % 2 == 0 else 0) for a, n in zip(o, w.shape)]
    return correlate(input, w, output, mode, cval, o, **k)


def _minmax(x, fp, mode, cval, origin, maximum):
    x = _arr(x)
    cv = tm.const(np.asarray(cval).astype(x.dtype)[()], x.dtype)
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(x.shape):
        acc = None
        for j, t in _neigh(x.a, fp.shape, origin, mode, cv, i):
            if not fp[j]:
                continue
            if acc is None:
                acc = t
            else:
                c = tm.mk_cmp("lt", acc, t) if maximum else tm.mk_cmp("lt", t, acc)
                acc = tm.mk_ite(c, t, acc)
        out[i] = acc
    return SymArray(out, x.dtype)


def _footprint(x, size, footprint):
    if footprint is None:
        size = _norm(size, x.ndim)
        return np.ones(size, dtype=bool)
    return np.asarray(footprint).astype(bool)


def minimum_filter(input, size=None, footprint=None, output=None, mode="reflect", cval=0.0, origin=0, **k):
    if output is not None or k:
        raise Unsupported("minimum_filter arguments")
    fp = _footprint(input, size, footprint)
    return _minmax(input, fp, mode, cval, _norm(origin, fp.ndim), False)


def maximum_filter(input, size=None, footprint=None, output=None, mode="reflect", cval=0.0, origin=0, **k):
    if output is not None or k:
        raise Unsupported("maximum_filter arguments")
    fp = _footprint(input, size, footprint)
    return _minmax(input, fp, mode, cval, _norm(origin, fp.ndim), True)


def grey_erosion(input, size=None, footprint=None, structure=None, output=None, mode="reflect", cval=0.0, origin=0, **k):
    if structure is not None or output is not None or k:
        raise Unsupported("grey_erosion arguments")
    return minimum_filter(input, size, footprint, None, mode, cval, origin)


def grey_dilation(input, size=None, footprint=None, structure=None, output=None, mode="reflect", cval=0.0, origin=0, **k):
    if structure is not None or output is not None or k:
        raise Unsupported("grey_dilation arguments")
    fp = _footprint(input, size, footprint)
    fp = fp[(slice(None, None, -1),) * fp.ndim]
    o = [-a - (1 if n % 2 == 0 else 0) for a, n in zip(_norm(origin, fp.ndim), fp.shape)]
    return _minmax(input, fp, mode, cval, o, True)


def _binary(x, st, border, origin, dil):
    x = _arr(x)
    b = tm.const(bool(border), bool)
    xa = np.empty(x.shape, dtype=object)
    from .arr import t_nonzero
    for i in np.ndindex(x.shape):
        xa[i] = t_nonzero(x.a[i])
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(x.shape):
        ts = [t for j, t in _neigh(xa, st.shape, origin, "constant", b, i) if st[j]]
        out[i] = tm.mk_or(*ts) if dil else tm.mk_and(*ts)
    return SymArray(out, bool)


def _struct(x, structure):
    if structure is None:
        import scipy.ndimage
        return scipy.ndimage.generate_binary_structure(x.ndim, 1)
    return np.asarray(structure, dtype=bool)


def binary_erosion(input, structure=None, iterations=1, mask=None, output=None, border_value=0, origin=0, brute_force=False, **k):
    if mask is not None or output is not None or k or iterations < 1:
        raise Unsupported("binary_erosion arguments")
    st = _struct(input, structure)
    for _ in range(iterations):
        input = _binary(input, st, border_value, _norm(origin, st.ndim), False)
    return input


def binary_dilation(input, structure=None, iterations=1, mask=None, output=None, border_value=0, origin=0, brute_force=False, **k):
    if mask is not None or output is not None or k or iterations < 1:
        raise Unsupported("binary_dilation arguments")
    st = _struct(input, structure)
    st = st[(slice(None, None, -1),) * st.ndim]
    o = [-a - (1 if n % 2 == 0 else 0) for a, n in zip(_norm(origin, st.ndim), st.shape)]
    for _ in range(iterations):
        input = _binary(input, st, border_value, o, True)
    return input


MODELS = dict(correlate=correlate, convolve=convolve, minimum_filter=minimum_filter, maximum_filter=maximum_filter,
              grey_erosion=grey_erosion, grey_dilation=grey_dilation, binary_erosion=binary_erosion,
              binary_dilation=binary_dilation)


def _label_terms(x, structure, chunks):
    """scipy/dask_image labelling of a whole array: components numbered by their first cell
    in block order, scan order within a block."""
    x = _arr(x)
    from .arr import t_nonzero
    st = np.asarray(structure).astype(bool)
    offs = [np.concatenate([[0], np.cumsum(c)]) for c in chunks]
    order = []
    for b in np.ndindex(*[len(c) for c in chunks]):
        for k in np.ndindex(*[int(c[i]) for c, i in zip(chunks, b)]):
            order.append(tuple(int(o[i]) + j for o, i, j in zip(offs, b, k)))
    n = len(order)
    pos = {c: i for i, c in enumerate(order)}
    on = [t_nonzero(x.a[c]) for c in order]
    r = [[tm.FALSE] * n for _ in range(n)]
    for c in order:
        i = pos[c]
        r[i][i] = on[i]
        for d in np.argwhere(st):
            q = tuple(int(a + b - 1) for a, b in zip(c, d))
            if q in pos and q != c:
                r[i][pos[q]] = tm.mk_and(on[i], on[pos[q]])
    for k in range(n):
        for i in range(n):
            if r[i][k] is tm.FALSE:
                continue
            for j in range(n):
                r[i][j] = tm.mk_or(r[i][j], tm.mk_and(r[i][k], r[k][j]))
    dt = np.dtype(np.int32)
    zero, one = tm.const(0, dt), tm.const(1, dt)
    first = [tm.mk_and(on[j], *[tm.mk_not(r[k][j]) for k in range(j)]) for j in range(n)]
    cnt, num = zero, []
    for j in range(n):
        cnt = tm.mk_op("add", dt, cnt, tm.mk_ite(first[j], one, zero))
        num.append(cnt)
    out = np.empty(x.shape, dtype=object)
    for c in order:
        i = pos[c]
        t = zero
        for j in range(i, -1, -1):
            t = tm.mk_ite(tm.mk_and(first[j], r[j][i]), num[j], t)
        out[c] = t
    return SymArray(out, dt), cnt


def label(real):
    @functools.wraps(real)
    def f(image, structure=None, wrap_axes=None):
        if not RT.frames:
            return real(image, structure, wrap_axes)
        if wrap_axes is not None or structure is None:
            raise Unsupported("label arguments")
        import dask
        import dask.array as da
        from .arr import wrap_scalar
        RT.functions["dask_image.ndmeasure.label (model)"] = RT.functions.get("dask_image.ndmeasure.label (model)", 0) + 1
        image = da.asarray(image)
        both = dask.delayed(lambda x: _label_terms(x, structure, image.chunks), nout=2)(image.rechunk(image.shape))
        n = dask.delayed(lambda t: SymArray(np.array(t, dtype=object), np.dtype(np.int32)))(both[1])
        return (da.from_delayed(both[0], shape=image.shape, dtype=np.int32).rechunk(image.chunks),
                da.from_delayed(n, shape=(), dtype=np.int32))
    return f


def _some_value(t):
    """Forks over the values of t."""
    if t.op == "const":
        return t
    if t.dt.kind in "iu":
        return tm.const(RT.concretize(t), t.dt)
    if t.dt == tm.BOOL:
        return tm.const(RT.decide(t), bool)
    while True:
        conds = RT.assumptions + list(RT.all_conds())
        vs = tm.free_vars(conds + [t])
        r, model = RT.solver.check(conds, vs)
        if r != "sat":
            raise Unsupported("value of a float")
        v = tm.const(tm.evaluate([t], model, default=0)[0], t.dt)
        if RT.decide(tm.mk_same(t, v)):
            return v


class _Unique:
    """dask.array.unique of a symbolic array: forks over the set of values."""

    def __init__(self, x):
        self.x = x

    def compute(self, **k):
        x = _arr(self.x.compute())
        left = [(tm.TRUE, t) for t in x.a.reshape(-1)]
        out = []
        while True:
            # the smallest value not listed yet
            best = None
            for ok, t in left:
                if best is None:
                    best = (ok, t)
                else:
                    take = tm.mk_and(ok, tm.mk_or(tm.mk_not(best[0]), tm.mk_cmp("lt", t, best[1])))
                    best = (tm.mk_or(ok, best[0]), tm.mk_ite(take, t, best[1]))
            if best is None or not RT.decide(best[0]):
                return np.array(out, dtype=x.dtype)
            v = _some_value(best[1])
            out.append(v.args[0])
            left = [(tm.mk_and(ok, tm.mk_not(tm.mk_eq(t, v))), t) for ok, t in left]


def unique(real):
    @functools.wraps(real)
    def f(ar, *a, **k):
        if not RT.frames or a or k:
            return real(ar, *a, **k)
        return _Unique(ar)
    return f


def _wrap(name, real, model):
    @functools.wraps(real)
    def f(input, *a, **k):
        if isinstance(input, SymArray) or any(isinstance(x, SymArray) for x in a) \
                or any(isinstance(x, SymArray) for x in k.values()):
            RT.functions["scipy.ndimage." + name + " (model)"] = RT.functions.get("scipy.ndimage." + name + " (model)", 0) + 1
            return model(input, *a, **k)
        return real(input, *a, **k)
    return f


def install():
    """Must run before the package is imported."""
    import scipy.ndimage
    import dask.array as da
    import dask_image.ndmeasure as ndm
    ndm.label = label(ndm.label)
    da.unique = unique(da.unique)
    for name, model in MODELS.items():
        setattr(scipy.ndimage, name, _wrap(name, getattr(scipy.ndimage, name), model))
