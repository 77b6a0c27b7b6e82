"""Stand-ins for numpy and numba inside the raster_tools modules.

`np_shim` forwards every attribute to numpy except the array constructors,
which build symbolic arrays while code runs symbolically (so that kernels can
store terms into their outputs).  `nb_shim` replaces numba's decorators by the
identity with bookkeeping: the kernel's Python source is what is executed.
"""
import builtins
import functools
import math
import types

import numba
import numpy as np

from . import npfuncs as nf
from . import terms as tm
from .arr import (Masked, Sym, SymArray, apply_ufunc, concrete, is_sym, lift, stack_nested,
                  wrap_scalar, _has_sym, array_function)
from .core import RT, Explorer, TooManyPaths, Unsupported, RestartPath


def _plain_dtype(dtype):
    if isinstance(dtype, (numba.types.Type,)):
        return np.dtype(numba.np.numpy_support.as_dtype(dtype))
    return np.dtype(dtype)


class NumpyShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")

    def __getattr__(self, name):
        return getattr(np, name)

    # constructors ---------------------------------------------------------
    def empty(self, shape, dtype=float, *a, **k):
        dtype = _plain_dtype(dtype)
        if dtype.names is not None and RT.numba:
            return RecArray(int(np.prod(shape)), dtype)
        if dtype.names is not None and RT.active:
            return SymStruct({n: nf.empty(shape, dtype[n]) for n in dtype.names}, dtype)
        if (RT.numba or RT.active) and dtype.kind in "biuf":
            return nf.empty(shape, dtype)
        return np.empty(shape, dtype, *a, **k)

    def zeros(self, shape, dtype=float, *a, **k):
        dtype = _plain_dtype(dtype)
        if dtype.names is not None and RT.numba:
            return RecArray(int(np.prod(shape)), dtype)
        if dtype.names is not None and RT.active:
            return SymStruct({n: nf.full(shape, 0, dtype[n]) for n in dtype.names}, dtype)
        if (RT.numba or RT.active) and dtype.kind in "biuf":
            return nf.full(shape, 0, dtype)
        return np.zeros(shape, dtype, *a, **k)

    def ones(self, shape, dtype=float, *a, **k):
        if RT.numba or RT.active:
            return nf.full(shape, 1, _plain_dtype(dtype))
        return np.ones(shape, dtype, *a, **k)

    def full(self, shape, fill_value, dtype=None, *a, **k):
        if RT.numba or is_sym(fill_value) or RT.active:
            return nf.full(shape, fill_value, None if dtype is None else _plain_dtype(dtype))
        return np.full(shape, fill_value, dtype, *a, **k)

    def _like(self, name, a, args, k):
        if RT.numba or RT.active or is_sym(a) or any(is_sym(x) for x in args):
            if "dtype" in k and k["dtype"] is not None:
                k["dtype"] = _plain_dtype(k["dtype"])
            return nf.HANDLED[getattr(np, name)](a, *args, **k)
        return getattr(np, name)(a, *args, **k)

    def empty_like(self, a, *args, **k): return self._like("empty_like", a, args, k)
    def zeros_like(self, a, *args, **k): return self._like("zeros_like", a, args, k)
    def ones_like(self, a, *args, **k): return self._like("ones_like", a, args, k)
    def full_like(self, a, *args, **k): return self._like("full_like", a, args, k)

    def _conv(self, name, x, dtype, a, k):
        if _has_sym(x) or isinstance(x, Masked):
            if isinstance(x, Masked):
                x = x.compress()
            r = stack_nested(x) if not isinstance(x, SymArray) else x
            if dtype is not None:
                r = r.astype(dtype, copy=False)
            if name == "array" and k.get("copy", True) and r is x:
                r = r.copy()
            while r.ndim < k.get("ndmin", 0):
                r = r[None]
            return r
        if RT.frames and isinstance(x, _dask_array()):
            return self._conv(name, x.compute(), dtype, a, k)
        if dtype is not None:
            k["dtype"] = _plain_dtype(dtype)
        r = getattr(np, name)(x, *a, **k)
        if RT.numba and name == "array" and r.dtype.kind in "biuf":
            return SymArray(lift(r), r.dtype)
        return r

    def array(self, x, dtype=None, *a, **k): return self._conv("array", x, dtype, a, k)
    def asarray(self, x, dtype=None, *a, **k): return self._conv("asarray", x, dtype, a, k)
    def asanyarray(self, x, dtype=None, *a, **k): return self._conv("asanyarray", x, dtype, a, k)
    def ascontiguousarray(self, x, dtype=None, *a, **k): return self._conv("ascontiguousarray", x, dtype, a, k)

    def atleast_1d(self, *a):
        if len(a) == 1 and isinstance(a[0], Sym):
            return SymArray(lift(a[0]).reshape(1), a[0].dtype)
        return np.atleast_1d(*a)

    def isscalar(self, x):
        return isinstance(x, Sym) or np.isscalar(x)


def _dask_array():
    import dask.array as da
    return da.Array


_np_shim = NumpyShim()


class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__("math")

    def __getattr__(self, name):
        f = getattr(math, name)
        if not callable(f):
            return f
        uf = {"fabs": np.absolute, "pow": np.power, "degrees": np.degrees, "atan2": np.arctan2,
              "atan": np.arctan, "asin": np.arcsin, "acos": np.arccos}.get(name) or getattr(np, name, None)

        def g(*a):
            if any(is_sym(x) for x in a):
                r = apply_ufunc(uf, *a)
                if name in ("floor", "ceil", "trunc"):
                    return r.astype(np.int64)
                return r
            return f(*a)

        return g


_math_shim = MathShim()


class Rec:
    """One record of a structured array; fields are Python numbers."""
    __slots__ = ("_f", "_birth")

    def __init__(self, names, birth):
        object.__setattr__(self, "_f", dict.fromkeys(names, 0))
        object.__setattr__(self, "_birth", birth)

    def __getattr__(self, n):
        try:
            return self._f[n]
        except KeyError:
            raise AttributeError(n)

    def __setattr__(self, n, v):
        if RT.guard_since(self._birth) is not tm.TRUE:
            RT.demote()
        if isinstance(v, np.generic):
            v = v.item()
        self._f[n] = v

    def __getitem__(self, n): return self._f[n]
    def __setitem__(self, n, v): self.__setattr__(n, v)


class RecArray:
    """Structured numpy array inside kernels (record fields as Python ints)."""

    def __init__(self, n, dtype):
        self.dtype = dtype
        b = RT.guard_ids()
        self.r = [Rec(dtype.names, b) for _ in range(n)]

    def __getitem__(self, i):
        if isinstance(i, str):
            return [r[i] for r in self.r]
        return self.r[i]

    def __len__(self):
        return len(self.r)


class SymStruct:
    """Structured numpy array outside kernels: one symbolic array per field."""
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, f, dtype):
        self.f, self.dtype = f, dtype

    shape = property(lambda s: next(iter(s.f.values())).shape)
    ndim = property(lambda s: len(s.shape))
    size = property(lambda s: int(np.prod(s.shape)))
    nbytes = property(lambda s: s.size * s.dtype.itemsize)

    def __len__(self):
        return self.shape[0]

    def __getitem__(self, k):
        return self.f[k] if isinstance(k, str) else SymStruct({n: x[k] for n, x in self.f.items()}, self.dtype)

    def __setitem__(self, k, v):
        if isinstance(k, str):
            self.f[k][...] = v
        else:
            for n, x in self.f.items():
                x[k] = v[n]

    def copy(self):
        return SymStruct({n: x.copy() for n, x in self.f.items()}, self.dtype)

    def __array_function__(self, func, types, args, kwargs):
        if func is np.concatenate:
            xs = args[0]
            return SymStruct({n: np.concatenate([x[n] for x in xs], *args[1:], **kwargs) for n in self.dtype.names}, self.dtype)
        raise Unsupported("%s of a structured array" % getattr(func, "__name__", func))


# --------------------------------------------------------------------------
# numba


class Kernel:
    """A numba-compiled function, executed from its Python source."""

    def __init__(self, fn, opts):
        functools.update_wrapper(self, fn)
        self.py_func = fn
        self.fn = fn
        self.opts = opts
        self.sigs = []

    def __reduce__(self):
        return (_find_kernel, (self.fn.__module__, self.fn.__qualname__))

    def __dask_tokenize__(self):
        return ("Kernel", self.fn.__module__, self.fn.__qualname__)

    def __get__(self, obj, cls=None):
        return self if obj is None else types.MethodType(self, obj)

    def __call__(self, *args, **kw):
        RT.functions[self.fn.__module__ + "." + self.fn.__qualname__] = \
            RT.functions.get(self.fn.__module__ + "." + self.fn.__qualname__, 0) + 1
        if not any(_mentions_sym(a) for a in args) and not any(_mentions_sym(a) for a in kw.values()) \
                and not RT.numba:
            if not RT.frames:
                return self.fn(*args, **kw)
        args = tuple(_promote_arg(a) for a in args)
        if RT.numba == 0:
            # stores into arrays passed from the outside
            pass
        RT.numba += 1
        try:
            if RT.summaries and RT.frames and self.key() not in RT.no_summary:
                return summarise(self, args, kw)
            return self.fn(*args, **kw)
        finally:
            RT.numba -= 1

    def key(self):
        return (self.fn.__module__, self.fn.__qualname__)


def _mentions_sym(a):
    if isinstance(a, (tuple, list)):
        return any(_mentions_sym(x) for x in a)
    return is_sym(a)


def _promote_arg(a):
    """Concrete numeric arrays become constant symbolic arrays (they may be
    stored to or compared with terms); record arrays stay concrete."""
    if isinstance(a, np.ndarray) and a.dtype.kind in "biuf" and a.dtype.names is None:
        return SymArray(lift(a), a.dtype)
    if isinstance(a, tuple) and any(_mentions_sym(x) for x in a):
        return tuple(_promote_arg(x) for x in a)
    return a


def _find_kernel(mod, qual):
    import importlib
    return getattr(importlib.import_module(mod), qual)


class CantMerge(Exception):
    pass


_NOMERGE = object()


def merge_values(c, a, b):
    """ite(c, a, b) on arbitrary Python values; raises CantMerge."""
    if a is b:
        return a
    if isinstance(a, Undef):
        return b
    if isinstance(b, Undef):
        return a
    if isinstance(a, SymArray) or isinstance(b, SymArray):
        if not (isinstance(a, (SymArray, np.ndarray)) and isinstance(b, (SymArray, np.ndarray))) \
                or a.shape != b.shape:
            raise CantMerge
        dt = np.result_type(a.dtype, b.dtype)
        x, y = lift(a, dt), lift(b, dt)
        out = np.empty(x.shape, dtype=object)
        if out.ndim == 0:
            out[()] = tm.mk_ite(c, x[()], y[()])
        for i in np.ndindex(x.shape):
            out[i] = tm.mk_ite(c, x[i], y[i])
        return SymArray(out, dt)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_values(c, x, y) for x, y in zip(a, b))
    num = (int, float, bool, np.number, np.bool_, Sym)
    if isinstance(a, num) and isinstance(b, num):
        if not is_sym(a) and not is_sym(b) and type(a) is type(b) and (a == b or (a != a and b != b)):
            return a
        da, db = _sdt(a), _sdt(b)
        if (da.kind == "b") != (db.kind == "b"):
            dt = np.result_type(da, db)
        elif RT.numba and da != db:
            dt = np.result_type(da, db)
        else:
            dt = np.result_type(da, db)
        return wrap_scalar(tm.mk_ite(c, lift(a, dt)[()], lift(b, dt)[()]))
    try:
        if type(a) is type(b) and not isinstance(a, np.ndarray) and a == b:
            return a
    except Exception:
        pass
    raise CantMerge


def _sdt(x):
    if isinstance(x, Sym):
        return x.dtype
    if isinstance(x, (bool, np.bool_)):
        return np.dtype(bool)
    if isinstance(x, np.generic):
        return x.dtype
    if isinstance(x, int):
        return np.dtype(np.int64)
    return np.dtype(np.float64)


class Undef:
    """Value of a local that is unbound on one side of a merge."""


UNDEF = Undef()


def summarise(kernel, args, kw):
    """Explore the kernel's own decisions and merge all results at its return.

    Array arguments are part of the state: their contents are restored before
    every local path and merged afterwards.
    """
    arrays = []

    def collect(x):
        if isinstance(x, SymArray):
            arrays.append(x)
        elif isinstance(x, (tuple, list)):
            for e in x:
                collect(e)

    for a in args:
        collect(a)
    for a in kw.values():
        collect(a)
    recs = [a for a in args if isinstance(a, np.ndarray)]
    saved = [a.a.copy() for a in arrays]
    rsaved = [a.copy() for a in recs]
    results = []

    def go():
        for a, s in zip(arrays, saved):
            a.a[...] = s
        for a, s in zip(recs, rsaved):
            a[...] = s
        return kernel.fn(*args, **kw)

    births = None
    for pc, res in Explorer(RT, limit=RT.path_limit).run(go):
        results.append((list(pc), res, [a.a.copy() for a in arrays], [a.copy() for a in recs]))
        if len(results) == 1 and not pc:
            # decided without forking: nothing to merge
            return res
    if not results:
        from .core import DeadPath
        raise DeadPath()
    RT.stats["summaries"] += 1
    try:
        if any(any((x != y).any() if x.dtype.names is None else (x != y).any() for x, y in zip(r[3], results[0][3]))
               for r in results[1:]):
            raise CantMerge
        out = results[-1][1]
        conts = [c.copy() for c in results[-1][2]]
        for pc, res, cs, _ in reversed(results[:-1]):
            c = tm.mk_and(*pc)
            out = merge_values(c, res, out)
            for k, (x, y) in enumerate(zip(cs, conts)):
                for i in np.ndindex(x.shape):
                    if x[i] is not y[i]:
                        y[i] = tm.mk_ite(c, x[i], y[i])
    except CantMerge:
        RT.no_summary.add(kernel.key())
        for a, s in zip(arrays, saved):
            a.a[...] = s
        for a, s in zip(recs, rsaved):
            a[...] = s
        return kernel.fn(*args, **kw)
    for a, c in zip(arrays, conts):
        a.a[...] = c
    for a, c in zip(recs, results[0][3]):
        a[...] = c
    RT.stats["merges"] += len(results) - 1
    return out


def _jit(*dargs, **opts):
    if len(dargs) == 1 and isinstance(dargs[0], types.FunctionType) and not opts:
        return Kernel(dargs[0], {})

    def deco(fn):
        if isinstance(fn, Kernel):
            fn = fn.fn
        return Kernel(fn, opts)

    return deco


def _guvectorize(*a, **k):
    raise Unsupported("guvectorize")


def _overload(*a, **k):
    return lambda f: f


class NumbaShim(types.ModuleType):
    def __init__(self):
        super().__init__("numba")
        self.jit = self.njit = _jit
        self.prange = range
        self.guvectorize = _guvectorize
        self.overload = _overload

    def __getattr__(self, name):
        return getattr(numba, name)

    def vectorize(self, *a, **k):
        raise Unsupported("nb.vectorize")


_nb_shim = NumbaShim()


def np_shim():
    return _np_shim


# --------------------------------------------------------------------------
# builtins seen by the instrumented modules


def s_isinstance(x, cls):
    if isinstance(x, cls):
        return True
    if isinstance(x, (SymArray, Sym)):
        todo, flat = [cls], []
        while todo:
            c = todo.pop()
            if isinstance(c, tuple):
                todo.extend(c)
            elif hasattr(c, "__args__") and not isinstance(c, type):
                todo.extend(c.__args__)
            else:
                flat.append(c)
        if isinstance(x, SymArray):
            return any(c is np.ndarray for c in flat)
        return any(issubclass(x.dtype.type, c) for c in flat)
    return False


def s_min(*a, **k):
    one = len(a) == 1 and not k
    if one:
        a = tuple(a[0]) if not isinstance(a[0], SymArray) else tuple(a[0])
    if not k and any(is_sym(x) for x in a):
        r = a[0]
        for x in a[1:]:
            # python: keeps r unless x < r
            r = _pick(apply_ufunc(np.less, x, r), x, r)
        return r
    return builtins.min(a, **k) if one else builtins.min(*a, **k)


def s_max(*a, **k):
    one = len(a) == 1 and not k
    if one:
        a = tuple(a[0])
    if not k and any(is_sym(x) for x in a):
        r = a[0]
        for x in a[1:]:
            r = _pick(apply_ufunc(np.greater, x, r), x, r)
        return r
    return builtins.max(a, **k) if one else builtins.max(*a, **k)


def _pick(c, a, b):
    if is_sym(c):
        return merge_values(c.t if isinstance(c, Sym) else c.a[()], a, b)
    return a if c else b


def s_int(x=0, *a):
    if is_sym(x) and not a:
        if isinstance(x, SymArray):
            x = x.item()
            if not is_sym(x):
                return int(x)
        return x.astype(np.int64)
    return int(x, *a)


def s_float(x=0.0):
    if is_sym(x):
        if isinstance(x, SymArray):
            x = x.item()
            if not is_sym(x):
                return float(x)
        return x.astype(np.float64)
    return float(x)


def s_bool(x=False):
    if is_sym(x):
        if isinstance(x, SymArray):
            x = x.item()
        return x.astype(bool) if is_sym(x) else bool(x)
    return bool(x)


def s_sum(it, start=0):
    return builtins.sum(it, start)


def s_round(x, n=None):
    if is_sym(x):
        r = nf.HANDLED[np.round](x, n or 0)
        return r.astype(np.int64) if n is None and is_sym(r) else r
    return round(x) if n is None else round(x, n)


class SymDict(dict):
    """Dictionary in instrumented kernels: linear search with symbolic keys."""

    def __init__(self, *a, **k):
        super().__init__()
        self.items_ = []
        self.birth = RT.guard_ids()
        for key, v in dict(*a, **k).items():
            self[key] = v

    def _find(self, key):
        for e in self.items_:
            if e[0] is key:
                return e
        for e in self.items_:
            if isinstance(e[0], str) or isinstance(key, str):
                if isinstance(e[0], str) and e[0] == key:
                    return e
                continue
            if bool(e[0] == key):
                return e
        return None

    def __contains__(self, key): return self._find(key) is not None

    def __getitem__(self, key):
        e = self._find(key)
        if e is None:
            raise KeyError(key)
        return e[1]

    def get(self, key, d=None):
        e = self._find(key)
        return d if e is None else e[1]

    def _guardcheck(self):
        if RT.guard_since(self.birth) is not tm.TRUE:
            RT.demote()

    def __setitem__(self, key, v):
        self._guardcheck()
        e = self._find(key)
        if e is None:
            self.items_.append([key, v])
        else:
            e[1] = v

    def setdefault(self, key, d=None):
        e = self._find(key)
        if e is None:
            self[key] = d
            return d
        return e[1]

    def pop(self, key, *d):
        self._guardcheck()
        e = self._find(key)
        if e is None:
            if d:
                return d[0]
            raise KeyError(key)
        self.items_.remove(e)
        return e[1]

    def __delitem__(self, key): self.pop(key)
    def keys(self): return [e[0] for e in self.items_]
    def values(self): return [e[1] for e in self.items_]
    def items(self): return [tuple(e) for e in self.items_]
    def __iter__(self): return iter(self.keys())
    def __len__(self): return len(self.items_)
    def __bool__(self): return bool(self.items_)
    def clear(self):
        self._guardcheck()
        self.items_.clear()
    def copy(self):
        d = SymDict()
        d.items_ = [list(e) for e in self.items_]
        return d


class SymSet:
    def __init__(self, it=()):
        self.d = SymDict()
        for x in it:
            self.add(x)

    def add(self, x):
        self.d._guardcheck()
        if self.d._find(x) is None:
            self.d.items_.append([x, None])

    def __contains__(self, x): return x in self.d
    def __iter__(self): return iter(self.d.keys())
    def __len__(self): return len(self.d)
    def __bool__(self): return bool(self.d)
    def clear(self): self.d.clear()
    def discard(self, x): self.d.pop(x, None)
    def remove(self, x): self.d.pop(x)
    def copy(self): return SymSet(self)
    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)
    def __or__(self, o): return SymSet(list(self) + list(o))
    def __and__(self, o): return SymSet([x for x in self if x in o])
    def __sub__(self, o): return SymSet([x for x in self if x not in o])
    def __xor__(self, o): return (self - o) | SymSet([x for x in o if x not in self])
    def __le__(self, o): return all(x in o for x in self)
    def __ge__(self, o): return all(x in self for x in o)
    def __eq__(self, o): return len(self) == len(o) and all(x in o for x in self)
    __hash__ = None
    union, intersection, difference, issubset, issuperset = __or__, __and__, __sub__, __le__, __ge__
