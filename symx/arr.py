"""Symbolic arrays and scalars: duck arrays over the term DAG.

`SymArray` implements numpy's __array_ufunc__ / __array_function__ protocols on
an object ndarray of terms, so it flows through numpy, dask and xarray code
unchanged; views, broadcasting and fancy indexing are numpy's own, applied to
the object array.  `Sym` is a symbolic scalar.
"""
import operator
import sys

import numpy as np

from . import terms as tm
from .core import RT, Unsupported
from .terms import BOOL, T

HANDLED = {}
STRUCTURAL = set()


def implements(*funcs):
    def deco(f):
        for fn in funcs:
            HANDLED[fn] = f
        return f

    return deco


_lift_const = np.frompyfunc(lambda v, dt: tm.const(v, dt), 2, 1)


def lift(x, dt=None):
    """Object ndarray of terms for any array-like."""
    if isinstance(x, SymArray):
        return x.a if dt is None or x.dtype == dt else cast_obj(x.a, dt)
    if isinstance(x, Sym):
        t = x.t if dt is None else tm.mk_cast(x.t, dt)
        o = np.empty((), dtype=object)
        o[()] = t
        return o
    if isinstance(x, (list, tuple)) and _has_sym(x):
        return stack_nested(x, dt).a
    x = np.asarray(x)
    if x.dtype == object:
        if x.size and all(isinstance(e, T) for e in x.ravel()):
            return x if dt is None else cast_obj(x, dt)
        if any(isinstance(e, Sym) for e in x.ravel()):
            return stack_nested(x.tolist(), dt).a
        raise Unsupported("object array")
    if dt is None:
        dt = x.dtype
    out = np.empty(x.shape, dtype=object)
    if x.ndim == 0:
        out[()] = tm.const(x[()], dt)
        return out
    of, xf = out.reshape(-1), x.reshape(-1)
    cache = {}
    for i in range(of.shape[0]):
        v = xf[i]
        k = v.tobytes()
        c = cache.get(k)
        if c is None:
            c = cache[k] = tm.const(v, dt)
        of[i] = c
    return of.reshape(x.shape)


def cast_obj(a, dt):
    out = np.empty(a.shape, dtype=object)
    if a.ndim == 0:
        out[()] = tm.mk_cast(a[()], dt)
        return out
    for i in np.ndindex(a.shape):
        out[i] = tm.mk_cast(a[i], dt)
    return out


def _has_sym(x):
    if isinstance(x, (Sym, SymArray)):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_sym(e) for e in x)
    return False


def stack_nested(x, dt=None):
    """np.array(...) for nested sequences holding symbolic scalars/arrays."""
    if isinstance(x, SymArray):
        return x if dt is None else x.astype(dt)
    if isinstance(x, Sym) or np.isscalar(x) or isinstance(x, np.ndarray):
        return SymArray(lift(x, dt), dt or dtype_of(x))
    parts = [stack_nested(e, dt) for e in x]
    if not parts:
        return SymArray(np.empty((0,), dtype=object), dt or np.float64)
    if dt is None:
        dt = np.result_type(*[p.dtype for p in parts])
    return SymArray(np.stack([lift(p, dt) for p in parts]), dt)


def dtype_of(x):
    if isinstance(x, (Sym, SymArray)):
        return x.dtype
    if isinstance(x, (bool, np.bool_)):
        return BOOL
    return np.asarray(x).dtype


def is_sym(x):
    return isinstance(x, (Sym, SymArray))


def concrete(x):
    """numpy value of a fully constant symbolic value, else None."""
    if isinstance(x, Sym):
        return x.t.args[0] if x.t.op == "const" else None
    if isinstance(x, SymArray):
        flat = x.a.reshape(-1)
        for t in flat:
            if t.op != "const":
                return None
        out = np.empty(flat.shape, dtype=x.dtype)
        for i, t in enumerate(flat):
            out[i] = t.args[0]
        return out.reshape(x.shape)
    return x


def wrap_scalar(t):
    """Result of reading one element: concrete numpy scalar when constant."""
    if t.op == "const":
        return t.args[0]
    return Sym(t)


def wrap(obj, dt):
    if isinstance(obj, T):
        return wrap_scalar(obj)
    if isinstance(obj, np.ndarray) and obj.dtype == object:
        return SymArray(obj, dt)
    return obj


# --------------------------------------------------------------------------
# ufuncs

_CMP = {
    "equal": lambda a, b: tm.mk_eq(a, b),
    "not_equal": lambda a, b: tm.mk_not(tm.mk_eq(a, b)),
    "less": lambda a, b: tm.mk_cmp("lt", a, b),
    "less_equal": lambda a, b: tm.mk_cmp("le", a, b),
    "greater": lambda a, b: tm.mk_cmp("lt", b, a),
    "greater_equal": lambda a, b: tm.mk_cmp("le", b, a),
}
_BIN = {
    "add": "add", "subtract": "sub", "multiply": "mul", "divide": "div",
    "floor_divide": "floordiv", "remainder": "mod", "fmod": "fmod",
    "power": "pow", "bitwise_and": "bitand", "bitwise_or": "bitor",
    "bitwise_xor": "bitxor", "left_shift": "shl", "right_shift": "shr",
}
_UN = {
    "negative": "neg", "absolute": "abs", "floor": "floor", "ceil": "ceil",
    "trunc": "trunc", "rint": "rint", "sqrt": "sqrt", "invert": "invert",
}
_UFS = {
    "sin", "cos", "tan", "arcsin", "arccos", "arctan", "arctan2", "hypot",
    "sinh", "cosh", "tanh", "arcsinh", "arccosh", "arctanh", "exp", "exp2",
    "expm1", "log", "log2", "log10", "log1p", "cbrt", "logaddexp",
    "logaddexp2", "float_power", "heaviside", "copysign", "nextafter",
    "spacing", "ldexp",
}


def t_nonzero(t):
    return tm.mk_cast(t, BOOL)


def t_max(a, b, nanprop=True):
    lt = tm.mk_cmp("lt", a, b)
    if nanprop:
        return tm.mk_ite(tm.mk_isnan(a), a,
                         tm.mk_ite(tm.mk_isnan(b), b, tm.mk_ite(lt, b, a)))
    return tm.mk_ite(tm.mk_isnan(a), b,
                     tm.mk_ite(tm.mk_isnan(b), a, tm.mk_ite(lt, b, a)))


def t_min(a, b, nanprop=True):
    lt = tm.mk_cmp("lt", b, a)
    if nanprop:
        return tm.mk_ite(tm.mk_isnan(a), a,
                         tm.mk_ite(tm.mk_isnan(b), b, tm.mk_ite(lt, b, a)))
    return tm.mk_ite(tm.mk_isnan(a), b,
                     tm.mk_ite(tm.mk_isnan(b), a, tm.mk_ite(lt, b, a)))


def t_isfinite(a):
    if a.dt.kind != "f":
        return tm.TRUE
    if a.op == "const":
        return tm.const(np.isfinite(a.args[0]), BOOL)
    return tm.mk_and(tm.mk_not(tm.mk_isnan(a)), tm.mk_not(t_isinf(a)))


def t_isinf(a):
    if a.dt.kind != "f":
        return tm.FALSE
    if a.op == "const":
        return tm.const(np.isinf(a.args[0]), BOOL)
    if a.op == "cast" and a.args[0].dt.kind in "iub" and a.dt.itemsize > 2:
        return tm.FALSE
    if a.op == "ite":
        return tm.mk_ite(a.args[0], t_isinf(a.args[1]), t_isinf(a.args[2]))
    return tm._mk("isinf", BOOL, (a,))


def t_sign(a):
    z = tm.const(0, a.dt)
    one = tm.const(1, a.dt)
    if a.dt.kind == "u":
        return tm.mk_ite(tm.mk_eq(a, z), z, one)
    m1 = tm.const(-1, a.dt)
    return tm.mk_ite(tm.mk_isnan(a), a, tm.mk_ite(
        tm.mk_cmp("lt", a, z), m1, tm.mk_ite(tm.mk_cmp("lt", z, a), one, z)))


def _ufunc_term(name, dt, args):
    """Term for one element; args already in the loop dtypes."""
    if name in _CMP:
        return _CMP[name](*args)
    if name == "power" and args[1].op == "const" and float(args[1].args[0]) in (1.0, 2.0, 0.5):
        e = float(args[1].args[0])
        if e == 1:
            return args[0]
        if e == 2:
            return tm.mk_op("mul", dt, args[0], args[0])
        return tm.mk_op("sqrt", dt, args[0])
    if name in _BIN:
        return tm.mk_op(_BIN[name], dt, *args)
    if name in _UN:
        return tm.mk_op(_UN[name], dt, *args)
    if name == "conjugate" or name == "positive":
        return args[0]
    if name == "square":
        return tm.mk_op("mul", dt, args[0], args[0])
    if name == "fabs":
        return tm.mk_op("abs", dt, args[0])
    if name == "reciprocal":
        return tm.mk_op("div", dt, tm.const(1, dt), args[0])
    if name == "isnan":
        return tm.mk_isnan(args[0])
    if name == "isinf":
        return t_isinf(args[0])
    if name == "isfinite":
        return t_isfinite(args[0])
    if name == "signbit":
        return tm.mk_cmp("lt", args[0], tm.const(0, args[0].dt))
    if name == "sign":
        return t_sign(args[0])
    if name == "maximum":
        return t_max(*args)
    if name == "minimum":
        return t_min(*args)
    if name == "fmax":
        return t_max(*args, nanprop=False)
    if name == "fmin":
        return t_min(*args, nanprop=False)
    if name == "logical_and":
        return tm.mk_and(t_nonzero(args[0]), t_nonzero(args[1]))
    if name == "logical_or":
        return tm.mk_or(t_nonzero(args[0]), t_nonzero(args[1]))
    if name == "logical_xor":
        return tm.mk_not(tm.mk_eq(t_nonzero(args[0]), t_nonzero(args[1])))
    if name == "logical_not":
        return tm.mk_not(t_nonzero(args[0]))
    if name in ("deg2rad", "radians"):
        return tm.mk_op("mul", dt, args[0], tm.const(np.pi / 180, dt))
    if name in ("rad2deg", "degrees"):
        return tm.mk_op("mul", dt, args[0], tm.const(180 / np.pi, dt))
    if name in _UFS:
        return tm.mk_uf(name, dt, *args)
    raise Unsupported("ufunc %s" % name)


_loop_cache = {}


def _resolve(uf, kinds):
    key = (uf.__name__, tuple(k if isinstance(k, type) else k.str for k in kinds))
    r = _loop_cache.get(key)
    if r is None:
        r = uf.resolve_dtypes(tuple(kinds) + (None,) * uf.nout)
        _loop_cache[key] = r
    return r


_LOGICAL = {"logical_and", "logical_or", "logical_xor", "logical_not"}


def _frexp(x):
    dts = np.frexp.resolve_dtypes((dtype_of(x), None, None))
    a = lift(x)
    m, e = np.empty(a.shape, dtype=object), np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        t = tm.mk_cast(a[i], dts[0])
        m[i] = tm.mk_uf("frexp_m", dts[1], t)
        e[i] = tm.mk_uf("frexp_e", dts[2], t)
    if isinstance(x, SymArray):
        return SymArray(m, dts[1]), SymArray(e, dts[2])
    return wrap_scalar(m[()]), wrap_scalar(e[()])


def apply_ufunc(uf, *inputs, dtype=None):
    """Elementwise ufunc over a mix of symbolic and concrete operands."""
    name = uf.__name__
    if uf.nout != 1:
        if name == "divmod":
            return (apply_ufunc(np.floor_divide, *inputs), apply_ufunc(np.remainder, *inputs))
        if name == "modf":
            x = inputs[0]
            if dtype_of(x).kind != "f":
                x = x.astype(np.modf.resolve_dtypes((dtype_of(x), None, None))[0])
            ip = apply_ufunc(np.trunc, x)
            return apply_ufunc(np.subtract, x, ip), ip
        if name == "frexp":
            return _frexp(inputs[0])
        raise Unsupported("ufunc %s" % name)
    kinds = []
    for x in inputs:
        if isinstance(x, (bool, np.bool_)):
            kinds.append(BOOL)
        elif isinstance(x, int) and not isinstance(x, np.generic):
            kinds.append(int)
        elif isinstance(x, float) and not isinstance(x, np.generic):
            kinds.append(float)
        elif isinstance(x, Masked):
            kinds.append(x.base.dtype)
        else:
            if isinstance(x, (list, tuple)):
                x = np.asarray(x) if not _has_sym(x) else stack_nested(x)
            kinds.append(dtype_of(x))
    inputs = tuple(
        (np.asarray(x) if not _has_sym(x) else stack_nested(x))
        if isinstance(x, (list, tuple)) else x for x in inputs)
    if any(isinstance(x, Masked) for x in inputs):
        return Masked.ufunc(uf, inputs)
    if RT.numba and not any(isinstance(x, (SymArray, np.ndarray)) for x in inputs):
        dts = _numba_dtypes(name, kinds)
    elif name in _LOGICAL:
        dts = [k if isinstance(k, np.dtype) else np.dtype(k) for k in kinds] + [BOOL]
    else:
        if name in _CMP and int in kinds:
            # python ints out of the array dtype's range compare exactly
            other = [k for k in kinds if isinstance(k, np.dtype)]
            lit = [x for x, k in zip(inputs, kinds) if k is int]
            if other and other[0].kind in "iu":
                info = np.iinfo(other[0])
                if not all(info.min <= v <= info.max for v in lit):
                    kinds = [np.dtype(np.int64) if k is int else k for k in kinds]
                    if all(np.iinfo(np.int64).min <= v <= np.iinfo(np.int64).max for v in lit):
                        kinds = [np.dtype(np.int64)] * 2
        if dtype is not None:
            dts = uf.resolve_dtypes(tuple(kinds) + (None,) * uf.nout,
                                    signature=(None,) * uf.nin + (np.dtype(dtype),),
                                    casting="unsafe")
        elif name in _CMP and sorted(str(k) for k in kinds) == ["int64", "uint64"]:
            # numpy compares mixed 64-bit integers exactly
            dts = (np.dtype("O"),) * 2 + (BOOL,)
            raise Unsupported("mixed int64/uint64 comparison")
        else:
            dts = _resolve(uf, kinds)
    ins = list(dts[: uf.nin])
    outdt = np.dtype(dts[uf.nin])
    for x, k, d in zip(inputs, kinds, ins):
        if k is int and d.kind in "iu":
            info = np.iinfo(d)
            if not (info.min <= x <= info.max):
                raise OverflowError(
                    "Python integer %s out of bounds for %s" % (x, d))
    objs = [lift(x, np.dtype(d)) for x, d in zip(inputs, ins)]
    if all(o.ndim == 0 for o in objs):
        t = _ufunc_term(name, outdt, [o[()] for o in objs])
        if any(isinstance(x, SymArray) for x in inputs) and not RT.numba:
            return wrap_scalar(t)
        return wrap_scalar(t)
    bs = np.broadcast_arrays(*objs)
    out = np.empty(bs[0].shape, dtype=object)
    of = out.reshape(-1)
    fl = [b.reshape(-1) for b in bs]
    memo = {}
    for i in range(of.shape[0]):
        ts = [f[i] for f in fl]
        k = tuple(t.id for t in ts)
        r = memo.get(k)
        if r is None:
            r = memo[k] = _ufunc_term(name, outdt, ts)
        of[i] = r
    return SymArray(out, outdt)


def _numba_dtypes(name, kinds):
    """numba's typing of scalar operators (integers widen to 64 bits)."""
    ks = [np.dtype(np.int64) if k is int else np.dtype(np.float64) if k is float else k
          for k in kinds]
    if name in _LOGICAL:
        return ks + [BOOL]
    i64, u64, f64 = np.dtype(np.int64), np.dtype(np.uint64), np.dtype(np.float64)

    def widen(k):
        if k.kind == "b":
            return i64
        if k.kind == "i":
            return i64
        if k.kind == "u":
            return u64
        return k

    boolop = name in _CMP or name in ("bitwise_and", "bitwise_or", "bitwise_xor", "invert")
    if all(k == BOOL for k in ks) and boolop:
        return ks + [BOOL]
    if name in ("isnan", "isinf", "isfinite"):
        return ks + [BOOL]
    w = [widen(k) for k in ks]
    if any(k.kind == "f" for k in w):
        if all(k.kind == "f" for k in w):
            d = max(w, key=lambda k: k.itemsize)
        else:
            # float32 with a 64-bit integer is float64
            d = f64
        if d.itemsize < 4:
            d = np.dtype(np.float32)
    elif all(k == u64 for k in w):
        d = u64
    elif any(k == u64 for k in w):
        # numba: uint64 op int64 -> float64, except literals; small unsigned
        # operands fit a signed word and are kept exact here
        d = i64 if any(k.kind == "u" and k.itemsize < 8 for k in ks) else f64
    else:
        d = i64
    n = len(ks)
    if name in _CMP:
        return [d] * n + [BOOL]
    if name in ("maximum", "minimum", "fmax", "fmin"):
        return [d] * n + [d]
    if name in ("divide",) or name in _UFS or name in ("sqrt", "exp", "floor", "ceil"):
        if d.kind != "f":
            d = f64
    return [d] * n + [d]


# --------------------------------------------------------------------------


class _Ops:
    """Operator overloading shared by scalars and arrays."""

    def __add__(self, o): return _op(np.add, self, o)
    def __radd__(self, o): return _op(np.add, o, self)
    def __sub__(self, o): return _op(np.subtract, self, o)
    def __rsub__(self, o): return _op(np.subtract, o, self)
    def __mul__(self, o): return _op(np.multiply, self, o)
    def __rmul__(self, o): return _op(np.multiply, o, self)
    def __truediv__(self, o): return _op(np.true_divide, self, o)
    def __rtruediv__(self, o): return _op(np.true_divide, o, self)
    def __floordiv__(self, o): return _op(np.floor_divide, self, o)
    def __rfloordiv__(self, o): return _op(np.floor_divide, o, self)
    def __mod__(self, o): return _op(np.remainder, self, o)
    def __rmod__(self, o): return _op(np.remainder, o, self)
    def __pow__(self, o): return _pow(self, o)
    def __rpow__(self, o): return _op(np.power, o, self)
    def __and__(self, o): return _op(np.bitwise_and, self, o)
    def __rand__(self, o): return _op(np.bitwise_and, o, self)
    def __or__(self, o): return _op(np.bitwise_or, self, o)
    def __ror__(self, o): return _op(np.bitwise_or, o, self)
    def __xor__(self, o): return _op(np.bitwise_xor, self, o)
    def __rxor__(self, o): return _op(np.bitwise_xor, o, self)
    def __lshift__(self, o): return _op(np.left_shift, self, o)
    def __rlshift__(self, o): return _op(np.left_shift, o, self)
    def __rshift__(self, o): return _op(np.right_shift, self, o)
    def __rrshift__(self, o): return _op(np.right_shift, o, self)
    def __divmod__(self, o): return apply_ufunc(np.divmod, self, o)
    def __eq__(self, o): return _op(np.equal, self, o)
    def __ne__(self, o): return _op(np.not_equal, self, o)
    def __lt__(self, o): return _op(np.less, self, o)
    def __le__(self, o): return _op(np.less_equal, self, o)
    def __gt__(self, o): return _op(np.greater, self, o)
    def __ge__(self, o): return _op(np.greater_equal, self, o)
    def __neg__(self): return apply_ufunc(np.negative, self)
    def __pos__(self): return self
    def __abs__(self): return apply_ufunc(np.absolute, self)
    def __invert__(self): return apply_ufunc(np.invert, self)


def _op(uf, a, b):
    for x in (a, b):
        if x is None or isinstance(x, str):
            if uf is np.equal:
                return False
            if uf is np.not_equal:
                return True
            return NotImplemented
        if not isinstance(x, (_Ops, int, float, bool, np.generic, np.ndarray, list, tuple)):
            return NotImplemented
    return apply_ufunc(uf, a, b)


def _pow(a, o):
    return _op(np.power, a, o)


class Sym(_Ops):
    """Symbolic scalar."""
    __slots__ = ("t",)
    __array_priority__ = 2000

    def __init__(self, t):
        self.t = t

    dtype = property(lambda s: s.t.dt)
    shape = ()
    ndim = 0
    size = 1
    real = property(lambda s: s)

    def __bool__(self):
        return RT.decide(t_nonzero(self.t))

    def __index__(self):
        if self.t.dt.kind not in "iub":
            raise TypeError("only integers can be an index")
        return int(RT.concretize(self.t))

    def __int__(self):
        if self.t.dt.kind in "iub":
            return int(RT.concretize(self.t))
        raise Unsupported("int() of a symbolic float")

    def __float__(self):
        raise Unsupported("float() of a symbolic value")

    def __hash__(self):
        return 7

    def __array__(self, *a, **k):
        raise Unsupported("symbolic scalar converted to a concrete array")

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        return _array_ufunc(uf, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, args, kwargs)

    def astype(self, dt, copy=True, **k):
        return wrap_scalar(tm.mk_cast(self.t, np.dtype(dt)))

    def item(self): return self
    def copy(self): return self
    def __getitem__(self, k):
        if k == () or k is Ellipsis:
            return self
        raise IndexError("invalid index to scalar variable.")
    def __copy__(self): return self
    def __deepcopy__(self, m): return self
    def __repr__(self): return "Sym(%r)" % (self.t,)
    def __round__(self, n=None):
        return apply_ufunc(np.rint, self)
    def __dask_tokenize__(self): return ("Sym", self.t.id)
    def is_integer(self): raise Unsupported("is_integer")
    def ravel(self): return SymArray(lift(self).reshape(1), self.dtype)
    def reshape(self, *s): return SymArray(lift(self).reshape(*s), self.dtype)
    def any(self, *a, **k): return wrap_scalar(t_nonzero(self.t))
    def all(self, *a, **k): return wrap_scalar(t_nonzero(self.t))
    def squeeze(self, *a): return self
    def min(self, *a, **k): return self
    def max(self, *a, **k): return self
    def sum(self, *a, **k): return self


class _Flat:
    def __init__(self, arr):
        self.arr = arr

    def __getitem__(self, k):
        return self.arr.ravel()[k]

    def __setitem__(self, k, v):
        v2 = SymArray(self.arr.a.reshape(-1), self.arr.dtype, birth=self.arr.birth)
        if v2.a.base is None and self.arr.a.size and v2.a is not self.arr.a:
            raise Unsupported("flat store on a non-contiguous array")
        v2[k] = v

    def __iter__(self):
        return iter(self.arr.ravel())

    def __len__(self):
        return self.arr.size


class SymArray(_Ops):
    __array_priority__ = 1000
    __slots__ = ("a", "dtype", "birth")

    def __init__(self, a, dtype, birth=None):
        self.a = a
        self.dtype = np.dtype(dtype)
        self.birth = RT.guard_ids() if birth is None else birth

    # -- basic attributes
    shape = property(lambda s: s.a.shape)
    ndim = property(lambda s: s.a.ndim)
    size = property(lambda s: s.a.size)
    T = property(lambda s: s._view(s.a.T))
    itemsize = property(lambda s: s.dtype.itemsize)
    nbytes = property(lambda s: s.a.size * s.dtype.itemsize)
    flat = property(lambda s: _Flat(s))
    real = property(lambda s: s)
    flags = property(lambda s: s.a.flags)
    strides = property(lambda s: tuple(
        x // 8 * s.dtype.itemsize for x in s.a.strides))
    base = property(lambda s: s.a.base)

    def _view(self, a):
        return SymArray(a, self.dtype, birth=self.birth)

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        for i in range(len(self.a)):
            yield self[i]

    def __hash__(self):
        raise TypeError("unhashable type")

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one "
                             "element is ambiguous.")
        return RT.decide(t_nonzero(self.a.reshape(-1)[0]))

    def __index__(self):
        return Sym(self.a.reshape(-1)[0]).__index__()

    def __int__(self):
        c = concrete(self)
        if c is not None:
            return int(c)
        return int(Sym(self.a.reshape(-1)[0]))

    def __float__(self):
        c = concrete(self)
        if c is not None:
            return float(c)
        raise Unsupported("float() of a symbolic value")

    def __contains__(self, v):
        return bool((self == v).any())

    def __array__(self, dtype=None, copy=None):
        c = concrete(self)
        if c is None:
            if dtype is None and "/pandas/" in sys._getframe(1).f_code.co_filename:
                # a data frame column of terms
                o = np.empty(self.shape, dtype=object)
                for i in np.ndindex(self.shape):
                    o[i] = Sym(self.a[i])
                return o
            raise Unsupported("symbolic array converted to a concrete array")
        return c if dtype is None else c.astype(dtype)

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        return _array_ufunc(uf, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, args, kwargs)

    def __dask_tokenize__(self):
        return ("SymArray", self.dtype.str, self.shape,
                tuple(t.id for t in self.a.reshape(-1)))

    def __repr__(self):
        return "SymArray(%s, %s)" % (self.shape, self.dtype)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    # -- indexing
    def _key(self, k):
        """Normalise an index; returns (key, symbolic int positions)."""
        if not isinstance(k, tuple):
            k = (k,)
        out = []
        symbolic = False
        for e in k:
            if isinstance(e, Sym):
                c = concrete(e)
                if c is not None:
                    e = c
                elif e.dtype == BOOL:
                    e = bool(e)
                else:
                    symbolic = True
            elif isinstance(e, SymArray):
                c = concrete(e)
                if c is not None:
                    e = c
                elif e.ndim == 0:
                    e = Sym(e.a[()])
                    symbolic = True
                else:
                    symbolic = True
            elif isinstance(e, (list,)):
                e = np.asarray(e)
            out.append(e)
        return tuple(out), symbolic

    def __getitem__(self, k):
        if isinstance(k, str):
            raise IndexError("no fields")
        k, symbolic = self._key(k)
        if symbolic:
            return self._sym_get(k)
        r = self.a[k if len(k) != 1 else k[0]]
        if isinstance(r, T):
            return wrap_scalar(r)
        return SymArray(r, self.dtype, birth=self.birth)

    def _sym_get(self, k):
        if len(k) == 1 and isinstance(k[0], SymArray) and k[0].dtype == BOOL \
                and k[0].shape == self.shape:
            return Masked(self, k[0])
        if any(isinstance(e, SymArray) and e.dtype == BOOL for e in k):
            return self[self._concretize_key(k)]
        if len(k) == 1 and isinstance(k[0], SymArray) and self.ndim == 1:
            idx = k[0]
            return SymArray(_each(lambda t: self._select_1d(t), idx.a), self.dtype)
        if all(not isinstance(e, SymArray) for e in k):
            pos = [i for i, e in enumerate(k) if isinstance(e, Sym)]
            if len(k) == self.ndim and all(
                    isinstance(e, (Sym, int, np.integer)) for e in k):
                # scalar read with symbolic coordinates: ite chain, bounds forked
                sub = self.a
                key = tuple(slice(None) if isinstance(e, Sym) else e for e in k)
                sub = sub[key]
                ts = []
                for ax, i in enumerate(pos):
                    ts.append(_norm_index(k[i].t, sub.shape[ax]))
                return wrap_scalar(_select_nd(sub, ts))
        return self[self._concretize_key(k)]

    def _select_1d(self, t):
        return _select_nd(self.a, [_norm_index(t, self.a.shape[0])])

    def _concretize_key(self, k):
        out = []
        for e in k:
            if isinstance(e, Sym):
                e = int(e)
            elif isinstance(e, SymArray):
                if e.dtype == BOOL:
                    e = np.array([RT.decide(t) for t in e.a.reshape(-1)],
                                 dtype=bool).reshape(e.shape)
                else:
                    e = np.array([int(RT.concretize(t)) for t in e.a.reshape(-1)],
                                 dtype=np.int64).reshape(e.shape)
            out.append(e)
        return tuple(out)

    def __setitem__(self, k, v):
        g = RT.guard_since(self.birth)
        k, symbolic = self._key(k)
        if symbolic:
            return self._sym_set(k, v, g)
        key = k if len(k) != 1 else k[0]
        old = self.a[key]
        if isinstance(old, T):
            t = self._value_term(v)
            self.a[key] = t if g is tm.TRUE else tm.mk_ite(g, t, old)
            return
        if isinstance(v, Masked):
            v = v.compress()
        val = np.broadcast_to(_strip_lead(lift(v, self.dtype), old.ndim), old.shape)
        if g is tm.TRUE:
            # copy first: v may alias self
            self.a[key] = val.copy()
            return
        new = np.empty(old.shape, dtype=object)
        for i in np.ndindex(old.shape):
            new[i] = tm.mk_ite(g, val[i], old[i])
        self.a[key] = new

    def _value_term(self, v):
        if isinstance(v, Sym):
            return tm.mk_cast(v.t, self.dtype)
        if isinstance(v, SymArray):
            return tm.mk_cast(v.a.reshape(-1)[0], self.dtype)
        if isinstance(v, (int,)) and not isinstance(v, (bool, np.generic)) and self.dtype.kind in "iu" \
                and not RT.numba:
            info = np.iinfo(self.dtype)
            if not info.min <= v <= info.max:
                raise OverflowError("Python integer %s out of bounds for %s" % (v, self.dtype))
        return tm.const(v, self.dtype)

    def _sym_set(self, k, v, g):
        if len(k) == 1 and isinstance(k[0], SymArray) and k[0].dtype == BOOL:
            m = k[0]
            if m.ndim < self.ndim:
                ma = np.broadcast_to(
                    m.a.reshape(m.shape + (1,) * (self.ndim - m.ndim)), self.shape)
            else:
                ma = m.a
            if isinstance(v, Masked):
                if not v.same_mask(m):
                    raise Unsupported("masked store with a different mask")
                val = lift(v.base, self.dtype)
            else:
                vo = lift(v, self.dtype)
                if vo.ndim and vo.size != 1:
                    raise Unsupported("symbolic-mask store of an array")
                val = np.broadcast_to(vo.reshape(()), self.shape)
            for i in np.ndindex(self.shape):
                c = tm.mk_and(g, ma[i])
                self.a[i] = tm.mk_ite(c, val[i], self.a[i])
            return
        if len(k) == self.ndim and all(isinstance(e, (Sym, int, np.integer)) for e in k):
            t = self._value_term(v)
            axes = []
            for ax, e in enumerate(k):
                n = self.shape[ax]
                if isinstance(e, Sym):
                    axes.append([(j, c) for j, c in _index_cases(
                        _norm_index(e.t, n), n)])
                else:
                    axes.append([(int(e), tm.TRUE)])
            import itertools
            for combo in itertools.product(*axes):
                c = tm.mk_and(g, *[x[1] for x in combo])
                idx = tuple(x[0] for x in combo)
                self.a[idx] = tm.mk_ite(c, t, self.a[idx])
            return
        self[self._concretize_key(k)] = v

    def _inplace(self, uf, o):
        r = apply_ufunc(uf, self, o)
        if isinstance(r, Masked):
            raise Unsupported("in-place operation with a masked selection")
        rd = dtype_of(r)
        if not np.can_cast(rd, self.dtype, "same_kind"):
            raise np._core._exceptions._UFuncOutputCastingError(uf, "same_kind", rd, self.dtype, 0)
        if np.shape(r if not is_sym(r) else r.a if isinstance(r, SymArray) else ()) != self.shape \
                and np.broadcast_shapes(r.shape, self.shape) != self.shape:
            raise ValueError("non-broadcastable output operand")
        self[...] = r
        return self

    def __iadd__(self, o): return self._inplace(np.add, o)
    def __isub__(self, o): return self._inplace(np.subtract, o)
    def __imul__(self, o): return self._inplace(np.multiply, o)
    def __itruediv__(self, o): return self._inplace(np.true_divide, o)
    def __ifloordiv__(self, o): return self._inplace(np.floor_divide, o)
    def __imod__(self, o): return self._inplace(np.remainder, o)
    def __iand__(self, o): return self._inplace(np.bitwise_and, o)
    def __ior__(self, o): return self._inplace(np.bitwise_or, o)
    def __ixor__(self, o): return self._inplace(np.bitwise_xor, o)
    def __ipow__(self, o): return self._inplace(np.power, o)
    def __matmul__(self, o): return HANDLED[np.matmul](self, o)

    # -- methods
    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        dtype = np.dtype(dtype)
        if dtype == self.dtype and not copy:
            return self
        return SymArray(cast_obj(self.a, dtype), dtype)

    def copy(self, order="C"):
        return SymArray(self.a.copy(), self.dtype)

    def reshape(self, *shape, **k):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return self._view(self.a.reshape(shape))

    def ravel(self, order="C"): return self._view(self.a.ravel(order))
    def flatten(self, order="C"): return SymArray(self.a.flatten(order), self.dtype)
    def squeeze(self, axis=None): return self._view(self.a.squeeze(axis))
    def transpose(self, *axes): return self._view(self.a.transpose(*axes))
    def swapaxes(self, i, j): return self._view(self.a.swapaxes(i, j))
    def repeat(self, n, axis=None): return SymArray(self.a.repeat(n, axis), self.dtype)
    def take(self, idx, axis=None, **k): return SymArray(self.a.take(idx, axis), self.dtype)
    def diagonal(self, *a, **k): return SymArray(self.a.diagonal(*a, **k), self.dtype)

    def view(self, dtype=None, *a):
        if dtype is None or (isinstance(dtype, (np.dtype, type)) and not (
                isinstance(dtype, type) and issubclass(dtype, np.ndarray))
                and np.dtype(dtype) == self.dtype):
            return self._view(self.a.view())
        raise Unsupported("view with another dtype")

    def fill(self, v): self[...] = v
    def item(self, *args):
        if args:
            return self[args if len(args) > 1 else args[0]]
        if self.size != 1:
            raise ValueError("can only convert an array of size 1")
        return wrap_scalar(self.a.reshape(-1)[0])

    def tolist(self):
        c = concrete(self)
        if c is not None:
            return c.tolist()
        if self.ndim == 0:
            return wrap_scalar(self.a[()])
        if self.ndim == 1:
            return [wrap_scalar(t) for t in self.a]
        return [x.tolist() for x in self]

    def sort(self, axis=-1, kind=None, order=None, **k):
        r = HANDLED[np.sort](self, axis=axis)
        self[...] = r

    def nonzero(self):
        return HANDLED[np.nonzero](self)

    def round(self, decimals=0, out=None):
        return HANDLED[np.round](self, decimals)

    def clip(self, min=None, max=None, out=None, **k):
        return HANDLED[np.clip](self, min, max)


def _red(name):
    f = getattr(np, name)

    def m(self, *a, **k):
        return HANDLED[f](self, *a, **k)

    m.__name__ = name
    return m


for _n in ("sum", "prod", "min", "max", "mean", "std", "var", "any", "all", "argmin",
           "argmax", "cumsum", "argsort", "cumprod", "ptp", "dot"):
    if hasattr(np, _n):
        setattr(SymArray, _n, _red(_n))


def _strip_lead(v, nd):
    while v.ndim > nd and v.shape[0] == 1:
        v = v[0]
    return v


def _each(f, a):
    out = np.empty(a.shape, dtype=object)
    if a.ndim == 0:
        out[()] = f(a[()])
        return out
    for i in np.ndindex(a.shape):
        out[i] = f(a[i])
    return out


def _norm_index(t, n):
    """Bounds-checked, non-negative index term (forks on out of range)."""
    if t.dt.kind not in "iub":
        raise IndexError("only integers are valid indices")
    t = tm.mk_cast(t, np.int64)
    lo = tm.mk_cmp("le", tm.const(-n, np.int64), t)
    hi = tm.mk_cmp("lt", t, tm.const(n, np.int64))
    if not RT.decide(tm.mk_and(lo, hi)):
        raise IndexError("index out of bounds")
    neg = tm.mk_cmp("lt", t, tm.const(0, np.int64))
    if RT.numba and RT.feasible(RT.pc() + [g for _, g in RT.guards] + [neg]) is False:
        return t
    return tm.mk_ite(neg, tm.mk_op("add", np.dtype(np.int64), t, tm.const(n, np.int64)), t)


def _index_cases(t, n):
    for j in range(n):
        c = tm.mk_eq(t, tm.const(j, np.int64))
        if c is not tm.FALSE:
            yield j, c


def _select_nd(sub, ts):
    if not ts:
        return sub[()] if isinstance(sub, np.ndarray) else sub
    r = None
    for j, c in reversed(list(_index_cases(ts[0], sub.shape[0]))):
        v = _select_nd(sub[j], ts[1:])
        r = v if r is None else tm.mk_ite(c, v, r)
    return r


import numbers  # noqa: E402

numbers.Number.register(Sym)


class Masked(_Ops):
    """x[mask] for a symbolic mask: elementwise results keep the full shape."""
    __array_priority__ = 3000

    def __init__(self, base, mask):
        self.base = base
        self.mask = mask

    dtype = property(lambda s: s.base.dtype)
    ndim = 1

    def same_mask(self, m):
        return m.shape == self.mask.shape and all(
            a is b for a, b in zip(m.a.reshape(-1), self.mask.a.reshape(-1)))

    @staticmethod
    def ufunc(uf, inputs):
        ms = [x for x in inputs if isinstance(x, Masked)]
        inputs = [x.reshape(()) if isinstance(x, (SymArray, np.ndarray)) and x.shape == (1,) else x for x in inputs]
        if any(isinstance(x, (SymArray, np.ndarray)) and np.ndim(x) for x in inputs):
            return apply_ufunc(uf, *[x.compress() if isinstance(x, Masked) else x for x in inputs])
        for x in inputs:
            if isinstance(x, Masked):
                if not x.same_mask(ms[0].mask):
                    raise Unsupported("operands selected by different masks")
        r = apply_ufunc(uf, *[x.base if isinstance(x, Masked) else x for x in inputs])
        return Masked(r, ms[0].mask)

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        if method != "__call__" or kw:
            return uf(*[x.compress() if isinstance(x, Masked) else x for x in inputs], **kw)
        return apply_ufunc(uf, *inputs)

    def __array_function__(self, func, types, args, kwargs):
        def un(x):
            if isinstance(x, Masked):
                return x.compress()
            if isinstance(x, (list, tuple)):
                return type(x)(un(e) for e in x)
            return x
        return func(*[un(a) for a in args], **{k: un(v) for k, v in kwargs.items()})

    def compress(self):
        """Fork on every mask element to obtain the ordinary selection."""
        m = np.array([RT.decide(t) for t in self.mask.a.reshape(-1)], dtype=bool)
        return SymArray(self.base.a.reshape(-1)[m], self.base.dtype)

    def astype(self, dt, **k):
        return Masked(self.base.astype(dt), self.mask)

    def copy(self):
        return Masked(self.base.copy(), self.mask)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.compress(), name)

    def __len__(self):
        return len(self.compress())

    def __iter__(self):
        return iter(self.compress())

    def __getitem__(self, k):
        return self.compress()[k]


# --------------------------------------------------------------------------


def _array_ufunc(uf, method, inputs, kw):
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    dtype = kw.pop("dtype", None)
    kw.pop("casting", None)
    kw.pop("subok", None)
    kw.pop("order", None)
    if method == "reduce":
        axis = kw.pop("axis", 0)
        keepdims = kw.pop("keepdims", False)
        kw.pop("initial", None)
        m = {"add": np.sum, "multiply": np.prod, "maximum": np.max, "minimum": np.min,
             "logical_and": np.all, "logical_or": np.any, "bitwise_or": np.any,
             "bitwise_and": np.all}.get(uf.__name__)
        if m is None or kw or where is not True:
            raise Unsupported("%s.reduce" % uf.__name__)
        if uf.__name__.startswith("bitwise") and inputs[0].dtype != BOOL:
            raise Unsupported("%s.reduce" % uf.__name__)
        if isinstance(inputs[0], SymArray) is False:
            inputs = (SymArray(lift(inputs[0]), dtype_of(inputs[0])),)
        ex = {"dtype": dtype} if dtype is not None else {}
        return HANDLED[m](inputs[0], axis=axis, keepdims=keepdims, **ex)
    if method == "at":
        raise Unsupported("ufunc.at")
    if method == "outer":
        a, b = inputs
        a = np.asarray(a) if not is_sym(a) else a
        r = apply_ufunc(uf, a.reshape(a.shape + (1,) * np.ndim(b)), b)
        return r
    if method == "accumulate" and uf is np.add:
        return HANDLED[np.cumsum](inputs[0], axis=kw.get("axis", 0))
    if method != "__call__" or kw:
        raise Unsupported("%s.%s %s" % (uf.__name__, method, list(kw)))
    if where is not True:
        r = apply_ufunc(uf, *inputs, dtype=dtype)
        base = out[0] if out else None
        if base is None:
            raise Unsupported("ufunc where= without out=")
        r = HANDLED[np.where](where, r, base)
    else:
        r = apply_ufunc(uf, *inputs, dtype=dtype)
    if out:
        o = out[0] if isinstance(out, tuple) else out
        if isinstance(o, np.ndarray):
            c = concrete(r)
            if c is None:
                raise Unsupported("symbolic result stored into a concrete array")
            o[...] = c
            return o
        o[...] = r
        return o
    return r


def _map_args(x):
    """Replace symbolic arrays by object arrays; collect dtypes."""
    if isinstance(x, SymArray):
        return x.a
    if isinstance(x, Sym):
        return lift(x)
    if isinstance(x, (list, tuple)):
        if any(is_sym(e) for e in x):
            dts = [dtype_of(e) for e in x]
            dt = np.result_type(*dts)
            return type(x)(lift(e, dt) for e in x)
        return type(x)(_map_args(e) for e in x)
    return x


def _first_dtype(x):
    if is_sym(x):
        return x.dtype
    if isinstance(x, (list, tuple)):
        if any(is_sym(e) for e in x):
            return np.result_type(*[dtype_of(e) for e in x])
        for e in x:
            d = _first_dtype(e)
            if d is not None:
                return d
    return None


def _wrap_out(r, dt):
    if isinstance(r, T):
        return wrap_scalar(r)
    if isinstance(r, np.ndarray) and r.dtype == object:
        return SymArray(r, dt)
    if isinstance(r, tuple) and hasattr(r, "_fields"):
        return r
    if isinstance(r, (list, tuple)):
        return type(r)(_wrap_out(e, dt) for e in r)
    return r


def _all_concrete(x):
    """Concrete version of nested args, or raise LookupError."""
    if is_sym(x):
        c = concrete(x)
        if c is None:
            raise LookupError
        return c
    if isinstance(x, (list, tuple)) and not hasattr(x, "_fields"):
        return type(x)(_all_concrete(e) for e in x)
    if isinstance(x, dict):
        return {k: _all_concrete(v) for k, v in x.items()}
    return x


def array_function(func, args, kwargs):
    h = HANDLED.get(func)
    if h is not None:
        return h(*args, **kwargs)
    if func in STRUCTURAL:
        dt = _first_dtype(list(args)) if not is_sym(args[0]) else args[0].dtype
        if dt is None:
            for v in kwargs.values():
                dt = _first_dtype(v)
                if dt is not None:
                    break
        r = func(*[_map_args(a) for a in args],
                 **{k: _map_args(v) for k, v in kwargs.items()})
        return _wrap_out(r, dt)
    try:
        a = _all_concrete(list(args))
        k = _all_concrete(kwargs)
    except LookupError:
        raise Unsupported("numpy function %s" % getattr(func, "__name__", func))
    return func(*a, **k)
