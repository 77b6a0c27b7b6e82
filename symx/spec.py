"""Small algebra for writing specifications over terms.

Everything here works on single cells (`Sym`, numpy scalars, Python numbers)
and never calls the code under check.
"""
import numpy as np

from . import terms as tm
from .arr import Sym, SymArray, lift, wrap_scalar

F8 = np.dtype(np.float64)
I8 = np.dtype(np.int64)


def T_(x, dt=None):
    """term of a scalar"""
    if isinstance(x, tm.T):
        t = x
    elif isinstance(x, Sym):
        t = x.t
    elif isinstance(x, SymArray):
        t = x.a.reshape(-1)[0]
    elif isinstance(x, (bool, np.bool_)):
        t = tm.const(bool(x), bool)
    elif isinstance(x, np.generic):
        t = tm.const(x, x.dtype)
    elif isinstance(x, int):
        t = tm.const(x, I8)
    else:
        t = tm.const(float(x), F8)
    if dt is not None and t.dt != np.dtype(dt):
        t = tm.mk_cast(t, np.dtype(dt))
    return t


def B(x):
    t = T_(x)
    assert t.dt == tm.BOOL, t
    return t


def And(*xs):
    xs = [B(x) for x in _flat(xs)]
    return tm.mk_and(*xs) if xs else tm.TRUE


def Or(*xs):
    xs = [B(x) for x in _flat(xs)]
    return tm.mk_or(*xs) if xs else tm.FALSE


def Not(x):
    return tm.mk_not(B(x))


def Implies(a, b):
    return tm.mk_or(tm.mk_not(B(a)), B(b))


def Iff(a, b):
    return tm.mk_eq(B(a), B(b))


def Ite(c, a, b):
    a, b = T_(a), T_(b)
    if a.dt != b.dt:
        dt = np.result_type(a.dt, b.dt)
        a, b = tm.mk_cast(a, dt), tm.mk_cast(b, dt)
    return tm.mk_ite(B(c), a, b)


def _flat(xs):
    for x in xs:
        if isinstance(x, (list, tuple)) or hasattr(x, "__next__"):
            yield from _flat(x)
        elif isinstance(x, SymArray):
            yield from x.a.reshape(-1)
        else:
            yield x


def num(op, *args, dt=F8):
    return tm.mk_op(op, dt, *[T_(a, dt) for a in args])


def _cdt(a, b):
    a, b = T_(a), T_(b)
    if a.dt == b.dt:
        return a, b
    if a.dt.kind in "iub" and b.dt.kind in "iub":
        dt = np.promote_types(a.dt, b.dt)
        if dt.kind == "f":
            dt = I8
    else:
        dt = F8
    return tm.mk_cast(a, dt), tm.mk_cast(b, dt)


def eq(a, b):
    return tm.mk_eq(*_cdt(a, b))


def lt(a, b):
    return tm.mk_cmp("lt", *_cdt(a, b))


def le(a, b):
    return tm.mk_cmp("le", *_cdt(a, b))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def isnan(a):
    a = T_(a)
    return tm.mk_isnan(a) if a.dt.kind == "f" else tm.FALSE


def isfinite(a):
    a = T_(a)
    if a.dt.kind != "f":
        return tm.TRUE
    from .arr import t_isfinite
    return t_isfinite(a)


def exact(a, b):
    """identical value (NaN equals NaN)"""
    return tm.mk_same(*_cdt(a, b))


def total(xs, dt=F8):
    r = None
    for x in xs:
        x = T_(x, dt)
        r = x if r is None else tm.mk_op("add", dt, r, x)
    return tm.const(0, dt) if r is None else r


def cells(a):
    """iterate (index, term) of a SymArray"""
    for i in np.ndindex(a.shape):
        yield i, a.a[i]


class Spec:
    """Comparison policy: exact in symbolic mode, tolerant on replay of floats."""

    def __init__(self, tol=0.0, atol=0.0):
        self.tol = tol
        self.atol = atol

    def same(self, a, b):
        a, b = _cdt(a, b)
        e = tm.mk_same(a, b)
        if not self.tol or a.dt.kind != "f" or e is tm.TRUE:
            return e
        d = tm.mk_op("abs", a.dt, tm.mk_op("sub", a.dt, a, b))
        m = tm.mk_op("abs", a.dt, b)
        lim = tm.mk_op("add", a.dt, tm.const(self.atol, a.dt),
                       tm.mk_op("mul", a.dt, tm.const(self.tol, a.dt), m))
        return tm.mk_or(e, tm.mk_cmp("le", d, lim))

    def le(self, a, b):
        """a <= b, up to tolerance on replay"""
        a, b = _cdt(a, b)
        e = tm.mk_cmp("le", a, b)
        if not self.tol or a.dt.kind != "f":
            return e
        return tm.mk_or(e, self.same(a, b))

    def ge(self, a, b):
        return self.le(b, a)
