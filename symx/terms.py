"""Typed, hash-consed term DAG.

A term is (op, dtype, args).  `dtype` is a numpy dtype; the numeric theory used
for a term is chosen later, by the encoder (exact bit-vectors / IEEE floats, or
exact integers / reals with explicit NaN and infinity flags).  Constant
sub-terms are folded with numpy itself, so folding has numpy's semantics by
construction; `evaluate` gives the same semantics to a whole term, which is
what counterexample replay and the encoding validation use.
"""
import math
import warnings

import numpy as np

BOOL = np.dtype(bool)

_table = {}
_counter = [0]


class T:
    __slots__ = ("op", "dt", "args", "id", "rng", "__weakref__")

    def __init__(self, op, dt, args, id):
        self.op = op
        self.dt = dt
        self.args = args
        self.id = id
        self.rng = 0

    def __repr__(self):
        return show(self, 4)


# declared input variables: name -> dict(nan=bool, inf=bool, lo=, hi=)
VARINFO = {}


def declare(name, dt, nan=False, inf=False, lo=None, hi=None):
    """Input variable with a declared domain (the domain is part of the claim)."""
    dt = np.dtype(dt)
    info = VARINFO[name] = dict(nan=nan and dt.kind == "f", inf=inf and dt.kind == "f", lo=lo, hi=hi)
    # the domain is part of the variable's identity
    return _mk("var", dt, (name, (info["nan"], info["inf"], lo, hi)))


def _dom(t):
    if len(t.args) < 2:
        return None
    return dict(zip(("nan", "inf", "lo", "hi"), t.args[1]))


def rng(t):
    """(lo, hi) bounds of the non-NaN values of t, or None."""
    r = t.rng
    if r == 0:
        r = t.rng = _rng(t)
    return r


def _full(dt):
    if dt.kind in "iu":
        i = np.iinfo(dt)
        return (int(i.min), int(i.max))
    if dt == BOOL:
        return (0, 1)
    return None


def _rng(t):
    dt = t.dt
    op = t.op
    if op == "const":
        v = t.args[0]
        if dt.kind == "f":
            return None if np.isnan(v) else (float(v), float(v))
        return (int(v), int(v))
    if op == "var":
        i = _dom(t)
        if i and i["lo"] is not None and not i["inf"]:
            return (i["lo"], i["hi"])
        return _full(dt)
    r = None
    if op == "ite":
        a, b = t.args[1], t.args[2]
        ra, rb = rng(a), rng(b)
        if a.op == "const" and ra is None and dt.kind == "f":
            return rb
        if b.op == "const" and rb is None and dt.kind == "f":
            return ra
        if ra and rb:
            return (min(ra[0], rb[0]), max(ra[1], rb[1]))
        return _full(dt)
    if op == "cast":
        ra = rng(t.args[0])
        if ra is None:
            return _full(dt)
        if dt.kind in "iu":
            lo, hi = _full(dt)
            if not (np.isfinite(ra[0]) and np.isfinite(ra[1])):
                return (lo, hi)
            a = (int(ra[0]), int(ra[1]))
            if t.args[0].dt.kind == "f" and mk_isnan(t.args[0]) is not FALSE:
                return (lo, hi)
            return a if lo <= a[0] and a[1] <= hi else (lo, hi)
        if dt.kind == "f":
            with np.errstate(all="ignore"):
                return (float(dt.type(ra[0])), float(dt.type(ra[1])))
        return _full(dt)
    if op in ("add", "sub", "mul", "neg", "abs", "floor", "ceil", "rint", "trunc"):
        rs = [rng(a) for a in t.args]
        if any(x is None for x in rs):
            return _full(dt)
        if op == "add":
            r = (rs[0][0] + rs[1][0], rs[0][1] + rs[1][1])
        elif op == "sub":
            r = (rs[0][0] - rs[1][1], rs[0][1] - rs[1][0])
        elif op == "neg":
            r = (-rs[0][1], -rs[0][0])
        elif op == "abs":
            lo, hi = rs[0]
            r = (0 if lo <= 0 <= hi else min(abs(lo), abs(hi)), max(abs(lo), abs(hi)))
        elif op == "mul":
            ps = [x * y for x in rs[0] for y in rs[1]]
            if any(p != p for p in ps):
                return None
            r = (min(ps), max(ps))
        else:
            import math
            if not (np.isfinite(rs[0][0]) and np.isfinite(rs[0][1])):
                return rs[0]
            r = (math.floor(rs[0][0]), math.ceil(rs[0][1]))
        if dt.kind in "iu":
            lo, hi = _full(dt)
            if r[0] < lo or r[1] > hi:
                return (lo, hi)
            return r
        if any(x != x for x in r):
            return None
        if dt.kind == "f":
            with np.errstate(all="ignore"):
                return (float(dt.type(r[0])), float(dt.type(r[1])))
        return r
    return _full(dt)


def _mk(op, dt, args):
    key = (op, dt.str, tuple(a.id if isinstance(a, T) else a for a in args))
    t = _table.get(key)
    if t is None:
        _counter[0] += 1
        t = T(op, dt, args, _counter[0])
        _table[key] = t
    return t


def show(t, depth=6):
    if t.op == "const":
        return repr(t.args[0].item() if hasattr(t.args[0], "item") else t.args[0])
    if t.op == "var":
        return t.args[0]
    if depth == 0:
        return "..."
    return "%s(%s)" % (
        t.op if t.op != "cast" else "cast:" + t.dt.name,
        ", ".join(show(a, depth - 1) if isinstance(a, T) else repr(a) for a in t.args),
    )


def const(v, dt=None):
    """Constant term of dtype dt (numpy cast semantics, v must be concrete)."""
    if dt is None:
        dt = np.asarray(v).dtype
    dt = np.dtype(dt)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        v = np.asarray(v).astype(dt)[()]
    key = ("const", dt.str, v.tobytes())
    t = _table.get(key)
    if t is None:
        _counter[0] += 1
        t = T("const", dt, (v,), _counter[0])
        _table[key] = t
    return t


def var(name, dt):
    return _mk("var", np.dtype(dt), (name,))


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[0]


TRUE = const(True, BOOL)
FALSE = const(False, BOOL)


def _init_consts():
    global TRUE, FALSE
    TRUE = const(True, BOOL)
    FALSE = const(False, BOOL)


# --------------------------------------------------------------------------
# concrete semantics of every operator, by numpy

_UF = {
    "add": np.add, "sub": np.subtract, "mul": np.multiply,
    "div": np.true_divide, "floordiv": np.floor_divide, "mod": np.remainder,
    "fmod": np.fmod, "pow": np.power, "neg": np.negative, "abs": np.absolute,
    "floor": np.floor, "ceil": np.ceil, "trunc": np.trunc, "rint": np.rint,
    "sqrt": np.sqrt, "bitand": np.bitwise_and, "bitor": np.bitwise_or,
    "bitxor": np.bitwise_xor, "invert": np.invert, "shl": np.left_shift,
    "shr": np.right_shift, "eq": np.equal, "lt": np.less, "le": np.less_equal,
    "isnan": np.isnan, "isinf": np.isinf, "and": np.logical_and,
    "or": np.logical_or, "not": np.logical_not, "signbit": np.signbit,
}


_UF_CONC = {"frexp_m": lambda v: np.frexp(v)[0], "frexp_e": lambda v: np.frexp(v)[1]}


def _conc(op, dt, vals):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        if op == "cast":
            return np.asarray(vals[0]).astype(dt)[()]
        if op == "ite":
            return vals[1] if vals[0] else vals[2]
        if op in ("and", "or"):
            r = all(vals) if op == "and" else any(vals)
            return np.bool_(r)
        if op in ("isnan", "isinf") and np.asarray(vals[0]).dtype.kind not in "fc":
            return np.bool_(False)
        f = _UF.get(op)
        if f is None:
            if op.startswith("uf:"):
                f = _UF_CONC.get(op[3:]) or getattr(np, op[3:])
            else:
                raise NotImplementedError(op)
        if op == "pow" and dt.kind in "iu" and vals[1] < 0:
            return dt.type(0)
        r = f(*vals)
        return np.asarray(r).astype(dt)[()]


# --------------------------------------------------------------------------
# constructors with folding


def mk_not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return _mk("not", BOOL, (a,))


def mk_and(*xs):
    out = []
    seen = set()
    for x in xs:
        if x.op == "and":
            items = x.args
        else:
            items = (x,)
        for y in items:
            if y is FALSE:
                return FALSE
            if y is TRUE or y.id in seen:
                continue
            seen.add(y.id)
            out.append(y)
    for y in out:
        if y.op == "not" and y.args[0].id in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk("and", BOOL, tuple(out))


def mk_or(*xs):
    out = []
    seen = set()
    for x in xs:
        items = x.args if x.op == "or" else (x,)
        for y in items:
            if y is TRUE:
                return TRUE
            if y is FALSE or y.id in seen:
                continue
            seen.add(y.id)
            out.append(y)
    for y in out:
        if y.op == "not" and y.args[0].id in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mk("or", BOOL, tuple(out))


def mk_implies(a, b):
    return mk_or(mk_not(a), b)


def mk_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    assert a.dt == b.dt, (a.dt, b.dt)
    if c.op == "not":
        return mk_ite(c.args[0], b, a)
    if a.dt == BOOL:
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return mk_not(c)
        if a is TRUE:
            return mk_or(c, b)
        if b is FALSE:
            return mk_and(c, a)
        if a is FALSE:
            return mk_and(mk_not(c), b)
        if b is TRUE:
            return mk_or(mk_not(c), a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    # ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
    if b.op == "ite" and b.args[1] is a:
        return mk_ite(mk_or(c, b.args[0]), a, b.args[2])
    return _mk("ite", a.dt, (c, a, b))


def mk_isnan(a):
    if a.dt.kind not in "f":
        return FALSE
    if a.op == "const":
        return TRUE if np.isnan(a.args[0]) else FALSE
    if a.op == "var":
        i = _dom(a)
        if i is not None and not i["nan"]:
            return FALSE
    if a.op in ("add", "sub", "mul") and a.args:
        # finite, NaN-free operands cannot produce NaN
        if all(_finite(x) for x in a.args):
            return FALSE
    if a.op == "div" and all(_finite(x) for x in a.args):
        r = rng(a.args[1])
        if r[0] > 0 or r[1] < 0:
            return FALSE
    if a.op == "cast":
        return mk_isnan(a.args[0])
    if a.op == "ite":
        c, x, y = a.args
        nx, ny = mk_isnan(x), mk_isnan(y)
        return mk_ite(c, nx, ny)
    if a.op in ("neg", "abs", "floor", "ceil", "rint", "trunc"):
        return mk_isnan(a.args[0])
    return _mk("isnan", BOOL, (a,))


def _finite(t):
    """t is certainly neither NaN nor infinite."""
    if t.dt.kind != "f":
        return True
    r = rng(t)
    return (r is not None and abs(r[0]) < 1e30 and abs(r[1]) < 1e30
            and mk_isnan(t) is FALSE)


def _int_like(t):
    return t.dt.kind in "iub"


def mk_eq(a, b):
    """IEEE / integer equality (NaN != NaN)."""
    assert a.dt == b.dt, (a.dt, b.dt)
    if a.op == "const" and b.op == "const":
        return TRUE if bool(a.args[0] == b.args[0]) else FALSE
    if a is b:
        return mk_not(mk_isnan(a))
    if a.dt == BOOL:
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return mk_not(b)
        if b is FALSE:
            return mk_not(a)
    for x, y in ((a, b), (b, a)):
        if x.op == "const" and x.dt.kind == "f" and np.isnan(x.args[0]):
            return FALSE
        if x.op == "const" and y.op == "ite":
            # push constants through ite when a branch is constant
            c, p, q = y.args
            if p.op == "const" or q.op == "const":
                return mk_ite(c, mk_eq(p, x), mk_eq(q, x))
    ra, rb = rng(a), rng(b)
    if ra and rb and (ra[1] < rb[0] or rb[1] < ra[0]):
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return _mk("eq", BOOL, (a, b))


def mk_same(a, b):
    """Observable equality: equal, or both NaN."""
    if a.dt != b.dt:
        dt = np.result_type(a.dt, b.dt)
        a, b = mk_cast(a, dt), mk_cast(b, dt)
    if a is b:
        return TRUE
    if a.dt.kind != "f":
        return mk_eq(a, b)
    na, nb = mk_isnan(a), mk_isnan(b)
    return mk_or(mk_and(na, nb), mk_and(mk_not(na), mk_not(nb), mk_eq(a, b)))


def mk_cmp(op, a, b):
    assert a.dt == b.dt
    if a.op == "const" and b.op == "const":
        return TRUE if bool(_conc(op, BOOL, (a.args[0], b.args[0]))) else FALSE
    for x in (a, b):
        if x.op == "const" and x.dt.kind == "f" and np.isnan(x.args[0]):
            return FALSE
    if a is b:
        return FALSE if op == "lt" else mk_not(mk_isnan(a))
    if a.dt == BOOL:
        if op == "lt":
            return mk_and(mk_not(a), b)
        return mk_or(mk_not(a), b)
    ra, rb = rng(a), rng(b)
    if ra and rb:
        if (ra[0] > rb[1]) or (op == "lt" and ra[0] >= rb[1]):
            return FALSE
        if (ra[1] < rb[0]) or (op == "le" and ra[1] <= rb[0]):
            na, nb = mk_isnan(a), mk_isnan(b)
            return mk_and(mk_not(na), mk_not(nb))
    return _mk(op, BOOL, (a, b))


_EXACT_CAST = {}


def exact_cast(src, dst):
    k = (src.str, dst.str)
    r = _EXACT_CAST.get(k)
    if r is None:
        r = bool(np.can_cast(src, dst, "safe"))
        if r and src.kind in "iu" and dst.kind == "f":
            # numpy calls int64->float64 safe; it is not exact
            bits = src.itemsize * 8 - (1 if src.kind == "i" else 0)
            r = bits <= {2: 11, 4: 24, 8: 53}.get(dst.itemsize, 0)
        _EXACT_CAST[k] = r
    return r


def mk_cast(a, dt):
    dt = np.dtype(dt)
    if a.dt == dt:
        return a
    if a.op == "const":
        return const(a.args[0], dt)
    if dt == BOOL:
        # nonzero (NaN is True)
        return mk_not(mk_eq(a, const(0, a.dt)))
    if a.op == "cast":
        inner = a.args[0]
        if exact_cast(inner.dt, a.dt):
            # value preserved by the inner cast
            if inner.dt == dt:
                return inner
            if inner.dt.kind in "biu" and dt.kind in "iu" and a.dt.kind in "iu":
                return mk_cast(inner, dt)
            if exact_cast(inner.dt, dt):
                return mk_cast(inner, dt)
    if a.op == "ite":
        c, x, y = a.args
        if x.op == "const" or y.op == "const" or a.dt == BOOL:
            return mk_ite(c, mk_cast(x, dt), mk_cast(y, dt))
    return _mk("cast", dt, (a,))


_COMM = {"add", "mul", "bitand", "bitor", "bitxor"}


def mk_op(op, dt, *args):
    """Arithmetic on operands already cast to the loop dtype."""
    dt = np.dtype(dt)
    if op == "isnan":
        return mk_isnan(args[0])
    if op == "eq":
        return mk_eq(*args)
    if op in ("lt", "le"):
        return mk_cmp(op, *args)
    if op == "cast":
        return mk_cast(args[0], dt)
    if all(a.op == "const" for a in args):
        return const(_conc(op, dt, tuple(a.args[0] for a in args)), dt)
    if dt == BOOL:
        if op in ("add", "bitor"):
            return mk_or(*args)
        if op in ("mul", "bitand"):
            return mk_and(*args)
        if op == "bitxor":
            return mk_not(mk_eq(*args))
        if op == "invert":
            return mk_not(args[0])
    if dt.kind == "f" and op in ("add", "sub", "mul", "div", "mod", "fmod", "floordiv"):
        for a in args:
            if a.op == "const" and np.isnan(a.args[0]):
                return const(np.nan, dt)
    if op in ("add", "sub") and dt.kind in "iu" and args[1].op == "const" and args[1].args[0] == 0:
        return args[0]
    if op == "add" and dt.kind in "iu" and args[0].op == "const" and args[0].args[0] == 0:
        return args[1]
    if op == "mul":
        for i in (0, 1):
            a, b = args[i], args[1 - i]
            if a.op == "const" and a.args[0] == 1:
                return b
            if a.op == "const" and dt.kind in "iu" and a.args[0] == 0:
                return a
    if op == "div" and args[1].op == "const" and args[1].args[0] == 1:
        return args[0]
    if op == "abs" and dt.kind in "ub":
        return args[0]
    if op in ("floor", "ceil", "rint", "trunc") and (
        dt.kind in "iub" or (args[0].op == "cast" and _int_like(args[0].args[0]))
    ):
        return args[0]
    if op in ("bitand", "bitor") and args[0] is args[1]:
        return args[0]
    if op in _COMM and args[0].id > args[1].id:
        args = (args[1], args[0])
    return _mk(op, dt, tuple(args))


def mk_uf(name, dt, *args):
    dt = np.dtype(dt)
    if all(a.op == "const" for a in args):
        return const(_conc("uf:" + name, dt, tuple(a.args[0] for a in args)), dt)
    return _mk("uf:" + name, dt, tuple(args))


# --------------------------------------------------------------------------
# traversal, evaluation, substitution


def postorder(roots):
    seen = set()
    out = []
    stack = [(r, False) for r in roots]
    while stack:
        t, done = stack.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        stack.append((t, True))
        for a in t.args:
            if isinstance(a, T) and a.id not in seen:
                stack.append((a, False))
    return out


def free_vars(roots):
    return [t for t in postorder(roots) if t.op == "var"]


class Unassigned(Exception):
    pass


def evaluate(roots, env, cache=None, default=None):
    """Concrete numpy value of each root under env: var name -> numpy value."""
    val = {} if cache is None else cache
    for t in postorder(roots):
        if t.id in val:
            continue
        if t.op == "const":
            val[t.id] = t.args[0]
        elif t.op == "var":
            if t.args[0] in env:
                val[t.id] = np.asarray(env[t.args[0]]).astype(t.dt)[()]
            elif default is not None:
                val[t.id] = np.asarray(default).astype(t.dt)[()]
            else:
                raise Unassigned(t.args[0])
        else:
            val[t.id] = _conc(t.op, t.dt, tuple(val[a.id] for a in t.args))
    return [val[r.id] for r in roots]


def rebuild(t, args):
    op, dt = t.op, t.dt
    if op == "not":
        return mk_not(args[0])
    if op == "and":
        return mk_and(*args)
    if op == "or":
        return mk_or(*args)
    if op == "ite":
        return mk_ite(*args)
    if op.startswith("uf:"):
        return mk_uf(op[3:], dt, *args)
    return mk_op(op, dt, *args)


def substitute(roots, mapping):
    """mapping: var term id -> term."""
    new = dict(mapping)
    for t in postorder(roots):
        if t.id in new:
            continue
        if t.op in ("const", "var"):
            new[t.id] = t
        else:
            new[t.id] = rebuild(t, tuple(new[a.id] for a in t.args))
    return [new[r.id] for r in roots]
