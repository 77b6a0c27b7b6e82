"""Encoders (term DAG -> z3) and solver access."""
import math
import subprocess
import time
from fractions import Fraction

import numpy as np
import z3

from . import terms as tm
from .core import Unsupported
from .terms import BOOL

INF = float("inf")


def zbool(b):
    return z3.BoolVal(bool(b))


def zand(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def zor(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def znot(x):
    if x is True:
        return False
    if x is False:
        return True
    return z3.Not(x)


def _b(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def zite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, bool) and isinstance(b, bool) and a == b:
            return a
        return z3.If(c, _b(a), _b(b))
    if a is b:
        return a
    return z3.If(c, a, b)


class RealEncoder:
    """Exact integers (wrapping where the interval analysis cannot exclude it)
    and reals with explicit NaN / +inf / -inf flags; no rounding."""

    name = "int/real"

    def __init__(self, sqrt_axioms=True, sqrt_facts=False):
        self.sqrt_facts = sqrt_facts
        self.memo = {}
        self.side = []
        self.sides = {}
        self.uf = {}
        self.sqrt_axioms = sqrt_axioms
        self.uf_apps = []    # (name, arg exprs, result expr, term)
        self.varx = {}
        self.normed, self.polys, self.atoms = {}, {}, {}
        self.apps = {}       # applications of uninterpreted functions
        self.cheap = {}      # term id -> linear facts about its application

    def reset(self):
        pass

    def enc(self, roots):
        cone, facts = [], []
        for t in tm.postorder(roots):
            if t.id not in self.memo:
                self.side = []
                self.memo[t.id] = self._enc(t)
                if self.side:
                    self.sides[t.id] = self.side
            if t.id in self.sides:
                cone.extend(self.sides[t.id])
            if t.id in self.cheap:
                facts.extend(self.cheap[t.id])
        self.cone, self.facts = cone, facts
        return [self.memo[r.id] for r in roots]

    # floats are (nan, pinf, ninf, val)
    def _const(self, t):
        v = t.args[0]
        if t.dt == BOOL:
            return bool(v)
        if t.dt.kind in "iu":
            return z3.IntVal(int(v))
        if t.dt.kind == "f":
            f = float(v)
            if math.isnan(f):
                return (True, False, False, z3.RealVal(0))
            if math.isinf(f):
                return (False, f > 0, f < 0, z3.RealVal(0))
            fr = Fraction(f)
            return (False, False, False, z3.RealVal("%d/%d" % (fr.numerator, fr.denominator)))
        raise Unsupported("constant of dtype %s" % t.dt)

    def _enc(self, t):
        op, dt = t.op, t.dt
        m = self.memo
        if op == "const":
            return self._const(t)
        if op == "var":
            return self._var(t)
        a = [m[x.id] for x in t.args]
        if op == "and":
            return zand(*a)
        if op == "or":
            return zor(*a)
        if op == "not":
            return znot(a[0])
        if op == "ite":
            if dt.kind == "f":
                c, x, y = a
                # the value part of a NaN is never read
                if x[0] is True:
                    return (zor(c, y[0]), zand(znot(c), y[1]), zand(znot(c), y[2]), y[3])
                if y[0] is True:
                    return (zor(znot(c), x[0]), zand(c, x[1]), zand(c, x[2]), x[3])
                return tuple(zite(a[0], x, y) for x, y in zip(a[1], a[2]))
            return zite(a[0], a[1], a[2])
        if op == "isnan":
            return a[0][0]
        if op == "isinf":
            return zor(a[0][1], a[0][2])
        if op == "eq":
            if t.args[0].dt == BOOL:
                return _b(a[0]) == _b(a[1])
            if t.args[0].dt.kind in "iu":
                return a[0] == a[1]
            x, y = a
            fin = zand(*[znot(f) for f in x[:3] + y[:3]])
            return zor(zand(x[1], y[1]), zand(x[2], y[2]), zand(fin, x[3] == y[3]))
        if op in ("lt", "le"):
            if t.args[0].dt.kind in "iu":
                return a[0] < a[1] if op == "lt" else a[0] <= a[1]
            x, y = a
            nn = zand(znot(x[0]), znot(y[0]))
            fin = zand(*[znot(f) for f in x[1:3] + y[1:3]])
            cmp = x[3] < y[3] if op == "lt" else x[3] <= y[3]
            infs = zor(zand(x[2], znot(y[2])), zand(y[1], znot(x[1])))
            if op == "le":
                infs = zor(infs, zand(x[2], y[2]), zand(x[1], y[1]))
            return zand(nn, zor(infs, zand(fin, cmp)))
        if op == "cast":
            return self._cast(t, a[0])
        if op.startswith("uf:"):
            if dt.kind in "iu":
                k = (op, dt.str)
                if k not in self.uf:
                    self.uf[k] = z3.Function("uf_%s_%d" % (op[3:], len(self.uf)), z3.RealSort(), z3.IntSort())
                r = self.uf[k](a[0][3])
                lo, hi = tm._full(dt)
                self.side.append(z3.And(r >= lo, r <= hi))
                return r
            return self._uf(t, a)
        if dt.kind == "f":
            return self._farith(t, a)
        if dt.kind in "iu":
            return self._iarith(t, a)
        raise Unsupported("encode %s %s" % (op, dt))

    def _var(self, t):
        name, dt = t.args[0], t.dt
        if dt == BOOL:
            v = z3.Bool(name)
            self.varx[name] = (t, v)
            return v
        info = tm.VARINFO.get(name, dict(nan=True, inf=True, lo=None, hi=None))
        if dt.kind in "iu":
            v = z3.Int(name)
            lo, hi = tm.rng(t)
            self.side.append(z3.And(v >= lo, v <= hi))
            self.varx[name] = (t, v)
            return v
        if dt.kind == "f":
            v = z3.Real(name)
            nan = z3.Bool(name + ".nan") if info["nan"] else False
            pinf = z3.Bool(name + ".pinf") if info["inf"] else False
            ninf = z3.Bool(name + ".ninf") if info["inf"] else False
            if info["lo"] is not None:
                self.side.append(z3.And(v >= z3.RealVal(str(info["lo"])), v <= z3.RealVal(str(info["hi"]))))
            else:
                big = z3.RealVal("1000000000000")
                self.side.append(z3.And(v >= -big, v <= big))
            if info["inf"]:
                self.side.append(z3.Not(z3.And(pinf, ninf)))
                if info["nan"]:
                    self.side.append(z3.Implies(nan, z3.And(z3.Not(pinf), z3.Not(ninf))))
            self.varx[name] = (t, (nan, pinf, ninf, v))
            return (nan, pinf, ninf, v)
        raise Unsupported("variable of dtype %s" % dt)

    def _wrap(self, e, rng_exact, dt):
        lo, hi = tm._full(dt)
        if rng_exact is not None and lo <= rng_exact[0] and rng_exact[1] <= hi:
            return e
        w = hi - lo + 1
        if lo == 0:
            return e % w
        return (e - lo) % w + lo

    def _iarith(self, t, a):
        op, dt = t.op, t.dt
        rs = [tm.rng(x) for x in t.args]
        if op == "add":
            return self._wrap(a[0] + a[1], (rs[0][0] + rs[1][0], rs[0][1] + rs[1][1]), dt)
        if op == "sub":
            return self._wrap(a[0] - a[1], (rs[0][0] - rs[1][1], rs[0][1] - rs[1][0]), dt)
        if op == "mul":
            ps = [x * y for x in rs[0] for y in rs[1]]
            return self._wrap(a[0] * a[1], (min(ps), max(ps)), dt)
        if op == "neg":
            return self._wrap(-a[0], (-rs[0][1], -rs[0][0]), dt)
        if op == "abs":
            return self._wrap(z3.If(a[0] < 0, -a[0], a[0]),
                              (0, max(abs(rs[0][0]), abs(rs[0][1]))), dt)
        if op in ("floordiv", "mod"):
            x, y = a
            q = z3.If(y > 0, x / y, (-x) / (-y))
            r = q if op == "floordiv" else x - y * q
            return self._wrap(z3.If(y == 0, z3.IntVal(0), r), None if op == "floordiv" and rs[1][0] <= -1 else (min(rs[0][0], rs[1][0], 0), max(rs[0][1], rs[1][1], 0)), dt)
        if op == "pow" and t.args[1].op == "const" and 0 <= int(t.args[1].args[0]) <= 8:
            e = z3.IntVal(1)
            for _ in range(int(t.args[1].args[0])):
                e = e * a[0]
            return self._wrap(e, None, dt)
        if op == "shl" and t.args[1].op == "const":
            k = 1 << int(t.args[1].args[0])
            return self._wrap(a[0] * k, (min(rs[0][0] * k, 0), rs[0][1] * k), dt)
        if op == "shl" and t.args[0].op == "const":
            return self._wrap(self._pow2(a[1], rs[1]) * a[0], None, dt)
        if op == "shr" and t.args[1].op == "const":
            return a[0] / (1 << int(t.args[1].args[0]))
        if op == "invert":
            if dt.kind == "u":
                return z3.IntVal(tm._full(dt)[1]) - a[0]
            return -a[0] - 1
        if op in ("bitand", "bitor", "bitxor"):
            n = dt.itemsize * 8
            x, y = z3.Int2BV(a[0], n), z3.Int2BV(a[1], n)
            r = x & y if op == "bitand" else x | y if op == "bitor" else x ^ y
            return z3.BV2Int(r, is_signed=dt.kind == "i")
        if op in ("floor", "ceil", "rint", "trunc"):
            return a[0]
        raise Unsupported("integer op %s" % op)

    def _pow2(self, e, r):
        out = None
        for k in range(min(r[1], 62), max(r[0], 0) - 1, -1):
            v = z3.IntVal(1 << k)
            out = v if out is None else z3.If(e == k, v, out)
        return out

    def _farith(self, t, a):
        op = t.op
        if op == "neg":
            n, p, q, v = a[0]
            return (n, q, p, -v)
        if op == "abs":
            n, p, q, v = a[0]
            return (n, zor(p, q), False, z3.If(v < 0, -v, v))
        if op in ("floor", "ceil", "trunc", "rint"):
            n, p, q, v = a[0]
            fl = z3.ToReal(z3.ToInt(v))
            if op == "floor":
                r = fl
            elif op == "ceil":
                r = -z3.ToReal(z3.ToInt(-v))
            elif op == "trunc":
                r = z3.If(v < 0, -z3.ToReal(z3.ToInt(-v)), fl)
            else:
                # round half to even
                f = z3.ToInt(v)
                d = v - z3.ToReal(f)
                half = z3.RealVal("1/2")
                r = z3.ToReal(z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1))))
            return (n, p, q, r)
        if op == "sqrt":
            n, p, q, v = a[0]
            v = self.norm(v)
            fn = self.fun("sqrt", 1)
            s = fn(v)
            self.apps[s.get_id()] = s
            lb = _nonneg(t.args[0]) if self.sqrt_facts else None
            if lb is not None:
                # sum of squares and non-negative constants
                self.cheap.setdefault(t.id, []).append(s > 0 if lb > 0 else s >= 0)
                if lb > 0:
                    r = Fraction(math.isqrt(int(lb * 10 ** 12)), 10 ** 6)
                    self.cheap[t.id].append(s >= z3.RealVal(str(r)))
                self.side.append(z3.And(s >= 0, (s == 0) == (v == 0)))
                if self.sqrt_axioms:
                    self.side.append(s * s == v)
                self.uf_apps.append(("sqrt", (v,), s, t))
                return (zor(n, q), p, False, s)
            self.side.append(z3.Implies(_b(v >= 0), z3.And(s >= 0, (s == 0) == (v == 0))))
            if self.sqrt_axioms:
                self.side.append(z3.Implies(_b(v >= 0), s * s == v))
            self.uf_apps.append(("sqrt", (v,), s, t))
            return (zor(n, q, zand(znot(p), v < 0)), p, False, s)
        x, y = a
        xn, xp, xq, xv = x
        yn, yp, yq, yv = y
        if op in ("add", "sub"):
            if op == "sub":
                yp, yq, yv = yq, yp, -yv
            n = zor(xn, yn, zand(xp, yq), zand(xq, yp))
            nn = znot(n)
            return (n, zand(nn, zor(xp, yp)), zand(nn, zor(xq, yq)), xv + yv)
        if op == "mul":
            xi, yi = zor(xp, xq), zor(yp, yq)
            if xi is False and yi is False:
                return (zor(xn, yn), False, False, xv * yv)
            zx = zand(znot(xi), xv == 0)
            zy = zand(znot(yi), yv == 0)
            n = zor(xn, yn, zand(xi, zy), zand(yi, zx))
            xpos, ypos = zor(xp, zand(znot(xi), xv > 0)), zor(yp, zand(znot(yi), yv > 0))
            anyi = zand(znot(n), zor(xi, yi))
            same = _b(xpos) == _b(ypos)
            return (n, zand(anyi, same), zand(anyi, z3.Not(same)), xv * yv)
        if op == "div":
            xi, yi = zor(xp, xq), zor(yp, yq)
            yz = zand(znot(yi), yv == 0)
            if t.args[1].op == "const" and xi is False and yi is False and float(t.args[1].args[0]) != 0:
                return (zor(xn, yn), False, False, xv / yv)
            zx = zand(znot(xi), xv == 0)
            n = zor(xn, yn, zand(xi, yi), zand(zx, yz))
            nn = znot(n)
            xpos = zor(xp, zand(znot(xi), xv > 0))
            ypos = zor(yp, zand(znot(yi), yv >= 0))   # +0 assumed for zero divisors
            big = zand(nn, zor(xi, yz))
            same = _b(xpos) == _b(ypos)
            val = zite(yi, z3.RealVal(0), zite(yz, z3.RealVal(0), xv / yv))
            return (n, zand(big, same), zand(big, z3.Not(same)), val)
        if op in ("floordiv", "mod"):
            ys = zand(znot(yp), znot(yq))
            xs = zand(znot(xp), znot(xq))
            bad = zor(xn, yn, znot(ys), znot(xs), yv == 0)
            qt = z3.ToReal(z3.ToInt(xv / yv))
            r = qt if op == "floordiv" else xv - yv * qt
            nz = zor(xn, yn, znot(ys), znot(xs))
            if op == "mod":
                return (bad, False, False, zite(bad, z3.RealVal(0), r))
            return (zor(nz, zand(yv == 0, xv == 0)), zand(znot(nz), yv == 0, xv > 0),
                    zand(znot(nz), yv == 0, xv < 0), zite(bad, z3.RealVal(0), r))
        if op == "pow":
            e = t.args[1]
            if e.op == "const" and float(e.args[0]) == int(e.args[0]) and 0 <= int(e.args[0]) <= 8:
                k = int(e.args[0])
                if xp is not False or xq is not False:
                    raise Unsupported("pow with infinities")
                v = z3.RealVal(1)
                for _ in range(k):
                    v = v * xv
                return (xn if k else False, False, False, v)
            return self._uf(t, a, name="power")
        raise Unsupported("float op %s" % op)

    def norm(self, v):
        """polynomial normal form, so that equal arguments meet in the same application"""
        k = v.get_id()
        r = self.normed.get(k)
        if r is None:
            if v.num_args() == 0:
                r = v
            else:
                try:
                    r = self._unpoly(self._poly(v))
                except OverflowError:
                    r = v
            self.normed[k] = (v, r)
            return r
        return r[1]

    def _poly(self, v):
        """z3 real term -> {((atom id, power), ...): coefficient}"""
        m = self.polys.get(v.get_id())
        if m is not None:
            return m[1]
        k = v.decl().kind()
        if k == z3.Z3_OP_TO_REAL and v.arg(0).num_args():
            i = v.arg(0)
            kids = [z3.ToReal(c) for c in i.children()]
            ik = i.decl().kind()
            w = None
            if ik == z3.Z3_OP_ADD:
                w = z3.Sum(*kids)
            elif ik == z3.Z3_OP_MUL:
                w = z3.Product(*kids)
            elif ik == z3.Z3_OP_SUB:
                w = kids[0] - z3.Sum(*kids[1:])
            elif ik == z3.Z3_OP_UMINUS:
                w = -kids[0]
            elif ik == z3.Z3_OP_ITE:
                w = z3.If(i.arg(0), z3.ToReal(i.arg(1)), z3.ToReal(i.arg(2)))
            if w is not None:
                m = self._poly(w)
                self.polys[v.get_id()] = (v, m)
                return m
        if k == z3.Z3_OP_TO_REAL and z3.is_int_value(v.arg(0)):
            m = {(): Fraction(v.arg(0).as_long())}
        elif k == z3.Z3_OP_ANUM:
            m = {(): v.as_fraction()}
        elif k == z3.Z3_OP_ADD:
            m = {}
            for c in v.children():
                for mon, co in self._poly(c).items():
                    m[mon] = m.get(mon, 0) + co
        elif k == z3.Z3_OP_SUB:
            m = {}
            for n, c in enumerate(v.children()):
                for mon, co in self._poly(c).items():
                    m[mon] = m.get(mon, 0) + (co if n == 0 else -co)
        elif k == z3.Z3_OP_UMINUS:
            m = {mon: -co for mon, co in self._poly(v.arg(0)).items()}
        elif k == z3.Z3_OP_MUL:
            m = {(): Fraction(1)}
            for c in v.children():
                m = self._pmul(m, self._poly(c))
        elif k == z3.Z3_OP_DIV and z3.is_rational_value(v.arg(1)) and v.arg(1).as_fraction() != 0:
            d = v.arg(1).as_fraction()
            m = {mon: co / d for mon, co in self._poly(v.arg(0)).items()}
        else:
            w = v
            if k == z3.Z3_OP_ITE and v.num_args() == 3:
                w = z3.If(v.arg(0), self.norm(v.arg(1)), self.norm(v.arg(2)))
            self.atoms[w.get_id()] = w
            m = {((w.get_id(), 1),): Fraction(1)}
        m = {mon: co for mon, co in m.items() if co != 0}
        if len(m) > 400:
            raise OverflowError
        self.polys[v.get_id()] = (v, m)
        return m

    def _pmul(self, a, b):
        if len(a) * len(b) > 4000:
            raise OverflowError
        out = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                d = dict(m1)
                for x, p in m2:
                    d[x] = d.get(x, 0) + p
                mon = tuple(sorted(d.items()))
                out[mon] = out.get(mon, 0) + c1 * c2
        return out

    def _unpoly(self, m):
        ts = []
        for mon in sorted(m):
            co = m[mon]
            fs = [self.atoms[x] for x, p in mon for _ in range(p)]
            if co != 1 or not fs:
                fs = [z3.RealVal("%d/%d" % (co.numerator, co.denominator))] + fs
            ts.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
        return z3.RealVal(0) if not ts else ts[0] if len(ts) == 1 else z3.Sum(*ts)

    def fun(self, name, n):
        k = (name, n)
        if k not in self.uf:
            self.uf[k] = z3.Function("uf_" + name, *([z3.RealSort()] * (n + 1)))
        return self.uf[k]

    def _uf(self, t, a, name=None):
        name = name or t.op[3:]
        a = [x if isinstance(x, tuple) else (False, False, False, z3.ToReal(x)) for x in a]
        f = self.fun(name, len(a))
        vs = [self.norm(x[3]) for x in a]
        r = f(*vs)
        self.apps[r.get_id()] = r
        nan = zor(*[x[0] for x in a])
        infs = zor(*[x[1] for x in a], *[x[2] for x in a])
        pinf = ninf = False
        v = vs[0]
        if infs is not False:
            # behaviour at infinities is left unconstrained (functional)
            r = zite(infs, z3.Real("ufinf_%d" % t.id), r)
        if name in ("log", "log2", "log10"):
            ninf = zand(znot(nan), v == 0)
            nan = zor(nan, v < 0)
            if name == "log":
                self.side.append(z3.Implies(v == 1, r == 0))
        elif name == "log1p":
            ninf = zand(znot(nan), v == -1)
            nan = zor(nan, v < -1)
        elif name in ("arcsin", "arccos"):
            nan = zor(nan, v > 1, v < -1)
        elif name == "arctan":
            hp = z3.RealVal("1.5707963267948968")
            self.side.append(z3.And(r < hp, r > -hp, (r == 0) == (v == 0), (r > 0) == (v > 0)))
        elif name == "arctan2":
            pi = z3.RealVal("3.1415926535897936")
            self.side.append(z3.And(r <= pi, r >= -pi))
        elif name in ("sin", "cos", "tanh"):
            self.side.append(z3.And(r <= 1, r >= -1))
        elif name in ("exp", "exp2", "cosh", "hypot"):
            self.side.append(r >= 0)
        self.uf_apps.append((name, tuple(vs), r, t))
        return (nan, pinf, ninf, r)

    def _cast(self, t, x):
        src, dt = t.args[0].dt, t.dt
        if dt.kind == "f":
            if src.kind == "f":
                return x
            if src == BOOL:
                return (False, False, False, zite(x, z3.RealVal(1), z3.RealVal(0)))
            return (False, False, False, z3.ToReal(x))
        if dt.kind in "iu":
            if src == BOOL:
                return zite(x, z3.IntVal(1), z3.IntVal(0))
            if src.kind in "iu":
                return self._wrap(x, tm.rng(t.args[0]), dt)
            n, p, q, v = x
            fl = z3.ToInt(v)
            tr = fl
            r = tm.rng(t.args[0])
            if not (r and r[0] >= 0):
                tr = z3.If(v < 0, -z3.ToInt(-v), fl)
            lo, hi = tm._full(dt)
            if r and lo <= r[0] and r[1] <= hi and n is False:
                return tr
            # out-of-range and non-finite values: an unknown function of the value
            k = ("castgarbage", src.str, dt.str)
            if k not in self.uf:
                self.uf[k] = z3.Function("castgarbage_%s_%s" % (src.name, dt.name), z3.RealSort(), z3.IntSort(), z3.IntSort())
            code = zite(n, z3.IntVal(1), zite(p, z3.IntVal(2), zite(q, z3.IntVal(3), z3.IntVal(0))))
            g = self.uf[k](self.norm(zite(zor(n, p, q), z3.RealVal(0), v)), code)
            self.side.append(z3.And(g >= lo, g <= hi))
            ok = zand(znot(n), znot(p), znot(q), tr >= lo, tr <= hi)
            return zite(ok, tr, g)
        raise Unsupported("cast to %s" % dt)

    # -- models
    def nice(self, level):
        """Extra constraints steering the model to exactly representable values."""
        out = []
        for name, (t, x) in self.varx.items():
            if t.dt.kind == "f":
                v = x[3]
                if level == 0:
                    out.append(z3.IsInt(v))
                    out.append(z3.And(v >= -4000, v <= 4000))
                elif level == 1:
                    out.append(z3.IsInt(v * 64))
        return out

    def value(self, model, t):
        """numpy value of variable term t in a model."""
        name = t.args[0]
        if name not in self.varx:
            lo = tm.VARINFO.get(name, {}).get("lo")
            return np.asarray(0 if lo is None or lo <= 0 <= tm.VARINFO[name]["hi"] else lo).astype(t.dt)[()]
        x = self.varx[name][1]
        if t.dt == BOOL:
            return np.bool_(z3.is_true(model.eval(x, model_completion=True)))
        if t.dt.kind in "iu":
            return t.dt.type(model.eval(x, model_completion=True).as_long())
        flags = [False if f is False else z3.is_true(model.eval(f, model_completion=True)) for f in x[:3]]
        if flags[0]:
            return t.dt.type(np.nan)
        if flags[1]:
            return t.dt.type(np.inf)
        if flags[2]:
            return t.dt.type(-np.inf)
        v = model.eval(x[3], model_completion=True)
        if z3.is_algebraic_value(v):
            v = v.approx(30)
        return t.dt.type(float(Fraction(v.numerator_as_long(), v.denominator_as_long())))


_FS = {2: z3.Float16, 4: z3.Float32, 8: z3.Float64}


class BVEncoder:
    """Exact machine semantics: bit-vectors and IEEE-754 floating point."""

    name = "bit-vector/IEEE-754"

    def __init__(self):
        self.memo = {}
        self.side = []
        self.sides = {}
        self.varx = {}
        self.uf = {}
        self.uf_apps = []
        self.cheap = {}

    enc = RealEncoder.enc

    def sort(self, dt):
        if dt == BOOL:
            return z3.BoolSort()
        if dt.kind in "iu":
            return z3.BitVecSort(dt.itemsize * 8)
        return _FS[dt.itemsize]()

    def _enc(self, t):
        op, dt = t.op, t.dt
        m = self.memo
        if op == "const":
            v = t.args[0]
            if dt == BOOL:
                return bool(v)
            if dt.kind in "iu":
                return z3.BitVecVal(int(v), dt.itemsize * 8)
            f = float(v)
            s = self.sort(dt)
            if math.isnan(f):
                return z3.fpNaN(s)
            if math.isinf(f):
                return z3.fpInfinity(s, f < 0)
            bits = int(np.asarray(v).view("u%d" % dt.itemsize))
            return z3.simplify(z3.fpBVToFP(z3.BitVecVal(bits, dt.itemsize * 8), s))
        if op == "var":
            return self._var(t)
        a = [m[x.id] for x in t.args]
        if op == "and":
            return zand(*a)
        if op == "or":
            return zor(*a)
        if op == "not":
            return znot(a[0])
        if op == "ite":
            return zite(a[0], a[1], a[2])
        if op == "isnan":
            return z3.fpIsNaN(a[0])
        if op == "isinf":
            return z3.fpIsInf(a[0])
        sdt = t.args[0].dt
        if op == "eq":
            if sdt == BOOL:
                return _b(a[0]) == _b(a[1])
            return a[0] == a[1] if sdt.kind in "iu" else z3.fpEQ(a[0], a[1])
        if op in ("lt", "le"):
            if sdt.kind == "i":
                return a[0] < a[1] if op == "lt" else a[0] <= a[1]
            if sdt.kind == "u":
                return z3.ULT(a[0], a[1]) if op == "lt" else z3.ULE(a[0], a[1])
            return z3.fpLT(a[0], a[1]) if op == "lt" else z3.fpLEQ(a[0], a[1])
        if op == "cast":
            return self._cast(t, a[0])
        if op.startswith("uf:") or (op == "pow" and dt.kind == "f"):
            k = (op, tuple(x.dt.str for x in t.args))
            if k not in self.uf:
                self.uf[k] = z3.Function("uf_%s_%d" % (op[3:] or "pow", len(self.uf)),
                                         *[self.sort(x.dt) for x in t.args], self.sort(dt))
            return self.uf[k](*a)
        rm = z3.RNE()
        if dt.kind == "f":
            if op == "add":
                return z3.fpAdd(rm, a[0], a[1])
            if op == "sub":
                return z3.fpSub(rm, a[0], a[1])
            if op == "mul":
                return z3.fpMul(rm, a[0], a[1])
            if op == "div":
                return z3.fpDiv(rm, a[0], a[1])
            if op == "neg":
                return z3.fpNeg(a[0])
            if op == "abs":
                return z3.fpAbs(a[0])
            if op == "sqrt":
                return z3.fpSqrt(rm, a[0])
            if op in ("floor", "ceil", "trunc", "rint"):
                r = {"floor": z3.RTN(), "ceil": z3.RTP(), "trunc": z3.RTZ(), "rint": z3.RNE()}[op]
                return z3.fpRoundToIntegral(r, a[0])
            if op in ("mod", "fmod", "floordiv"):
                k = (op, dt.str)
                if k not in self.uf:
                    self.uf[k] = z3.Function("uf_%s_%d" % (op, len(self.uf)), self.sort(dt), self.sort(dt), self.sort(dt))
                return self.uf[k](*a)
        if dt.kind in "iu":
            n = dt.itemsize * 8
            z = z3.BitVecVal(0, n)
            if op == "add":
                return a[0] + a[1]
            if op == "sub":
                return a[0] - a[1]
            if op == "mul":
                return a[0] * a[1]
            if op == "neg":
                return -a[0]
            if op == "abs":
                return z3.If(a[0] < 0, -a[0], a[0])
            if op == "bitand":
                return a[0] & a[1]
            if op == "bitor":
                return a[0] | a[1]
            if op == "bitxor":
                return a[0] ^ a[1]
            if op == "invert":
                return ~a[0]
            if op == "shl":
                return z3.If(z3.UGE(a[1], z3.BitVecVal(n, n)), z, a[0] << a[1])
            if op == "shr":
                if dt.kind == "u":
                    return z3.If(z3.UGE(a[1], z3.BitVecVal(n, n)), z, z3.LShR(a[0], a[1]))
                return a[0] >> z3.If(z3.UGE(a[1], z3.BitVecVal(n, n)), z3.BitVecVal(n - 1, n), a[1])
            if op in ("floordiv", "mod"):
                if dt.kind == "u":
                    r = z3.UDiv(a[0], a[1]) if op == "floordiv" else z3.URem(a[0], a[1])
                else:
                    q, rem = a[0] / a[1], z3.SRem(a[0], a[1])
                    adj = z3.And(rem != z, (rem < z) != (a[1] < z))
                    r = z3.If(adj, q - 1, q) if op == "floordiv" else z3.If(adj, rem + a[1], rem)
                return z3.If(a[1] == z, z, r)
            if op == "pow" and t.args[1].op == "const" and 0 <= int(t.args[1].args[0]) <= 8:
                e = z3.BitVecVal(1, n)
                for _ in range(int(t.args[1].args[0])):
                    e = e * a[0]
                return e
        raise Unsupported("encode %s %s" % (op, dt))

    def _var(self, t):
        name, dt = t.args[0], t.dt
        v = z3.Const(name, self.sort(dt))
        self.varx[name] = (t, v)
        info = tm.VARINFO.get(name)
        if info:
            if dt.kind == "f":
                if not info["nan"]:
                    self.side.append(z3.Not(z3.fpIsNaN(v)))
                if not info["inf"]:
                    self.side.append(z3.Not(z3.fpIsInf(v)))
                if info["lo"] is not None:
                    s = self.sort(dt)
                    self.side.append(z3.Or(z3.fpIsNaN(v), z3.And(z3.fpGEQ(v, z3.FPVal(info["lo"], s)),
                                            z3.fpLEQ(v, z3.FPVal(info["hi"], s)))))
            elif dt.kind in "iu" and info["lo"] is not None:
                n = dt.itemsize * 8
                lo, hi = z3.BitVecVal(int(info["lo"]), n), z3.BitVecVal(int(info["hi"]), n)
                if dt.kind == "i":
                    self.side.append(z3.And(v >= lo, v <= hi))
                else:
                    self.side.append(z3.And(z3.UGE(v, lo), z3.ULE(v, hi)))
        return v

    def _cast(self, t, x):
        src, dt = t.args[0].dt, t.dt
        rm = z3.RNE()
        if dt.kind == "f":
            s = self.sort(dt)
            if src.kind == "f":
                return z3.fpFPToFP(rm, x, s)
            if src == BOOL:
                return z3.If(_b(x), z3.FPVal(1.0, s), z3.FPVal(0.0, s))
            return z3.fpSignedToFP(rm, x, s) if src.kind == "i" else z3.fpUnsignedToFP(rm, x, s)
        if dt.kind in "iu":
            n = dt.itemsize * 8
            if src == BOOL:
                return z3.If(_b(x), z3.BitVecVal(1, n), z3.BitVecVal(0, n))
            if src.kind in "iu":
                k = src.itemsize * 8
                if n == k:
                    return x
                if n < k:
                    return z3.Extract(n - 1, 0, x)
                return z3.SignExt(n - k, x) if src.kind == "i" else z3.ZeroExt(n - k, x)
            lo, hi = tm._full(dt)
            s = self.sort(src)
            g = z3.BitVec("castgarbage_%d" % t.id, n)
            tr = z3.fpRoundToIntegral(z3.RTZ(), x)
            wide = _FS[8]()
            trw = z3.fpFPToFP(rm, tr, wide) if src.itemsize != 8 else tr
            ok = z3.And(z3.Not(z3.fpIsNaN(x)), z3.fpGEQ(trw, z3.FPVal(float(lo), wide)),
                        z3.fpLT(trw, z3.FPVal(float(hi) + 1.0, wide)))
            v = z3.fpToSBV(z3.RTZ(), x, z3.BitVecSort(n)) if dt.kind == "i" else \
                z3.fpToUBV(z3.RTZ(), x, z3.BitVecSort(n))
            return z3.If(ok, v, g)
        raise Unsupported("cast to %s" % dt)

    def nice(self, level):
        out = []
        for name, (t, v) in self.varx.items():
            if t.dt.kind == "f" and level == 0:
                s = self.sort(t.dt)
                out.append(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v), z3.And(
                    z3.fpEQ(z3.fpRoundToIntegral(z3.RTZ(), v), v),
                    z3.fpLEQ(z3.fpAbs(v), z3.FPVal(4000.0, s)))))
        return out

    def value(self, model, t):
        name = t.args[0]
        if name not in self.varx:
            return RealEncoder.value(self, model, t)
        x = self.varx[name][1]
        v = model.eval(x, model_completion=True)
        dt = t.dt
        if dt == BOOL:
            return np.bool_(z3.is_true(v))
        if dt.kind == "i":
            return dt.type(v.as_signed_long())
        if dt.kind == "u":
            return dt.type(v.as_long())
        if z3.is_fp_value(v) or True:
            s = z3.simplify(z3.fpIsNaN(v))
            if z3.is_true(s):
                return dt.type(np.nan)
            bv = z3.simplify(z3.fpToIEEEBV(v))
            return np.array([bv.as_long()], dtype="u%d" % dt.itemsize).view(dt)[0]


def _nonneg(t):
    """Lower bound >= 0 of a term that is a sum of squares and constants, else None."""
    if t.op == "const":
        v = float(t.args[0])
        return Fraction(v) if v >= 0 and math.isfinite(v) else None
    if t.op == "cast":
        return _nonneg(t.args[0])
    if t.op == "add":
        a, b = _nonneg(t.args[0]), _nonneg(t.args[1])
        return None if a is None or b is None else a + b
    if t.op == "mul":
        a, b = t.args
        if a is b:
            return Fraction(0)
        a, b = _nonneg(a), _nonneg(b)
        return None if a is None or b is None else a * b
    if t.op in ("abs", "sqrt"):
        return Fraction(0)
    return None


class Solver:
    """One encoder plus the query log reported in evidence."""

    def __init__(self, encoder="real", timeout=60, feas_timeout=10, sqrt_axioms=False, feas_abstract=False):
        self.e = RealEncoder(sqrt_axioms, feas_abstract) if encoder == "real" else BVEncoder()
        self.timeout = timeout
        self.feas_timeout = feas_timeout
        self.feas_abstract = feas_abstract
        self.log = dict(queries=0, unsat=0, sat=0, unknown=0, time=0.0, feas=0, feas_unknown=0)

    def _z3(self, zs, timeout, want_model=False, smt=False):
        s = z3.Solver()
        s.set("timeout", int(timeout * 1000))
        for z in zs:
            s.add(_b(z))
        # definitional side constraints of the encoded cone
        for z in self.e.cone:
            s.add(_b(z))
        t0 = time.time()
        r = s.check()
        self.log["time"] += time.time() - t0
        return str(r), s

    def _cvc5(self, s, timeout):
        txt = s.to_smt2()
        txt = "(set-logic ALL)\n" + txt
        try:
            t0 = time.time()
            p = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * 1000)], input=txt,
                               capture_output=True, text=True, timeout=timeout + 10)
            self.log["time"] += time.time() - t0
        except Exception:
            return "unknown"
        if "(error" in p.stdout or "(error" in p.stderr:
            return "unknown"
        out = p.stdout.strip().splitlines()
        return out[0] if out and out[0] in ("sat", "unsat") else "unknown"

    def feasible(self, conds):
        zs = self.e.enc(conds)
        if any(z is False for z in zs):
            return False
        self.log["feas"] += 1
        if self.feas_abstract and getattr(self.e, "apps", None):
            return not self._abstract(zs)
        r, _ = self._z3(zs, self.feas_timeout)
        if r == "unknown":
            self.log["feas_unknown"] += 1
        return r != "unsat"

    def model_value(self, conds, t):
        zs = self.e.enc(conds + [t])
        x = zs.pop()
        self.log["feas"] += 1
        r, s = self._z3(zs, self.feas_timeout)
        if r == "unsat":
            return None
        if r != "sat":
            raise Unsupported("unknown while concretising an index")
        v = s.model().eval(x, model_completion=True)
        if isinstance(self.e, BVEncoder):
            return int(v.as_signed_long() if t.dt.kind == "i" else v.as_long())
        return int(v.as_long())

    def _abstract(self, zs):
        """Unsatisfiable already with the uninterpreted applications as free values?
        (equal applications are one value: their arguments are in normal form)"""
        pairs = [(a, z3.Const("app!%d" % i, a.sort())) for i, a in enumerate(self.e.apps.values())]
        s = z3.Solver()
        s.set("timeout", 4000)
        for z in zs + (self.e.facts if self.feas_abstract else []):
            s.add(z3.substitute(_b(z), *pairs))
        t0 = time.time()
        r = s.check()
        self.log["time"] += time.time() - t0
        return r == z3.unsat

    def check(self, conds, vars_, timeout=None, extra=()):
        """('unsat'|'sat'|'unknown', models) for the conjunction of terms."""
        timeout = timeout or self.timeout
        zs = self.e.enc(conds) + list(extra)
        self.log["queries"] += 1
        if any(z is False for z in zs):
            self.log["unsat"] += 1
            return "unsat", None
        if getattr(self.e, "apps", None) and self._abstract(zs):
            self.log["unsat"] += 1
            return "unsat", None
        r, s = self._z3(zs, timeout)
        if r == "unknown":
            r2 = self._cvc5(s, timeout)
            if r2 == "unsat":
                r = "unsat"
        self.log[r] += 1
        if r != "sat":
            return r, None
        best = s.model()
        for lvl in (0, 1):
            nice = self.e.nice(lvl)
            if not nice:
                continue
            r2, s2 = self._z3(zs + nice, min(timeout, 20))
            if r2 == "sat":
                best = s2.model()
                break
        return "sat", {v.args[0]: self.e.value(best, v) for v in vars_}
