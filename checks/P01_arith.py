"""P01 null propagation and values in raster arithmetic."""
from common import *

BOUNDS = ("grids up to 2x3 (up to 2 bands), every chunk layout listed per case; every cell value in the declared range "
          "and every mask pattern; all listed operator/dtype combinations")


def case_bin(name, f, d1, d2, nv1, nv2, shape=(1, 2, 2), ch1=((1, 1), (1, 1)), ch2=((2,), (2,)), lo=-50, hi=50, **k):
    lo1 = 0 if np.dtype(d1).kind in "ub" else lo
    lo2 = 0 if np.dtype(d2).kind in "ub" else lo
    hi1 = 1 if d1 == "bool" else hi
    hi2 = 1 if d2 == "bool" else hi
    cl = lambda c: ((1,) * shape[0],) + c
    ins = dict(a=raster(shape, d1, lo1, hi1, nv=nv1, chunks=cl(ch1)), b=raster(shape, d2, lo2, hi2, nv=nv2, chunks=cl(ch2)))

    def run(ctx, a, b):
        return {"r": f(a, b)}

    def claims(S, i, o):
        masked = nv1 is not None or nv2 is not None
        dt = f(np.zeros(1, d1), np.zeros(1, d2)).dtype
        yield from raster_claims(
            S, o.r, "r", lambda k: Or(i.a.m.a[k], i.b.m.a[k]),
            lambda k: uf(f, i.a.v.a[k], i.b.v.a[k]), dtype=dt,
            nv="default" if masked else None, shape=shape)
        yield from geo_claims(o.r, *i.a.inp.coords())

    return Case(name, ins, run, claims, api=getattr(f, "__name__", "op"), **k)


def case_scalar(name, f, d1, nv1, c, shape=(1, 2, 2), refl=False, lo=-50, hi=50, **k):
    lo1 = 0 if np.dtype(d1).kind in "ub" else lo
    ins = dict(a=raster(shape, d1, lo1, 1 if d1 == "bool" else hi, nv=nv1, chunks=((1, 1), (2,))))
    g = (lambda x: f(c, x)) if refl else (lambda x: f(x, c))

    def run(ctx, a):
        return {"r": g(a)}

    def claims(S, i, o):
        # a Python scalar takes part as a 64-bit number
        cc = np.int64(c) if type(c) is int else np.float64(c) if type(c) is float else c
        h = (lambda x: uf(f, cc, x)) if refl else (lambda x: uf(f, x, cc))
        dt = (f(cc, np.zeros(1, d1)) if refl else f(np.zeros(1, d1), cc)).dtype
        yield from raster_claims(S, o.r, "r", lambda k: i.a.m.a[k], lambda k: h(i.a.v.a[k]), dtype=dt,
                                 nv="default" if nv1 is not None else None, shape=shape)
        yield from geo_claims(o.r, *i.a.inp.coords())

    return Case(name, ins, run, claims, api=getattr(f, "__name__", "op"), **k)


def case_unary(name, f, d1, nv1, lo=-50, hi=50, shape=(1, 2, 2), **k):
    lo1 = max(lo, 0) if np.dtype(d1).kind in "ub" else lo
    ins = dict(a=raster(shape, d1, lo1, 1 if d1 == "bool" else hi, nv=nv1, chunks=((1, 1), (2,))))

    def run(ctx, a):
        return {"r": f(a)}

    def claims(S, i, o):
        dt = f(np.ones(1, d1)).dtype
        yield from raster_claims(S, o.r, "r", lambda k: i.a.m.a[k], lambda k: uf(f, i.a.v.a[k]), dtype=dt,
                                 nv="default" if nv1 is not None else None, shape=shape)
        yield from geo_claims(o.r, *i.a.inp.coords())

    return Case(name, ins, run, claims, api=f.__name__, **k)


def case_multi(name, f, d1, nv1, other=None, d2=None, nv2=None, shape=(1, 2, 2), lo=-20, hi=20):
    """ufuncs with two outputs"""
    ins = dict(a=raster(shape, d1, lo, hi, nv=nv1, chunks=((1, 1), (2,))))
    if d2:
        ins["b"] = raster(shape, d2, lo, hi, nv=nv2, chunks=((2,), (1, 1)))

    def run(ctx, a, b=None):
        r = f(a) if f.nin == 1 else f(a, b if d2 else other)
        assert len(r) == 2
        return {"r0": r[0], "r1": r[1]}

    def claims(S, i, o):
        args = lambda k: [i.a.v.a[k]] + ([] if f.nin == 1 else [i.b.v.a[k] if d2 else np.int64(other)])
        ex = f(*([np.ones(1, d1)] + ([] if f.nin == 1 else [np.ones(1, d2) if d2 else np.int64(other)])))
        masked = nv1 is not None or nv2 is not None
        for n in (0, 1):
            yield from raster_claims(
                S, getattr(o, "r%d" % n), "r%d" % n,
                lambda k: Or(i.a.m.a[k], i.b.m.a[k]) if d2 else i.a.m.a[k],
                lambda k: uf(f, *args(k))[n], dtype=ex[n].dtype, nv="default" if masked else None, shape=shape)

    return Case(name, ins, run, claims, api=f.__name__)


def case_array(name, f, d1, nv1, mk, refl=False, shape=(2, 2, 2), bandwise=False):
    """raster (+) broadcastable numpy / dask / list operand, and bandwise operation"""
    ins = dict(a=raster(shape, d1, -50, 50, nv=nv1, chunks=((1, 1), (shape[2],))))
    c = mk() if not bandwise else np.asarray(mk()).reshape(-1, 1, 1)
    full = np.broadcast_to(c, shape)

    def run(ctx, a):
        import dask.array as da
        x = a.bandwise if bandwise else a
        y = mk()
        if "dask" in name:
            y = da.from_array(np.asarray(y), chunks=1)
        return {"r": f(y, x) if refl else f(x, y)}

    def claims(S, i, o):
        val = lambda k: uf(f, full[k], i.a.v.a[k]) if refl else uf(f, i.a.v.a[k], full[k])
        yield from raster_claims(S, o.r, "r", lambda k: i.a.m.a[k], val,
                                 dtype=f(np.zeros(1, d1), np.asarray(mk())).dtype,
                                 nv="default" if nv1 is not None else None, shape=shape)

    return Case(name, ins, run, claims, api=f.__name__)


def case_inplace(name, op, d1, nv1, d2, nv2, shape=(1, 2, 2)):
    ins = dict(a=raster(shape, d1, -50, 50, nv=nv1), b=raster(shape, d2, -50, 50, nv=nv2, chunks=((1, 1), (2,))))
    f = {"+=": np.add, "-=": np.subtract, "*=": np.multiply, "/=": np.true_divide}[op]

    def run(ctx, a, b):
        keep = a.copy() if hasattr(a, "copy") else a
        if op == "+=":
            a += b
        elif op == "-=":
            a -= b
        elif op == "*=":
            a *= b
        else:
            a /= b
        return {"r": a, "b": b, "keep": keep}

    def claims(S, i, o):
        dt = f(np.ones(1, d1), np.ones(1, d2)).dtype
        yield from raster_claims(S, o.r, "r", lambda k: Or(i.a.m.a[k], i.b.m.a[k]),
                                 lambda k: uf(f, i.a.v.a[k], i.b.v.a[k]), dtype=dt,
                                 nv="default" if nv1 is not None or nv2 is not None else None, shape=shape)
        yield from raster_claims(S, o.b, "b", lambda k: i.b.m.a[k], lambda k: i.b.v.a[k], dtype=d2, nv=nv2)
        yield from raster_claims(S, o.keep, "keep", lambda k: i.a.m.a[k], lambda k: i.a.v.a[k], dtype=d1, nv=nv1)

    return Case(name, ins, run, claims)


def case_chain(name, d1, d2, nv1, nv2, shape=(1, 2, 2)):
    """compound expression: the mask of every operand reaches the result"""
    ins = dict(a=raster(shape, d1, -20, 20, nv=nv1, chunks=((1, 1), (2,))),
               b=raster(shape, d2, -20, 20, nv=nv2, chunks=((2,), (1, 1))),
               c=raster(shape, "int32", -20, 20, nv=None))

    def run(ctx, a, b, c):
        return {"r": (a + 2) * b - c / 4.0, "q": (a > b) | (c <= 3), "n": ~(a == c), "neg": -(a + b)}

    def claims(S, i, o):
        m = lambda k: Or(i.a.m.a[k], i.b.m.a[k])

        def v(k):
            a, b, c = i.a.v.a[k], i.b.v.a[k], i.c.v.a[k]
            return uf(np.subtract, uf(np.multiply, uf(np.add, a, np.int64(2)), b), uf(np.true_divide, c, np.float64(4)))
        yield from raster_claims(S, o.r, "r", m, v, shape=shape)
        yield from raster_claims(S, o.q, "q", m, lambda k: Or(sp.gt(i.a.v.a[k], i.b.v.a[k]), sp.le(i.c.v.a[k], 3)),
                                 dtype=bool, shape=shape)
        yield from raster_claims(S, o.n, "n", lambda k: i.a.m.a[k], lambda k: Not(sp.eq(i.a.v.a[k], i.c.v.a[k])), dtype=bool)
        yield from raster_claims(S, o.neg, "neg", m, lambda k: uf(np.negative, uf(np.add, i.a.v.a[k], i.b.v.a[k])))

    return Case(name, ins, run, claims)


def cases(tier):
    out = []
    arith = [np.add, np.subtract, np.multiply, np.true_divide, np.maximum, np.minimum, np.greater, np.less_equal,
             np.equal, np.not_equal, np.logical_and, np.logical_or, np.logical_xor, np.floor_divide, np.remainder,
             np.fmax, np.fmin, np.less, np.greater_equal, np.arctan2, np.hypot, np.copysign]
    combos = [("int16", "float32", -999, -9.0), ("uint8", "int32", 255, -1), ("float64", "float32", NAN, -1.0),
              ("int8", "uint8", None, 7), ("float32", "int64", -5.0, None), ("int32", "int32", None, None)]
    if tier == "thorough":
        combos += [("bool", "int16", None, -3), ("uint16", "uint8", 0, 0), ("uint32", "int32", 9, 9),
                   ("float32", "float32", NAN, NAN), ("int64", "uint32", -7, 3), ("float64", "int8", 0.0, -128)]
    for f in arith:
        for d1, d2, n1, n2 in combos:
            if f in (np.floor_divide, np.remainder) and tier == "quick" and d1 == "float64":
                continue
            out.append(case_bin("%s-%s-%s-nv%s,%s" % (f.__name__, d1, d2, n1, n2), f, d1, d2, n1, n2))
    for f in (np.bitwise_and, np.bitwise_or, np.bitwise_xor, np.left_shift, np.right_shift):
        for d1, d2, n1, n2 in (("int16", "uint8", -9, 3), ("int32", "int32", None, -1), ("uint8", "uint8", 255, None)):
            kw = dict(encoder="bv", lo=0, hi=7) if "shift" in f.__name__ else dict(encoder="bv")
            out.append(case_bin("%s-%s-%s-nv%s,%s" % (f.__name__, d1, d2, n1, n2), f, d1, d2, n1, n2, **kw))
    for f in (np.bitwise_and, np.bitwise_or, np.bitwise_xor):
        out.append(case_bin("%s-bool-bool" % f.__name__, f, "bool", "bool", None, None))
    # multi-band, other layouts
    for f in (np.add, np.less, np.multiply):
        for ch1, ch2 in ((((2, 1), (3,)), ((3,), (1, 2))), (((1, 1, 1), (1, 1, 1)), ((3,), (3,)))):
            out.append(case_bin("%s-2band-%s-%s" % (f.__name__, ch1, ch2), f, "int16", "float32", -9, NAN, shape=(2, 3, 3), ch1=ch1, ch2=ch2))
    # extreme integer values: wrap-around is numpy's
    for f in (np.add, np.subtract, np.multiply):
        out.append(case_bin("%s-wrap-int8" % f.__name__, f, "int8", "int8", -128, 5, lo=-128, hi=127, shape=(1, 1, 2), ch1=((1,), (2,)), ch2=((1,), (1, 1))))
    # scalars, both sides
    for f in (np.add, np.subtract, np.multiply, np.true_divide, np.greater, np.equal, np.power, np.maximum):
        for d1, n1 in (("int16", -9), ("float32", NAN), ("uint8", 255), ("float64", -1.0), ("int32", None), ("bool", None)):
            for c in (2, 0.5, -3, True):
                if d1 == "bool" and (f is np.subtract or c is True):
                    continue
                if f is np.power and (c not in (2,) or d1 == "bool"):
                    continue
                if tier == "quick" and c == -3 and f not in (np.subtract, np.add):
                    continue
                out.append(case_scalar("%s-%s-nv%s-%r" % (f.__name__, d1, n1, c), f, d1, n1, c))
                if f in (np.subtract, np.true_divide, np.greater) and c is not True:
                    out.append(case_scalar("%s-%s-nv%s-%r-refl" % (f.__name__, d1, n1, c), f, d1, n1, c, refl=True))
    un = [np.negative, np.absolute, np.sqrt, np.exp, np.log, np.sin, np.cos, np.tan, np.arctan, np.floor, np.ceil, np.rint, np.trunc,
          np.sign, np.square, np.isnan, np.isfinite, np.logical_not, np.degrees, np.radians, np.exp2, np.log10, np.log2, np.log1p,
          np.expm1, np.sinh, np.cosh, np.tanh, np.arcsin, np.arccos, np.fabs, np.reciprocal, np.positive, np.isinf, np.signbit, np.cbrt]
    for f in un:
        for d1, n1 in (("int16", -9), ("float32", NAN), ("float64", None), ("uint8", 3)):
            if f is np.reciprocal and d1 in ("int16", "uint8"):
                continue
            out.append(case_unary("%s-%s-nv%s" % (f.__name__, d1, n1), f, d1, n1, lo=-5, hi=6))
    for d1, n1 in (("int16", -9), ("uint8", 3)):
        out.append(case_unary("invert-%s" % d1, np.invert, d1, n1))
    out.append(case_unary("invert-bool", np.invert, "bool", None))
    for d1, n1 in (("float32", NAN), ("float64", -2.0)):
        out.append(case_multi("modf-%s" % d1, np.modf, d1, n1))
        out.append(case_multi("frexp-%s" % d1, np.frexp, d1, n1))
    for d1 in ("float32", "float64", "int16"):
        out.append(case_multi("modf-%s-nomask" % d1, np.modf, d1, None))
        out.append(case_multi("divmod-%s-nomask" % d1, np.divmod, d1, None, other=3))
    for d1, n1 in (("int16", -9), ("uint8", 255), ("float32", None)):
        out.append(case_multi("frexp-%s" % d1 + "-nv%s" % n1, np.frexp, d1, n1, lo=0))
    out.append(case_multi("divmod-scalar", np.divmod, "int32", -9, other=3))
    out.append(case_multi("divmod-raster", np.divmod, "int32", -9, d2="int16", nv2=0))
    # array operands
    for nm, mk in (("np3d", lambda: np.arange(8).reshape(2, 2, 2) - 3), ("np1x2", lambda: np.array([[[2, 5]]])),
                   ("dask3d", lambda: np.arange(8).reshape(2, 2, 2)), ("list", lambda: [[[1], [2]]]),
                   ("np-float", lambda: np.full((1, 1, 1), 2.5))):
        for f in (np.add, np.subtract, np.less):
            out.append(case_array("%s-%s" % (f.__name__, nm), f, "int16", -9, mk))
            if nm != "list":
                out.append(case_array("%s-%s-nomask" % (f.__name__, nm), f, "float32", None, mk))
    for f in (np.add, np.subtract, np.greater):
        out.append(case_array("bandwise-%s" % f.__name__, f, "int16", -9, lambda: [3, 7], bandwise=True, shape=(2, 2, 3)))
        out.append(case_array("bandwise-%s-refl" % f.__name__, f, "float32", NAN, lambda: [3, 7], bandwise=True, refl=True, shape=(2, 2, 3)))
    for op in ("+=", "-=", "*=", "/="):
        out.append(case_inplace("inplace%s" % op, op, "int32", -9, "float32", NAN))
        out.append(case_inplace("inplace%s-nomask" % op, op, "int16", None, "int16", -1))
    out.append(case_chain("chain-int-float", "int16", "float32", -9, NAN))
    out.append(case_chain("chain-f8-i32", "float64", "int32", -1.0, -2))
    return out
