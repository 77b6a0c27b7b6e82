"""P18 surface measures follow the documented 3x3 formulas."""
import stats
from common import *

BOUNDS = "1-2 bands, grids 3x3 to 4x5, all elevations in +-1000 and all null masks; square and oblong cells (including non-integer sizes), listed sun positions; chunk layouts; float and integer elevations"
OUTSIDE = "float16; rounding of floats; sin, cos, arctan, arctan2 enter as uninterpreted functions (the arguments handed to them are checked); a hillshade of exactly 255 coincides with its null value"

R2D = 180 / np.pi
F8 = np.float64


def f(x):
    return uf(np.add, x, F8(0)) if False else tm.mk_cast(T_(x), np.dtype(float))


def lin(*terms):
    """sum of coefficient * cell"""
    acc = None
    for c, x in terms:
        t = uf(np.multiply, F8(c), f(x)) if c != 1 else f(x)
        acc = t if acc is None else uf(np.add, acc, t)
    return acc


def gradient(z, dx, dy):
    """Horn's third-order differences; z[(dr, dc)], rows go down"""
    east = lin((1, z[-1, 1]), (2, z[0, 1]), (1, z[1, 1]), (-1, z[-1, -1]), (-2, z[0, -1]), (-1, z[1, -1]))
    south = lin((1, z[1, -1]), (2, z[1, 0]), (1, z[1, 1]), (-1, z[-1, -1]), (-2, z[-1, 0]), (-1, z[-1, 1]))
    return uf(np.divide, east, F8(8 * dx)), uf(np.divide, south, F8(8 * dy))


def t_aspect(z, dx, dy):
    gx, gs = gradient(z, 1, 1)
    a = uf(np.multiply, uf(np.arctan2, gs, uf(np.negative, gx)), F8(R2D))
    deg = Ite(sp.le(a, F8(90)), uf(np.subtract, F8(90), a), uf(np.subtract, F8(450), a))
    flat = And(sp.eq(gx, F8(0)), sp.eq(gs, F8(0)))
    return Ite(flat, F8(-1), deg)


def t_slope(z, dx, dy, degrees=True):
    gx, gy = gradient(z, dx, dy)
    rise = uf(np.sqrt, uf(np.add, uf(np.multiply, gx, gx), uf(np.multiply, gy, gy)))
    return uf(np.multiply, uf(np.arctan, rise), F8(R2D)) if degrees else rise


def t_curv(z, dx, dy):
    d = lin((0.5, z[0, -1]), (0.5, z[0, 1]), (-1, z[0, 0]))
    e = lin((0.5, z[-1, 0]), (0.5, z[1, 0]), (-1, z[0, 0]))
    return uf(np.divide, uf(np.multiply, F8(-200), uf(np.add, d, e)), F8(dx * dy))


def t_hill(z, dx, dy, az, alt):
    gx, gs = gradient(z, dx, dy)
    zen = np.deg2rad(90.0 - alt)
    math = np.deg2rad(360.0 - az + 90.0)
    sl = uf(np.arctan, uf(np.sqrt, uf(np.add, uf(np.multiply, gx, gx), uf(np.multiply, gs, gs))))
    # the formula gives the downslope direction from the row-up gradient
    raw = uf(np.arctan2, gs, uf(np.negative, gx))
    asp = Ite(Not(sp.eq(gx, F8(0))), Ite(sp.lt(raw, F8(0)), uf(np.add, F8(2 * np.pi), raw), raw),
              Ite(sp.gt(gs, F8(0)), F8(np.pi / 2), Ite(sp.lt(gs, F8(0)), F8(2 * np.pi - np.pi / 2), raw)))
    hs = uf(np.multiply, F8(255), uf(np.add, uf(np.multiply, F8(np.cos(zen)), uf(np.cos, sl)),
                                     uf(np.multiply, uf(np.multiply, F8(np.sin(zen)), uf(np.sin, sl)),
                                        uf(np.cos, uf(np.subtract, F8(math), asp)))))
    return hs


def null(i, c, shape, op):
    b, r, k = c
    if r in (0, shape[1] - 1) or k in (0, shape[2] - 1):
        return tm.TRUE
    return Or([i.a.m.a[b, r + p, k + q] for p in (-1, 0, 1) for q in (-1, 0, 1) if op != "curvature" or p * q == 0])


def case(op, dt, nv, shape, chunks, res=(1, 1), opts={}, lo=-1000, hi=1000, **k):
    x = 10 + (np.arange(shape[2]) + 0.5) * res[0]
    y = (100 + (np.arange(shape[1]) + 0.5) * res[1])[::-1]
    if dt == "uint8":
        lo, hi = 0, 255
    ins = dict(a=raster(shape, dt, lo, hi, nv=nv, chunks=((1,) * shape[0],) + chunks, x=x, y=y))

    def run(ctx, a):
        return {"r": getattr(ctx.rt.surface, op)(a, **opts)}

    def claims(S, i, o):
        r = o.r
        yield "shape", tuple(r.shape) == shape == tuple(r.data.shape) == tuple(r.mask.shape)
        yield "dtype", r.dtype == r.ddtype == r.data.dtype and r.dtype == np.dtype("uint8" if op == "hillshade" else "float64")
        yield "null", r.nv is not None and (r.nv == 255 if op == "hillshade" else True)
        yield from geo_claims(r, x, y)
        for c in np.ndindex(shape):
            n = null(i, c, shape, op)
            if n is tm.TRUE:
                yield "edge" + lab(*c), r.mask.a[c]
                yield "null-cell" + lab(*c), sp.exact(r.data.a[c], tm.const(r.nv, r.data.dtype))
                continue
            z = {(p, q): i.a.v.a[c[0], c[1] + p, c[2] + q] for p in (-1, 0, 1) for q in (-1, 0, 1)}
            got = r.data.a[c]
            if op == "hillshade":
                hs = tm.mk_cast(uf(np.maximum, t_hill(z, *res, opts.get("azimuth", 315), opts.get("altitude", 45)), F8(0)), np.dtype("float32"))
                if S.tol:
                    # replay: float rounding may move the truncation to a neighbour
                    near = sp.ge(hs, F8(254.99))
                    g8 = tm.mk_cast(got, np.dtype(float))
                    ok = And(sp.le(g8, uf(np.add, hs, F8(1e-2))), sp.lt(hs, uf(np.add, g8, F8(1.01))))
                else:
                    near = sp.eq(hs, F8(255))
                    ok = sp.eq(got, tm.mk_cast(hs, np.dtype("uint8")))
                yield "mask" + lab(*c), Or(Iff(r.mask.a[c], n), And(Not(n), near))
                yield "value" + lab(*c), Implies(Not(n), Or(ok, near))
            else:
                if op == "slope":
                    want = t_slope(z, *res, **opts)
                elif op == "aspect":
                    want = t_aspect(z, *res)
                elif op == "curvature":
                    want = t_curv(z, *res)
                else:
                    g = np.cos if op == "northing" else np.sin
                    want = uf(g, uf(np.radians, t_aspect(z, *res)))
                yield "mask" + lab(*c), Iff(r.mask.a[c], n)
                yield "value" + lab(*c), Implies(Not(n), S.same(got, want))
            yield "null-cell" + lab(*c), Implies(n, sp.exact(got, tm.const(r.nv, r.data.dtype)))

    nm = "%s-%s-nv%s-%s-%s-res%s%s" % (op, dt, nv, "x".join(map(str, shape)), str(chunks).replace(" ", ""), res,
                                      "".join("-%s=%s" % kv for kv in sorted(opts.items())))
    return Case(nm.replace(" ", ""), ins, run, claims, api=op, **k)


def tpi_case(dt, nv, shape, chunks, inner, outer, lo=-100, hi=100):
    import P07_focal as fo
    ins = dict(a=raster(shape, dt, 0 if dt == "uint8" else lo, hi, nv=nv, chunks=((1,) * shape[0],) + chunks))
    w = fo.window(outer if inner == 0 else (inner, outer))

    def run(ctx, a):
        return {"r": ctx.rt.surface.tpi(a, inner, outer)}

    def claims(S, i, o):
        r = o.r
        yield "shape", tuple(r.shape) == shape == tuple(r.data.shape) == tuple(r.mask.shape)
        yield "dtype", r.dtype == r.ddtype == r.data.dtype == np.dtype("int32")
        yield "null", (r.nv is None) == (nv is None) and (nv is None or r.nv == -2**31)
        yield from geo_claims(r, *i.a.inp.coords())
        for c in np.ndindex(shape):
            cells = [(Not(i.a.m.a[j]), i.a.v.a[j]) for j in fo.neighbours(w, shape, c)]
            some = stats.any_valid(cells)
            n = Or(i.a.m.a[c], Not(some)) if nv is not None else tm.FALSE
            yield "mask" + lab(*c), Iff(r.mask.a[c], n)
            tot, cnt = F8(0), F8(0)
            tot, cnt = tm.const(0.0, np.dtype(float)), tm.const(0.0, np.dtype(float))
            for v, x in cells:
                tot = Ite(v, uf(np.add, tot, f(x)), tot)
                cnt = Ite(v, uf(np.add, cnt, F8(1)), cnt)
            # (value - mean + 0.5) * count, truncated towards zero after division
            d = uf(np.add, uf(np.multiply, uf(np.add, f(i.a.v.a[c]), F8(0.5)), cnt), uf(np.negative, tot))
            g = f(r.data.a[c])
            gc = uf(np.multiply, g, cnt)
            eps = uf(np.multiply, cnt, F8(1e-5 if S.tol else 0))
            up = uf(np.add, uf(np.add, gc, cnt), eps)
            dn = uf(np.subtract, uf(np.subtract, gc, cnt), eps)
            lo_, hi_ = uf(np.subtract, gc, eps), uf(np.add, gc, eps)
            zero = sp.eq(g, F8(0))
            strict = (lambda a, b: sp.le(a, b)) if S.tol else (lambda a, b: sp.lt(a, b))
            ok = Or(And(sp.gt(g, F8(0)), sp.le(lo_, d), strict(d, up)),
                    And(sp.lt(g, F8(0)), strict(dn, d), sp.le(d, hi_)),
                    And(zero, strict(dn, d), strict(d, up)))
            yield "value" + lab(*c), Implies(And(Not(n), some), ok)
            if nv is not None:
                yield "null-cell" + lab(*c), Implies(n, sp.exact(r.data.a[c], tm.const(r.nv, r.data.dtype)))

    return Case(("tpi-%s-nv%s-%s-%s-%d-%d" % (dt, nv, "x".join(map(str, shape)), chunks, inner, outer)).replace(" ", ""), ins, run, claims, api="tpi")


def cases(tier):
    out = []
    for dt, nv in (("int16", -99), ("float32", NAN), ("float64", None), ("uint8", 255), ("int32", None)):
        out.append(tpi_case(dt, nv, (1, 1, 3), ((1,), (2, 1)), 0, 2))
        out.append(tpi_case(dt, nv, (1, 2, 2), ((1, 1), (2,)), 1, 2))
        out.append(tpi_case(dt, nv, (2, 1, 3), ((1,), (1, 2)), 1, 2))
        if dt == "float64":
            out.append(tpi_case(dt, nv, (1, 2, 4), ((2,), (2, 2)), 1, 2))
        else:
            out.append(tpi_case(dt, nv, (1, 1, 4), ((1,), (2, 2)), 0, 2))
    opts = {"slope": [{}, {"degrees": False}], "aspect": [{}], "curvature": [{}], "northing": [{}], "easting": [{}],
            "hillshade": [{}, {"azimuth": 200, "altitude": 30}]}
    for op, os_ in opts.items():
        for o in os_:
            for dt, nv in (("float32", NAN), ("float64", -9.0), ("int16", -99), ("float64", None), ("uint8", 255), ("int32", None)):
                out.append(case(op, dt, nv, (1, 3, 3), ((3,), (3,)), (1, 1), o))
                out.append(case(op, dt, nv, (1, 4, 4), ((2, 2), (1, 3)), (30, 10), o))
            out.append(case(op, "float64", NAN, (2, 3, 4), ((1, 2), (3, 1)), (0.5, 2.5), o))
            out.append(case(op, "float32", -1.0, (1, 4, 5), ((3, 1), (2, 2, 1)), (2, 2), o))
    return out
