"""P19 surface_area_3d sums the eight triangles of Jenness's construction."""
from common import *

BOUNDS = "1-2 bands, grids 3x3 to 4x4, all elevations in +-1000 and all null masks; square cells of listed sizes; chunk layouts; float and integer elevations"
OUTSIDE = "oblong cells (documented as unsupported), float16, rounding of floats; that Heron's products are non-negative is taken as known; sqrt is an uninterpreted function (each triangle's edges and area are compared term by term)"
F8 = np.float64


def f(x):
    return tm.mk_cast(T_(x), np.dtype(float))


def hypo(d2, a, b):
    """half of the length of the edge between two cell centres"""
    d = uf(np.subtract, f(a), f(b))
    return uf(np.multiply, uf(np.sqrt, uf(np.add, F8(d2), uf(np.multiply, d, d))), F8(0.5))


def heron(a, b, c):
    s = uf(np.multiply, uf(np.add, uf(np.add, a, b), c), F8(0.5))
    p = s
    for e in (a, b, c):
        p = uf(np.multiply, p, uf(np.subtract, s, e))
    return uf(np.sqrt, p)


RING = [(-1, -1), (-1, 0), (-1, 1), (0, 1), (1, 1), (1, 0), (1, -1), (0, -1)]


def area(z, res):
    tot = None
    e = z[0, 0]
    for k in range(8):
        p, q = RING[k], RING[(k + 1) % 8]
        d = lambda u, v: res * res * ((u[0] - v[0]) ** 2 + (u[1] - v[1]) ** 2)
        t = heron(hypo(d(p, (0, 0)), e, z[p]), hypo(d(q, (0, 0)), e, z[q]), hypo(d(p, q), z[p], z[q]))
        tot = t if tot is None else uf(np.add, tot, t)
    return tot


def case(dt, nv, shape, chunks, res=1, lo=-1000, hi=1000, **k):
    x = 10 + (np.arange(shape[2]) + 0.5) * res
    y = (100 + (np.arange(shape[1]) + 0.5) * res)[::-1]
    if dt == "uint8":
        lo, hi = 0, 255
    ins = dict(a=raster(shape, dt, lo, hi, nv=nv, chunks=((1,) * shape[0],) + chunks, x=x, y=y))

    def run(ctx, a):
        return {"r": ctx.rt.surface.surface_area_3d(a)}

    def claims(S, i, o):
        r = o.r
        yield "shape", tuple(r.shape) == shape == tuple(r.data.shape) == tuple(r.mask.shape)
        yield "dtype", r.dtype == r.ddtype == r.data.dtype == np.dtype(float)
        yield "null", r.nv is not None
        yield from geo_claims(r, x, y)
        for c in np.ndindex(shape):
            b, rr, cc = c
            if rr in (0, shape[1] - 1) or cc in (0, shape[2] - 1):
                n, w = tm.TRUE, None
            else:
                n = Or([i.a.m.a[b, rr + p, cc + q] for p in (-1, 0, 1) for q in (-1, 0, 1)])
                z = {(p, q): i.a.v.a[b, rr + p, cc + q] for p in (-1, 0, 1) for q in (-1, 0, 1)}
                w = area(z, res)
                yield "value" + lab(*c), Implies(And(Not(n), Not(sp.isnan(w))), S.same(r.data.a[c], w))
            # (Heron's product is never negative in exact arithmetic: not re-proved here)
            yield "mask" + lab(*c), Iff(r.mask.a[c], n if w is None else Or(n, sp.isnan(w)))
            yield "null-cell" + lab(*c), Implies(n, sp.exact(r.data.a[c], tm.const(r.nv, r.data.dtype)))

    return Case(("area-%s-nv%s-%s-%s-res%s" % (dt, nv, "x".join(map(str, shape)), chunks, res)).replace(" ", ""), ins, run, claims, api="surface_area_3d", **k)


def cases(tier):
    out = []
    for dt, nv in (("float32", NAN), ("float64", -9.0), ("int16", -99), ("float64", None), ("uint8", 255), ("int32", None)):
        out.append(case(dt, nv, (1, 3, 3), ((3,), (3,))))
        out.append(case(dt, nv, (1, 4, 4), ((2, 2), (1, 3)), 30))
    out.append(case("float64", NAN, (2, 3, 4), ((1, 2), (3, 1)), 0.5))
    out.append(case("float32", -1.0, (1, 4, 4), ((3, 1), (2, 1, 1)), 10))
    return out
