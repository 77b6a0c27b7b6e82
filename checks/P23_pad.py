"""P23 padding extends the grid and leaves the original cells alone."""
import math

from common import *

BOUNDS = "grids 2x2 and 2x3, 1-2 bands, 0-2 new rows/columns on each side; all cell values and masks; targets as bounds, rasters and geoboxes; fill values, dtypes, null values, chunk layouts, with and without a CRS"
OUTSIDE = "fill values that do not fit the dtype"


def case(dt, nv, sides, fill=None, nb=1, hw=(2, 2), chunks=((1, 1), (2,)), crs="EPSG:3857", target="bounds", res=1.0, frac=0.0, org=(0.0, 0.0)):
    """sides: (left, bottom, right, top) cells to add; negative ones shrink the target"""
    h, w = hw
    lo, hi = (0, 1) if dt == "bool" else (0, 200) if np.dtype(dt).kind == "u" else (-100, 100)
    x = org[0] + res * (np.arange(w) + 0.5)
    y = org[1] + res * (np.arange(h)[::-1] + 0.5)
    ins = dict(a=raster((nb, h, w), dt, lo, hi, nv=nv, chunks=((1,) * nb,) + chunks, crs=crs, x=x, y=y))
    L, B, R_, T = sides
    bounds = (org[0] - (L - frac) * res, org[1] - (B - frac) * res, org[0] + (w + R_ - frac) * res, org[1] + (h + T - frac) * res)
    al, ab, ar, at = (max(0, s) for s in sides)
    H, W = h + ab + at, w + al + ar
    fills = fill if isinstance(fill, list) else [fill] * nb
    out_nv = nv if nv is not None or fill is not None else default_null(dt)
    isnull = [f is None or (nv is not None and (f == nv or (f != f and nv != nv))) for f in fills]

    def run(ctx, a):
        t = bounds
        if target == "raster":
            tw, th = round((bounds[2] - bounds[0]) / res), round((bounds[3] - bounds[1]) / res)
            t = ctx.rt.data_to_raster(np.zeros((1, th, tw)), x=bounds[0] + res * (np.arange(tw) + 0.5),
                                      y=bounds[1] + res * (np.arange(th)[::-1] + 0.5), crs=crs)
        elif target == "geobox":
            from affine import Affine
            from odc.geo.geobox import GeoBox
            tw, th = round((bounds[2] - bounds[0]) / res), round((bounds[3] - bounds[1]) / res)
            t = GeoBox((th, tw), Affine(res, 0, bounds[0], 0, -res, bounds[3]), crs)
        return {"r": a.pad(t, fill_values=fill)}

    def claims(S, i, o):
        r = o.r
        yield "crs", r.crs == crs
        ex = org[0] + res * (np.arange(-al, w + ar) + 0.5)
        ey = org[1] + res * (np.arange(-ab, h + at)[::-1] + 0.5)
        yield "x", r.x.shape == ex.shape and bool(np.allclose(r.x, ex, atol=1e-9 * res))
        yield "y", r.y.shape == ey.shape and bool(np.allclose(r.y, ey, atol=1e-9 * res))

        def cell(k):
            b, yy, xx = k[0], k[1] - at, k[2] - al
            if 0 <= yy < h and 0 <= xx < w:
                return i.a.m.a[b, yy, xx], i.a.v.a[b, yy, xx]
            if isnull[b]:
                return tm.TRUE, tm.const(0, dt)
            return tm.FALSE, tm.const(np.asarray(fills[b]).astype(dt)[()], dt)

        yield from raster_claims(S, r, "r", lambda k: cell(k)[0], lambda k: cell(k)[1], dtype=dt, nv=out_nv, shape=(nb, H, W))

    return Case("%s-%s-%s-%s-%d-%s-%s-%s-%s-%s-%s" % (dt, nv, sides, fill, nb, "x".join(map(str, hw)), crs, target, res, frac, org[0]), ins, run, claims, api="pad")


def cases(tier):
    out = []
    kinds = [("float32", NAN), ("float64", -1.0), ("int16", -99), ("uint8", 255), ("uint8", None), ("int32", None), ("float32", None), ("bool", True)]
    for dt, nv in kinds:
        out.append(case(dt, nv, (1, 1, 1, 1)))
        out.append(case(dt, nv, (0, 2, 0, 0), fill=1))
        out.append(case(dt, nv, (2, 0, 1, 0), nb=2, hw=(2, 3), chunks=((2,), (1, 2))))
        out.append(case(dt, nv, (0, 0, 1, 2), nb=2, fill=[1, nv if nv is not None else 0]))
        out.append(case(dt, nv, (1, 0, 0, 1), fill=nv if nv is not None else 0))
    for s in ((0, 0, 0, 0), (-1, 1, 0, 0), (1, -1, -1, 0), (0, 0, 0, 1), (0, 1, 0, 0), (1, 0, 0, 0), (0, 0, 1, 0), (2, 1, 1, 2)):
        for crs in ("EPSG:3857", None):
            out.append(case("int16", -99, s, crs=crs))
        if min(s) >= 0:
            out.append(case("float32", NAN, s, target="raster", crs=None if sum(s) % 2 else "EPSG:3857"))
            out.append(case("int16", -99, s, target="geobox"))
            out.append(case("int16", -99, s, frac=0.5)) if max(s) else None
            out.append(case("uint8", 255, s, res=30.0, org=(-2000.0, 5000.0)))
            out.append(case("float64", -1.0, s, res=0.25, org=(10.5, -3.25), fill=2.5))
    # 64-bit integers that a float cannot hold
    big = 2 ** 53 + 1
    for dt, nv, fill in (("int64", None, big), ("int64", -big, None), ("int64", -1, [big, -big]), ("uint64", 2 ** 64 - 1, 2 ** 63 + 1),
                         ("uint64", None, [2 ** 64 - 1, big]), ("uint64", 2 ** 64 - 1, None), ("int64", big, [big - 1, big])):
        out.append(case(dt, nv, (1, 0, 0, 1), fill=fill, nb=2))
    if tier == "thorough":
        for dt, nv in kinds:
            for s in itertools.product((0, 1, 3), repeat=4):
                out.append(case(dt, nv, s, nb=2, hw=(3, 2), chunks=((1, 2), (1, 1))))
    return out
