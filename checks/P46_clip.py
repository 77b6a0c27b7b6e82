"""P46 clipping by features keeps exactly the cells inside them."""
from common import *

BOUNDS = "grids up to 4x5 with 1-2 bands; all cell values and masks; sets of rectangles, triangles (fixed per case) that cover none, some and all cells; clip, erase, mask (both ways) and envelope, given bounds, dtypes, chunk layouts"
OUTSIDE = "which cells a geometry covers (decided by GDAL; the features used only touch cells they overlap); features read from files or in another CRS"

HALF = 0.5
FEATS = {
    "box": [[(1.1, 0.9), (3.2, 0.9), (3.2, 3.2), (1.1, 3.2)]],
    "two": [[(0.1, 0.2), (1.2, 0.2), (1.2, 1.3), (0.1, 1.3)], [(2.7, 1.8), (4.8, 1.8), (4.8, 3.9), (2.7, 3.9)]],
    "tri": [[(0.2, 0.1), (4.9, 0.3), (0.3, 3.9)]],
    "all": [[(-1.0, -1.0), (9.0, -1.0), (9.0, 9.0), (-1.0, 9.0)]],
    "small": [[(1.6, 1.2), (2.4, 1.1), (2.3, 2.4), (1.7, 2.3)]],
    "frame": [[(0.3, 0.2), (4.7, 0.2), (4.7, 3.7), (0.3, 3.7), (0.3, 0.21), (0.4, 0.3), (0.4, 3.6), (4.6, 3.6), (4.6, 0.3), (0.4, 0.29)]],
}


def inside(poly, x, y):
    """the polygon touches the cell centred at x, y"""
    from shapely.geometry import Polygon, box
    return Polygon(poly).intersection(box(x - HALF, y - HALF, x + HALF, y + HALF)).area > 0


def case(op, shape, dt, nv, chunks, feat, bounds=None, invert=None):
    nb, h, w = shape
    kw = dict(lo=0, hi=1) if dt == "bool" else dict(lo=0 if np.dtype(dt).kind == "u" else -20, hi=20)
    ins = dict(a=raster(shape, dt, nv=nv, chunks=((1,) * nb,) + chunks, crs="EPSG:5070", **kw))
    X, Y = ins["a"].coords()
    polys = FEATS[feat]
    bd = bounds or [min(p[0] for f in polys for p in f), min(p[1] for f in polys for p in f), max(p[0] for f in polys for p in f), max(p[1] for f in polys for p in f)]
    cols, rows = list(range(w)), list(range(h))
    if op != "mask":
        cols = [c for c in cols if X[c] + HALF > bd[0] and X[c] - HALF < bd[2]]
        rows = [r for r in rows if Y[r] + HALF > bd[1] and Y[r] - HALF < bd[3]]
    assert len(cols) > 1 and len(rows) > 1
    out_nv = DEFAULT_NULL[dt] if nv is None else nv
    neg = bool(op == "erase" or invert)

    def run(ctx, a):
        import geopandas as gpd
        from shapely.geometry import Polygon
        f = ctx.rt.vector.Vector(gpd.GeoDataFrame(geometry=[Polygon(p) for p in polys], crs="EPSG:5070"))
        fn = getattr(ctx.rt.clipping, op)
        args = {}
        if bounds is not None:
            args["bounds"] = bounds
        if invert is not None:
            args["invert"] = invert
        return {"r": fn(f, a, **args)}

    def claims(S, i, o):
        at = lambda k: (k[0], rows[k[1]], cols[k[2]])
        hit = lambda k: op == "envelope" or any(inside(p, X[cols[k[2]]], Y[rows[k[1]]]) for p in polys) != neg
        null = lambda k: Or(tm.const(not hit(k), bool), i.a.m.a[at(k)])
        yield from raster_claims(S, o.r, "r", null, lambda k: i.a.v.a[at(k)], dtype=dt, nv=out_nv, shape=(nb, len(rows), len(cols)))
        yield from geo_claims(o.r, X[cols], Y[rows])
        yield "crs", o.r.crs is not None and "5070" in o.r.crs

    return Case("%s-%s-%s-%s-%s-%s-%s-%s" % (op, "x".join(map(str, shape)), dt, nv, chunks, feat, bounds, invert), ins, run, claims, api=op)


def cases(tier):
    out = []
    K = [("int16", -99), ("float32", NAN), ("uint8", None), ("float64", -1.0), ("uint8", 255), ("bool", None), ("int32", 0), ("float32", None), ("bool", True), ("int64", 3)]
    L = [((2, 2), (3, 2)), ((4,), (5,)), ((1, 3), (1, 2, 2)), ((3, 1), (5,))]
    ops = [("clip", {}), ("erase", {}), ("mask", {}), ("mask", dict(invert=True)), ("mask", dict(invert=False)), ("envelope", {}),
           ("clip", dict(bounds=(0.2, 0.3, 3.7, 2.6))), ("erase", dict(bounds=(1.2, 1.1, 4.7, 3.6)))]
    n = 0
    for op, kw in ops:
        for feat in ("box", "two", "tri", "all", "small", "frame"):
            dt, nv = K[n % len(K)]
            out.append(case(op, (1 + (n % 3 == 1), 4, 5), dt, nv, L[n % len(L)], feat, **kw))
            n += 1
    return out
