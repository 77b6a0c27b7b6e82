"""P24 clipping to a box keeps exactly the cells of the box."""
from common import *

BOUNDS = "grids up to 4x4, 1-2 bands; all cell values and masks; every box with edges on or between cell edges (quick: a subset), boxes reaching outside the raster; chunk layouts, resolutions, dtypes"
OUTSIDE = "boxes narrower than two cells (rioxarray expands them)"


def case(dt, nv, box, nb=1, hw=(3, 3), chunks=((2, 1), (1, 2)), res=1.0, org=(0.0, 0.0), crs="EPSG:3857"):
    """box (left, bottom, right, top) in cells from the lower left corner"""
    h, w = hw
    lo, hi = (0, 1) if dt == "bool" else (0, 200) if np.dtype(dt).kind == "u" else (-100, 100)
    x = org[0] + res * (np.arange(w) + 0.5)
    y = org[1] + res * (np.arange(h)[::-1] + 0.5)
    ins = dict(a=raster((nb, h, w), dt, lo, hi, nv=nv, chunks=((1,) * nb,) + chunks, crs=crs, x=x, y=y))
    bounds = (org[0] + box[0] * res, org[1] + box[1] * res, org[0] + box[2] * res, org[1] + box[3] * res)
    cols = [c for c in range(w) if c + 1 > box[0] and c < box[2]]
    rows = [r for r in range(h) if h - r > box[1] and h - 1 - r < box[3]]

    def run(ctx, a):
        return {"r": ctx.rt.clipping.clip_box(a, bounds)}

    def claims(S, i, o):
        r = o.r
        yield "crs", r.crs == crs
        yield from geo_claims(r, x[cols], y[rows])
        yield from raster_claims(S, r, "r", lambda k: i.a.m.a[k[0], rows[k[1]], cols[k[2]]], lambda k: i.a.v.a[k[0], rows[k[1]], cols[k[2]]],
                                 dtype=dt, nv=nv, shape=(nb, len(rows), len(cols)))

    return Case("%s-%s-%s-%d-%s-%s-%s" % (dt, nv, box, nb, "x".join(map(str, hw)), res, org[0]), ins, run, claims, api="clip_box")


def cases(tier):
    out = []
    kinds = [("float32", NAN), ("int16", -99), ("uint8", None), ("bool", True), ("float64", -1.0)]
    boxes = [(0, 0, 3, 3), (1, 0, 3, 2), (0, 1, 2, 3), (0.25, 0.25, 2.25, 2.75), (-2, -1, 2, 2), (1, 1, 5, 7), (0.75, 0, 3, 2.25), (1, 1, 3, 3), (-5, -5, 9, 9), (0, 0, 2, 2)]
    for n, b in enumerate(boxes):
        for dt, nv in kinds if n < 4 or tier == "thorough" else kinds[:2]:
            out.append(case(dt, nv, b))
        out.append(case("int16", -99, b, res=30.0, org=(-600.0, 900.0), nb=2))
        out.append(case("float32", NAN, b, res=0.25, org=(10.5, -3.25)))
    for b in itertools.product((0, 1, 1.25), (0, 0.25, 2), (3, 3.25, 4), (4, 4.75)):
        if b[2] - b[0] >= 2 and b[3] - b[1] >= 2:
            out.append(case("int16", -99, b, hw=(4, 4), chunks=((3, 1), (2, 2))))
    return out
