"""P27 point extraction reports every valid cell once."""
from common import *
from symx.harness import sched

BOUNDS = "grids up to 2x4 cells with 1-2 bands (up to 8 cells in all); all cell values and masks; dtypes, null values, chunk layouts, origins"
OUTSIDE = "larger grids; the geometry objects geopandas builds from the coordinates"

GRIDS = [(0.0, 0.0, 1.0, 1.0), (-100.25, 400.5, 30.0, 10.0), (500000.0, -4000000.0, 0.5, 2.5)]


def case(nb, h, w, dt, nv, chunks, g=0, **k):
    x0, y0, rx, ry = GRIDS[g]
    gx = np.array([x0 + (j + 0.5) * rx for j in range(w)])
    gy = np.array([y0 + (h - i - 0.5) * ry for i in range(h)])
    ins = dict(a=raster((nb, h, w), dt, 0 if np.dtype(dt).kind in "ub" else -20, 1 if dt == "bool" else 20, nv=nv, chunks=chunks, x=gx, y=gy, crs="EPSG:5070"))
    idx = list(np.ndindex(nb, h, w))
    where = set(idx)

    def run(ctx, a):
        r = a.to_points()
        meta = {c: str(r.dtypes[c]) for c in ("value", "band", "row", "col")}
        parts = [p.compute(**sched(ctx)) for p in r.partitions]
        out = {"meta": meta, "columns": list(r.columns), "nparts": len(parts), "pcolumns": [list(p.columns) for p in parts],
               "crs": ["5070" in str(p.crs) for p in parts], "n": [len(p) for p in parts]}
        cat = lambda f: [v for p in parts for v in f(p)]
        for c in ("band", "row", "col"):
            out[c] = [int(v) for v in cat(lambda p: p[c])]
        out["index"] = [int(v) for v in cat(lambda p: p.index)]
        out["x"] = [float(v) for v in cat(lambda p: p.geometry.x)]
        out["y"] = [float(v) for v in cat(lambda p: p.geometry.y)]
        out["value"] = cat(lambda p: list(p["value"].to_numpy()))
        out["vtype"] = [v.dtype == np.dtype(dt) for v in out["value"]]
        return out

    def claims(S, i, o):
        cols = ["value", "band", "row", "col", "geometry"]
        yield "columns", list(o.columns) == cols and all(c == cols for c in o.pcolumns)
        yield "declared dtypes", o.meta.value == dt and all(getattr(o.meta, c) == "int64" for c in ("band", "row", "col"))
        yield "crs", all(o.crs)
        n = len(o.value)
        yield "lengths", all(len(v) == n for v in (o.band, o.row, o.col, o.index, o.x, o.y))
        yield "value dtype", all(o.vtype)
        at = [(o.band[k] - 1, o.row[k], o.col[k]) for k in range(n)]
        yield "no record outside", all(c in where for c in at)
        yield "no record twice", len(set(at)) == n
        yield "unique index", len(set(o.index)) == n
        for k in range(n):
            if at[k] in where:
                b, r, c = at[k]
                yield "coordinates" + lab(*at[k]), abs(o.x[k] - gx[c]) < 1e-6 * rx and abs(o.y[k] - gy[r]) < 1e-6 * ry
                yield "value" + lab(*at[k]), sp.exact(T_(o.value[k]), i.a.v.a[at[k]])
                yield "index" + lab(*at[k]), o.index[k] == (b * h + r) * w + c
        for c in idx:
            yield "record" + lab(*c), i.a.m.a[c] if c not in at else Not(i.a.m.a[c])

    return Case("points-%d-%d-%d-%s-%s-%s-%d" % (nb, h, w, dt, nv, chunks, g), ins, run, claims, api="to_points", merge=False, summaries=False, **k)


def cases(tier):
    out = []
    K = [("int16", -99), ("float32", NAN), ("uint8", None), ("float64", -1.0), ("bool", True), ("uint8", 255), ("int64", 0), ("float32", 3.0)]
    S = [(1, 2, 3, ((1,), (2,), (2, 1))), (1, 3, 2, ((1,), (1, 2), (2,))), (2, 2, 2, ((1, 1), (2,), (1, 1))), (1, 2, 2, ((1,), (2,), (2,))), (1, 1, 5, ((1,), (1,), (2, 3))),
         (2, 2, 2, ((1, 1), (1, 1), (2,))), (1, 4, 2, ((1,), (1, 1, 2), (2,))), (1, 2, 3, ((1,), (1, 1), (1, 1, 1))), (3, 2, 1, ((1, 1, 1), (2,), (1,))), (2, 1, 3, ((1, 1), (1,), (1, 2)))]
    for n, (nb, h, w, ch) in enumerate(S):
        if 1 in (h, w):
            continue    # known findings, below
        for m in range(2 if tier == "quick" else len(K)):
            dt, nv = K[(2 * n + m) % len(K)]
            out.append(case(nb, h, w, dt, nv, ch, (n + m) % 3))
    # the affine of a raster of a single row or column is upside down
    out.append(case(1, 3, 1, "int16", -99, ((1,), (2, 1), (1,)), known=[("single-column-points", lambda S, i: True)]))
    out.append(case(1, 1, 3, "float32", NAN, ((1,), (1,), (2, 1)), 2, known=[("single-row-points", lambda S, i: True)]))
    return out
