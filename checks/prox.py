"""Scenario and reference shared by P16 and P17."""
from common import *

F = np.float64
BOUNDS = ("grids up to 3x3 with all cell values and null patterns; 3x4 to 4x6 grids with up to 9 symbolic cells; every metric, listed targets, "
          "maximum distances (at, between and beyond the distances that occur), oblong cells, one to two bands, chunks smaller than the reach")
OUTSIDE = "float16; great-circle distances across the antimeridian; targets that hold the default null value of their dtype; single-row or -column rasters split into chunks"
METRICS = {"euclidean": lambda dx, dy: np.sqrt(dx * dx + dy * dy), "taxi": lambda dx, dy: abs(dx) + abs(dy), "chebyshev": lambda dx, dy: max(abs(dx), abs(dy))}


def haversine(a, b):
    x1, y1, x2, y2 = np.radians([*a, *b])
    h = np.sin((y2 - y1) / 2) ** 2 + np.cos(y1) * np.cos(y2) * np.sin((x2 - x1) / 2) ** 2
    return 2 * 6371009.0 * np.arcsin(np.sqrt(h))


def near(S, a, b):
    """equal up to the rounding of the constants involved"""
    eps = abs(b) * (1e-6 if a.dt == np.float32 else 1e-9)
    return S.same(a, b) if b == 0 else And(sp.ge(a, b - eps), sp.le(a, b + eps))


def scenario(claims, h, w, dt="float32", nv=NAN, lo=-3, hi=3, nb=1, metric="euclidean", maxd=np.inf, targets=None, double=False, res=(1.0, 1.0), org=(0.0, 0.0),
             chunks=None, free=None, base=None, up=False, inf=False, cmask=None, tag="", api=None, **k):
    chunks = chunks or ((h,), (w,))
    x = org[0] + np.arange(w) * res[0] + res[0] / 2
    y = org[1] + np.arange(h)[::-1] * res[1] + res[1] / 2
    if np.dtype(dt).kind in "ub":
        lo, hi = 0, 1 if dt == "bool" else hi
    if free is not None and base is None:
        base = np.zeros((nb, h, w))
    ins = dict(a=raster((nb, h, w), dt, lo, hi, nv=nv, chunks=((1,) * nb,) + chunks, x=x, y=y, crs="EPSG:4326" if metric in ("haversine", "great_circle") else "EPSG:5070",
                        base=base, free=free, only_mask=cmask, inf=inf))
    dist = haversine if metric in ("haversine", "great_circle") else lambda a, b: METRICS[
        {None: "euclidean", "chessboard": "chebyshev", "manhatten": "taxi", "taxicab": "taxi", "city_block": "taxi"}.get(metric, metric)](a[0] - b[0], a[1] - b[1])
    cells = [(r, q) for r in range(h) for q in range(w)]
    D = {(p, q): float(dist((x[p[1]], y[p[0]]), (x[q[1]], y[q[0]]))) for p in cells for q in cells}
    arg = dict(target_values=targets, distance_metric=metric, max_distance=maxd, double_precision=double)

    def run(ctx, a):
        d = ctx.rt.distance
        if api == "all":
            p, r, al = d.proximity_analysis(a, **arg)
            return {"p": p, "d": r, "al": al}
        return {"p": d.pa_proximity(a, **arg), "d": d.pa_direction(a, **arg), "al": d.pa_allocation(a, **arg)} if api == "three" else {"p": d.pa_proximity(a, **arg)}

    def is_target(i, b, p):
        c = (b,) + p
        v = i.a.v.a[c]
        if targets is None:
            return And(Not(i.a.m.a[c]), Not(sp.eq(v, 0)), sp.isfinite(v))
        return And(Not(i.a.m.a[c]), Or([sp.eq(v, t) for t in targets]))

    def within(d):
        return d <= maxd * (1 + 1e-12)

    G = NS_(h=h, w=w, nb=nb, cells=cells, is_target=is_target, D=D, within=within, x=x, y=y, dt=np.dtype(dt), out=F if double else np.float32,
            crs="EPSG:4326" if metric in ("haversine", "great_circle") else "EPSG:5070", shape=(nb, h, w))

    def claims_(S, i, o):
        yield from claims(G, S, i, o)

    name = ("%s%dx%dx%d-%s-nv%s-%s-%g-%s-%s-res%g,%g-%s" % (tag, nb, h, w, dt, nv, metric, maxd, targets, "f8" if double else "f4", res[0], res[1], chunks)).replace(" ", "")
    k.setdefault("path_limit", 20000)
    k.setdefault("case_timeout", 500)
    return Case(name, ins, run, claims_, merge=False, summaries=False, batch=True, api="proximity", group="proximity-%s-%s" % (dt, double), tol=1e-6, atol=1e-6, **k)


class NS_:
    def __init__(self, **k):
        self.__dict__.update(k)


def cases(claims, tier, api):
    out = []
    S = lambda *a, **k: out.append(scenario(claims, *a, api=k.pop("api", api), **k))
    row = {(0, 1, j) for j in range(6)}
    for m in ("euclidean", "taxi", "chebyshev"):
        S(3, 3, dt="int32", nv=None, metric=m, lo=0, hi=2, **({} if api is None else dict(free={(0, r, q) for r in range(3) for q in range(3) if (r, q) not in ((0, 2), (2, 1))})))
        S(2, 3, metric=m, maxd=1.0, chunks=((1, 1), (2, 1)))
        S(2, 3, metric=m, maxd=2.0, res=(2.0, 0.5), chunks=((2,), (1, 2)), double=True)
        S(4, 4, dt="int16", nv=-1, metric=m, maxd=2.5, free={(0, 0, 1), (0, 3, 0), (0, 1, 3), (0, 2, 2), (0, 0, 3)}, chunks=((2, 2), (3, 1)), lo=-1, hi=2)
        S(4, 6, dt="uint8", nv=None, metric=m, maxd=3.0, free={(0, 0, 0), (0, 0, 5), (0, 3, 1), (0, 2, 3), (0, 3, 5)}, chunks=((1, 3), (2, 2, 2)))
    S(2, 3, dt="int16", nv=None, maxd=1.5, chunks=((2,), (2, 1)))
    S(2, 3, dt="bool", nv=None, maxd=1.0, chunks=((1, 1), (3,)))
    S(2, 3, dt="int16", nv=-99, targets=[2, -99], maxd=2.0, chunks=((2,), (2, 1)))
    S(2, 3, dt="uint8", nv=None, targets=[0], metric="taxicab", maxd=1.0, chunks=((1, 1), (1, 2)))
    S(2, 3, dt="float64", nv=None, targets=[1.5, 0], metric="chessboard", maxd=1.0, double=True)
    S(2, 2, dt="int32", nv=0, metric="manhatten")
    S(2, 2, dt="float64", nv=-1.0, inf=True, double=True)
    S(2, 2, nb=2, dt="int16", nv=-9, maxd=1.0, chunks=((1, 1), (2,)), free={(0, 0, 0), (0, 1, 1), (1, 0, 0), (1, 0, 1), (1, 1, 1)})
    S(2, 3, nb=2, dt="float32", nv=None, metric=None, free={(0, 0, 1), (0, 1, 2), (1, 0, 0), (1, 1, 1), (1, 0, 1)})
    # reach larger than the raster is high, and than the chunks
    S(2, 6, dt="float32", nv=None, maxd=3.0, free=row, chunks=((2,), (1, 2, 1, 2)))
    S(6, 2, dt="int32", nv=None, maxd=30.0, res=(10.0, 10.0), metric="city_block", free={(0, j, 1) for j in range(0, 6, 1)}, chunks=((2, 1, 3), (1, 1)))
    S(2, 6, dt="float32", nv=NAN, maxd=0.75, res=(0.25, 0.25), free=row, chunks=((2,), (1,) * 6))
    # great circles: high latitudes on both sides, wide cells
    for m, y0, mx, res in (("haversine", -85.0, 440e3, (10.0, 5.0)), ("great_circle", 75.0, 440e3, (10.0, 5.0)), ("haversine", 0.0, np.inf, (1.0, 1.0)),
                           ("haversine", 82.0, 600e3, (20.0, 3.0))):
        S(2, 6, dt="float64", nv=None, metric=m, maxd=mx, res=res, org=(20.0, y0), free=row, chunks=((2,), (1,) * 6), double=True)
    if api is None:
        # the line sweeps drop the nearest target of the far corner: a known finding
        three = [(0, 3), (1, 1), (3, 0)]
        S(4, 4, dt="uint8", nv=None, free={(0,) + p for p in three} | {(0, 2, 3)}, tag="corner", known=[
            ("euclidean-sweep-4x4", lambda S_, i: And([Not(sp.eq(i.a.v.a[(0,) + p], 0)) for p in three], sp.eq(i.a.v.a[0, 2, 3], 0)))])
    if tier == "thorough":
        for m in ("euclidean", "taxi", "chebyshev"):
            S(3, 3, dt="int32", nv=None, metric=m, lo=0, hi=2, tag="all")
            S(3, 4, dt="uint8", nv=None, metric=m, lo=0, hi=2, case_timeout=2500)
            S(3, 3, dt="float32", nv=NAN, metric=m, maxd=1.5, chunks=((1, 1, 1), (2, 1)), case_timeout=2500)
            S(5, 5, dt="int16", nv=-1, metric=m, maxd=3.0, free={(0, 0, 1), (0, 4, 0), (0, 1, 4), (0, 2, 2), (0, 0, 3), (0, 3, 3), (0, 3, 0), (0, 4, 4)}, chunks=((2, 3), (3, 2)), lo=-1, hi=2, case_timeout=2500)
    return out
