"""Scenario and reference shared by P14 and P15."""
from common import *

F = np.float64
BOUNDS = ("grids 1x3, 2x2, 2x3 with all costs, null patterns and (rasters) source placements symbolic; 3x3 to 4x4 grids and a 2x130 grid (more than "
          "128 sources) with a few symbolic cells; 4- and 8-connected, several dtypes, null values and cell sizes; costs positive where not stated otherwise")
OUTSIDE = "sources on cells with negative or infinite cost"
MOVES = [(0, -1), (-1, -1), (-1, 0), (-1, 1), (0, 1), (1, 1), (1, 0), (1, -1)]
# direction codes of the traceback: neighbour to move to, counted from "right" clockwise (ESRI)
CODE = {1: (0, 1), 2: (1, 1), 3: (1, 0), 4: (1, -1), 5: (0, -1), 6: (-1, -1), 7: (-1, 0), 8: (-1, 1)}


def scenario(claims, h, w, dt="float64", nv=NAN, lo=0, hi=9, conn=8, src=None, sdt="int32", snv=-1, smask=None, elev=None, env=NAN, elo=0, ehi=5,
             res=(1.0, 1.0), chunks=None, tag="", base=None, free=None, ebase=None, efree=None, cmask=None, cinf=False, sbase=None, **k):
    """src: list of (row, col) source indices, or None for a source raster with every placement.

    free: the cells of `costs` that are symbolic (all when base is None)."""
    chunks = chunks or ((h,), (w,))
    x = np.arange(w) * res[0] + res[0] / 2
    y = np.arange(h)[::-1] * res[1] + res[1] / 2
    ins = dict(c=raster((1, h, w), dt, lo, hi, nv=nv, chunks=chunks, x=x, y=y, crs="EPSG:5070", base=base, free=free,
                        only_mask=cmask, inf=cinf))
    if src is None:
        slo = 0 if np.dtype(sdt).kind == "u" else -5
        ins["s"] = raster((1, h, w), sdt, slo, 50, nv=snv, chunks=chunks, x=x, y=y, only_mask=smask)
        if smask is not None:
            raise ValueError
    if elev:
        ins["e"] = raster((1, h, w), elev, elo, ehi, nv=env, chunks=chunks, x=x, y=y, base=ebase, free=efree)
    cells = [(r, q) for r in range(h) for q in range(w)]

    def run(ctx, c, s=None, e=None):
        sources = s if s is not None else [list(p) for p in src]
        cd, tr, al = ctx.rt.distance.cost_distance_analysis(c, sources, elevation=e, connectivity=conn)
        return {"cd": cd, "tr": tr, "al": al}

    def passable(i, p):
        c = i.c.v.a[(0,) + p]
        ok = And(Not(i.c.m.a[(0,) + p]), sp.ge(c, 0), sp.isfinite(c))
        if elev:
            ok = And(ok, Not(i.e.m.a[(0,) + p]))
        return ok

    def is_source(i, p):
        if src is not None:
            return tm.TRUE if p in [tuple(q) for q in src] else tm.FALSE
        return Not(i.s.m.a[(0,) + p])

    def source_value(i, p):
        if src is not None:
            return tm.const([tuple(q) for q in src].index(p) if p in [tuple(q) for q in src] else -1, np.int64)
        return T_(i.s.v.a[(0,) + p], np.int64)

    def neighbours(p):
        for n, (dr, dq) in enumerate(MOVES):
            if conn == 4 and n % 2:
                continue
            q = (p[0] + dr, p[1] + dq)
            if 0 <= q[0] < h and 0 <= q[1] < w:
                yield q

    def step(i, p, q):
        d2 = ((p[0] - q[0]) * res[1]) ** 2 + ((p[1] - q[1]) * res[0]) ** 2
        if elev:
            dz = sp.num("sub", i.e.v.a[(0,) + p], i.e.v.a[(0,) + q])
            ln = tm.mk_op("sqrt", np.dtype(F), sp.num("add", float(d2), sp.num("mul", dz, dz)))
        else:
            ln = tm.const(float(np.sqrt(d2)), F)
        return sp.num("mul", ln, sp.num("mul", 0.5, sp.num("add", i.c.v.a[(0,) + p], i.c.v.a[(0,) + q])))

    G = NS_(h=h, w=w, cells=cells, passable=passable, is_source=is_source, source_value=source_value, neighbours=neighbours, step=step,
            conn=conn, nv=nv, snv=snv if src is None else -1, elev=elev, x=x, y=y, dt=dt, lo=lo, sdt=sdt)

    def claims_(S, i, o):
        yield from claims(G, S, i, o)

    name = "%s%dx%d-%s-nv%s-c%d-%s-%s-res%g,%g-%s" % (tag, h, w, dt, nv, conn, "raster-%s-%s" % (sdt, snv) if src is None else str(src if len(src) < 5 else len(src)).replace(" ", ""),
                                                      "e%s-%s" % (elev, env) if elev else "flat", res[0], res[1], str(chunks).replace(" ", ""))
    k.setdefault("path_limit", 6000)
    k.setdefault("case_timeout", 600)
    return Case(name, ins, run, claims_, merge=False, summaries=False, batch=True, api="cost_distance", tol=1e-5 if dt == "float32" else 1e-9, atol=1e-9,
                sqrt_axioms=bool(elev), feas_abstract=bool(elev), **k)


class NS_:
    def __init__(self, **k):
        self.__dict__.update(k)


def cases(claims, tier):
    """symbolic cases; `L` keeps the costs positive (local optimality conditions suffice then)"""
    L = 0.125
    out = []
    S = lambda *a, **k: out.append(scenario(claims, *a, **k))
    # more sources than the initial capacity of the queue
    n = 130
    many = np.arange(2 * n).reshape(2, n) * 7 % 11 + 1.0
    S(2, n, src=[(0, j) for j in range(n)], lo=L, hi=3, nv=None, base=many, free={(0, 1, 60)}, tag="many")
    S(1, 3, lo=L)
    S(1, 3, lo=-2, src=[(0, 1)], tag="barrier")
    S(1, 4, nv=None, lo=0, src=[(0, 0), (0, 3)], tag="zero")
    S(2, 2, lo=0, src=[(0, 0)], nv=None, tag="zero")
    S(2, 2, lo=L, nv=None, src=[(0, 0)])
    S(2, 2, lo=L, conn=4)
    S(2, 2, lo=L, dt="int16", nv=-99, src=[(1, 0)], conn=4)
    S(2, 2, lo=1, dt="uint8", nv=255, src=[(1, 1)])
    S(2, 2, lo=L, nv=None, src=[(0, 0)], cinf=True, tag="inf")
    S(2, 3, lo=L, nv=None, src=[(0, 0)])
    S(2, 3, lo=L, nv=None, src=[(0, 1)], res=(30.0, 10.0), conn=4)
    S(2, 3, lo=1, dt="int32", nv=None, src=[(1, 2), (0, 0)], res=(2.0, 3.0))
    S(1, 3, lo=1, sdt="uint8", snv=255, dt="float32", nv=-1.0)
    # costs that are the same everywhere, symbolic elevations
    S(1, 3, src=[(0, 0)], lo=L, base=np.full((1, 1, 3), 2.0), free=set(), nv=None, elev="float64", env=NAN, tag="el")
    S(1, 3, src=[(0, 1)], lo=L, nv=None, elev="int16", env=-99, tag="el")
    S(2, 2, src=[(0, 0)], lo=L, base=np.full((1, 2, 2), 2.0), free=set(), nv=None, elev="uint8", env=255, tag="el", ehi=200)
    S(2, 2, src=[(0, 0)], lo=L, base=np.full((1, 2, 2), 1.0), free=set(), nv=None, elev="float32", env=None, tag="el", conn=4)
    # larger grids with a few symbolic cells: walls with gaps, detours, ties
    wall = np.array([[1, 1, 9, 1], [1, 1, 9, 1], [1, 1, 9, 1], [1, 1, 1, 1]], float)
    S(4, 4, src=[(0, 0)], lo=L, hi=20, nv=NAN, base=wall, free={(0, 0, 2)}, tag="wall")
    S(4, 4, src=[(0, 0)], lo=L, hi=20, nv=NAN, base=wall, free={(0, 3, 2)}, tag="door", conn=4)
    S(3, 4, src=[(1, 0), (1, 3)], lo=L, hi=20, nv=-1.0, base=wall[:3] * 2, free={(0, 0, 1), (0, 1, 2)}, conn=4, tag="mid", chunks=((2, 1), (1, 3)))
    S(3, 3, src=[(2, 0)], lo=L, hi=20, nv=NAN, base=np.ones((3, 3)), free={(0, 1, 1), (0, 1, 0)}, res=(1.0, 4.0), tag="res")
    if tier == "thorough":
        S(4, 4, src=[(0, 0)], lo=L, hi=20, nv=NAN, base=wall, free={(0, 0, 2), (0, 3, 2)}, tag="wall2", case_timeout=3000)
        S(2, 2, lo=L, conn=8, path_limit=40000)
        S(2, 3, lo=L, src=[(0, 0)], nv=NAN, conn=4, path_limit=40000)
        S(3, 3, lo=L, src=[(1, 1)], nv=None, conn=4, path_limit=40000, case_timeout=3000)
        S(2, 3, lo=L, src=None, nv=None, conn=4, path_limit=40000, case_timeout=3000)
        S(4, 4, src=[(0, 0)], lo=L, hi=20, nv=NAN, base=wall, free={(0, 0, 2), (0, 2, 2), (0, 3, 2), (0, 1, 1), (0, 2, 1)}, tag="wall5", path_limit=40000, case_timeout=3000)
        S(2, 3, src=[(0, 0)], lo=L, nv=None, elev="float64", env=NAN, tag="el", case_timeout=3000)
    return out
