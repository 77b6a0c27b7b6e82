"""P25 raster-wide reductions use exactly the valid cells."""
import stats
from common import *

BOUNDS = "grids up to 2x3 with 1-2 bands and at least one valid cell; all cell values and masks; nine reductions as methods and as numpy functions, dtypes, chunk layouts"
OUTSIDE = "rasters without any valid cell; overflow of the result dtype"


def case(stat, dt, nv, shape=(1, 2, 2), chunks=((2,), (1, 1)), np_func=False, lo=-20, hi=20, **k):
    lo, hi = (0, 1) if dt == "bool" else (0, hi) if np.dtype(dt).kind == "u" else (lo, hi)
    if stat == "prod":
        lo, hi = max(lo, -3), min(hi, 3)
    ins = dict(a=raster(shape, dt, lo, hi, nv=nv, chunks=((1,) * shape[0],) + chunks))
    idx = list(np.ndindex(shape))

    def run(ctx, a):
        r = getattr(np, stat)(a) if np_func else getattr(a, stat)()
        return {"r": r}

    def assume(i):
        return Or([Not(i.a.m.a[c]) for c in idx])

    def claims(S, i, o):
        cells = [(Not(i.a.m.a[c]), i.a.v.a[c]) for c in idx]
        r = T_(o.r)
        if stat in ("all", "any"):
            f = [Or(Not(ok), Not(sp.eq(v, 0) if v.dt != tm.BOOL else Not(v))) if stat == "all" else
                 And(ok, Not(sp.eq(v, 0) if v.dt != tm.BOOL else Not(v))) for ok, v in cells]
            yield "value", Iff(r if r.dt == tm.BOOL else Not(sp.eq(r, 0)), And(f) if stat == "all" else Or(f))
        else:
            for nm, cond, cc in (stats.split(cells) if stat in ("var", "std") else [("", tm.TRUE, cells)]):
                yield "value" + nm, Implies(And(cond, stats.any_valid(cc)), stats.holds(S, stat, cc, r))

    return Case("%s-%s-%s-%s-%s%s" % (stat, dt, nv, "x".join(map(str, shape)), chunks, "-np" if np_func else ""), ins, run, claims, api=stat, assume=assume, sqrt_axioms=stat == "std", tol=1e-4, atol=1e-4, **k)


def cases(tier):
    out = []
    kinds = [("float32", NAN), ("float64", -1.0), ("int16", -99), ("uint8", 255), ("int32", None), ("bool", True)]
    for st in ("all", "any", "max", "mean", "min", "prod", "std", "sum", "var"):
        for dt, nv in kinds:
            out.append(case(st, dt, nv))
        out.append(case(st, "int16", -99, np_func=True))
        out.append(case(st, "float64", None, shape=(1, 1, 3), chunks=((1,), (2, 1))))
        out.append(case(st, "int16", -99, shape=(2, 1, 2), chunks=((1,), (2,))))
    return out
