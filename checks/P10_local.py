"""P10 local statistics summarise each cell's valid band values."""
import stats
from common import *

BOUNDS = "2-3 bands (4 in thorough), grids up to 2x2; 129 to 258 bands of which one or two are symbolic for minband, maxband and unique; all cell values in range (and infinities for minband/maxband) and all masks"


def case(stat, dt, nv, shape=(3, 1, 2), chunks=((1,), (1, 1)), inf=False, lo=-20, hi=20, base=None, free=None, **k):
    if np.dtype(dt).kind in "ub":
        lo = 0
    if dt == "bool":
        hi = 1
    ins = dict(a=raster(shape, dt, lo, hi, nv=nv, inf=inf, chunks=((1,) * shape[0],) + chunks, base=base, free=free))

    def run(ctx, a):
        return {"r": ctx.rt.general.local_stats(a, stat)}

    def claims(S, i, o):
        r = o.r
        n, h, w = shape
        yield "shape", tuple(r.shape) == (1, h, w) == tuple(r.data.shape) == tuple(r.mask.shape)
        masked = nv is not None
        yield "has-null", (r.nv is not None) == masked
        if masked:
            yield "null", r.nv == default_null(r.dtype)
        yield "dtype", r.dtype == r.data.dtype
        yield "band", list(r.band) == [1]
        yield from geo_claims(r, *i.a.inp.coords())
        for y, x in np.ndindex(h, w):
            cells = [(Not(i.a.m.a[b, y, x]), i.a.v.a[b, y, x]) for b in range(n)]
            some = stats.any_valid(cells)
            yield "mask" + lab(y, x), Iff(r.mask.a[0, y, x], Not(some))
            rv = r.data.a[0, y, x]
            if stat in ("minband", "maxband"):
                yield "value" + lab(y, x), Implies(some, bands(stat, cells, rv))
            elif stat in ("var", "std"):
                for pat, cond, sub in stats.split(cells):
                    yield "value-" + pat + lab(y, x), Implies(cond, stats.holds(S, stat, sub, rv))
            else:
                yield "value" + lab(y, x), Implies(some, stats.holds(S, stat, cells, rv))
            if masked:
                yield "null-cell" + lab(y, x), Implies(Not(some), sp.exact(r.data.a[0, y, x], tm.const(r.nv, r.dtype)))

    return Case("%s-%s-nv%s-%s%s" % (stat, dt, nv, "x".join(map(str, shape)), "-inf" if inf else ""), ins, run, claims, api="local-" + stat,
                sqrt_axioms=stat == "std", tol=1e-4, atol=1e-4, **k)


def bands(stat, cells, r):
    """index of the first smallest / largest valid band, counting all bands"""
    op = sp.lt if stat == "minband" else sp.gt
    out = []
    for k, (v, x) in enumerate(cells):
        first = [Implies(w, op(x, y)) for w, y in cells[:k]]
        rest = [Implies(w, Not(op(y, x))) for w, y in cells[k + 1:]]
        out.append(And(v, sp.eq(r, k), first, rest))
    return Or(out)


def cases(tier):
    out = []
    kinds = (("float32", NAN), ("int16", -99), ("int32", None), ("float64", None), ("uint8", 255), ("uint8", None), ("float64", -1.0), ("bool", None), ("int8", -128))
    for stat in ("min", "max", "sum", "prod", "mean", "minband", "maxband"):
        for dt, nv in kinds:
            if dt == "bool" and stat in ("mean",):
                pass
            hi = 255 if dt == "uint8" and stat != "prod" else 12
            hi = 127 if dt == "int8" and stat != "prod" else hi
            out.append(case(stat, dt, nv, hi=hi))
            out.append(case(stat, dt, nv, (2, 2, 2), ((2,), (1, 1)), hi=hi))
    for stat in ("minband", "maxband"):
        for dt, nv in (("float32", NAN), ("float64", -1.0), ("float64", None)):
            out.append(case(stat, dt, nv, inf=True))
    for stat in ("median", "var", "std", "mode", "unique", "asm", "entropy"):
        for dt, nv in kinds[:7]:
            out.append(case(stat, dt, nv, (3, 1, 2) if stat not in ("std",) else (2, 1, 2)))
    # many bands: counts and band numbers at the edges of the small integer types; two symbolic bands
    for stat in ("minband", "maxband", "unique"):
        for n, dt, nv in ((129, "int16", -99), (130, "float32", NAN), (256, "int32", None), (257, "int16", -99), (258, "float64", -1.0)):
            base = np.arange(n) % 1000 if stat != "minband" else n + 3 - np.arange(n)
            free = {(n - 1, 0, 0)} if stat == "unique" else {(0, 0, 0), (n - 1, 0, 0)}
            lo = n - 3 if stat == "unique" else 0
            out.append(case(stat, dt, nv, (n, 1, 1), ((1,), (1,)), lo=lo, hi=n + 1, base=base, free=free))
    if tier == "thorough":
        for stat in ("min", "max", "sum", "mean", "minband", "maxband", "median", "var", "mode", "unique", "asm", "entropy"):
            for dt, nv in kinds[:6]:
                out.append(case(stat, dt, nv, (4, 1, 2)))
                if stat in ("min", "max", "sum", "mean", "minband", "maxband"):
                    out.append(case(stat, dt, nv, (5, 2, 2), ((1, 1), (2,))))
    return out
