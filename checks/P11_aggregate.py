"""P11 aggregate summarises each block's valid cells."""
import stats
from common import *

BOUNDS = "1-2 bands, grids up to 4x5, blocks up to 2x3 (16x16 with one symbolic cell for unique); all cell values in range and all masks"


def case(stat, dt, nv, shape, block, chunks, lo=-20, hi=20, x=None, y=None, base=None, free=None, **k):
    if np.dtype(dt).kind in "ub":
        lo = 0
    if dt == "bool":
        hi = 1
    ins = dict(a=raster(shape, dt, lo, hi, nv=nv, chunks=((1,) * shape[0],) + chunks, x=x, y=y, base=base, free=free))
    bh, bw = block
    n, h, w = shape[0], shape[1] // bh, shape[2] // bw

    def run(ctx, a):
        return {"r": ctx.rt.general.aggregate(a, block, stat)}

    def claims(S, i, o):
        r = o.r
        yield "shape", tuple(r.shape) == (n, h, w) == tuple(r.data.shape) == tuple(r.mask.shape)
        masked = nv is not None
        yield "has-null", (r.nv is not None) == masked
        if masked:
            yield "null", r.nv == default_null(r.dtype)
        yield "dtype", r.dtype == r.data.dtype == r.ddtype
        yield "band", list(r.band) == list(range(1, n + 1))
        gx, gy = i.a.inp.coords()
        yield "x", bool(np.allclose(r.x, [np.mean(gx[c * bw:(c + 1) * bw]) for c in range(w)]))
        yield "y", bool(np.allclose(r.y, [np.mean(gy[c * bh:(c + 1) * bh]) for c in range(h)]))
        for b, y_, x_ in np.ndindex(n, h, w):
            k_ = (b, y_, x_)
            ids = [(b, y_ * bh + p, x_ * bw + q) for p in range(bh) for q in range(bw)]
            cells = [(Not(i.a.m.a[j]), i.a.v.a[j]) for j in ids]
            some = stats.any_valid(cells)
            yield "mask" + lab(*k_), Iff(r.mask.a[k_], Not(some))
            rv = r.data.a[k_]
            if stat in ("var", "std"):
                for pat, cond, sub in stats.split(cells):
                    yield "value-" + pat + lab(*k_), Implies(cond, stats.holds(S, stat, sub, rv))
            else:
                yield "value" + lab(*k_), Implies(some, stats.holds(S, stat, cells, rv))
            if masked:
                yield "null-cell" + lab(*k_), Implies(Not(some), sp.exact(rv, tm.const(r.nv, r.dtype)))

    return Case("%s-%s-nv%s-%s-by%dx%d-%s%s" % (stat, dt, nv, "x".join(map(str, shape)), bh, bw, str(chunks).replace(" ", ""), "-xy" if x is not None else ""),
                ins, run, claims, api="agg-" + stat, sqrt_axioms=stat == "std", tol=1e-4, atol=1e-4, **k)


def cases(tier):
    out = []
    kinds = (("float32", NAN), ("int16", -99), ("int32", None), ("float64", None), ("uint8", 255), ("uint8", None), ("float64", -1.0), ("int8", -128), ("bool", None))
    for stat in ("min", "max", "sum", "prod", "mean"):
        for dt, nv in kinds:
            hi = {"uint8": 255, "int8": 127}.get(dt, 20) if stat != "prod" else 6
            out.append(case(stat, dt, nv, (1, 3, 5), (1, 2), ((2, 1), (3, 2)), hi=hi))
            out.append(case(stat, dt, nv, (2, 4, 3), (2, 1), ((4,), (1, 2)), hi=hi))
        for dt, nv in kinds[:3]:
            out.append(case(stat, dt, nv, (1, 4, 5), (2, 2), ((1, 2, 1), (2, 3)), hi=6 if stat == "prod" else 20))
            out.append(case(stat, dt, nv, (1, 3, 4), (3, 2), ((2, 1), (4,)), hi=6 if stat == "prod" else 20))
            out.append(case(stat, dt, nv, (1, 2, 4), (2, 3), ((2,), (4,)), hi=6 if stat == "prod" else 20))
    for stat in ("median", "var", "std", "mode", "unique", "asm", "entropy"):
        for dt, nv in kinds:
            if dt == "bool" and stat in ("var", "std", "median"):
                continue
            out.append(case(stat, dt, nv, (1, 2, 5), (1, 2), ((1, 1), (2, 3))))
            if stat not in ("std",):
                out.append(case(stat, dt, nv, (1, 3, 2), (3, 1), ((2, 1), (2,))))
    out.append(case("mean", "int16", -99, (1, 4, 4), (2, 2), ((4,), (4,)), x=[10.0, 12.5, 15.0, 17.5], y=[5.0, 4.0, 3.0, 2.0]))
    out.append(case("max", "float32", NAN, (1, 4, 5), (2, 3), ((4,), (5,)), x=[10.0, 12.5, 15.0, 17.5, 20.0], y=[5.0, 4.0, 3.0, 2.0]))
    # unique counts at the edges of the small integer types; one symbolic cell
    for hw, dt, nv in (((12, 11), "int16", -99), ((16, 16), "int32", None), ((16, 16), "float32", NAN), ((16, 16), "int16", -99)):
        n = hw[0] * hw[1]
        out.append(case("unique", dt, nv, (1,) + hw, hw, ((hw[0],), (hw[1],)), lo=n - 3, hi=n + 1, base=np.arange(n), free={(0, hw[0] - 1, hw[1] - 1)}))
    if tier == "thorough":
        for stat in ("min", "max", "sum", "mean", "mode", "unique", "median", "var", "asm", "entropy"):
            for dt, nv in kinds[:6]:
                out.append(case(stat, dt, nv, (1, 2, 4), (2, 2), ((1, 1), (3, 1))))
                if stat in ("min", "max", "sum", "mean"):
                    out.append(case(stat, dt, nv, (2, 6, 6), (2, 3), ((1, 4, 1), (5, 1))))
                    out.append(case(stat, dt, nv, (1, 6, 6), (3, 3), ((6,), (2, 2, 2))))
    return out
