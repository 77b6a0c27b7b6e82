"""P20 mosaic merges exactly the valid cells of its sources."""
import stats
from common import *

BOUNDS = "1-9 sources sharing the destination grid (1-2 bands, grids up to 2x3); all cell values and masks; five methods, dtypes, null values, chunk layouts"
OUTSIDE = "sources on other grids (GDAL resampling); sums that overflow the dtype"


def case(method, srcs, dtype=None, null=None, hw=(2, 2), chunks=((2,), (1, 1)), lo=-20, hi=20, **k):
    """srcs: [(dtype, nv, bands)]"""
    h, w = hw
    ins = {}
    for n, (dt, nv, nb) in enumerate(srcs):
        ins["s%d" % n] = raster((nb, h, w), dt, 0 if np.dtype(dt).kind == "u" else lo, hi, nv=nv, chunks=((1,) * nb,) + chunks, crs="EPSG:3857")
    out_dt = np.dtype(dtype) if dtype else np.result_type(*[s[0] for s in srcs])
    nvs = [s[1] for s in srcs if s[1] is not None]
    nv = null if null is not None else nvs[0] if nvs else default_null(out_dt)
    if nv != nv and out_dt.kind != "f":
        nv = default_null(out_dt)
    nbands = max(s[2] for s in srcs)

    def run(ctx, **rs):
        return {"r": ctx.rt.mosaic([rs["s%d" % n] for n in range(len(srcs))], method, dtype=dtype, null_value=null)}

    def assume(i):
        # valid cells that equal the result's null value count as null
        out = []
        for n in range(len(srcs)):
            s = getattr(i, "s%d" % n)
            for c in np.ndindex(s.v.shape):
                if nv == nv:
                    out.append(Not(sp.eq(tm.mk_cast(s.v.a[c], out_dt), tm.const(nv, out_dt))))
        return out

    def claims(S, i, o):
        r = o.r
        yield "shape", tuple(r.shape) == (nbands, h, w) == tuple(r.data.shape) == tuple(r.mask.shape)
        yield "dtype", r.dtype == out_dt == r.ddtype
        yield "null", r.nv == nv or (nv != nv and r.nv != r.nv)
        yield from geo_claims(r, *i.s0.inp.coords())
        for c in np.ndindex(nbands, h, w):
            cells = []
            for n, s in enumerate(srcs):
                if c[0] < s[2]:
                    x = getattr(i, "s%d" % n)
                    cells.append((Not(x.m.a[c]), tm.mk_cast(x.v.a[c], out_dt)))
            some = stats.any_valid(cells)
            rv = r.data.a[c]
            if method == "sum":     # a sum equal to the null value is a null cell
                at_null = And(some, sp.exact(rv, tm.const(nv, out_dt)))
                yield "mask" + lab(*c), Iff(r.mask.a[c], Or(Not(some), at_null))
            else:
                yield "mask" + lab(*c), Iff(r.mask.a[c], Not(some))
            if method in ("min", "max", "sum"):
                ok = stats.holds(S, method, cells, rv)
            else:
                order = cells if method == "first" else cells[::-1]
                v = order[-1][1]
                for ok_, x in order[-2::-1]:
                    v = Ite(ok_, x, v)
                ok = S.same(rv, v)
            yield "value" + lab(*c), Implies(some, ok)
            yield "null-cell" + lab(*c), Implies(Not(some), sp.exact(rv, tm.const(nv, out_dt)))

    return Case("%s-%s-%s-%s-%s" % (method, "_".join("%s,%s,%d" % s for s in srcs), dtype, null, "x".join(map(str, hw))), ins, run, claims, api="mosaic", assume=assume, **k)


def cases(tier):
    out = []
    f, g, i_, j, u, v = ("float32", NAN), ("float64", -1.0), ("int16", -99), ("int32", None), ("uint8", 255), ("uint8", None)
    for m in ("first", "last", "min", "max", "sum"):
        for a, b in ((f, f), (i_, i_), (u, u), (g, i_), (i_, f), (u, i_), (j, j), (v, u), (j, i_), (f, g)):
            out.append(case(m, [a + (1,), b + (1,)]))
        for a in (f, i_, u):
            out.append(case(m, [a + (1,)]))
            out.append(case(m, [a + (1,)] * 3, hw=(2, 2), chunks=((1, 1), (2,))))
            out.append(case(m, [a + (2,), a + (1,), a + (1,)]))
            out.append(case(m, [a + (1,), a + (2,)]))
        out.append(case(m, [i_ + (1,)] * 9, hw=(2, 2), chunks=((2,), (2,))))
        out.append(case(m, [f + (1,)] * 8, hw=(2, 2), chunks=((2,), (2,))))
        out.append(case(m, [u + (1,)] * 7, hw=(2, 2), chunks=((2,), (2,))))
        out.append(case(m, [i_ + (1,), i_ + (1,)], dtype="float64", null=-5.0))
        out.append(case(m, [i_ + (1,), f + (1,)], null=7.0))
        out.append(case(m, [i_ + (1,), i_ + (1,)], dtype="int32", null=1000))
    if tier == "thorough":
        for m in ("first", "last", "min", "max", "sum"):
            out.append(case(m, [i_ + (1,)] * 17, hw=(2, 2), chunks=((2,), (2,))))
            for a, b, c in ((f, i_, u), (i_, j, g), (u, f, f)):
                out.append(case(m, [a + (2,), b + (1,), c + (2,)], hw=(2, 3), chunks=((1, 1), (2, 1))))
    return out
