"""P12 dilate and erode take the extreme of the window's valid cells."""
import stats
from common import *

BOUNDS = "1-2 bands, grids up to 4x5; windows up to 3x3 plus even and one-dimensional ones; all cell values in range (including infinities) and all masks, chunk layouts"
OUTSIDE = "64-bit integers beyond 2**53 (scipy.ndimage computes in float64), float16"


def win(op, size, shape, i):
    """(cells under the window, whether it reaches outside)"""
    b, r, c = i
    up = [(s // 2 if op == "erode" else (s - 1) // 2) for s in size]
    cells, out = [], False
    for p in range(size[0]):
        for q in range(size[1]):
            rr, cc = r + p - up[0], c + q - up[1]
            if 0 <= rr < shape[1] and 0 <= cc < shape[2]:
                cells.append((b, rr, cc))
            else:
                out = True
    return cells, out


def case(op, dt, nv, size, shape, chunks, lo=-20, hi=20, inf=False, **k):
    full = {"uint8": (0, 255), "int8": (-128, 127), "bool": (0, 1), "int16": (-32768, 32767), "int64": (-2**53, 2**53)}.get(dt, (lo, hi))
    lo, hi = full
    ins = dict(a=raster(shape, dt, lo, hi, nv=nv, inf=inf, chunks=((1,) * shape[0],) + chunks))
    sz = (size, size) if isinstance(size, int) else size

    def run(ctx, a):
        return {"r": getattr(ctx.rt.general, op)(a, size)}

    def claims(S, i, o):
        r = o.r
        yield "shape", tuple(r.shape) == shape == tuple(r.data.shape) == tuple(r.mask.shape)
        yield "dtype", r.dtype == np.dtype(dt) == r.ddtype
        yield "null", (r.nv is None) == (nv is None) and (nv is None or r.nv == nv or nv != nv)
        yield from geo_claims(r, *i.a.inp.coords())
        for c in np.ndindex(shape):
            ids, outside = win(op, sz, shape, c)
            cells = [(Not(i.a.m.a[j]), i.a.v.a[j]) for j in ids]
            some = stats.any_valid(cells)
            if nv is None:
                null = tm.FALSE
            elif op == "dilate":
                null = Not(some)
            else:
                null = Or([Not(v) for v, _ in cells], outside)
            yield "mask" + lab(*c), Iff(r.mask.a[c], null)
            yield "value" + lab(*c), Implies(Not(null), stats.holds(S, "max" if op == "dilate" else "min", cells, r.data.a[c]))
            if nv is not None:
                yield "null-cell" + lab(*c), Implies(null, sp.exact(r.data.a[c], tm.const(nv, r.dtype)))

    return Case("%s-%s-nv%s-%s-%s-%s%s" % (op, dt, nv, str(size).replace(" ", ""), "x".join(map(str, shape)), str(chunks).replace(" ", ""), "-inf" if inf else ""),
                ins, run, claims, api=op, **k)


def cases(tier):
    out = []
    kinds = (("float32", NAN), ("int16", -99), ("int32", None), ("float64", None), ("uint8", 255), ("uint8", None), ("float64", -1.0), ("int8", -128), ("bool", None), ("bool", True), ("int64", 0))
    for op in ("dilate", "erode"):
        for dt, nv in kinds:
            for size in (3, (1, 2), (2, 1), 2, (1, 3), (3, 1), (2, 3)):
                out.append(case(op, dt, nv, size, (1, 3, 3), ((2, 1), (1, 2))))
            out.append(case(op, dt, nv, (2, 3), (2, 3, 4), ((3,), (2, 2))))
        for dt, nv in (("float32", NAN), ("int16", -99), ("float64", None)):
            out.append(case(op, dt, nv, (4, 3), (1, 4, 5), ((2, 2), (3, 2))))
            out.append(case(op, dt, nv, 3, (1, 4, 5), ((1, 1, 2), (2, 1, 2))))
            out.append(case(op, dt, nv, (1, 5), (1, 2, 5), ((2,), (2, 3))))
        for dt, nv in (("float32", NAN), ("float64", -1.0), ("float64", None)):
            out.append(case(op, dt, nv, (2, 2), (1, 2, 3), ((2,), (2, 1)), inf=True))
            out.append(case(op, dt, nv, 3, (1, 2, 3), ((1, 1), (3,)), inf=True))
    if tier == "thorough":
        for op in ("dilate", "erode"):
            for dt, nv in kinds:
                for size in (5, (4, 2), (4, 5), (3, 4)):
                    out.append(case(op, dt, nv, size, (1, 6, 6), ((3, 3), (2, 4))))
                    out.append(case(op, dt, nv, size, (1, 6, 6), ((6,), (3, 2, 1))))
    return out
