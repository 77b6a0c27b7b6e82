"""P08 correlate and convolve compute the weighted window sum."""
import stats
from common import *

BOUNDS = "1-2 bands, grids up to 4x4; kernels up to 3x3 including even sizes, symbolic or fixed weights; four boundary modes with constants 0, 2 and -3; all masks and values in range"
OUTSIDE = "results that overflow the raster's integer dtype; bool rasters; kernels reaching further than the raster is wide"


def at(i, n, mode):
    """source position of i, or None (constant)"""
    if 0 <= i < n:
        return i
    if mode == "constant":
        return None
    if mode == "nearest":
        return 0 if i < 0 else n - 1
    if mode == "wrap":
        return i % n
    return -1 - i if i < 0 else 2 * n - 1 - i       # reflect


def case(op, dt, nv, kshape, mode, cval, shape, chunks, kern=None, kdt="float64", lo=-20, hi=20, **k):
    if np.dtype(dt).kind == "u":
        lo = 0
    ins = dict(a=raster(shape, dt, lo, hi, nv=nv, chunks=((1,) * shape[0],) + chunks))
    if kern is None:
        ins["kern"] = array(kshape, kdt, 0 if np.dtype(dt).kind == "u" else -3, 3)
    else:
        kern = np.array(kern, dtype=kdt)
        kshape = kern.shape
    intk = np.dtype(kdt).kind == "i"

    def run(ctx, a, **kw):
        kk = kw["kern"] if "kern" in kw else kern.copy()
        f = getattr(ctx.rt.focal, op)
        return {"r": f(a, kk) if mode is None else f(a, kk, mode=mode, cval=cval) if cval is not None else f(a, kk, mode=mode)}

    m_ = mode or "constant"
    cv = cval or 0

    def claims(S, i, o):
        r = o.r
        yield "shape", tuple(r.shape) == shape == tuple(r.data.shape) == tuple(r.mask.shape)
        yield "has-null", (r.nv is not None) == (nv is not None)
        if intk and nv is not None:
            yield "null", r.nv == nv or nv != nv
        yield "dtype", r.dtype == r.ddtype and (r.dtype.kind == "f" or intk)
        yield from geo_claims(r, *i.a.inp.coords())
        W = [[i.kern.v.a[p, q] if kern is None else T_(kern[p, q]) for q in range(kshape[1])] for p in range(kshape[0])]
        if op == "convolve":
            W = [row[::-1] for row in W[::-1]]
        up, left = (kshape[0] - 1) // 2, (kshape[1] - 1) // 2
        for c in np.ndindex(shape):
            b, y, x = c
            terms = []
            for p in range(kshape[0]):
                for q in range(kshape[1]):
                    ry, rx = at(y + p - up, shape[1], m_), at(x + q - left, shape[2], m_)
                    if ry is None or rx is None:
                        v = T_(cv, np.float64)
                        terms.append(sp.num("mul", W[p][q], v))
                    else:
                        j = (b, ry, rx)
                        terms.append(Ite(i.a.m.a[j], 0.0, sp.num("mul", W[p][q], i.a.v.a[j])))
            yield "mask" + lab(*c), Iff(r.mask.a[c], i.a.m.a[c])
            yield "value" + lab(*c), Implies(Not(i.a.m.a[c]), S.same(T_(r.data.a[c], np.float64), sp.total(terms)))
            if nv is not None:
                yield "null-cell" + lab(*c), Implies(i.a.m.a[c], sp.exact(r.data.a[c], tm.const(np.asarray(r.nv).astype(r.dtype)[()], r.dtype)))

    return Case("%s-%s-nv%s-%s-%s%s-%s-%s-%s" % (op, dt, nv, str(kshape).replace(" ", "") + ("" if kern is None else "f" + str(int(np.sum(kern * np.arange(1, 1 + kern.size).reshape(kshape) * 7)))),
                mode, cval, "x".join(map(str, shape)), str(chunks).replace(" ", ""), kdt), ins, run, claims, api=op + str(mode), tol=1e-4, atol=1e-3, **k)


def cases(tier):
    out = []
    K33 = [[1, -2, 3], [0, 4, -1], [2, 0, 5]]
    K22 = [[1, 2], [-3, 4]]
    K23 = [[1, 2, -1], [0.5, 3, 4]]
    K31 = [[1], [2], [-4]]
    kinds = (("float32", NAN), ("float64", None), ("float64", -1.0), ("int16", -99), ("int32", None))
    for op in ("correlate", "convolve"):
        for mode, cval in (("constant", 0.0), ("constant", 2.0), ("reflect", None), ("nearest", None), ("wrap", None), (None, None)):
            for dt, nv in kinds:
                f = np.dtype(dt).kind == "f"
                for kn in (K33, K22, K23, K31):
                    out.append(case(op, dt, nv, None, mode, cval, (1, 3, 4), ((2, 1), (2, 2)), kern=kn))
                if f or nv is None:
                    out.append(case(op, dt, nv, None, mode, cval, (2, 4, 3), ((4,), (1, 2)), kern=K33 if op == "correlate" else K22, kdt="int64"))
                else:       # float sums cast back to integers
                    out.append(case(op, dt, nv, None, mode, cval, (2, 2, 2), ((1, 1), (2,)), kern=[[3, -2]], kdt="int64"))
                if nv is not None:
                    out.append(case(op, dt, nv, (2, 3), mode, cval, (1, 2, 3), ((1, 1), (3,))))
        for dt, nv in (("uint8", 255), ("uint8", None), ("int8", None), ("int64", -7), ("uint16", None)):
            out.append(case(op, dt, nv, None, "constant", 1, (1, 3, 3), ((2, 1), (3,)), kern=[[1, 0, 2], [1, 1, 0]] if nv is None else [[1, 2]], kdt="int64", lo=-10, hi=10))
            out.append(case(op, dt, nv, None, "nearest", None, (1, 3, 3), ((1, 2), (1, 2)), kern=[[0.5, 2.0], [1.0, 0.25]], hi=10))
    if tier == "thorough":
        K55 = [[(3 * p + 5 * q) % 7 - 3 for q in range(5)] for p in range(5)]
        K43 = [[(3 * p + 5 * q) % 7 - 3 for q in range(3)] for p in range(4)]
        for op in ("correlate", "convolve"):
            for mode, cval in (("constant", 0.0), ("constant", -3.0), ("reflect", None), ("nearest", None), ("wrap", None)):
                for dt, nv in kinds:
                    for kn in (K55, K43):
                        out.append(case(op, dt, nv, None, mode, cval, (1, 6, 5), ((3, 3), (2, 3)), kern=kn))
                        out.append(case(op, dt, nv, None, mode, cval, (1, 6, 5), ((6,), (5,)), kern=kn))
    return out
