"""P21 band selection, concatenation and splitting lose nothing."""
from common import *

BOUNDS = "grids 2x2 and 2x3 with 1-3 bands; all cell values and masks; selections with repeats and reordering, dtype and null value mixes, chunk layouts"
OUTSIDE = "sources on other grids (GDAL resampling); null values that the result dtype cannot represent"
CRS = "EPSG:3857"


def src(dt, nv, nb, h=2, w=2, chunks=((1, 1), (2,)), **k):
    lo, hi = (0, 1) if dt == "bool" else (0, 200) if np.dtype(dt).kind == "u" else (-100, 100)
    return raster((nb, h, w), dt, k.pop("lo", lo), k.pop("hi", hi), nv=nv, chunks=((1,) * nb,) + chunks, crs=CRS, **k)


def same_bands(S, name, r, cells, nb, h, w, dtype, nv, inp):
    """result r holds bands; cells(b, k) -> (mask, value)"""
    yield name + " shape", tuple(r.shape) == (nb, h, w) == tuple(r.data.shape) == tuple(r.mask.shape)
    if tuple(r.data.shape) != (nb, h, w):
        return
    yield name + " bands", list(np.atleast_1d(r.band)) == list(range(1, nb + 1))
    yield name + " crs", r.crs == CRS
    yield from geo_claims(r, *inp.coords(), name=name)
    yield from raster_claims(S, r, name, lambda c: cells(*c)[0], lambda c: cells(*c)[1], dtype=dtype, nv=nv, shape=(nb, h, w))


def select(dt, nv, nb, sel, hw=(2, 2), chunks=((1, 1), (2,))):
    s = src(dt, nv, nb, *hw, chunks=chunks)

    def run(ctx, a):
        return {"r": a.get_bands(sel)}

    def claims(S, i, o):
        q = [sel] if isinstance(sel, int) else list(sel)
        yield from same_bands(S, "r", o.r, lambda b, y, x: (i.a.m.a[q[b] - 1, y, x], i.a.v.a[q[b] - 1, y, x]), len(q), *hw, dt, nv, s)

    return Case("get_bands-%s-%s-%d-%s" % (dt, nv, nb, sel), dict(a=s), run, claims, api="get_bands")


def split(dt, nv, nb, method, hw=(2, 3), chunks=((2,), (1, 2))):
    s = src(dt, nv, nb, *hw, chunks=chunks)

    def run(ctx, a):
        parts = a.split_bands() if method else ctx.rt.split_bands(a)
        return {"n": np.int64(len(parts)), "p": parts, "back": ctx.rt.stack_bands(parts)}

    def claims(S, i, o):
        yield "count", And(sp.eq(T_(o.n), nb), len(o.p) == nb)
        for b, p in enumerate(o.p):
            yield from same_bands(S, "part%d" % b, p, lambda _, y, x, b=b: (i.a.m.a[b, y, x], i.a.v.a[b, y, x]), 1, *hw, dt, nv, s)
        back_nv = nv if nv is not None or nb == 1 else default_null(dt)
        yield from same_bands(S, "back", o.back, lambda b, y, x: (i.a.m.a[b, y, x], i.a.v.a[b, y, x]), nb, *hw, dt, back_nv, s)

    return Case("split-%s-%s-%d-%s" % (dt, nv, nb, method), dict(a=s), run, claims, api="split_bands")


def stack(srcs, dtype=None, null=None, hw=(2, 2), concat=False):
    """srcs: [(dtype, nv, bands)]"""
    ch = [((1, 1), (2,)), ((2,), (1, 1)), ((2,), (2,))]
    ins = {"s%d" % n: src(*q, chunks=ch[n % 3]) for n, q in enumerate(srcs)}
    out_dt = np.dtype(dtype) if dtype else np.result_type(*[q[0] for q in srcs])
    nvs = [q[1] for q in srcs if q[1] is not None]
    if concat:
        nv = None if not nvs else default_null(out_dt)
        if len(srcs) == 1:
            nv = srcs[0][1]
    else:
        nv = default_null(out_dt) if null == "default" else null if null is not None else nvs[0] if nvs else default_null(out_dt)
        if len(srcs) == 1 and not nvs:
            nv = None
    nb = sum(q[2] for q in srcs)
    where = [(n, b) for n, q in enumerate(srcs) for b in range(q[2])]

    def run(ctx, **rs):
        import warnings
        L = [rs["s%d" % n] for n in range(len(srcs))]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return {"r": ctx.rt.general.band_concat(L) if concat else ctx.rt.stack_bands(L, dtype=dtype, null_value=null)}

    def claims(S, i, o):
        def cell(b, y, x):
            n, k = where[b]
            s = getattr(i, "s%d" % n)
            return s.m.a[k, y, x], tm.mk_cast(s.v.a[k, y, x], out_dt)
        yield from same_bands(S, "r", o.r, cell, nb, *hw, out_dt, nv, ins["s0"])

    return Case("%s-%s-%s-%s" % ("concat" if concat else "stack", "_".join("%s,%s,%d" % q for q in srcs), dtype, null), ins, run, claims,
                api="band_concat" if concat else "stack_bands")


def cases(tier):
    out = []
    kinds = [("float32", NAN), ("float64", -1.0), ("int16", -99), ("uint8", 255), ("uint8", None), ("bool", True), ("int64", -7)]
    for dt, nv in kinds:
        for nb, sels in ((1, (1, [1], [1, 1])), (2, (2, [2, 1], [2])), (3, ([3, 1, 2], [2, 2, 1, 3], [1, 3]))):
            for s in sels:
                out.append(select(dt, nv, nb, s))
        for nb in (1, 2, 3):
            out.append(split(dt, nv, nb, nb % 2 == 0))
        out.append(stack([(dt, nv, 2), (dt, nv, 1)]))
        out.append(stack([(dt, nv, 1), (dt, nv, 1)], concat=True))
    f, g, i_, j, u, v, b = kinds[0], kinds[1], kinds[2], ("int32", None), kinds[3], kinds[4], kinds[5]
    for a, c in ((f, g), (g, f), (i_, f), (f, i_), (u, i_), (v, i_), (i_, v), (j, u), (u, v), (g, j), (j, v), (f, v)):
        for n1, n2 in ((1, 1), (2, 1)):
            out.append(stack([a + (n1,), c + (n2,)]))
            out.append(stack([a + (n1,), c + (n2,)], concat=True))
    for dt, null in (("float64", None), ("int32", -5), ("float32", NAN), ("int64", "default"), ("int32", 1000)):
        out.append(stack([i_ + (1,), v + (2,)], dtype=dt, null=null))
    for null in (-1.5, NAN, "default", 7.0):
        out.append(stack([f + (1,), g + (1,), i_ + (1,)], null=null))
    out.append(stack([f + (1,)]))
    out.append(stack([v + (2,)]))
    out.append(stack([i_ + (2,)], dtype="float64"))
    out.append(stack([i_ + (1,)], null=-5))
    out.append(stack([b + (1,), v + (1,)]))
    if tier == "thorough":
        for a in kinds:
            for c in kinds:
                for d in kinds[:3]:
                    if "bool" in (a[0], c[0]) or (a[1] != a[1] and False):
                        continue
                    out.append(stack([a + (1,), c + (2,), d + (1,)], null="default"))
                    out.append(stack([a + (1,), c + (2,), d + (1,)], concat=True))
    return out
