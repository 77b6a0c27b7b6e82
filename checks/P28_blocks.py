"""P28 block-mapped functions see and return the right cells."""
from common import *

BOUNDS = "two-dimensional grids up to 5x4 with 1-3 bands; all cell values and masks of one or two rasters; every block function below, chunk layout, depth, boundary mode and mask option listed in the case names"
OUTSIDE = "cupy/sparse blocks; depths larger than the raster; asymmetric depth of the geo variant with boundary none at edge chunks (documented as approximate)"

W = {(0, 0): 1, (-1, 0): 3, (1, 0): 5, (0, -1): 7, (0, 1): 11, (-1, -1): 13, (1, 1): 17, (-2, 0): 19, (0, 2): 23,
     (2, -1): 29, (1, -2): 31}


def shift(a, dy, dx):
    """b[y, x] = a[y + dy, x + dx], 0 outside the block"""
    b = np.zeros_like(a)
    h, w = a.shape[1:]
    y0, y1, x0, x1 = max(0, -dy), min(h, h - dy), max(0, -dx), min(w, w - dx)
    if y0 < y1 and x0 < x1:
        b[:, y0:y1, x0:x1] = a[:, y0 + dy:y1 + dy, x0 + dx:x1 + dx]
    return b


def source(n, i, boundary):
    """(index, kind): where position i of an axis of length n reads"""
    if 0 <= i < n:
        return i
    if boundary in (None, "none"):
        return "zero"
    if boundary == "nearest":
        return min(max(i, 0), n - 1)
    if boundary == "periodic":
        return i % n
    if boundary == "reflect":
        return -1 - i if i < 0 else 2 * n - 1 - i
    return "fill"


def look(S, arr, i, d, boundary, fill):
    y, x = (source(n, k + o, boundary) for n, k, o in zip(arr.shape[1:], i[1:], d))
    if "zero" in (y, x):
        return tm.const(arr.dtype.type(0), arr.dtype)
    if "fill" in (y, x):
        return tm.const(arr.dtype.type(fill), arr.dtype)
    return arr.a[i[0], y, x]


def layout(chunks, i):
    """block index and offset inside the block along each axis"""
    out = []
    for c, k in zip(chunks, i):
        b = 0
        while k >= c[b]:
            k -= c[b]
            b += 1
        out.append((b, k))
    return out


def expect_null(v, nv):
    return tm.FALSE if nv is None else sp.isnan(v) if nv != nv else sp.eq(v, nv)


def derived(S, o, value, dtype, nv, shape, band=None):
    """claims for a result whose mask is derived from the returned values"""
    yield "dtype", o.dtype == np.dtype(dtype) == o.data.dtype
    yield "shape", tuple(o.data.shape) == tuple(shape) == tuple(o.mask.shape)
    yield "null value", (o.nv is None) == (nv is None) and (nv is None or o.nv == nv or (nv != nv and o.nv != o.nv))
    for i in np.ndindex(*shape):
        v = value(i)
        yield "data" + lab(*i), S.same(o.data.a[i], v)
        yield "mask" + lab(*i), Iff(o.mask.a[i], expect_null(v, nv))


def explicit(S, o, mask, value, dtype, nv, shape):
    """claims for a result whose mask was returned"""
    yield "dtype", o.dtype == np.dtype(dtype) == o.data.dtype
    yield "shape", tuple(o.data.shape) == tuple(shape) == tuple(o.mask.shape)
    yield "null value", (o.nv is None) == (nv is None) and (nv is None or o.nv == nv or (nv != nv and o.nv != o.nv))
    for i in np.ndindex(*shape):
        m = mask(i)
        yield "mask" + lab(*i), Iff(o.mask.a[i], m)
        yield "data" + lab(*i), S.same(o.data.a[i], value(i) if nv is None else Ite(m, tm.const(np.dtype(dtype).type(nv), dtype), value(i)))


def call(ctx, method, name, f, rs, **k):
    if method:
        return getattr(rs[0], name)(f, *rs[1:], **k)
    return getattr(ctx.rt, name)(f, *rs, **k)


def geo(x):
    """blocks handed to geo functions are DataArrays"""
    return x.data


# -- map_blocks ------------------------------------------------------------

def plain(dt, nv, shape, chunks, method=False, geof=False):
    """one raster, same dtype: identity plus one where positive"""
    ins = dict(a=raster(shape, dt, 0, 20, nv=nv, chunks=chunks))
    name = "geo_map_blocks" if geof else "map_blocks"

    def run(ctx, a):
        def f(x):
            x = geo(x) if geof else x
            return np.where(x > 10, x - 1, x)
        return {"r": call(ctx, method, name, f, [a])}

    def claims(S, i, o):
        def val(k):
            d = i.a.data.a[k]
            return Ite(sp.gt(d, 10), tm.mk_op("sub", d.dt, d, tm.const(d.dt.type(1), d.dt)), d)
        yield from derived(S, o.r, val, dt, nv, i.a.data.shape)
        yield from geo_claims(o.r, *i.a.inp.coords())
        yield "chunks", o.r.chunks == tuple(tuple(c) for c in chunks) or len(chunks) == 2 and o.r.chunks[1:] == chunks

    return Case("plain-%s-%s-%s-%s-%s%s" % (name, dt, nv, "x".join(map(str, shape)), chunks, "-m" if method else ""), ins, run, claims, api=name)


def masks(dts, nvs, shape, chunks, chunks2, out, out_nv, explicit_mask=False, geof=False, hint=None, method=False):
    """two rasters; masks, null values, block ids and the output null value are used"""
    ins = dict(a=raster(shape, dts[0], 0, 20, nv=nvs[0], chunks=chunks), b=raster(shape, dts[1], 0, 20, nv=nvs[1], chunks=chunks2))
    name = "geo_map_blocks" if geof else "map_blocks"
    rdt = np.dtype(hint or out)
    nvr = out_nv if out_nv is not None else default_null(rdt)
    ch = ins["a"].chunk_spec()

    def run(ctx, a, b):
        def f(x, y, *, input_masks, input_null_values, block_id, block_info, out_null_value):
            mx, my = input_masks
            if geof:
                x, y, mx, my = map(geo, (x, y, mx, my))
            if block_info is None:
                return (x + y).astype(out)
            at = block_info[0]["array-location"]
            if block_info[None]["chunk-location"] != block_id or tuple(e - s for s, e in at) != x.shape:
                raise RuntimeError("block info")
            r = np.where(mx, 0, x).astype(out) * 2 + np.where(my, 0, y).astype(out) * 3
            r = r + np.asarray(100 * block_id[0] + 1000 * block_id[1] + 10000 * block_id[2]).astype(out)
            for n, v in enumerate(input_null_values):
                r = r + np.asarray(0 if v is None else (n + 1) * 7).astype(out)
            if explicit_mask:
                return r, mx & my
            return np.where(mx & my, out_null_value, r).astype(out)

        k = {"dtype": hint} if hint else {}
        if out_nv is not None:
            k["null_value"] = out_nv
        if explicit_mask:
            k["return_mask"] = True
        return {"r": call(ctx, method, name, f, [a, b], **k)}

    def claims(S, i, o):
        bid = lambda k: [x[0] for x in layout(ch, k)]
        c7 = sum((n + 1) * 7 for n, v in enumerate(nvs) if v is not None)

        def mask(k):
            return And(i.a.m.a[k], i.b.m.a[k])

        def raw(k):
            dt = np.dtype(out)
            t = tm.const(dt.type(c7 + sum(x * y for x, y in zip(bid(k), (100, 1000, 10000)))), dt)
            for s, w in ((i.a, 2), (i.b, 3)):
                v = Ite(s.m.a[k], tm.const(dt.type(0), dt), tm.mk_cast(s.v.a[k], dt))
                t = tm.mk_op("add", dt, t, tm.mk_op("mul", dt, v, tm.const(dt.type(w), dt)))
            return tm.mk_cast(t, rdt)

        sh = i.a.data.shape
        if explicit_mask:
            yield from explicit(S, o.r, mask, raw, rdt, nvr, sh)
        else:
            yield from derived(S, o.r, lambda k: Ite(mask(k), tm.const(rdt.type(nvr), rdt), raw(k)), rdt, nvr, sh)
        yield from geo_claims(o.r, *i.a.inp.coords())

    return Case("masks-%s-%s-%s-%s-%s-%s-%s%s%s" % (name, dts, nvs, chunks, chunks2, out, out_nv, "-pair" if explicit_mask else "", "-%s" % hint if hint else ""), ins, run, claims, api=name)


def bands(dt, nv, nb, out_bands, chunks, explicit_mask=False, geof=False, shape=(2, 3)):
    """out_bands: every output band is a weighted sum of all input bands"""
    ins = dict(a=raster((nb,) + shape, dt, 0, 20, nv=nv, chunks=chunks))
    name = "geo_map_blocks" if geof else "map_blocks"
    f8 = np.dtype("float64")
    nvr = default_null(f8)

    def run(ctx, a):
        def f(x, *, input_masks):
            (m,) = input_masks
            if geof:
                x, m = geo(x), geo(m)
            if x.shape[0] != nb:
                raise RuntimeError("bands")
            v = np.where(m, 0, x).astype("float64")
            d = np.stack([sum(v[b] * (b + 1 + 10 * k) for b in range(nb)) for k in range(out_bands)])
            if not explicit_mask:
                return d
            return d, np.stack([m[k % nb] for k in range(out_bands)])
        k = {"return_mask": True} if explicit_mask else {}
        return {"r": getattr(ctx.rt, name)(f, a, out_bands=out_bands, dtype="float64", **k)}

    def claims(S, i, o):
        def val(k):
            t = tm.const(f8.type(0), f8)
            for b in range(nb):
                c = (b,) + tuple(k[1:])
                v = Ite(i.a.m.a[c], tm.const(f8.type(0), f8), tm.mk_cast(i.a.v.a[c], f8))
                t = tm.mk_op("add", f8, t, tm.mk_op("mul", f8, v, tm.const(f8.type(b + 1 + 10 * k[0]), f8)))
            return t
        sh = (out_bands,) + shape
        if explicit_mask:
            yield from explicit(S, o.r, lambda k: i.a.m.a[(k[0] % nb,) + tuple(k[1:])], val, f8, nvr, sh)
        else:
            yield from derived(S, o.r, val, f8, nvr, sh)
        yield from geo_claims(o.r, *i.a.inp.coords())
        yield "band", list(o.r.band) == list(range(1, out_bands + 1))

    return Case("bands-%s-%s-%s-%d-%d-%s%s-%s" % (name, dt, nv, nb, out_bands, chunks, "-pair" if explicit_mask else "", shape), ins, run, claims, api=name)


# -- map_overlap -----------------------------------------------------------

def overlap(dt, nv, shape, chunks, depth, boundary, offs, masks=True, explicit_mask=False, geof=False, nb=1, second=None, tag=""):
    full = (nb,) + shape
    ins = dict(a=raster(full, dt, 0, 20, nv=nv, chunks=chunks))
    if second is not None:
        ins["b"] = raster(full, second[0], 0, 20, nv=second[1], chunks=second[2])
    name = "geo_map_overlap" if geof else "map_overlap"
    f8 = np.dtype("float64")
    nvr = nv if second is None and dt == "float64" else default_null(f8)

    def run(ctx, **rs):
        def body(xs, ms):
            r = np.zeros(xs[0].shape, "float64")
            for n, x in enumerate(xs):
                for d in offs:
                    r = r + shift(x, *d).astype("float64") * (W[d] * (1 + 100 * n))
            if ms is not None:
                for n, m in enumerate(ms):
                    for d in offs:
                        r = r + shift(m, *d).astype("float64") * (W[d] * 0.125 * (1 + 64 * n))
            if explicit_mask:
                return r, shift(ms[0], *offs[-1])
            return r

        if masks:
            def f(*xs, input_masks):
                return body([geo(x) for x in xs], [geo(m) for m in input_masks]) if geof else body(xs, input_masks)
        else:
            def f(*xs):
                return body([geo(x) for x in xs] if geof else xs, None)
        k = {"return_mask": True} if explicit_mask else {}
        b = boundary if not isinstance(boundary, tuple) else boundary[1]
        return {"r": getattr(ctx.rt, name)(f, *rs.values(), depth=depth, boundary=b, dtype="float64", **k)}

    def claims(S, i, o):
        rs = [getattr(i, n) for n in ins]
        def fills(r):
            dv = r.nv if r.nv is not None else default_null(r.data.dtype)
            if boundary == "null" or (isinstance(boundary, str) and boundary.lower() in ("null", "nodata", "null_value")):
                return dv, True
            if isinstance(boundary, (int, float)):
                return boundary, r.nv is not None and (boundary == r.nv or (boundary != boundary and r.nv != r.nv))
            return 0, False
        bd = boundary.lower() if isinstance(boundary, str) else boundary

        def val(k):
            t = tm.const(f8.type(0), f8)
            for n, r in enumerate(rs):
                fd, fm = fills(r)
                for d in offs:
                    v = tm.mk_cast(look(S, r.data, k, d, bd, fd), f8)
                    t = tm.mk_op("add", f8, t, tm.mk_op("mul", f8, v, tm.const(f8.type(W[d] * (1 + 100 * n)), f8)))
            if masks:
                for n, r in enumerate(rs):
                    fd, fm = fills(r)
                    for d in offs:
                        v = tm.mk_cast(look(S, r.m, k, d, bd, fm), f8)
                        t = tm.mk_op("add", f8, t, tm.mk_op("mul", f8, v, tm.const(f8.type(W[d] * 0.125 * (1 + 64 * n)), f8)))
            return t
        if explicit_mask:
            fm = fills(rs[0])[1]
            yield from explicit(S, o.r, lambda k: look(S, rs[0].m, k, offs[-1], bd, fm), val, f8, nvr, full)
        else:
            yield from derived(S, o.r, val, f8, nvr, full)
        yield from geo_claims(o.r, *i.a.inp.coords())

    return Case("overlap-%s-%s-%s-%s-%s-%s-%s%s%s-%d%s" % (name, dt, nv, "x".join(map(str, full)), chunks, depth, boundary, "-pair" if explicit_mask else "", "" if masks else "-nomask", len(offs), tag + ("-2nd%s" % (second[2],) if second else "")), ins, run, claims, api=name)


def coords(shape, chunks, depth, boundary, which):
    """geo variants: the coordinates of every block, its bounds and GeoBlockInfo"""
    ins = dict(a=raster(shape, "float64", 0, 20, nv=-1.0, chunks=chunks, x=np.arange(shape[2]) * 2.0 + 11, y=100 - 3.0 * np.arange(shape[1]), crs="EPSG:5070"))
    name = "geo_map_overlap" if depth else "geo_map_blocks"

    def run(ctx, a):
        crs = a.crs

        def f(x, *, geo_block_info=None, input_masks):
            (m,) = input_masks
            if geo_block_info is None:
                return geo(x)
            g = geo_block_info
            if not (np.array_equal(x.x, g.x) and np.array_equal(x.y, g.y) and np.array_equal(m.x, g.x) and np.array_equal(m.y, g.y)):
                raise RuntimeError("coordinates differ")
            if g.shape != x.shape or x.rio.crs != crs or g.crs != crs or x.rio.nodata != -1.0:
                raise RuntimeError("metadata")
            cx, cy, cb = np.asarray(x.x), np.asarray(x.y), np.asarray(x.band)
            ya, xa = np.meshgrid(cy, cx, indexing="ij")
            rows = np.arange(g.row_slice.start, g.row_slice.stop)[:, None] + 0 * xa
            cols = np.arange(g.col_slice.start, g.col_slice.stop)[None, :] + 0 * xa
            bb = np.arange(g.band_slice.start, g.band_slice.stop)
            extra = {"x": xa, "y": ya, "row": rows, "col": cols}[which] if which != "band" else None
            v = np.where(geo(m), 0, geo(x)) * 1000
            return v + (bb[:, None, None] + 0 * xa if extra is None else extra[None])
        k = dict(depth=depth, boundary=boundary) if depth else {}
        return {"r": getattr(ctx.rt, name)(f, a, dtype="float64", **k)}

    def claims(S, i, o):
        x, y = i.a.inp.coords()
        f8 = np.dtype("float64")

        def val(k):
            e = {"x": x[k[2]], "y": y[k[1]], "row": k[1], "col": k[2], "band": k[0]}[which]
            v = Ite(i.a.m.a[k], tm.const(0.0, f8), i.a.v.a[k])
            return tm.mk_op("add", f8, tm.mk_op("mul", f8, v, tm.const(1000.0, f8)), tm.const(float(e), f8))
        yield from derived(S, o.r, val, f8, -1.0, shape)
        yield from geo_claims(o.r, x, y)
        yield "crs", "5070" in o.r.crs

    return Case("coords-%s-%s-%s-%s-%s-%s" % (name, "x".join(map(str, shape)), chunks, depth, boundary, which), ins, run, claims, api=name)


def cases(tier):
    deep = tier == "thorough"
    out = []
    L23 = layouts(2, 3) if deep else layouts(2, 3)[::2]
    for g in (False, True):
        for dt, nv in (("int16", -99), ("uint8", 255), ("float32", NAN), ("float64", -1.0), ("int32", None), ("int32", 5), ("float32", 12.0)):
            for ch in (L23 if dt == "int16" else L23[1:2]):
                out.append(plain(dt, nv, (1, 2, 3), ch, method=dt != "int32", geof=g))
        out.append(plain("int16", -99, (2, 2, 2), ((1, 1), (2,), (1, 1)), geof=g))
        K = [(("int16", "float32"), (-99, NAN)), (("uint8", "uint8"), (255, 0)), (("float64", "int32"), (NAN, -1)), (("int8", "int8"), (-128, 7))]
        for dts, nvs in K:
            for o, onv in (("float64", None), ("int32", -7), ("float64", NAN), ("int16", 77)):
                for pair in (False, True):
                    out.append(masks(dts, nvs, (1, 2, 3), ((2,), (1, 2)), ((1, 1), (3,)), o, onv, pair, g, hint=o if (pair or o != "float64") else None, method=o == "int32"))
        out.append(masks(("int16", "int16"), (-99, -98), (2, 2, 2), ((1, 1), (2,), (1, 1)), ((1, 1), (1, 1), (2,)), "int32", -7, True, g, hint="float32"))
        for nb, ob in ((2, 1), (1, 2), (2, 2), (3, 2)):
            for pair in (False, True):
                out.append(bands("int16", -99, nb, ob, ((1,) * nb, (1, 1), (2, 1)), pair, g))
    offs1 = [(0, 0), (-1, 0), (1, 0), (0, -1), (0, 1), (-1, -1), (1, 1)]
    offs2 = [(0, 0), (-2, 0), (0, 2), (2, -1), (1, -2)]
    bs = [None, "none", "null", "NoData", "reflect", "periodic", "nearest", 0, -99, 5]
    for g in (False, True):
        for b in bs:
            for pair in (False, True):
                out.append(overlap("int16", -99, (3, 3), ((2, 1), (1, 2)), 1, b, offs1, explicit_mask=pair, geof=g))
            out.append(overlap("float32", NAN, (4, 4), ((2, 2), (4,)), 2, b, offs2, geof=g))
        for b in ("null", "reflect", 5, None):
            out.append(overlap("int32", None, (2, 3), ((1, 1), (3,)), 1, b, offs1, masks=False, geof=g))
            out.append(overlap("float64", -1.0, (3, 3), ((3,), (1, 1, 1)), (0, 1), b, [(0, 0), (0, -1), (0, 1)], geof=g))
            out.append(overlap("int16", -99, (3, 3), ((1, 2), (3,)), {1: 1, 2: 0}, b, [(0, 0), (-1, 0), (1, 0)], explicit_mask=True, geof=g))
            out.append(overlap("int16", -99, (3, 3), ((1, 1), (2, 1), (2, 1)), 1, b, offs1, geof=g, nb=2))
            out.append(overlap("int16", -99, (3, 3), ((2, 1), (3,)), 1, b, offs1, geof=g, second=("float32", 5.0, ((1, 2), (2, 1)))))
        out.append(overlap("float32", NAN, (3, 3), ((2, 1), (1, 2)), 1, NAN, offs1, geof=g))
        if not g:
            out.append(overlap("int16", -99, (4, 3), ((2, 2), (3,)), {1: (2, 0), 2: (0, 1)}, None, [(0, 0), (-1, 0), (-2, 0), (0, 1)], geof=g))
    for w in ("x", "y", "row", "col", "band"):
        out.append(coords((2, 3, 4), ((1, 1), (1, 2), (2, 2)), 0, None, w))
        out.append(coords((1, 4, 4), ((1,), (2, 2), (1, 3)), 1, "reflect", w))
        out.append(coords((1, 4, 4), ((1,), (1, 3), (2, 2)), 1, 0, w))
        out.append(coords((1, 5, 4), ((1,), (2, 3), (4,)), (2, 1), "null", w))
    return out
