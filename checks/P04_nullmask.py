"""P04 set_null, set_null_value, replace_null, burn_mask, to_null_mask."""
from common import *

BOUNDS = "grids 2x2 (1-2 bands); all cell values and masks in range, all mask raster values; dtypes and null values as listed in the case names"


def val_range(dt):
    dt = np.dtype(dt)
    if dt == bool:
        return 0, 1
    if dt == np.uint8:
        return 0, 255
    if dt == np.int8:
        return -128, 127
    return (0, 300) if dt.kind == "u" else (-300, 300)


def case_set_null(dt, nv, mdt, mnv, shape=(1, 2, 2), mshape=None, chunks=((1, 1), (2,)), mch=((2,), (1, 1))):
    mshape = mshape or shape
    lo, hi = val_range(dt)
    ins = dict(a=raster(shape, dt, lo, hi, nv=nv, chunks=((1,) * shape[0],) + chunks),
               m=raster(mshape, mdt, -1 if mdt == "int8" else 0, 1 if mdt == "bool" else 2, nv=mnv, chunks=((1,) * mshape[0],) + mch))

    def run(ctx, a, m):
        return {"r": a.set_null(m)}

    def claims(S, i, o):
        def mask(k):
            j = k if mshape[0] == shape[0] else (0,) + k[1:]
            on = i.m.v.a[j] if mdt == "bool" else Not(sp.eq(i.m.v.a[j], 0))
            return Or(i.a.m.a[k], And(on, Not(i.m.m.a[j])))
        yield from raster_claims(S, o.r, "r", mask, lambda k: i.a.v.a[k], dtype=dt,
                                 nv=nv if nv is not None else default_null(dt), shape=shape)
        yield from geo_claims(o.r, *i.a.inp.coords())

    return Case("set_null-%s-nv%s-by-%s-nv%s-%s-%s" % (dt, nv, mdt, mnv, shape, mshape), ins, run, claims, api="set_null")


def case_nv(op, dt, nv, new, shape=(1, 2, 2), chunks=((1, 1), (2,))):
    lo, hi = val_range(dt)
    ins = dict(a=raster(shape, dt, lo, hi, nv=nv, chunks=((1,) * shape[0],) + chunks))

    def run(ctx, a):
        return {"r": getattr(a, op)(new)}

    def claims(S, i, o):
        r = o.r
        if new is None:
            def val(k):
                if nv is None:
                    return i.a.v.a[k]
                return Ite(i.a.m.a[k], tm.const(np.asarray(nv).astype(dt)[()], np.dtype(dt)), i.a.v.a[k])
            yield from raster_claims(S, r, "r", lambda k: tm.FALSE, val, dtype=dt, nv=None, shape=shape)
            return
        isnan_new = new != new
        yield "null", r.nv is not None and (r.nv == new or (isnan_new and r.nv != r.nv) or np.dtype(dt) == bool)
        yield "shape", tuple(r.shape) == shape == tuple(r.data.shape) == tuple(r.mask.shape)
        if r.data.dtype.kind in "iu" or not isnan_new:
            yield "null-fits", bool(np.asarray(new).astype(r.data.dtype) == new)
        yield from geo_claims(r, *i.a.inp.coords())
        nt = tm.const(new if isnan_new else (np.float64(new) if isinstance(new, float) else np.int64(new)),
                      np.float64 if isinstance(new, float) else np.int64)
        for k in np.ndindex(shape):
            m = Or(i.a.m.a[k], tm.FALSE if isnan_new else sp.eq(i.a.v.a[k], nt))
            yield "mask" + lab(*k), Iff(r.mask.a[k], m)
            yield "value" + lab(*k), Implies(Not(m), S.same(r.data.a[k], i.a.v.a[k]))
            yield "null-cell" + lab(*k), Implies(m, sp.exact(r.data.a[k], nt if r.data.dtype != bool else tm.TRUE))

    return Case("%s-%s-nv%s-to-%s-%s" % (op, dt, nv, new, "x".join(map(str, shape))), ins, run, claims, api=op)


def case_view(dt, nv, shape=(1, 2, 2), chunks=((1, 1), (2,))):
    lo, hi = val_range(dt)
    ins = dict(a=raster(shape, dt, lo, hi, nv=nv, chunks=((1,) * shape[0],) + chunks),
               b=array(shape, dt, lo, hi))

    def run(ctx, a, b):
        # data below the mask may be anything: burning restores the null value
        import dask.array as da
        rr = ctx.rt.raster
        D = ctx.dask(b, ((1,) * shape[0],) + chunks)
        raw = rr.data_to_raster(D, mask=a.mask, x=a.x, y=a.y, nv=nv)
        return {"m": a.to_null_mask(), "burn": raw.burn_mask(), "n2": a.burn_mask(), "c": a.copy(), "mb": raw.to_null_mask()}

    def claims(S, i, o):
        for n in ("m", "mb"):
            yield from raster_claims(S, getattr(o, n), n, lambda k: tm.FALSE, lambda k: i.a.m.a[k], dtype=bool, nv=None, shape=shape)
        yield from raster_claims(S, o.burn, "burn", lambda k: i.a.m.a[k], lambda k: i.b.v.a[k], dtype=dt, nv=nv, shape=shape)
        for n in ("n2", "c"):
            yield from raster_claims(S, getattr(o, n), n, lambda k: i.a.m.a[k], lambda k: i.a.v.a[k], dtype=dt, nv=nv, shape=shape)

    return Case("views-%s-nv%s" % (dt, nv), ins, run, claims, api="burn_mask")


def cases(tier):
    out = []
    dts = (("float32", NAN), ("float64", -7.0), ("int16", -7), ("uint8", 255), ("uint8", 0), ("int64", -9), ("bool", True),
           ("float32", None), ("int16", None), ("uint8", None), ("bool", None), ("uint16", 65535), ("int32", None))
    for dt, nv in dts:
        for mdt, mnv in (("bool", None), ("int8", None), ("uint8", None), ("int8", -1), ("uint8", 2), ("uint8", 0)):
            out.append(case_set_null(dt, nv, mdt, mnv))
    for dt, nv in dts[:4]:
        out.append(case_set_null(dt, nv, "bool", None, (2, 2, 2), (1, 2, 2)))
        out.append(case_set_null(dt, nv, "uint8", 2, (2, 2, 2), (2, 2, 2)))
        out.append(case_set_null(dt, nv, "int8", -1, (2, 2, 2), (1, 2, 2)))
    new = {"float32": (NAN, 1.0, -99, 0, 0.1, -7), "float64": (NAN, -7.0, 3, 2.5), "int16": (NAN, -7, 3, 100000, 2.5, 0, -32768),
           "uint8": (NAN, 255, 0, -1, 256, 7, 1.5), "int64": (NAN, -9, 5, 0), "uint16": (65535, -1, NAN, 0), "int32": (NAN, 1, -2147483648, 0.25),
           "bool": (True, 1)}
    for dt, nv in dts:
        for v in new[dt] + (None,):
            if dt == "bool" and v not in (None,):
                continue
            out.append(case_nv("set_null_value", dt, nv, v))
            if v is not None:
                out.append(case_nv("replace_null", dt, nv, v))
        out.append(case_nv("set_null_value", dt, nv, new[dt][0], (2, 2, 2)) if dt != "bool" else case_nv("set_null_value", dt, nv, None, (2, 2, 2)))
        if nv is not None:
            out.append(case_view(dt, nv))
    if tier == "thorough":
        for dt, nv in dts:
            out.append(case_set_null(dt, nv, "bool", None, (2, 3, 4), (1, 3, 4), ((2, 1), (3, 1)), ((3,), (2, 2))))
    return out
