"""P30 template creation matches its template."""
from common import *

BOUNDS = "template grids 2x2 and 2x3, 1-2 bands, result bands 1-3; all template values and masks; fill values, dtypes, copy_mask, chunk layouts, geobox templates"
OUTSIDE = "fill values and template null values that do not fit the dtype, NaN null values copied without naming a dtype, empty_like and random_raster (their values are unspecified)"


def case(func, dt, nv, bands=1, dtype=None, copy=False, nb=1, value=None, hw=(2, 2), chunks=((1, 1), (2,)), geobox=False, kw=True):
    lo, hi = (0, 1) if dt == "bool" else (0, 200) if np.dtype(dt).kind == "u" else (-100, 100)
    h, w = hw
    crs = "EPSG:3857"
    x, y = 100.0 + 30 * (np.arange(w) + 0.5), 50.0 + 30 * (np.arange(h)[::-1] + 0.5)
    ins = dict(a=raster((nb, h, w), dt, lo, hi, nv=nv, chunks=((1,) * nb,) + chunks, crs=crs, x=x, y=y))
    v = {"zeros_like": 0, "ones_like": 1}.get(func, 1 if value is None else value)
    out_dt = np.dtype(dtype) if dtype else np.asarray(v).dtype
    masked = copy and nv is not None
    if masked and dtype is None and out_dt.kind == "i" and np.dtype(dt).kind == "f":
        out_dt = np.dtype("float64")    # to hold the template's null value
    out_nv = None if not masked else nv if dtype is None or np.dtype(dtype) == np.dtype(dt) else default_null(out_dt)

    def run(ctx, a):
        t = a.geobox if geobox else a
        k = dict(bands=bands, copy_mask=copy)
        if dtype is not None:
            k["dtype"] = dtype
        f = getattr(ctx.rt, func)
        if func in ("full_like", "constant_raster") and value is not None:
            return {"r": f(t, value=value, **k) if kw else f(t, value, **k)}
        return {"r": f(t, **k)}

    def claims(S, i, o):
        r = o.r
        yield "crs", r.crs == crs
        yield "bands", list(np.atleast_1d(r.band)) == list(range(1, bands + 1))
        yield from geo_claims(r, x, y)

        def mask(k):
            if not masked:
                return tm.FALSE
            return i.a.m.a[(k[0] if bands == nb else 0,) + k[1:]]

        yield from raster_claims(S, r, "r", mask, lambda k: tm.const(out_dt.type(v), out_dt), dtype=out_dt, nv=out_nv, shape=(bands,) + hw)

    return Case("%s-%s-%s-b%d-%s-%s-%d-%s-%s%s" % (func, dt, nv, bands, dtype, copy, nb, value, "x".join(map(str, hw)), "-gb" if geobox else ""), ins, run, claims, api=func)


def cases(tier):
    out = []
    kinds = [("float32", NAN), ("float64", -1.0), ("int16", -99), ("uint8", 255), ("uint8", None), ("bool", True)]
    for f in ("full_like", "zeros_like", "ones_like", "constant_raster"):
        vals = (7, 2.5) if f in ("full_like", "constant_raster") else (None,)
        for v in vals:
            for dt, nv in kinds:
                for copy in (False, True):
                    for b, nb in ((1, 1), (2, 2), (3, 1), (1, 2), (3, 2)):
                        if nv is None and copy and b != 1:
                            continue
                        if copy and nv is not None and nv != nv:
                            out.append(case(f, dt, nv, b, dtype="float32", copy=copy, nb=nb, value=v))
                        else:
                            if not (copy and dt == "bool"):
                                out.append(case(f, dt, nv, b, copy=copy, nb=nb, value=v))
                    for dtype in ("uint8", "int32", "float32", "float64", "bool"):
                        if dtype == "bool" and v is not None:
                            continue
                        if v == 2.5 and dtype in ("uint8", "int32"):
                            continue
                        if dtype != "float32" or not copy or nv == nv:
                            out.append(case(f, dt, nv, 2, dtype=dtype, copy=copy, nb=2, value=v, hw=(2, 3), chunks=((2,), (1, 2))))
            for dtype in (None, "int16"):
                if not (v == 2.5 and dtype):
                    out.append(case(f, "int16", -99, 2, dtype=dtype, value=v, geobox=True))
    return out
