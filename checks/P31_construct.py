"""P31 building a raster from an array keeps its cells, nulls and grid."""
from common import *

BOUNDS = "arrays up to 2x2x3; all cell values (NaN included for floats) and masks; dtypes, 2D and 3D, dask and xarray inputs, null values, burn, ascending and descending coordinates, chunk layouts, CRS"
OUTSIDE = "numpy arrays handed to Raster() are covered through dask arrays only"


def pos(n, asc):
    return 10.0 * np.arange(n)[::(1 if asc else -1)] + 5.0


def case(how, dt, shape, nv=None, mask=False, burn=False, xasc=True, yasc=False, crs=None, chunks=None, nan=False, affine=False, like=None):
    lo, hi = (0, 1) if dt == "bool" else (0, 255) if dt == "uint8" else (-100, 100)
    isf = np.dtype(dt).kind == "f"
    ins = dict(a=array(shape, dt, lo, hi, nan=nan and isf))
    if mask:
        ins["m"] = array(shape, "bool", 0, 1)
    h, w = shape[-2:]
    nb = shape[0] if len(shape) == 3 else 1
    ch = chunks or tuple((n,) for n in shape)
    x, y = pos(w, xasc), pos(h, yasc)

    def run(ctx, a, m=None):
        rt = ctx.rt
        d = ctx.dask(a, ch, "a")
        if how == "Raster":
            return {"r": rt.Raster(d)}
        if how == "DataArray":
            import xarray as xr
            dims = ("band", "y", "x")[3 - len(shape):]
            co = {"y": y, "x": x}
            if len(shape) == 3:
                co["band"] = np.arange(nb) + 1
            xa = xr.DataArray(d, dims=dims, coords=co)
            if nv is not None:
                xa = xa.rio.write_nodata(nv)
            if crs is not None:
                xa = xa.rio.write_crs(crs)
            return {"r": rt.Raster(xa)}
        md = ctx.dask(m, ch, "m") if mask else None
        if how == "like":
            t = rt.data_to_raster(np.zeros((1, h, w)), x=pos(w, True), y=pos(h, False), crs=crs).chunk((1, 1, 2))
            return {"r": rt.data_to_raster_like(d, t, mask=md, nv=nv, burn=burn)}
        if affine:
            from affine import Affine
            return {"r": rt.data_to_raster(d, mask=md, affine=Affine(10, 0, 0, 0, -10, 10.0 * h), crs=crs, nv=nv, burn=burn)}
        return {"r": rt.data_to_raster(d, mask=md, x=x, y=y, crs=crs, nv=nv, burn=burn)}

    def claims(S, i, o):
        r = o.r
        yield "shape", tuple(r.shape) == (nb, h, w) == tuple(r.data.shape) == tuple(r.mask.shape)
        if tuple(r.data.shape) != (nb, h, w):
            return
        yield "dtype", r.dtype == np.dtype(dt) == r.ddtype == r.data.dtype
        yield "mask-dtype", r.mask.dtype == np.dtype(bool)
        yield "bands", list(np.atleast_1d(r.band)) == list(range(1, nb + 1))
        yield "crs", r.crs == crs
        if how == "Raster":
            yield from geo_claims(r, np.arange(w) + 0.5, np.arange(h)[::-1] + 0.5)
            fx = fy = False
        else:
            yield from geo_claims(r, pos(w, True), pos(h, False))
            free = how == "like" or affine
            fx, fy = not xasc and not free, yasc and not free
        if how in ("Raster", "DataArray"):
            want = default_null(dt) if isf and (nv is None or nv != nv) else nv
            test = nv if nv is not None else NAN if isf else None
        else:
            want = nv if nv is not None else default_null(dt) if mask else None
            test = None if mask else nv
        yield "null", (r.nv is None and want is None) or (r.nv is not None and want is not None and (r.nv == want or (r.nv != r.nv and want != want)))
        for k in np.ndindex(nb, h, w):
            s = (k[0], h - 1 - k[1] if fy else k[1], w - 1 - k[2] if fx else k[2])[3 - len(shape):]
            v = i.a.v.a[s]
            if mask:
                m = i.m.v.a[s]
            elif test is None:
                m = tm.FALSE
            else:
                m = sp.isnan(v) if test != test else sp.eq(v, tm.const(np.asarray(test).astype(dt)[()], dt)) if dt != "bool" else Iff(v, bool(test))
            yield "mask" + lab(*k), Iff(r.mask.a[k], m)
            yield "value" + lab(*k), Implies(Not(m), sp.exact(r.data.a[k], v))
            if want is not None and (burn or not mask):
                yield "null-cell" + lab(*k), Implies(m, sp.exact(r.data.a[k], tm.const(np.asarray(want).astype(dt)[()], dt)))

    nm = "%s-%s-%s-nv%s-%s%s-%s%s-%s-%s-%s%s" % (how, dt, "x".join(map(str, shape)), nv, mask, burn, xasc, yasc, crs, ch, nan, affine)
    return Case(nm, ins, run, claims, api="data_to_raster" if how in ("data", "like") else "Raster")


def cases(tier):
    out = []
    kinds = [("float32", (NAN, -5.0)), ("float64", (-1.0, NAN)), ("int16", (-99, 5)), ("uint8", (255, 0)), ("bool", (True,)), ("int64", (7,))]
    for dt, nvs in kinds:
        isf = np.dtype(dt).kind == "f"
        for shape in ((2, 2), (2, 2, 3), (1, 3, 2)):
            out.append(case("Raster", dt, shape, nan=isf))
            for nv in (None,) + nvs:
                out.append(case("data", dt, shape, nv, crs="EPSG:3857" if len(shape) == 3 else None, nan=isf))
                for ya, xa in ((False, True), (True, False), (True, True)):
                    out.append(case("DataArray", dt, shape, nv, xasc=xa, yasc=ya, crs="EPSG:3857" if xa else None, nan=isf and nv is None))
        for nv in (None,) + nvs:
            for burn in (False, True):
                out.append(case("data", dt, (2, 2, 2), nv, mask=True, burn=burn, chunks=((1, 1), (1, 1), (2,))))
                out.append(case("data", dt, (2, 3), nv, mask=True, burn=burn, yasc=True, xasc=False, chunks=((1, 1), (1, 2))))
                out.append(case("data", dt, (2, 3), nv, mask=True, burn=burn, affine=True, crs="EPSG:3857"))
                out.append(case("like", dt, (2, 2, 2), nv, mask=True, burn=burn, crs="EPSG:3857", chunks=((2,), (2,), (1, 1))))
            out.append(case("data", dt, (1, 2, 2), nv, yasc=True))
            out.append(case("data", dt, (2, 2), nv, xasc=False))
            out.append(case("like", dt, (2, 3), nv, crs="EPSG:3857"))
    return out
