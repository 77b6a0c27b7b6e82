"""P05 astype keeps values, nulls and mask consistent."""
from common import *

BOUNDS = "grid 2x2; all values that fit both dtypes, all masks; all pairs of the 12 dtypes below 64 bit floats plus int64/uint64, null values as listed"

DTS = ["bool", "uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float32", "float64"]


def rng(d1, d2):
    def r(dt):
        dt = np.dtype(dt)
        if dt == bool:
            return 0, 1
        if dt.kind == "f":
            return -100000, 100000
        ii = np.iinfo(dt)
        return max(ii.min, -2**40), min(ii.max, 2**40)
    a, b = r(d1), r(d2) if d2 != "bool" else r(d1)
    return max(a[0], b[0]), min(a[1], b[1])


def expected_nv(nv, d2):
    """the null value after a cast"""
    if nv != nv:
        return default_null(d2)
    dt = np.dtype(d2)
    if dt == bool:
        return bool(nv) if nv in (0, 1) else True
    if dt.kind in "iu":
        ii = np.iinfo(dt)
        return dt.type(int(nv)) if float(nv).is_integer() and ii.min <= int(nv) <= ii.max else default_null(dt)
    if isinstance(nv, float):
        return dt.type(nv)
    return dt.type(nv) if int(dt.type(nv)) == int(nv) else default_null(dt)


def case(d1, nv, d2, new=None, shape=(1, 2, 2), chunks=((1, 1), (2,)), raises=False):
    lo, hi = rng(d1, d2)
    if d2 == "bool":
        lo, hi = max(lo, -3), min(hi, 3)
    ins = dict(a=raster(shape, d1, lo, hi, nv=nv, chunks=((1,) * shape[0],) + chunks))

    def run(ctx, a):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return {"r": a.astype(d2, new_null_value=new) if new is not None else a.astype(d2)}

    def claims(S, i, o):
        if raises:
            yield "raises", getattr(o, "kind", None) == "ValueError"
            return
        r = o.r
        if nv is None:
            want = None
        elif new is not None:
            want = new if new == new or np.dtype(d2).kind == "f" else default_null(d2)
        elif d1 == d2:
            want = nv
        else:
            want = expected_nv(nv, d2)
        same = nv is not None and d1 == d2 and new is None
        cast = lambda t: tm.mk_cast(t, np.dtype(d2)) if d2 != "bool" or t.dt == tm.BOOL else Not(sp.eq(t, 0))
        yield from raster_claims(S, r, "r", lambda k: i.a.m.a[k], lambda k: cast(i.a.v.a[k]), dtype=d2, nv=want, shape=shape)
        yield from geo_claims(r, *i.a.inp.coords())

    return Case("%s-nv%s-to-%s%s" % (d1, nv, d2, "" if new is None else "-new%s" % new), ins, run, claims, api="astype", raises=raises)


def cases(tier):
    out = []
    nvs = {"bool": [True], "uint8": [255, 3], "int8": [-128, -1], "uint16": [65535, 7], "int16": [-32768, -99], "uint32": [4294967295, 5],
           "int32": [-2147483648, 300], "uint64": [9, 2**40], "int64": [-99, 70000], "float32": [NAN, -999999.0, 255.0], "float64": [NAN, -9999.0, 0.5]}
    for d1 in DTS:
        for d2 in DTS:
            for nv in nvs[d1] + [None]:
                out.append(case(d1, nv, d2))
    for d1, nv, d2, new in (("int16", -99, "uint8", 255), ("int16", -99, "int16", -7), ("float64", NAN, "int32", -1), ("float32", -999999.0, "float32", -999998.0),
                            ("float64", -9999.0, "float64", -9999.05), ("int32", 300, "int32", 301), ("int64", 70000, "float32", -1.0), ("uint8", 3, "int16", -5),
                            ("int32", 300, "int64", 300), ("float32", NAN, "float32", -5.0), ("int32", 1000000, "int32", 1000001),
                            ("uint8", None, "int16", -5), ("float64", -9999.0, "int16", -9999), ("int16", -32768, "int8", 99), ("uint8", 3, "int32", 70000),
                            ("float64", NAN, "float32", -999998.0), ("int64", 70000, "int32", -2147483648), ("float32", NAN, "uint32", 4294967295),
                            ("uint64", 9, "int64", -9223372036854775808), ("float64", -1.0, "float64", NAN), ("float32", NAN, "float64", NAN),
                            ("int16", -99, "float32", NAN), ("float64", 7.0, "float32", NAN)):
        out.append(case(d1, nv, d2, new))
    for d1, nv, d2, new in (("int16", -99, "uint8", 256), ("int16", -99, "uint8", -99), ("float32", -999999.0, "int16", 0.5), ("int32", -9999, "uint16", -9999)):
        out.append(case(d1, nv, d2, new, raises=True))
    return out
