"""P06 remap_range and reclassify follow the mapping exactly."""
from common import *

BOUNDS = "grid 1x2x2 and 2x2x2; all cell values in range (including range ends, null value, NaN) and all masks; listed mappings, inclusivity modes, dtypes"

INC = {"left": (sp.le, sp.lt), "right": (sp.lt, sp.le), "both": (sp.le, sp.le), "none": (sp.lt, sp.lt)}


def final(i, o, nv, fate, shape, out_dt, S, masked):
    """fate(value) -> (goes null, new value) terms"""
    r = o.r
    yield "shape", tuple(r.shape) == shape == tuple(r.data.shape) == tuple(r.mask.shape)
    yield "dtype", r.dtype == np.dtype(out_dt) and r.data.dtype == r.dtype
    yield "has-null", (r.nv is not None) == masked
    if nv is not None and masked:
        yield "null", r.nv is not None and (r.nv == nv or (nv != nv and r.nv != r.nv))
    yield from geo_claims(r, *i.a.inp.coords())
    for k in np.ndindex(shape):
        gone, new = fate(i.a.v.a[k])
        m = Or(i.a.m.a[k], gone)
        isnull = tm.FALSE if r.nv is None else sp.exact(new, r.nv)
        yield "mask" + lab(*k), Implies(m, r.mask.a[k])
        yield "unmasked" + lab(*k), Implies(r.mask.a[k], Or(m, isnull))
        yield "value" + lab(*k), Implies(Not(m), S.same(r.data.a[k], new))
        if r.nv is not None:
            yield "null-cell" + lab(*k), Implies(r.mask.a[k], sp.exact(r.data.a[k], tm.const(np.asarray(r.nv).astype(r.dtype)[()], r.dtype)))


def ins_of(dt, nv, shape, chunks, lo, hi, nan):
    return dict(a=raster(shape, dt, lo, hi, nv=nv, nan=nan, chunks=((1,) * shape[0],) + chunks))


def rng(dt):
    return {"bool": (0, 1), "u": (0, 12)}.get(dt if dt == "bool" else np.dtype(dt).kind, (-12, 12))


def out_dtype(dt, outs):
    o = np.dtype(dt)
    for v in outs:
        if v is not None:
            o = np.promote_types(o, np.min_scalar_type(v) if not isinstance(v, np.generic) else v.dtype)
    return o


def remap(dt, nv, mapping, inc, out, shape=(1, 2, 2), chunks=((1, 1), (2,)), nan=False):
    lo, hi = rng(dt)
    ml = [mapping] if isinstance(mapping, tuple) else mapping
    none = any(m[2] is None for m in ml)
    masked = nv is not None or none
    want_nv = nv if nv is not None else default_null(out) if none else None

    def run(ctx, a):
        return {"r": ctx.rt.general.remap_range(a, mapping, inclusivity=inc) if inc != "default" else ctx.rt.general.remap_range(a, mapping)}

    a, b = INC["left" if inc == "default" else inc]

    def claims(S, i, o):
        def fate(v):
            new, gone = v, tm.FALSE
            for s, e, n in reversed(ml):
                hit = And(a(s, v), b(v, e))
                if n is None:
                    gone = Or(hit, gone)
                    # value is irrelevant where the cell goes null
                else:
                    new, gone = Ite(hit, n, new), And(Not(hit), gone)
            return gone, new
        yield from final(i, o, want_nv, fate, shape, out, S, masked)

    tol = 1e-3 if out == "float16" else 1e-6
    return Case("remap-%s-nv%s-%s-%s-%s%s" % (dt, nv, str(mapping).replace(" ", ""), inc, "x".join(map(str, shape)), "-nan" if nan else ""),
                ins_of(dt, nv, shape, chunks, lo, hi, nan), run, claims, api="remap", tol=tol, atol=tol)


def reclass(dt, nv, mapping, unmapped, out, shape=(1, 2, 2), chunks=((1, 1), (2,)), nan=False):
    lo, hi = rng(dt)
    none = any(v is None for v in mapping.values())
    masked = nv is not None or none or unmapped
    want_nv = nv if nv is not None else default_null(out) if masked else None

    K = lambda k: np.dtype(dt).type(k) if np.dtype(dt).kind == "f" else k     # keys are compared in the raster's float type

    def run(ctx, a):
        m = dict(mapping)
        return {"r": ctx.rt.general.reclassify(a, m, unmapped_to_null=unmapped), "kept": m == mapping}

    def claims(S, i, o):
        yield "mapping-kept", bool(o.kept)

        def fate(v):
            new, gone = v, tm.FALSE
            if unmapped:
                gone = Not(Or([sp.eq(v, K(k)) for k in mapping]))
            for k, n in mapping.items():
                hit = sp.eq(v, K(k))
                if n is None:
                    gone = Or(hit, gone)
                else:
                    new, gone = Ite(hit, n, new), And(Not(hit), gone)
            return gone, new
        yield from final(i, o, want_nv, fate, shape, out, S, masked)

    tol = 1e-3 if out == "float16" else 1e-6
    return Case("reclass-%s-nv%s-%s-%s-%s%s" % (dt, nv, str(mapping).replace(" ", ""), unmapped, "x".join(map(str, shape)), "-nan" if nan else ""),
                ins_of(dt, nv, shape, chunks, lo, hi, nan), run, claims, api="reclass", tol=tol, atol=tol)


def cases(tier):
    out = []
    KINDS = [("int16", -7, "int16"), ("int32", None, "int32"), ("float64", NAN, "float64"), ("float32", -5.0, "float32"), ("uint8", None, None), ("uint8", 9, None), ("int64", 3, "int64")]
    for dt, nv, o in KINDS:
        u = o is None
        lo = (lambda x: x) if not u else (lambda x: abs(x))
        o8 = lambda *vals: o or {(): "uint8"}.get(vals, str(out_dtype("uint8", vals)))
        for inc in ("left", "right", "both", "none", "default"):
            out.append(remap(dt, nv, (2, 5, 8), inc, o8(8)))
            out.append(remap(dt, nv, [(0, 3, 7), (3, 6, 1)], inc, o8(7, 1)))
            out.append(remap(dt, nv, [(0, 4, 7), (2, 6, 1), (3, 9, 4)], inc, o8(7, 1, 4)))
            out.append(remap(dt, nv, [(0, 3, None), (2, 6, 1)], inc, o8(1)))
            out.append(remap(dt, nv, [(0, 3, 5), (2, 6, None), (5, 8, 6)], inc, o8(5, 6)))
            out.append(remap(dt, nv, (1, 4, None), inc, o8()))
            if nv is not None and nv == nv:
                out.append(remap(dt, nv, [(0, 2, int(nv)), (nv - 2, nv + 2, 1)], inc, o8(int(nv), 1)))
            if nv is None and not u:
                out.append(remap(dt, nv, [(-10, -2, 5), (0, 2, 0)], inc, o8(5, 0)))
            out.append(remap(dt, nv, [(0, 3, 1), (0, 3, 2), (1, 7, 3)], inc, o8(1, 2, 3)))
        out.append(remap(dt, nv, [(0, 3, 1), (4, 6, None)], "left", o8(1), shape=(2, 2, 2), chunks=((2,), (1, 1))))
        for m, vals in (({1: 5, 2: 6}, (5, 6)), ({1: 2, 2: 1, 3: None}, (2, 1)), ({4: None}, ()), ({0: 1}, (1,)), ({7: 7, 5: 3}, (7, 3))):
            for un in (False, True):
                out.append(reclass(dt, nv, m, un, o8(*vals)))
        if nv is not None and nv == nv:
            for un in (False, True):
                out.append(reclass(dt, nv, {1: int(nv), int(nv): 4}, un, o8(int(nv), 4)))
        out.append(reclass(dt, nv, {1: 5, 2: None}, False, o8(5), shape=(2, 2, 2), chunks=((2,), (1, 1))))
    # type promotion by the outputs
    for nv in (None, 9):
        for o in ([(0, 3, 0.5), (3, 6, 2)], (0, 4, 1.5), [(0, 2, 0.25), (2, 5, None)]):
            out.append(remap("uint8", nv, o, "left", "float16"))
        out.append(remap("uint8", nv, [(0, 3, 300)], "left", "uint16"))
        out.append(remap("uint8", nv, [(0, 3, -4), (5, 7, 200)], "both", "int16"))
        out.append(remap("int16", nv, [(0, 3, 0.5)], "left", "float32"))
        out.append(remap("int16", nv, [(0, 3, 70000)], "left", "int64"))
        out.append(remap("int32", nv, [(0, 3, 0.5), (4, 6, None)], "right", "float64"))
        for un in (False, True):
            out.append(reclass("uint8", nv, {1: 0.5, 2: 3}, un, "float16"))
            out.append(reclass("uint8", nv, {1: 0.5, 2: None}, un, "float16"))
            out.append(reclass("uint8", nv, {1: -3, 2: 300}, un, "int32" if False else "int16"))
            out.append(reclass("int32", nv, {1: 0.5, 4: None}, un, "float64"))
            out.append(reclass("int16", nv, {1: 70000}, un, "int64"))
    # float keys on float rasters, NaN among the valid cells
    for un in (False, True):
        out.append(reclass("float64", -5.0, {0.5: 1.0, 1.5: 0.5}, un, "float64", nan=True))
        out.append(reclass("float32", None, {0.5: 1.0, 2.0: None}, un, "float32"))
        out.append(reclass("float32", -5.0, {0.1: 1.0, 2: 0.5}, un, "float32"))
    for inc in ("left", "right", "both", "none"):
        out.append(remap("float64", -5.0, [(0.5, 1.5, 2.0), (1.0, 2.5, None)], inc, "float64", nan=True))
        out.append(remap("float64", NAN, [(-1.5, 0.25, 2.0), (0.25, 2.5, 0.5)], inc, "float64"))
    if tier == "thorough":
        for dt, nv, o in KINDS:
            for inc in ("left", "right", "both", "none"):
                out.append(remap(dt, nv, [(0, 3, 1), (2, 6, None), (5, 9, 4), (8, 11, 2)], inc, o or "uint8", shape=(2, 3, 3), chunks=((2, 1), (1, 2))))
            for un in (False, True):
                out.append(reclass(dt, nv, {1: 2, 2: 3, 3: 1, 4: None, 5: 5}, un, o or "uint8", shape=(2, 3, 3), chunks=((2, 1), (1, 2))))
    return out
