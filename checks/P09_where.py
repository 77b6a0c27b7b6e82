"""P09 where picks each cell, its value and its validity, from the chosen side."""
from common import *

BOUNDS = "grids 2x2 and 2x3, 1-2 bands; all condition values, cell values and masks in range; raster, scalar and None branches"


def branch(kind):
    """(input or None, constant)"""
    if isinstance(kind, tuple):
        return kind
    return None


def case(cdt, cnv, t, f, shape=(1, 2, 2), chunks=((1, 1), (2,)), method=False, **k):
    """t, f: ("r", dtype, nv, lo, hi) raster | ("s", value) scalar | None"""
    cl = ((1,) * shape[0],)
    ins = {"c": raster(shape, cdt, 0 if cdt in ("bool", "uint8") else -3, 1 if cdt == "bool" else 5, nv=cnv, chunks=cl + chunks)}
    for n, b in (("t", t), ("f", f)):
        if b is not None and b[0] == "r":
            ins[n] = raster(shape, b[1], b[3] if len(b) > 3 else (0 if np.dtype(b[1]).kind in "ub" else -20),
                            b[4] if len(b) > 4 else (1 if b[1] == "bool" else 20), nv=b[2],
                            chunks=cl + ((2,), chunks[1][::-1]))
    const = lambda b: None if b is None else b[1]

    def run(ctx, c, t=None, f=None):
        a = t if t is not None else const(T)
        b = f if f is not None else const(F)
        if method:
            return {"r": a.where(c, b)}
        return {"r": ctx.rt.general.where(c, a, b)}

    T, F = t, f
    masked = cnv is not None or any(b is None or (b[0] == "r" and b[2] is not None) for b in (t, f))

    def claims(S, i, o):
        r = o.r
        yield "shape", tuple(r.shape) == shape == tuple(r.data.shape) == tuple(r.mask.shape)
        yield "has-null", (r.nv is not None) == masked
        yield from geo_claims(r, *i.c.inp.coords())
        if masked and r.nv is not None:
            # the null value fits the data
            yield "null-fits", bool(np.isnan(r.nv)) or np.asarray(r.nv).astype(r.dtype) == r.nv
        for k in np.ndindex(shape):
            cv = i.c.v.a[k] if cdt == "bool" else sp.gt(i.c.v.a[k], 0)
            def side(b, n):
                if b is None:
                    return tm.TRUE, None
                if b[0] == "s":
                    same = tm.FALSE
                    if masked and r.nv is not None:
                        same = tm.const(bool(b[1] == r.nv or (b[1] != b[1] and r.nv != r.nv)), bool)
                    return same, T_(b[1])
                x = getattr(i, n)
                return x.m.a[k], x.v.a[k]
            tmask, tv = side(t, "t")
            fmask, fv = side(f, "f")
            m = Or(i.c.m.a[k], Ite(cv, tmask, fmask))
            yield "mask" + lab(*k), Iff(r.mask.a[k], m)
            if tv is not None:
                yield "true" + lab(*k), Implies(And(Not(m), cv), S.same(r.data.a[k], tv))
            if fv is not None:
                yield "false" + lab(*k), Implies(And(Not(m), Not(cv)), S.same(r.data.a[k], fv))
            if masked and r.nv is not None:
                yield "null-cell" + lab(*k), Implies(m, sp.exact(r.data.a[k], tm.const(np.asarray(r.nv).astype(r.data.dtype)[()], r.data.dtype)))

    nm = lambda b: "None" if b is None else "-".join(map(str, b))
    name = "%s-nv%s|%s|%s|%s%s" % (cdt, cnv, nm(t), nm(f), "x".join(map(str, shape)), "|method" if method else "")
    return Case(name, ins, run, claims, api="where", **k)


def cases(tier):
    out = []
    R = lambda dt, nv, *r: ("r", dt, nv) + r
    conds = [("bool", None), ("int32", -2), ("uint8", 0), ("int16", None)]
    sides = [
        (R("float32", NAN), R("float32", NAN)), (R("float32", NAN), R("int16", -7)), (R("int16", -7), R("int16", 5)),
        (R("int16", None), R("int16", None)), (R("uint8", 255, 0, 255), R("uint8", None, 0, 255)),
        (R("uint8", 3, 0, 255), R("uint8", 4, 0, 255)), (R("int32", -9), None), (None, R("float64", NAN)),
        (R("uint8", None, 0, 255), None), (("s", 4), R("int32", -9)), (R("int32", -9), ("s", 2.5)),
        (R("int32", None), ("s", 3)), (("s", 1), ("s", 0)), (("s", 1.5), None), (R("bool", True, 0, 0), R("bool", None)),
        (R("float64", 2.0), R("int64", 3)), (R("int32", -9), ("s", -9)), (("s", NAN), R("float32", None)),
        (R("float64", -5.0), R("float64", None)), (R("int8", -128, -127, 127), R("uint16", None, 0, 60000)),
    ]
    for c in conds:
        for s in sides:
            out.append(case(*c, *s))
    for c in conds[:2]:
        for s in sides[:8]:
            out.append(case(*c, *s, shape=(2, 2, 3), chunks=((1, 1), (2, 1))))
            if s[0] and s[0][0] == "r":
                out.append(case(*c, *s, method=True))
    if tier == "thorough":
        for c in conds:
            for s in sides:
                out.append(case(*c, *s, shape=(2, 3, 4), chunks=((2, 1), (1, 3))))
    return out
