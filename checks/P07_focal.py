"""P07 focal statistics equal the statistic of the valid cells in the window."""
import stats
from common import *

BOUNDS = "grids up to 4x5, 1-2 bands; windows up to 5x5 (rectangles, circles, annuli); median/var up to 2x2, std/mode/unique/asm/entropy up to 1x3 (quick tier); all masks and all cell values in range"
EMPTY_NAN = {"max", "min", "mean", "median", "mode", "std", "var", "unique"}


def window(spec):
    """independent definition of the documented windows"""
    if isinstance(spec, tuple) and spec[0] == "rect":
        return np.ones(spec[1:], dtype=bool)
    if isinstance(spec, tuple):
        a, b = circle(spec[0]), circle(spec[1])
        p = spec[1] - spec[0]
        b[p:p + a.shape[0], p:p + a.shape[1]] &= ~a
        return b
    return circle(spec)


def circle(r):
    n = r - 1
    return np.array([[i * i + j * j <= n * n for j in range(-n, n + 1)] for i in range(-n, n + 1)])


def neighbours(w, shape, i):
    """cells of the band under the window centred at i (even windows extend down/right)"""
    b, r, c = i
    out = []
    for a in range(w.shape[0]):
        for d in range(w.shape[1]):
            rr, cc = r + a - (w.shape[0] - 1) // 2, c + d - (w.shape[1] - 1) // 2
            if w[a, d] and 0 <= rr < shape[1] and 0 <= cc < shape[2]:
                out.append((b, rr, cc))
    return out


def case(stat, dt, nv, win, shape, chunks, ignore_null=False, lo=-20, hi=20, **k):
    if np.dtype(dt).kind in "ub":
        lo = 0
    if dt == "bool":
        hi = 1
    name = "%s-%s-nv%s-%s-%s-%s%s" % (stat, dt, nv, win, "x".join(map(str, shape)), "".join(str(c) for c in chunks).replace(" ", ""),
                                      "-ignorenull" if ignore_null else "")
    ins = dict(a=raster(shape, dt, lo, hi, nv=nv, chunks=((1,) * shape[0],) + chunks))
    w = window(win)
    args = win[1:] if isinstance(win, tuple) and win[0] == "rect" else (win,)

    def run(ctx, a):
        return {"r": ctx.rt.focal.focal(a, stat, *args, ignore_null=ignore_null)}

    def claims(S, i, o):
        r = o.r
        yield "shape", tuple(r.shape) == shape == tuple(r.data.shape) == tuple(r.mask.shape)
        masked = nv is not None
        yield "float-result", r.dtype.kind == "f" or not masked
        yield "null", (r.nv is None) if not masked else (r.nv is not None and r.nv != r.nv)
        if not masked and stat in ("mode", "min", "max"):
            yield "dtype", r.dtype == np.dtype(dt) or (dt == "bool" and stat == "mode")
        yield from geo_claims(r, *i.a.inp.coords())
        for c in np.ndindex(*shape):
            cells = [(Not(i.a.m.a[j]), i.a.v.a[j]) for j in neighbours(w, shape, c)]
            some = stats.any_valid(cells) if cells else tm.FALSE
            valid_in = Not(i.a.m.a[c])
            if ignore_null:
                # a value wherever the window holds a valid cell
                yield "mask" + lab(*c), Iff(r.mask.a[c], Not(some))
                has = some
            else:
                empty_null = Not(some) if (masked and stat in EMPTY_NAN) else tm.FALSE
                yield "mask" + lab(*c), Iff(r.mask.a[c], Or(i.a.m.a[c], empty_null))
                has = And(valid_in, some)
            if cells:
                yield "value" + lab(*c), Implies(has, stats.holds(S, stat, cells, r.data.a[c]))
            if masked:
                yield "null-cell" + lab(*c), Implies(r.mask.a[c], sp.isnan(r.data.a[c]))

    f2 = np.dtype(dt).itemsize == 1 or dt == "float16"
    return Case(name, ins, run, claims, api="focal-" + stat, tol=4e-3 if f2 else 1e-4, atol=4e-3 if f2 else 1e-4,
                sqrt_axioms=stat in ("std",), **k)


def cases(tier):
    out = []
    deep = tier == "thorough"
    cheap = ["max", "min", "sum", "mean"]
    kinds = (("float32", NAN), ("int16", -99), ("int32", None), ("float64", None))
    for stat in cheap:
        for dt, nv in kinds:
            for win in (("rect", 3, 3), 2, ("rect", 2, 2), ("rect", 1, 3), (1, 2), ("rect", 2, 3)):
                for ch in (((2, 1), (2, 2)), ((3,), (4,))):
                    out.append(case(stat, dt, nv, win, (1, 3, 4), ch))
            out.append(case(stat, dt, nv, ("rect", 3, 2), (2, 3, 3), ((2, 1), (1, 2))))
            out.append(case(stat, dt, nv, 3, (1, 4, 5), ((2, 2), (3, 2))))
        for dt, nv in (("uint8", None), ("uint8", 255), ("bool", None), ("int8", -128), ("float64", -1.0)):
            full = {"uint8": (0, 255), "int8": (-128, 127)}.get(dt, (-20, 20))
            for win in (("rect", 2, 3), (1, 2)):
                out.append(case(stat, dt, nv, win, (1, 2, 3), ((1, 1), (2, 1)), lo=full[0], hi=full[1]))
        for dt, nv in (("float32", NAN), ("int16", -99)):
            for win in (("rect", 2, 2), (1, 2), ("rect", 1, 3)):
                out.append(case(stat, dt, nv, win, (1, 3, 3), ((2, 1), (3,)), ignore_null=True))
    for stat in ("median", "var", "std"):
        for dt, nv in (("float64", NAN), ("int16", -99), ("int32", None)):
            for win in (("rect", 1, 3), ("rect", 2, 2)):
                if stat == "std" and win == ("rect", 2, 2):
                    continue
                out.append(case(stat, dt, nv, win, (1, 2, 3), ((1, 1), (3,))))
                out.append(case(stat, dt, nv, win, (1, 2, 3), ((2,), (2, 1))))
        out.append(case(stat, "int16", -99, ("rect", 1, 3), (1, 1, 3), ((1,), (3,)), ignore_null=True))
    for stat in ("mode", "unique", "asm", "entropy"):
        for dt, nv in (("float64", NAN), ("int16", -99), ("int32", None)):
            for win in (("rect", 1, 2), ("rect", 2, 1), ("rect", 1, 3)):
                out.append(case(stat, dt, nv, win, (1, 2, 2), ((1, 1), (2,))))
        out.append(case(stat, "int16", -99, ("rect", 1, 3), (1, 1, 3), ((1,), (3,)), ignore_null=True))
    if deep:
        for stat in cheap:
            for dt, nv in kinds:
                for win in (("rect", 4, 4), ("rect", 5, 5), 3, (2, 3), (1, 3), ("rect", 4, 1)):
                    out.append(case(stat, dt, nv, win, (1, 5, 6), ((3, 2), (2, 4))))
                    out.append(case(stat, dt, nv, win, (1, 4, 4), ((1, 1, 1, 1), (2, 2))))
                    out.append(case(stat, dt, nv, win, (1, 4, 4), ((4,), (1, 3)), ignore_null=nv is not None))
        for stat in ("median", "var", "mode", "unique"):
            for dt, nv in kinds:
                for win in (("rect", 3, 3), 2, (1, 2)):
                    out.append(case(stat, dt, nv, win, (1, 2, 2), ((1, 1), (2,))))
    return out
