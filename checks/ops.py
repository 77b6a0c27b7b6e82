"""The operations P02 and P03 quantify over: name, input rasters, scenario."""
from common import *


class Op:
    """ins: list of (dtype, null, bands, lo, hi); fn(rt, par, *rasters) -> result or dict of results.

    par holds fresh copies of the mutable parameters (arrays, lists, dicts) of the call."""

    def __init__(self, name, ins, fn, shape=(3, 4), par=None, raster=True, free=None, light=True, **k):
        self.name, self.ins, self.fn, self.shape = name, ins, fn, shape
        self.par, self.free, self.light, self.case = par or {}, free, light, k

    def inputs(self, chunks):
        out = {}
        for n, (dt, nv, nb, lo, hi), ch in zip("abcd", self.ins, chunks):
            sh = (nb,) + self.shape
            k = {}
            if self.free is not None:
                rnd = np.random.RandomState(7)
                base = rnd.randint(lo, hi + 1, size=sh)
                k = dict(base=base, free={(b,) + c for b in range(nb) for c in self.free})
            out[n] = raster(sh, dt, lo, hi, nv=nv, chunks=((1,) * nb,) + tuple(ch), x=10.0 + 2.0 * np.arange(sh[2]), y=50.0 - 2.0 * np.arange(sh[1]), crs="EPSG:5070", **k)
        return out

    def params(self):
        import copy
        return copy.deepcopy(self.par)


f4, f8, i2, i4, u1, bo = ("float32", NAN, 1, -50, 50), ("float64", -1.0, 1, -50, 50), ("int16", -99, 1, -50, 50), ("int32", None, 1, -50, 50), ("uint8", 255, 1, 0, 50), ("bool", None, 1, 0, 1)


def nb(s, n):
    return s[:2] + (n,) + s[3:]


def table(tier):
    out = []

    def op(*a, **k):
        out.append(Op(*a, **k))

    # cellwise
    op("add", [i2, f4], lambda rt, p, a, b: a + b)
    op("subtract-bands", [nb(i2, 2), nb(f4, 2)], lambda rt, p, a, b: a - b, shape=(2, 3))
    op("scalar", [f8], lambda rt, p, a: 3 * a - 1)
    op("compare", [i2, u1], lambda rt, p, a, b: a >= b)
    op("iadd", [i2, i2], lambda rt, p, a, b: iop(a, b))
    op("negative", [i2], lambda rt, p, a: -a)
    op("abs-ufunc", [f4], lambda rt, p, a: np.abs(a))
    op("array-operand", [i2], lambda rt, p, a: a + p["v"], par=dict(v=np.arange(12, dtype="int16").reshape(1, 3, 4)))
    op("bandwise", [nb(i2, 2)], lambda rt, p, a: a.bandwise + p["v"], par=dict(v=[3, 4]), shape=(3, 3))
    op("round", [f8], lambda rt, p, a: a.round(1), free={(0, 0), (1, 2), (2, 3)})
    op("astype-int", [f4], lambda rt, p, a: a.astype("int16"))
    op("astype-null", [i2], lambda rt, p, a: a.astype("float64", new_null_value=7))
    # nulls
    op("set_null", [i2, bo], lambda rt, p, a, b: a.set_null(b))
    op("set_null_value", [i2], lambda rt, p, a: a.set_null_value(5))
    op("set_null_value-nan", [i2], lambda rt, p, a: a.set_null_value(np.nan))
    op("set_null_value-none", [f4], lambda rt, p, a: a.set_null_value(None))
    op("replace_null", [i2], lambda rt, p, a: a.replace_null(9))
    op("replace_null-float", [f4], lambda rt, p, a: a.replace_null(9.5))
    op("burn_mask", [i2], lambda rt, p, a: a.burn_mask())
    op("to_null_mask", [i2], lambda rt, p, a: a.to_null_mask())
    op("copy", [i2], lambda rt, p, a: a.copy())
    op("where", [bo, i2, f4], lambda rt, p, a, b, c: rt.general.where(a, b, c))
    op("where-method", [i2, i2], lambda rt, p, a, b: a.where(b > 3, -7))
    op("remap_range", [f4], lambda rt, p, a: rt.remap_range(a, p["m"]), par=dict(m=[(0, 5, 1), (5, 20, 2), (-10, 0, None)]))
    op("remap_range-int", [i2], lambda rt, p, a: a.remap_range(p["m"], inclusivity="both"), par=dict(m=[[0, 5, 1], [6, 20, -99]]))
    op("reclassify", [i2], lambda rt, p, a: rt.reclassify(a, p["m"], unmapped_to_null=True), par=dict(m={1: 2, 2: 1, 7: None}), shape=(2, 3), free={(0, 0), (0, 2), (1, 1)})
    op("reclassify-keep", [i2], lambda rt, p, a: a.reclassify(p["m"]), par=dict(m={1: 2, 3: 4}), shape=(2, 3), free={(0, 1), (1, 0)})
    # geometry
    op("get_bands", [nb(i2, 3)], lambda rt, p, a: a.get_bands(p["b"]), par=dict(b=[3, 1]), shape=(2, 3))
    op("band_concat", [i2, f4], lambda rt, p, a, b: rt.band_concat([a, b]), shape=(2, 3))
    op("split_bands", [nb(i2, 2)], lambda rt, p, a: dict(zip("xy", a.split_bands())), shape=(2, 3))
    op("stack_bands", [i2, u1], lambda rt, p, a, b: rt.stack_bands([a, b]), shape=(2, 3))
    op("pad", [i2], lambda rt, p, a: pad(rt, a), shape=(2, 3))
    op("clip_box", [i2], lambda rt, p, a: rt.clipping.clip_box(a, p["b"]), par=dict(b=[10.5, 45.5, 15.0, 49.5]))
    op("aggregate-mean", [i2], lambda rt, p, a: rt.general.aggregate(a, p["e"], "mean"), par=dict(e=[2, 2]), shape=(3, 4))
    op("aggregate-max", [f4], lambda rt, p, a: rt.general.aggregate(a, (2, 3), "max"), shape=(3, 4))
    op("aggregate-mode", [u1], lambda rt, p, a: rt.general.aggregate(a, (2, 1), "mode"), shape=(3, 2))
    for m in ("first", "sum", "min"):
        op("mosaic-" + m, [i2, i2], lambda rt, p, a, b, m=m: rt.mosaic([a, b], m), shape=(2, 3))
    op("quadrants", [i2], lambda rt, p, a: quads(a))
    # windows
    for st in ("mean", "max", "sum", "min"):
        op("focal-" + st, [i2 if st != "mean" else f4], lambda rt, p, a, st=st: rt.focal.focal(a, st, 3, 3), shape=(3, 4))
    op("focal-ignore", [f4], lambda rt, p, a: rt.focal.focal(a, "sum", 3, 4, ignore_null=True), shape=(3, 4))
    op("focal-circle", [i2], lambda rt, p, a: rt.focal.focal(a, "max", 1), shape=(3, 4))
    op("focal-median", [f8], lambda rt, p, a: rt.focal.focal(a, "median", 1, 3), shape=(2, 4))
    op("focal-mode", [u1], lambda rt, p, a: rt.focal.focal(a, "mode", 3, 1), shape=(4, 2))
    op("focal-unique", [i2], lambda rt, p, a: rt.focal.focal(a, "unique", 3, 1), shape=(4, 2))
    op("focal-bands", [nb(i2, 2)], lambda rt, p, a: rt.focal.focal(a, "sum", 2, 2), shape=(2, 3))
    ker = np.array([[1, 2, 3], [4, 5, 6], [7, 8, 9.5]])
    for m in ("constant", "reflect", "nearest", "wrap"):
        op("correlate-" + m, [f4], lambda rt, p, a, m=m: rt.focal.correlate(a, p["k"], mode=m, cval=2.0), par=dict(k=ker), shape=(4, 4))
        op("convolve-" + m, [i2], lambda rt, p, a, m=m: rt.focal.convolve(a, p["k"], mode=m), par=dict(k=ker[:2].astype(int)), shape=(4, 4))
    op("dilate", [i2], lambda rt, p, a: rt.general.dilate(a, 3), shape=(3, 4))
    op("dilate-rect", [f4], lambda rt, p, a: rt.general.dilate(a, p["s"]), par=dict(s=[1, 4]), shape=(2, 4))
    op("erode", [u1], lambda rt, p, a: rt.general.erode(a, (2, 3)), shape=(3, 4))
    op("tpi", [f4], lambda rt, p, a: rt.surface.tpi(a, 1, 2), shape=(3, 4))
    for st in ("mean", "max", "median", "mode", "std", "unique"):
        op("local-" + st, [nb(i2, 3)], lambda rt, p, a, st=st: rt.general.local_stats(a, st), shape=(2, 2))
    # surface
    for n in ("slope", "aspect", "curvature", "hillshade", "surface_area_3d"):
        op(n, [("float64", -1.0, 1, 0, 40)], lambda rt, p, a, n=n: getattr(rt.surface, n)(a), shape=(4, 4))
    op("northing", [("float64", -1.0, 1, 0, 40)], lambda rt, p, a: rt.surface.northing(a), shape=(3, 4))
    op("easting", [("float64", -1.0, 1, 0, 360)], lambda rt, p, a: rt.surface.easting(a, is_aspect=True), shape=(2, 3))
    # reductions
    for n in ("max", "min", "sum", "mean", "var", "all", "any", "prod"):
        op("reduce-" + n, [i2 if n != "prod" else ("int32", -9, 1, -2, 2)], lambda rt, p, a, n=n: getattr(a, n)(), shape=(2, 3), free={(0, 0), (0, 2), (1, 1)} if n == "var" else None,
           assume=lambda i: Or([Not(m) for m in i.a.m.a.reshape(-1)]))
    # blocks
    op("map_blocks", [i2, i2], lambda rt, p, a, b: rt.map_blocks(lambda x, y, input_masks: np.where(input_masks[0], 0, x) + y, a, b, dtype="int16", null_value=-99), shape=(2, 3))
    op("map_overlap", [i2], lambda rt, p, a: rt.map_overlap(spread, a, depth=1, boundary="reflect", dtype="int16"), shape=(3, 4))
    op("model_predict", [nb(f4, 2)], lambda rt, p, a: a.model_predict(Model(), 2), shape=(2, 3))
    # distances
    op("cost_distance", [("float64", -1.0, 1, 1, 9), ("int32", 0, 1, 0, 2)], lambda rt, p, a, b: cost(rt, a, b), shape=(2, 2), merge=False, summaries=False, light=False, group="cost")
    P = dict(merge=False, summaries=False, light=False, path_limit=20000)
    fr = {(0, 0), (1, 3), (2, 1), (3, 0)}
    op("proximity", [("int32", -9, 1, 0, 2)], lambda rt, p, a: prox(rt, a, dict(max_distance=3.0, distance_metric="taxicab", target_values=p["t"])), par=dict(t=[2, 1]), shape=(4, 4), free=fr, group="prox", **P)
    op("proximity-f", [("float32", NAN, 1, 0, 2)], lambda rt, p, a: prox(rt, a, dict(max_distance=4.5)), shape=(4, 4), free=fr, group="prox", **P)
    # templates
    op("like", [i2], lambda rt, p, a: dict(z=rt.zeros_like(a), f=rt.full_like(a, p["v"]), o=rt.ones_like(a, dtype="float32")), par=dict(v=3), shape=(2, 3))
    return out


class Model:
    def predict(self, x):
        return np.stack([x[:, 0] + 2 * x[:, 1], x[:, 0] * 3], axis=1)


def iop(a, b):
    c = a.copy()
    c += b
    return c


def pad(rt, a):
    from odc.geo.geobox import GeoBox
    from affine import Affine
    g = a.geobox
    return rt.pad(a, GeoBox((4, 6), g.affine * Affine.translation(-2, -1), g.crs), fill_values=[3])


def quads(a):
    q = a.to_quadrants()
    return {k: getattr(q, k) for k in ("nw", "ne", "sw", "se")}


def spread(x):
    r = np.zeros_like(x)
    r[:, 1:-1, 1:-1] = x[:, :-2, 1:-1] + 2 * x[:, 2:, 1:-1] + 3 * x[:, 1:-1, :-2] + 5 * x[:, 1:-1, 2:]
    return r


def cost(rt, c, s):
    r = rt.distance.cost_distance_analysis(c, s)
    return dict(zip(("cd", "tr", "al"), r))


def prox(rt, a, k):
    r = rt.distance.proximity_analysis(a, **k)
    return dict(zip(("p", "d", "al"), r))


def results(r):
    return dict(r) if isinstance(r, dict) else {"r": r}
