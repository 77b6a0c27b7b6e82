"""P32 model prediction applies the model to each cell's band values."""
from common import *

BOUNDS = "grids up to 3x3 with 1-3 bands; all finite cell values and all null masks; models of one to three outputs (linear, products, one-dimensional and integer results), adaptors, dtypes, chunk layouts"
OUTSIDE = "infinite cells (passed to the model as the largest finite numbers); model_predict_vector (pandas and dask.dataframe)"


class Two:
    def predict(self, x):
        return np.stack([x[:, 0] + 2 * x[:, -1], x[:, 0] * 3.0], axis=1)


class Flat:
    def predict(self, x):
        return x.sum(axis=1) * 2.0


class Col:
    def predict(self, x):
        return x[:, :1] * x[:, -1:] + 0.5


class Three:
    def predict(self, x):
        return np.concatenate([x[:, ::-1], x[:, :1] - 1.0], axis=1)[:, :3] * 1.0


class Class:
    def predict(self, x):
        return np.where(x[:, 0] > x[:, -1], 2, 1)


class Other:
    def transform(self, x):
        return x[:, 0] - 0.25 * x[:, -1]



def num(op, a, b):
    return sp.num(op, a, b)


def expect(kind, v):
    if kind == "two":
        return [num("add", v[0], num("mul", v[-1], 2)), num("mul", v[0], 3)]
    if kind == "flat":
        s = v[0]
        for t in v[1:]:
            s = num("add", s, t)
        return [num("mul", s, 2)]
    if kind == "col":
        return [num("add", num("mul", v[0], v[-1]), 0.5)]
    if kind == "three":
        return (list(v[::-1]) + [num("sub", v[0], 1)])[:3]
    if kind == "class":
        return [sp.Ite(sp.gt(v[0], v[-1]), 2, 1)]
    return [num("sub", v[0], num("mul", v[-1], 0.25))]


def model(rt, kind, how):
    if kind == "other":
        m = Other()
        return rt.ModelPredictAdaptor(m, "transform") if how != "call" else rt.ModelPredictAdaptor(m.transform)
    return {"two": Two, "flat": Flat, "col": Col, "three": Three, "class": Class}[kind]()


def case(kind, nout, shape, dt, nv, chunks, how="method"):
    lo, hi = (0, 9) if np.dtype(dt).kind in "ub" else (-9, 9)
    ins = dict(a=raster(shape, dt, lo, 1 if dt == "bool" else hi, nv=nv, chunks=((1,) * shape[0],) + chunks))
    nb, h, w = shape

    def run(ctx, a):
        m = model(ctx.rt.general, kind, how)
        if how == "default":
            return {"r": a.model_predict(m)}
        if how == "func":
            return {"r": ctx.rt.general.model_predict_raster(a, m, n_outputs=nout)}
        return {"r": a.model_predict(m, nout)}

    def claims(S, i, o):
        null = lambda k: Or([i.a.m.a[(b,) + k[1:]] for b in range(nb)])
        memo = {}

        def val(k):
            if k[1:] not in memo:
                memo[k[1:]] = expect(kind, [tm.mk_cast(i.a.v.a[(b,) + k[1:]], np.dtype("float64")) for b in range(nb)])
            return memo[k[1:]][k[0]]

        yield from raster_claims(S, o.r, "r", null, val, dtype="float64", nv=None if nv is None else -999999.0, shape=(nout, h, w))
        yield "bands", list(o.r.band) == list(range(1, nout + 1))
        yield from geo_claims(o.r, *ins["a"].coords())

    return Case("predict-%s-%d-%s-%s-%s-%s-%s" % (kind, nout, "x".join(map(str, shape)), dt, nv, chunks, how), ins, run, claims, api="model_predict")


def cases(tier):
    out = []
    K = [("int16", -99), ("float32", NAN), ("uint8", None), ("float64", -1.0), ("uint8", 255), ("int32", 0), ("float64", None), ("bool", None)]
    S = [((2, 2, 3), ((1, 1), (2, 1))), ((1, 3, 2), ((3,), (1, 1))), ((3, 2, 2), ((2,), (2,))), ((2, 3, 3), ((2, 1), (1, 2))), ((2, 1, 3), ((1,), (2, 1)))]
    n = 0
    for kind, nout in (("two", 2), ("flat", 1), ("col", 1), ("three", 3), ("class", 1), ("other", 1)):
        for s, ch in S:
            if kind == "three" and s[0] == 1:
                continue
            for m in range(2 if tier == "quick" else len(K)):
                dt, nv = K[(n + m * 3) % len(K)]
                how = ("str", "call")[n % 2] if kind == "other" else ("method", "func", "default")[n % 3] if nout == 1 else ("method", "func")[n % 2]
                out.append(case(kind, nout, s, dt, nv, ch, how))
            n += 1
    return out
