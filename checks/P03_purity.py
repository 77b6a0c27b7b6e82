"""P03 operations never modify their inputs."""
import ops
from common import *

BOUNDS = "grids from 2x2 to 4x4, up to three rasters of 1-3 bands, all cell values and masks (a stated subset of cells for proximity), about 100 operations with their array, list and dict parameters, single- and multi-chunk"
OUTSIDE = "operations without an encoding (listed as not applicable); the deliberately mutating methods load and set_crs-style attribute writes"


def same_param(a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and list(a.items()) == list(b.items())
    if isinstance(b, np.ndarray):
        a = getattr(a, "a", a)
        return isinstance(a, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=b.dtype.kind == "f")
    return type(a) is type(b) and a == b


def case(op, chunks, tag, twice=False):
    ins = op.inputs(chunks)

    def run(ctx, **rs):
        from symx.harness import collect
        par, want = op.params(), op.params()
        before = {n: (r.null_value, np.dtype(r.dtype), r.crs, np.array(r.x), np.array(r.y), r._masked, list(r.xdata.attrs.items())) for n, r in rs.items()}
        res = ops.results(op.fn(ctx.rt, par, *rs.values()))
        first = {k: collect(ctx, v) for k, v in res.items()}
        again = {k: collect(ctx, v) for k, v in res.items()}
        out = {"first": first, "again": again, "par": all(same_param(par[k], want[k]) for k in want)}
        for n, r in rs.items():
            out["in_" + n] = r
            b = before[n]
            out["meta_" + n] = bool((b[0] == r.null_value or b[0] != b[0]) and b[1] == r.dtype and b[2] == r.crs and np.array_equal(b[3], r.x) and np.array_equal(b[4], r.y)
                                    and b[5] == r._masked and b[6] == list(r.xdata.attrs.items()))
        return out

    def claims(S, i, o):
        yield "parameters", bool(o.par)
        for n, inp in ins.items():
            yield "metadata " + n, bool(getattr(o, "meta_" + n))
            r, s = getattr(o, "in_" + n), getattr(i, n)
            yield "shape " + n, tuple(r.data.shape) == tuple(s.data.shape)
            for k in np.ndindex(*s.data.shape):
                yield "input value %s%s" % (n, lab(*k)), sp.exact(r.data.a[k], s.data.a[k])
                yield "input mask %s%s" % (n, lab(*k)), Iff(r.mask.a[k], s.m.a[k])
        for n in vars(o.first):
            a, b = getattr(o.first, n), getattr(o.again, n)
            for u, v in ((a.data, b.data), (a.mask, b.mask)) if hasattr(a, "mask") else ((a, b),):
                yield "recomputed " + n, And([sp.exact(x, y) for x, y in zip(u.a.reshape(-1), v.a.reshape(-1))])

    return Case("%s-%s" % (op.name, tag), ins, run, claims, api=op.name, purity=True, **op.case)


def cases(tier):
    out = []
    for n, op in enumerate(ops.table(tier)):
        h, w = op.shape
        for tag, ch in (("one", ((h,), (w,))), ("split", ((1, h - 1), (w - 1, 1)))):
            if tag == "split" and not op.light and tier != "thorough":
                continue
            out.append(case(op, [ch] * len(op.ins), tag))
    return out
