"""P02 results do not depend on how the raster is chunked."""
import ops
from common import *

BOUNDS = "grids from 2x2 to 4x4, up to three rasters of 1-3 bands, all cell values and masks (a stated subset of cells for proximity), about 100 operations, each in several chunk layouts against the single-chunk rasters"
OUTSIDE = "grids and layouts beyond those listed; operations without an encoding (listed as not applicable)"


def case(op, chunks, tag):
    ins = op.inputs(chunks)

    def run(ctx, **rs):
        one = {}
        for n, i in ins.items():
            one[n] = ctx.again(n, tuple((1,) * s if k == 0 else (s,) for k, s in enumerate(i.shape)))
        out = {"c_" + k: v for k, v in ops.results(op.fn(ctx.rt, op.params(), *rs.values())).items()}
        out.update({"s_" + k: v for k, v in ops.results(op.fn(ctx.rt, op.params(), *one.values())).items()})
        return out

    def claims(S, i, o):
        names = [k[2:] for k in vars(o) if k.startswith("s_")]
        yield "results", sorted(names) == sorted(k[2:] for k in vars(o) if k.startswith("c_"))
        for n in names:
            a, b = getattr(o, "c_" + n), getattr(o, "s_" + n)
            if not hasattr(b, "mask"):
                yield n, S.same(T_(a), T_(b))
                continue
            yield n + " dtype", a.dtype == b.dtype and a.data.dtype == b.data.dtype
            yield n + " shape", tuple(a.data.shape) == tuple(b.data.shape) == tuple(a.mask.shape)
            yield n + " null", (a.nv is None) == (b.nv is None) and (a.nv is None or a.nv == b.nv or (a.nv != a.nv and b.nv != b.nv))
            yield n + " crs", a.crs == b.crs
            yield from geo_claims(a, b.x, b.y, n + " grid")
            if tuple(a.data.shape) == tuple(b.data.shape):
                for k in np.ndindex(a.data.shape):
                    yield n + " mask" + lab(*k), Iff(a.mask.a[k], b.mask.a[k])
                    yield n + " value" + lab(*k), S.same(a.data.a[k], b.data.a[k])

    return Case("%s-%s" % (op.name, tag), ins, run, claims, api=op.name, **op.case)


def layout(s, kind):
    """the kind-th chunk layout of an axis of length s"""
    c = [(1,) * s, (s - 1, 1) if s > 1 else (1,), (s,), (1, s - 1) if s > 1 else (1,), (2,) * (s // 2) + (1,) * (s % 2)]
    return c[kind % 5]


def cases(tier):
    out = []
    kinds = [(0, 2), (3, 0), (1, 3), (4, 4)] + ([(0, 0), (2, 1), (1, 0)] if tier == "thorough" else [])
    for n, op in enumerate(ops.table(tier)):
        ks = kinds if op.light else kinds[n % 2 + 1:][:2]
        for ky, kx in ks:
            chunks = [(layout(op.shape[0], ky + j), layout(op.shape[1], kx + 2 * j)) for j in range(len(op.ins))]
            out.append(case(op, chunks, "%d%d" % (ky, kx)))
    return out
