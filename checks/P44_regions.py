"""P44 region labelling separates exactly the connected components."""
from common import *

BOUNDS = "grids up to 3x3 and 2x4 cells, 1-2 bands; cell values from sets of up to four values (including 0), all null masks; both neighbourhoods, given and found unique values, dtypes, chunk layouts"
OUTSIDE = "the labelling of a single true/false mask, done by dask_image and scipy (modelled as exact connected components)"


def case(shape, dt, nv, vals, chunks, neigh=4, uniq=None, kind=list, **k):
    ins = dict(a=raster(shape, dt, min(vals), max(vals), nv=nv, chunks=((1,) * shape[0],) + chunks, choices=vals, **k))
    nb, h, w = shape
    cells = list(np.ndindex(h, w))

    def run(ctx, a):
        u = None if uniq is None else kind(uniq) if kind is not np.array else np.array(uniq)
        return {"r": ctx.rt.general.regions(a, neigh, u) if neigh != 4 or u is not None else ctx.rt.general.regions(a)}

    def claims(S, i, o):
        yield "dtype", o.r.dtype == np.uint64 == o.r.data.dtype
        yield "shape", tuple(o.r.shape) == shape
        yield "grid", list(o.r.x) == list(ins["a"].coords()[0]) and list(o.r.y) == list(ins["a"].coords()[1])
        for b in range(nb):
            v, m, lab_ = i.a.v.a[b], i.a.m.a[b], o.r.data.a[b]
            live = {c: And(Not(m[c]), Not(sp.eq(v[c], 0)), *([] if uniq is None else [Or([sp.eq(v[c], u) for u in uniq])])) for c in cells}
            join = {(c, d): And(live[c], live[d], sp.eq(v[c], v[d])) for c in cells for d in cells
                    if abs(c[0] - d[0]) + abs(c[1] - d[1]) == 1 or (neigh == 8 and max(abs(c[0] - d[0]), abs(c[1] - d[1])) == 1)}
            reach = {(c, d): live[c] if c == d else join.get((c, d), tm.FALSE) for c in cells for d in cells}
            for q in cells:
                for c in cells:
                    for d in cells:
                        if c != q and d != q:
                            reach[c, d] = Or(reach[c, d], And(reach[c, q], reach[q, d]))
            for n, c in enumerate(cells):
                yield "mask" + lab(b, *c), Iff(o.r.mask.a[b][c], m[c])
                yield "unlabelled" + lab(b, *c), Implies(And(Not(m[c]), Not(live[c])), sp.eq(lab_[c], 0))
                yield "labelled" + lab(b, *c), Implies(live[c], sp.gt(lab_[c], 0))
                for d in cells[:n]:
                    yield "same" + lab(b, *c, *d), Implies(And(live[c], live[d]), Iff(sp.eq(lab_[c], lab_[d]), reach[c, d]))

    return Case("regions-%s-%s-%s-%s-%s-%s-%s" % ("x".join(map(str, shape)), dt, nv, vals, chunks, neigh, uniq), ins, run, claims, api="regions", batch=True)


def cases(tier):
    out = []
    A, B_, C = ((2,), (3,)), ((1, 1), (2, 1)), ((2,), (1, 1, 1))
    for ch in (A, B_, C):
        for n in (4, 8):
            out.append(case((1, 2, 3), "int16", -99, [0, 1, 2], ch, n))
    out.append(case((1, 2, 3), "uint8", None, [0, 1, 2, 255], B_, 4))
    out.append(case((1, 2, 3), "float32", NAN, [0.0, 1.5, -2.0], B_, 8))
    out.append(case((1, 2, 3), "bool", None, [0, 1], A, 4))
    out.append(case((1, 2, 3), "int32", 0, [1, 2], B_, 4))
    out.append(case((1, 2, 3), "int8", 2, [0, 1, -1], A, 8))
    out.append(case((1, 3, 3), "uint8", 255, [0, 1, 2], ((3,), (3,)), 4))
    out.append(case((1, 3, 3), "uint8", 255, [0, 1, 2], ((1, 2), (2, 1)), 8))
    out.append(case((1, 3, 3), "uint8", None, [1, 3], ((1, 2), (1, 1, 1)), 4))
    out.append(case((1, 2, 4), "int16", -99, [0, 5], ((2,), (1, 3)), 8))
    out.append(case((2, 2, 2), "int16", -99, [0, 1, 2], ((2,), (1, 1)), 4))
    out.append(case((2, 2, 2), "float64", -1.0, [0, 1], ((1, 1), (2,)), 8))
    for u, kind in (([1], list), ([2, 1], tuple), ([1, 2], np.array), ([0, 1], list), ([3], list)):
        out.append(case((1, 2, 3), "int16", -99, [0, 1, 2], B_, 4, u, kind))
    out.append(case((1, 3, 2), "float64", NAN, [0, 1, 2], ((2, 1), (1, 1)), 8, [2.0, 0.0], np.array))
    out.append(case((2, 2, 2), "uint8", 255, [0, 1, 2], ((1, 1), (2,)), 8, [2]))
    if tier != "quick":
        out.append(case((1, 3, 4), "uint8", 255, [0, 1], ((2, 1), (2, 2)), 4))
        out.append(case((1, 3, 4), "uint8", 255, [0, 1, 2], ((3,), (4,)), 8))
        out.append(case((1, 3, 3), "int16", -99, [0, 1, 2, 3], ((1, 2), (2, 1)), 4))
    return out
