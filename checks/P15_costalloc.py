"""P15 cost allocation and traceback agree with the cost distance."""
from common import *
import costdist
from costdist import CODE, F, scenario

BOUNDS = costdist.BOUNDS


def claims(G, S, i, o):
    for n, r in (("cd", o.cd), ("tr", o.tr), ("al", o.al)):
        yield n + " shape", tuple(r.shape) == (1, G.h, G.w) == tuple(r.data.shape) == tuple(r.mask.shape)
        yield from geo_claims(r, G.x, G.y, n)
        yield n + " crs", r.crs == "EPSG:5070"
    yield "tr dtype", o.tr.dtype == o.tr.ddtype == o.tr.data.dtype and o.tr.dtype.kind == "i"
    yield "al dtype", o.al.dtype == o.al.ddtype == o.al.data.dtype == np.dtype("int64")
    yield "tr null", o.tr.nv == -1
    # 64-bit unsigned null values are outside the range of the labels
    yield "al null", o.al.nv == G.snv or np.dtype(G.sdt) == np.uint64
    done = {p: sp.eq(o.tr.data.a[(0,) + p], 0) for p in G.cells}
    dirs = {}
    for p in G.cells:
        dirs[p] = [(c, (p[0] + d[0], p[1] + d[1])) for c, d in CODE.items() if (p[0] + d[0], p[1] + d[1]) in G.cells and (G.conn == 8 or c % 2)]
    for _ in range(len(G.cells) - 1):
        done = {p: Or(done[p], [And(sp.eq(o.tr.data.a[(0,) + p], c), Not(o.tr.mask.a[(0,) + q]), done[q]) for c, q in dirs[p]]) for p in G.cells}
    for p in G.cells:
        k = (0,) + p
        m, tr, al, cd = o.cd.mask.a[k], o.tr.data.a[k], o.al.data.a[k], o.cd.data.a[k]
        yield "mask" + lab(*p), And(Iff(o.tr.mask.a[k], m), Iff(o.al.mask.a[k], m))
        yield "null-cell" + lab(*p), Implies(m, And(sp.eq(tr, -1), sp.exact(al, tm.const(np.asarray(o.al.nv).astype("int64")[()], "int64"))))
        yield "source" + lab(*p), Implies(And(G.is_source(i, p), G.passable(i, p)), And(sp.eq(tr, 0)))
        here = [And(sp.eq(tr, 0), G.is_source(i, p), S.same(cd, 0.0), sp.eq(al, G.source_value(i, p)))]
        for c, q in dirs[p]:
            kq = (0,) + q
            here.append(And(sp.eq(tr, c), Not(o.cd.mask.a[kq]), G.passable(i, q), sp.eq(al, o.al.data.a[kq]),
                            S.same(cd, sp.num("add", o.cd.data.a[kq], G.step(i, q, p)))))
        yield "step" + lab(*p), Implies(Not(m), Or(here))
        yield "ends" + lab(*p), Implies(Not(m), done[p])


def cases(tier):
    return costdist.cases(claims, tier)
