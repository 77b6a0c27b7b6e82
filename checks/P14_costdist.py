"""P14 cost distance is the least accumulated cost to any source."""
from common import *
import costdist
from costdist import F, scenario

BOUNDS = costdist.BOUNDS


def claims(G, S, i, o):
    r = o.cd
    yield "shape", tuple(r.shape) == (1, G.h, G.w) == tuple(r.data.shape) == tuple(r.mask.shape)
    yield "dtype", r.dtype == r.ddtype == r.data.dtype == np.dtype(F)
    nv = G.nv if G.nv is not None else default_null(F)
    yield "null", r.nv == nv or (r.nv != r.nv and nv != nv)
    yield from geo_claims(r, G.x, G.y)
    yield "crs", r.crs == "EPSG:5070"
    # Optimality, as local conditions: no step between passable cells improves on the result, and every
    # reached cell is a source or costs exactly a step more than a neighbour.  With positive step costs
    # these have exactly one solution: the least accumulated costs.
    zero = G.lo <= 0
    if zero:
        best = {p: (And(G.is_source(i, p), G.passable(i, p)), tm.const(0.0, F)) for p in G.cells}
        for _ in range(len(G.cells) - 1):
            new = {}
            for p in G.cells:
                ok, d = best[p]
                for q in G.neighbours(p):
                    oq, dq = best[q]
                    cand = sp.num("add", dq, G.step(i, q, p))
                    can = And(oq, G.passable(i, p))
                    d = Ite(And(can, Or(Not(ok), sp.lt(cand, d))), cand, d)
                    ok = Or(ok, can)
                new[p] = (ok, d)
            best = new
    for p in G.cells:
        k = (0,) + p
        src, ok, got, m = G.is_source(i, p), G.passable(i, p), r.data.a[k], r.mask.a[k]
        yield "null-cell" + lab(*p), Implies(m, sp.exact(got, tm.const(r.nv, F)))
        yield "impassable" + lab(*p), Implies(And(Or(Not(ok)), Not(src)), m)
        yield "null-cost" + lab(*p), Implies(i.c.m.a[k], m)
        yield "source" + lab(*p), Implies(And(src, ok), And(Not(m), S.same(got, 0.0)))
        if zero:
            yield "mask" + lab(*p), Implies(ok, Iff(m, Not(best[p][0])))
            yield "value" + lab(*p), Implies(And(ok, Not(m)), S.same(got, best[p][1]))
            continue
        why = [And(src, S.same(got, 0.0))]
        for q in G.neighbours(p):
            kq = (0,) + q
            via = sp.num("add", r.data.a[kq], G.step(i, q, p))
            good = And(G.passable(i, q), Not(r.mask.a[kq]))
            why.append(And(good, S.same(got, via)))
            yield "reach" + lab(*p, *q), Implies(And(ok, good), Not(m))
            yield "optimal" + lab(*p, *q), Implies(And(ok, good), S.le(got, via))
        yield "attained" + lab(*p), Implies(And(ok, Not(m)), Or(why))

def cases(tier):
    return costdist.cases(claims, tier)
