"""P16 proximity is the distance to the nearest target within range."""
from common import *
import prox

BOUNDS, OUTSIDE = prox.BOUNDS, prox.OUTSIDE


def claims(G, S, i, o):
    r = o.p
    nv = default_null(G.out)
    yield "shape", tuple(r.shape) == G.shape == tuple(r.data.shape) == tuple(r.mask.shape)
    yield "dtype", r.dtype == r.ddtype == r.data.dtype == np.dtype(G.out)
    yield "null", r.nv == nv
    yield from geo_claims(r, G.x, G.y)
    yield "crs", r.crs == G.crs
    for b in range(G.nb):
        for p in G.cells:
            k = (b,) + p
            near = sorted((G.D[p, q], q) for q in G.cells if G.within(G.D[p, q]))
            t = [(d, G.is_target(i, b, q)) for d, q in near]
            some = Or([c for _, c in t])
            m, v = r.mask.a[k], r.data.a[k]
            yield "mask" + lab(*k), Iff(m, Not(some))
            yield "null-cell" + lab(*k), Implies(m, sp.exact(v, tm.const(r.nv, r.data.dtype)))
            nearer = []
            for d, c in t:
                yield "value" + lab(*k), Implies(And(c, [Not(z) for z in nearer]), prox.near(S, v, d))
                nearer.append(c)


def cases(tier):
    return prox.cases(claims, tier, None)
