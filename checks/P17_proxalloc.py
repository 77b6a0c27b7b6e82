"""P17 proximity allocation and direction name a nearest target."""
from common import *
import prox

BOUNDS, OUTSIDE = prox.BOUNDS, prox.OUTSIDE


def bearing(a, b):
    """compass bearing from a to b: 90 east, 180 south, 270 west, 360 north"""
    d = np.degrees(np.arctan2(b[0] - a[0], b[1] - a[1])) % 360
    return d if d > 0 else 360.0


def claims(G, S, i, o):
    for n, r, dt in (("direction", o.d, np.dtype(G.out)), ("allocation", o.al, G.dt)):
        yield n + " shape", tuple(r.shape) == G.shape == tuple(r.data.shape) == tuple(r.mask.shape)
        yield n + " dtype", r.dtype == r.ddtype == r.data.dtype == dt
        yield n + " null", r.nv == default_null(dt)
        yield from geo_claims(r, G.x, G.y, n)
        yield n + " crs", r.crs == G.crs
    for b in range(G.nb):
        T = {q: G.is_target(i, b, q) for q in G.cells}
        for p in G.cells:
            k = (b,) + p
            near = [q for q in G.cells if G.within(G.D[p, q])]
            some = Or([T[q] for q in near])
            # nearest[q]: q is a target and no target is nearer
            nearest = {q: And(T[q], [Not(T[z]) for z in near if G.D[p, z] < G.D[p, q] * (1 - 1e-6) - 1e-9]) for q in near}
            d, al = o.d.data.a[k], o.al.data.a[k]
            if o.al.dtype != "bool":
                yield "allocation mask" + lab(*k), Iff(o.al.mask.a[k], Not(some))
            yield "direction mask" + lab(*k), Iff(o.d.mask.a[k], Not(some))
            yield "allocation null-cell" + lab(*k), Implies(Not(some), sp.exact(al, tm.const(o.al.nv, o.al.data.dtype)))
            yield "direction null-cell" + lab(*k), Implies(Not(some), sp.exact(d, tm.const(o.d.nv, o.d.data.dtype)))
            yield "at target" + lab(*k), Implies(T[p], And(S.same(d, 0), S.same(al, i.a.v.a[k])))
            yield "allocation" + lab(*k), Implies(some, Or([And(c, S.same(al, i.a.v.a[(b,) + q])) for q, c in nearest.items()]))
            yield "direction" + lab(*k), Implies(And(some, Not(T[p])), Or([And(c, prox.near(S, d, bearing((G.x[p[1]], G.y[p[0]]), (G.x[q[1]], G.y[q[0]])))) for q, c in nearest.items() if q != p]))


def cases(tier):
    out = prox.cases(claims, tier, "three")
    out.append(prox.scenario(claims, 2, 2, dt="int16", nv=None, api="all", tag="all"))
    return out
