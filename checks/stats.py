"""Reference meaning of the summary statistics over a bag of (valid, value) cells.

cells: list of (valid term, value term).  Values are compared as reals.
"""
import itertools

import numpy as np

from common import *

F = np.float64


def count(cells):
    return sp.total([Ite(v, 1, 0) for v, _ in cells], sp.I8)


def any_valid(cells):
    return Or([v for v, _ in cells])


def near(S, a, b, eps=1e-9):
    """equal up to eps (constants such as logarithms are rounded)"""
    a, b = T_(a, F), T_(b, F)
    d = tm.mk_op("abs", np.dtype(F), tm.mk_op("sub", np.dtype(F), a, b))
    return Or(S.same(a, b), sp.le(d, tm.const(eps, F)))


def ssum(cells):
    return sp.total([Ite(v, T_(x, F), 0.0) for v, x in cells])


def by_count(cells, f):
    """f(n) chosen by the number of valid cells, n >= 1"""
    n = count(cells)
    r = f(1)
    for k in range(2, len(cells) + 1):
        r = Ite(sp.eq(n, k), f(k), r)
    return r


def holds(S, stat, cells, r, eps=None):
    """Claim: r is the value of `stat` over the (non-empty) bag of valid cells."""
    r = T_(r)
    cells = [(sp.B(v), T_(x)) for v, x in cells if sp.B(v) is not tm.FALSE]
    n = len(cells)
    same = (lambda a, b: near(S, a, b, eps)) if eps else S.same
    if stat == "sum":
        return same(T_(r, F), ssum(cells))
    if stat == "prod":
        p = tm.const(1.0, F)
        for v, x in cells:
            p = tm.mk_op("mul", np.dtype(F), p, Ite(v, T_(x, F), 1.0))
        return same(T_(r, F), p)
    if stat in ("min", "max"):
        cmp = S.le if stat == "min" else S.ge
        return And([Implies(v, cmp(r, x)) for v, x in cells], Or([And(v, S.same(r, x)) for v, x in cells]))
    if stat == "range":
        # max - min, witnessed
        ors = []
        for (v1, a), (v2, b) in itertools.product(cells, cells):
            ors.append(And(v1, v2, S.same(T_(r, F), sp.num("sub", a, b))))
        return And(Or(ors), [Implies(And(v1, v2), S.ge(T_(r, F), sp.num("sub", a, b))) for (v1, a), (v2, b) in itertools.product(cells, cells)])
    if stat == "mean":
        return same(T_(r, F), by_count(cells, lambda k: sp.num("div", ssum(cells), float(k))))
    if stat in ("var", "std"):
        s1 = ssum(cells)
        s2 = sp.total([Ite(v, sp.num("mul", x, x), 0.0) for v, x in cells])
        # k^2 var = k s2 - s1^2

        def f(k):
            return sp.num("div", sp.num("sub", sp.num("mul", float(k), s2), sp.num("mul", s1, s1)), float(k * k))
        var = by_count(cells, f)
        if stat == "var":
            return And(same(T_(r, F), var))
        return And(S.ge(T_(r, F), 0.0), same(sp.num("mul", r, r), var))
    if stat == "median":
        # the middle of the sorted valid values
        def rank_le(x):
            return sp.total([Ite(And(v, sp.le(y, x)), 1, 0) for v, y in cells], sp.I8)

        def rank_lt(x):
            return sp.total([Ite(And(v, sp.lt(y, x)), 1, 0) for v, y in cells], sp.I8)

        def kth(x, k):      # x is the k-th smallest (0-based)
            return And(sp.le(rank_lt(x), k), sp.gt(rank_le(x), k))
        cnt = count(cells)
        out = []
        for k in range(1, n + 1):
            if k % 2:
                ok = Or([And(v, kth(x, k // 2), S.same(r, x)) for v, x in cells])
            else:
                ok = Or([And(v1, v2, kth(a, k // 2 - 1), kth(b, k // 2), same(T_(r, F), sp.num("div", sp.num("add", a, b), 2.0)))
                         for (v1, a), (v2, b) in itertools.product(cells, cells)])
            out.append(Implies(sp.eq(cnt, k), ok))
        return And(out)
    if stat == "mode":
        def cnt(x):
            return sp.total([Ite(And(v, sp.eq(y, x)), 1, 0) for v, y in cells], sp.I8)
        c = [cnt(x) for _, x in cells]
        ok = []
        for (v, x), cx in zip(cells, c):
            best = [Implies(w, Or(sp.gt(cx, cy), And(sp.eq(cx, cy), sp.le(x, y)))) for (w, y), cy in zip(cells, c)]
            ok.append(And(v, S.same(r, x), best))
        return Or(ok)
    if stat == "unique":
        return sp.eq(T_(r, F), T_(unique(cells), F))
    if stat in ("asm", "entropy"):
        cnts = []
        for v, x in cells:
            cnts.append(sp.total([Ite(And(w, sp.eq(y, x)), 1, 0) for w, y in cells], sp.I8))

        def f(k):
            tot = tm.const(0.0, F)
            for (v, x), c in zip(cells, cnts):
                # contribution of one cell: p*g(p)/count, summed over the cells of its class
                t = tm.const(0.0, F)
                for m in range(1, k + 1):
                    p = m / k
                    w = p * p / m if stat == "asm" else -p * np.log(p) / m
                    t = Ite(sp.eq(c, m), float(w), t)
                tot = sp.num("add", tot, Ite(v, t, 0.0))
            return tot
        return near(S, r, by_count(cells, f), 1e-6 if not eps else eps)
    if stat in ("minband", "maxband"):
        # index of the first extreme valid cell
        op = sp.lt if stat == "minband" else sp.gt
        res = []
        full = cells
        for k, (v, x) in enumerate(full):
            first = [Implies(w, op(x, y)) for w, y in full[:k]]
            rest = [Implies(w, Not(op(y, x))) for w, y in full[k + 1:]]
            res.append(And(v, sp.eq(r, k), first, rest))
        return Or(res)
    if stat == "size" or stat == "count":
        return sp.eq(r, count(cells))
    raise KeyError(stat)


def unique(cells):
    cells = [(sp.B(v), T_(x)) for v, x in cells]
    ts = []
    for k, (v, x) in enumerate(cells):
        ts.append(Ite(And(v, [Not(And(w, sp.eq(y, x))) for w, y in cells[:k]]), 1, 0))
    return sp.total(ts, sp.I8)


def split(cells):
    """(condition, cells) for every non-empty pattern of valid cells"""
    free = [k for k, (v, _) in enumerate(cells) if sp.B(v) is not tm.TRUE]
    for pat in itertools.product((True, False), repeat=len(free)):
        on = dict(zip(free, pat))
        cond = And([sp.B(cells[k][0]) if b else Not(cells[k][0]) for k, b in on.items()])
        sub = [(tm.TRUE, x) for k, (_, x) in enumerate(cells) if on.get(k, True)]
        if sub and cond is not tm.FALSE:
            yield "".join("v" if b else "n" for b in pat), cond, sub
