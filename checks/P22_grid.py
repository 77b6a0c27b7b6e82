"""P22 cell indices and map coordinates map to each other exactly."""
from common import *

BOUNDS = "grids from 2x2 to 4x6 with seven origins and cell sizes (1e-4 to 1e4, oblong); every row, column and coordinate within five cells of the raster; all cell values and masks; chunk layouts including single rows and columns"
OUTSIDE = "coordinates within 1e-9 cells of a cell edge (except the corners xy returns); rotated grids; rasters of one row or column, whose cell size no coordinate determines"

GRIDS = [(2, 3, 0.0, 0.0, 1.0, 1.0), (3, 2, -100.25, 400.5, 30.0, 30.0), (4, 6, 500000.0, -4000000.0, 10.0, 2.5), (2, 2, 0.1, -0.3, 0.1, 0.3),
         (3, 4, -123.456, 45.678, 1e-4, 2e-4), (5, 5, 1e6, 1e6, 1e4, 5e3), (2, 5, -7.0, 3.0, 0.25, 8.0)]
CORNER = {"center": (0.5, 0.5), "ul": (0, 0), "ur": (0, 1), "ll": (1, 0), "lr": (1, 1)}


def grid(g):
    h, w, x0, y0, rx, ry = g
    return np.array([x0 + (j + 0.5) * rx for j in range(w)]), np.array([y0 + (h - i - 0.5) * ry for i in range(h)])


def base(g, **k):
    x, y = grid(g)
    return raster((1, g[0], g[1]), "int16", -50, 50, nv=-99, x=x, y=y, crs="EPSG:5070", only_mask=set(), base=np.zeros((1,) + g[:2]), free=set(), **k)


def near(t, want, scale):
    """|t - want| tiny against the cell size"""
    return And(sp.le(sp.num("sub", t, want), scale * 1e-6), sp.ge(sp.num("sub", t, want), -scale * 1e-6))


def tag(g):
    return "-".join("%g" % v for v in g)


def xy(g, off, n=None, **kw_):
    h, w, x0, y0, rx, ry = g
    sh = () if n is None else (n,)
    mk = scalar if n is None else lambda *a, **k: array((n,), *a, **k)
    ins = dict(a=base(g), r=mk("int64", -5, h + 5), c=mk("int64", -5, w + 5))

    def run(ctx, a, r, c):
        kw = {} if off is None else {"offset": off}
        x, y = a.xy(r, c, **kw)
        out = {"x": x, "y": y}
        if off in (None, "center"):
            out["row"], out["col"] = a.index(x, y)
        return out

    def claims(S, i, o):
        dr, dc = CORNER[off or "center"]
        for k in np.ndindex(*sh):
            r, c = i.r.v.a[k], i.c.v.a[k]
            at = lambda v: T_(v) if n is None else v.a[k]
            yield "x" + lab(*k), near(at(o.x), sp.num("add", sp.num("mul", sp.num("add", c, dc), rx), x0), rx)
            yield "y" + lab(*k), near(at(o.y), sp.num("sub", y0 + h * ry, sp.num("mul", sp.num("add", r, dr), ry)), ry)
            if off in (None, "center"):
                yield "row" + lab(*k), sp.eq(at(o.row), r)
                yield "col" + lab(*k), sp.eq(at(o.col), c)
        if off in (None, "center"):
            yield "dtype", all(np.dtype(v.dtype).kind == "i" for v in (o.row, o.col))

    return Case("xy-%s-%s-%s" % (tag(g), off, n), ins, run, claims, api="xy", **kw_)


def index(g, n=None, dt="float64"):
    h, w, x0, y0, rx, ry = g
    sh = () if n is None else (n,)
    mk = scalar if n is None else lambda *a, **k: array((n,), *a, **k)
    ins = dict(a=base(g), x=mk(dt, x0 - 5 * rx, x0 + (w + 5) * rx), y=mk(dt, y0 - 5 * ry, y0 + (h + 5) * ry))

    def run(ctx, a, x, y):
        r, c = a.index(x, y)
        return {"r": r, "c": c}

    def claims(S, i, o):
        e = 1e-9 if max(abs(x0) / rx, abs(y0) / ry) < 1e5 else 1e-6
        for k in np.ndindex(*sh):
            x, y = i.x.v.a[k], i.y.v.a[k]
            r, c = (T_(o.r), T_(o.c)) if n is None else (o.r.a[k], o.c.a[k])
            for q in range(-5, w + 5):
                yield "col" + lab(*k, q), Implies(And(sp.gt(x, x0 + (q + e) * rx), sp.lt(x, x0 + (q + 1 - e) * rx)), sp.eq(c, q))
            for q in range(-5, h + 5):
                yield "row" + lab(*k, q), Implies(And(sp.lt(y, y0 + (h - q - e) * ry), sp.gt(y, y0 + (h - q - 1 + e) * ry)), sp.eq(r, q))
        yield "dtype", all(np.dtype(v.dtype).kind == "i" for v in (o.r, o.c))

    return Case("index-%s-%s-%s" % (tag(g), n, dt), ins, run, claims, api="index")


def close(a, b, s):
    return bool(np.shape(a) == np.shape(b) and np.all(np.abs(np.asarray(a, float) - np.asarray(b, float)) <= s * 1e-6))


def cells(g, nb, dt, nv, chunks):
    """the grid's attributes, chunk rasters, chunk boxes and quadrants of one raster"""
    h, w, x0, y0, rx, ry = g
    gx, gy = grid(g)
    ins = dict(a=raster((nb, h, w), dt, 0, 50, nv=nv, chunks=chunks, x=gx, y=gy, crs="EPSG:5070"))
    offs = [np.concatenate([[0], np.cumsum(c)]) for c in (chunks if len(chunks) == 3 else ((1,) * nb,) + tuple(chunks))]
    s = min(rx, ry)

    def run(ctx, a):
        if len(chunks) == 3 and chunks[0] != (1,) * nb:
            a = a.chunk(chunks)
        out = {"grid": [list(map(float, a.bounds)), list(map(float, a.affine[:6])), list(map(float, a.resolution))]}
        xc, yc = a.get_chunked_coords()
        out["xc"], out["yc"] = xc, yc
        out["cchunks"] = [xc.chunks, yc.chunks]
        cr = a.get_chunk_rasters()
        out["shape"] = list(cr.shape)
        for k in np.ndindex(*cr.shape):
            out["cr_%d_%d_%d" % k] = cr[k]
            out["cg_%d_%d_%d" % k] = [list(map(float, cr[k].bounds)), list(map(float, cr[k].affine[:6]))]
        for b in (False, True):
            df = a.get_chunk_bounding_boxes(include_band=b)
            out["boxes%d" % b] = [[list(map(int, [df[c][n] for c in (["chunk_band"] if b else []) + ["chunk_row", "chunk_col"]])), list(map(float, df.geometry[n].bounds)), float(df.geometry[n].area)] for n in range(len(df))]
            out["boxcrs%d" % b] = "5070" in str(df.crs)
        q = a.to_quadrants()
        for n, k in enumerate(("nw", "ne", "sw", "se")):
            out["q_" + k] = getattr(q, k)
        out["same"] = all(getattr(q, k) is q[n] for n, k in enumerate(("nw", "ne", "sw", "se")))
        return out

    def box(r0, r1, c0, c1):
        return [x0 + c0 * rx, y0 + (h - r1) * ry, x0 + c1 * rx, y0 + (h - r0) * ry]

    def part(i, r, b0, b1, r0, r1, c0, c1, name, bands):
        yield name + " shape", tuple(r.data.shape) == (b1 - b0, r1 - r0, c1 - c0) == tuple(r.mask.shape)
        yield name + " dtype", r.dtype == np.dtype(dt) == r.data.dtype
        yield name + " null", (r.nv is None) == (nv is None) and (nv is None or r.nv == nv or (nv != nv and r.nv != r.nv))
        yield name + " crs", r.crs is not None and "5070" in r.crs
        yield name + " coords", close(r.x, gx[c0:c1], s) and close(r.y, gy[r0:r1], s)
        yield name + " bands", list(r.band) == bands
        if tuple(r.data.shape) == (b1 - b0, r1 - r0, c1 - c0):
            for k in np.ndindex(*r.data.shape):
                src = (k[0] + b0, k[1] + r0, k[2] + c0)
                yield name + " value" + lab(*k), sp.exact(r.data.a[k], i.a.data.a[src])
                yield name + " mask" + lab(*k), Iff(r.mask.a[k], i.a.m.a[src])

    def claims(S, i, o):
        yield "bounds", close(o.grid[0], box(0, h, 0, w), s)
        yield "affine", close(o.grid[1], [rx, 0, x0, 0, -ry, y0 + h * ry], s)
        yield "resolution", close(np.abs(o.grid[2]), [rx, ry], s * 1e-3)
        yield "chunked coords", close(o.xc.a.shape, (1, 1, w), s) and close(o.yc.a.shape, (1, h, 1), s) and o.cchunks == [[[1], [1], [int(v) for v in np.diff(offs[2])]], [[1], [int(v) for v in np.diff(offs[1])], [1]]]
        for k in range(w):
            yield "chunked x" + lab(k), near(o.xc.a[0, 0, k], gx[k], s)
        for k in range(h):
            yield "chunked y" + lab(k), near(o.yc.a[0, k, 0], gy[k], s)
        yield "chunk count", o.shape == [len(f) - 1 for f in offs]
        if o.shape != [len(f) - 1 for f in offs]:
            return
        for k in np.ndindex(*o.shape):
            e = [v for f, j in zip(offs, k) for v in (int(f[j]), int(f[j + 1]))]
            nm = "chunk%d_%d_%d" % k
            yield from part(i, getattr(o, "cr_%d_%d_%d" % k), *e, nm, list(range(1, e[1] - e[0] + 1)))
            bd, af = getattr(o, "cg_%d_%d_%d" % k)
            yield nm + " bounds", close(bd, box(*e[2:]), s)
            yield nm + " affine", close(af, [rx, 0, x0 + e[4] * rx, 0, -ry, y0 + (h - e[2]) * ry], s)
        yx = list(np.ndindex(*o.shape[1:]))
        want = [[list(k), box(offs[1][k[0]], offs[1][k[0] + 1], offs[2][k[1]], offs[2][k[1] + 1])] for k in yx]
        for b, rep in ((0, [[]]), (1, [[n] for n in range(nb)])):
            got = getattr(o, "boxes%d" % b)
            exp = [[p + k, v] for p in rep for k, v in want]
            yield "boxes%d" % b, [x[0] for x in got] == [x[0] for x in exp] and all(close(x[1], y[1], s) for x, y in zip(got, exp))
            yield "box areas%d" % b, close(sum(x[2] for x in got) / len(rep) / (rx * ry), h * w, 1)
            yield "box crs%d" % b, bool(getattr(o, "boxcrs%d" % b))
        for n, r0, r1, c0, c1 in (("nw", 0, h // 2, 0, w // 2), ("ne", 0, h // 2, w // 2, w), ("sw", h // 2, h, 0, w // 2), ("se", h // 2, h, w // 2, w)):
            yield from part(i, getattr(o, "q_" + n), 0, nb, r0, r1, c0, c1, n, list(range(1, nb + 1)))
        yield "quadrant order", bool(o.same)

    return Case("cells-%s-%d-%s-%s-%s" % (tag(g), nb, dt, nv, chunks), ins, run, claims, api="chunks")


def cases(tier):
    out = []
    for g in GRIDS:
        for off in (None,) + tuple(CORNER):
            out.append(xy(g, off))
            if off in (None, "lr"):
                out.append(xy(g, off, 2))
        out.append(index(g))
        out.append(index(g, 2))
    out.append(index(GRIDS[0], dt="int32"))
    out.append(index(GRIDS[1], 3))
    # the affine of a raster of a single column is upside down
    out.append(xy((3, 1, 0.0, 0.0, 1.0, 1.0), None, known=[("single-column-grid", lambda S, i: True)]))
    K = [("int16", -99), ("float32", NAN), ("uint8", None), ("float64", -1.0), ("bool", None), ("uint8", 255), ("int32", 0)]
    lay = {(2, 3): [((2,), (3,)), ((1, 1), (2, 1)), ((2,), (1, 1, 1))], (3, 2): [((1, 2), (2,)), ((2, 1), (1, 1))], (4, 6): [((2, 2), (1, 2, 3)), ((3, 1), (6,)), ((1, 1, 2), (4, 2))],
           (2, 2): [((2,), (1, 1)), ((1, 1), (1, 1))], (3, 4): [((1, 1, 1), (2, 2)), ((2, 1), (1, 3))], (5, 5): [((2, 3), (1, 4)), ((5,), (2, 2, 1))], (2, 5): [((1, 1), (3, 2)), ((2,), (1, 4))]}
    n = 0
    for g in GRIDS:
        for ch in lay[g[:2]]:
            dt, nv = K[n % len(K)]
            out.append(cells(g, 1, dt, nv, ch))
            if n % 2 == 0:
                out.append(cells(g, 2, dt, nv, ((1, 1),) + ch))
            n += 1
    out.append(cells(GRIDS[0], 3, "int16", -99, ((2, 1), (1, 1), (3,))))
    out.append(cells(GRIDS[3], 2, "float32", NAN, ((2,), (2,), (1, 1))))
    return out
