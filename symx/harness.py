"""Cases, symbolic runs, concrete runs, and the per-case decision procedure."""
import importlib.util
import itertools
import os
import sys
import time
import traceback
from types import SimpleNamespace as NS

import numpy as np

from . import spec
from . import terms as tm
from .arr import Sym, SymArray, lift, wrap_scalar
from .core import RT, DeadPath, Explorer, TooManyPaths, Unsupported

REPO = os.environ.get("SYMX_REPO", "/repo")


def load_check(path):
    sys.path.insert(0, os.path.dirname(os.path.abspath(path)))
    s = importlib.util.spec_from_file_location("check_" + os.path.basename(path)[:-3], path)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


# --------------------------------------------------------------------------
# inputs


class In:
    """A symbolic input: 'raster', 'array' or 'scalar' (all cells symbolic)."""

    def __init__(self, kind, shape, dtype, lo, hi, nan=False, inf=False, chunks=None, nv=None,
                 masked=True, x=None, y=None, crs=None, choices=None, only_mask=None, base=None, free=None):
        self.kind, self.shape, self.dtype = kind, tuple(shape), np.dtype(dtype)
        self.lo, self.hi, self.nan, self.inf = lo, hi, nan, inf
        self.chunks, self.nv, self.masked = chunks, nv, masked
        self.x, self.y, self.crs, self.choices = x, y, crs, choices
        self.only_mask = only_mask      # cells whose mask is symbolic (others valid)
        # concrete cells everywhere but at the indices in `free`
        self.base = None if base is None else np.asarray(base, dtype=self.dtype).reshape(self.shape)
        self.free = free
        if base is not None:
            self.only_mask = free

    # symbolic declaration: returns (namespace for the spec, assumptions)
    def declare(self, name):
        asm = []
        v = np.empty(self.shape, dtype=object)
        for i in np.ndindex(self.shape):
            nm = name + "".join("_%d" % k for k in i)
            if self.base is not None and i not in self.free:
                v[i] = tm.const(self.base[i], self.dtype)
                continue
            v[i] = tm.declare(nm, self.dtype, nan=self.nan, inf=self.inf, lo=self.lo, hi=self.hi)
            if self.choices is not None:
                asm.append(spec.Or([tm.mk_same(v[i], tm.const(c, self.dtype)) for c in self.choices]))
        vs = SymArray(v, self.dtype)
        if self.kind != "raster":
            return NS(v=vs, data=vs, m=None, nv=None, inp=self), asm
        if not self.masked:
            m = np.full(self.shape, tm.FALSE, dtype=object)
            return NS(v=vs, data=vs, m=SymArray(m, bool), nv=self.nv, inp=self), asm
        m = np.empty(self.shape, dtype=object)
        d = np.empty(self.shape, dtype=object)
        nv = tm.const(self.nv, self.dtype)
        for i in np.ndindex(self.shape):
            if self.only_mask is not None and i not in self.only_mask:
                m[i] = tm.FALSE
            else:
                m[i] = tm.declare(name + "m" + "".join("_%d" % k for k in i), bool)
            d[i] = tm.mk_ite(m[i], nv, v[i])
            a = tm.mk_not(tm.mk_same(v[i], nv))
            if a is not tm.TRUE:
                asm.append(a)
        return NS(v=vs, data=SymArray(d, self.dtype), m=SymArray(m, bool), nv=self.nv, inp=self), asm

    def chunk_spec(self):
        return self.chunks if self.chunks is not None else tuple((n,) for n in self.shape)

    def coords(self):
        b, h, w = self.shape
        x = np.arange(w) + 0.5 if self.x is None else np.asarray(self.x, dtype=float)
        y = np.arange(h)[::-1] + 0.5 if self.y is None else np.asarray(self.y, dtype=float)
        return x, y


def raster(shape, dtype, lo=-100, hi=100, nv=None, **k):
    if len(shape) == 2:
        shape = (1,) + tuple(shape)
    ch = k.get("chunks")
    if ch is not None and len(ch) == 2:
        k["chunks"] = tuple((1,) * 1 for _ in range(1)) + tuple(ch) if shape[0] == 1 else \
            ((1,) * shape[0],) + tuple(ch)
    if nv is None:
        k.setdefault("masked", False)
    return In("raster", shape, dtype, lo, hi, nv=nv, **k)


def array(shape, dtype, lo=-100, hi=100, **k):
    return In("array", shape, dtype, lo, hi, **k)


def scalar(dtype, lo=-100, hi=100, **k):
    return In("scalar", (), dtype, lo, hi, **k)


class Case:
    def __init__(self, name, inputs, run, claims, encoder="real", merge=True, summaries=True,
                 path_limit=4000, timeout=60, validate=2, tol=1e-5, atol=1e-6, raises=False,
                 assume=None, known=(), group=None, sqrt_axioms=False, purity=False, case_timeout=None,
                 api="", replays=3, batch=False, feas_abstract=False):
        self.name, self.inputs, self.run, self.claims = name, inputs, run, claims
        self.encoder, self.merge, self.summaries = encoder, merge, summaries
        self.path_limit, self.timeout, self.validate = path_limit, timeout, validate
        self.tol, self.atol, self.raises, self.assume = tol, atol, raises, assume
        self.known, self.group, self.sqrt_axioms = known, group, sqrt_axioms
        self.feas_abstract = feas_abstract   # uninterpreted applications are free values in path conditions
        self.batch = batch      # decide all claims of a path in one query first
        self.purity, self.case_timeout, self.api, self.replays = purity, case_timeout, api, replays

    def declare(self):
        out, asm = {}, []
        for n, i in self.inputs.items():
            out[n], a = i.declare(n)
            asm += a
        ins = NS(**out)
        if self.assume is not None:
            asm += [spec.B(a) for a in spec._flat([self.assume(ins)])]
        return ins, [a for a in asm if a is not tm.TRUE]


class Raised:
    def __init__(self, exc):
        self.kind = type(exc).__name__
        self.msg = str(exc)[:300]

    def __repr__(self):
        return "Raised(%s: %s)" % (self.kind, self.msg)


class Ctx:
    """What a scenario may use besides the package itself."""

    def __init__(self, sym):
        self.sym = sym
        import raster_tools
        self.rt = raster_tools
        self.blocks = {}
        self.src = {}

    # build package inputs from symbolic or concrete arrays
    def dask(self, arr, chunks, name=None):
        from . import dk
        if isinstance(arr, SymArray):
            d, b = dk.to_dask(arr, chunks)
        else:
            import dask.array as da
            chunks = da.core.normalize_chunks(chunks, arr.shape, dtype=arr.dtype)
            offs = [np.concatenate([[0], np.cumsum(c)]) for c in chunks]
            b = {}
            for idx in np.ndindex(*[len(c) for c in chunks]):
                sl = tuple(slice(int(offs[k][i]), int(offs[k][i + 1])) for k, i in enumerate(idx))
                b[idx] = np.array(arr[sl], order="C", copy=True)
            d = dk.dask_from_blocks(b, arr.dtype, chunks)
        if name is not None:
            self.blocks[name] = {k: (v, v.a.copy() if isinstance(v, SymArray) else v.copy()) for k, v in b.items()}
        return d

    def again(self, name, chunks):
        """The input raster `name` once more, in another chunk layout."""
        return self.raster(name + "'", *self.src[name], chunks=chunks)

    def raster(self, name, data, mask, inp, chunks=None):
        from raster_tools import raster as rr
        x, y = inp.coords()
        self.src[name] = (data, mask, inp)
        chunks = chunks or inp.chunk_spec()
        D = self.dask(data, chunks, name + ".data")
        if not inp.masked:
            return rr.data_to_raster(D, x=x, y=y, nv=inp.nv, crs=inp.crs)
        M = self.dask(mask, chunks, name + ".mask")
        return rr.data_to_raster(D, mask=M, nv=inp.nv, x=x, y=y, crs=inp.crs)

    def changed_inputs(self):
        """Condition (term / bool) that some source chunk no longer holds its value."""
        cond = []
        for name, bl in self.blocks.items():
            for k, (v, orig) in bl.items():
                if isinstance(v, SymArray):
                    for i in np.ndindex(v.shape):
                        if v.a[i] is not orig[i]:
                            cond.append((name, k, i, tm.mk_not(tm.mk_same(v.a[i], orig[i]))))
                else:
                    same = (v == orig) | ((v != v) & (orig != orig))
                    for i in np.argwhere(~same):
                        cond.append((name, k, tuple(i), tm.TRUE))
        return cond


def collect(ctx, v):
    """Observable value of an operation's result."""
    import dask
    import dask.array as da
    import xarray as xr
    from raster_tools.raster import Raster
    if isinstance(v, Raster):
        d, m = dask.compute(v.data, v.mask, **sched(ctx))
        xd = v.xdata
        return {"__raster__": True, "data": arr_of(d), "mask": arr_of(m), "nv": v.null_value,
                "dtype": np.dtype(v.dtype), "shape": tuple(v.shape), "x": np.array(v.x), "y": np.array(v.y),
                "masked": bool(v._masked), "crs": None if v.crs is None else str(v.crs),
                "band": np.array(xd.band), "ddtype": np.dtype(v.data.dtype),
                "chunks": v.data.chunks, "mask_chunks": v.mask.chunks}
    if isinstance(v, xr.DataArray):
        v = v.data
    if isinstance(v, da.Array) or (hasattr(v, "dask") and hasattr(v, "compute")):
        (v,) = dask.compute(v, **sched(ctx))
    if isinstance(v, (SymArray, Sym, np.ndarray)):
        if isinstance(v, np.ndarray) and v.dtype.kind not in "biuf":
            return v
        return arr_of(v)
    if isinstance(v, (list, tuple)):
        return [collect(ctx, x) for x in v]
    if isinstance(v, dict):
        return {k: collect(ctx, x) for k, x in v.items()}
    return v


def sched(ctx):
    if ctx.sym:
        from . import dk
        return {"scheduler": dk.sym_get}
    return {"scheduler": "synchronous"}


def arr_of(x):
    if isinstance(x, SymArray):
        return x
    if isinstance(x, Sym):
        return SymArray(lift(x), x.dtype)
    return np.asarray(x)


def to_ns(v, purity=None):
    """Collected outputs -> namespace with SymArrays everywhere."""
    if isinstance(v, dict) and v.get("__raster__"):
        n = NS(**v)
        n.data, n.mask = to_ns(v["data"]), to_ns(v["mask"])
        return n
    if isinstance(v, dict):
        return NS(**{str(k): to_ns(x) for k, x in v.items()})
    if isinstance(v, list):
        return [to_ns(x) for x in v]
    if isinstance(v, np.ndarray) and v.dtype.kind in "biuf":
        return SymArray(lift(v), v.dtype)
    if isinstance(v, np.generic):
        return SymArray(lift(np.asarray(v)), v.dtype)
    return v


def run_symbolic(case, ins):
    ctx = Ctx(True)
    kw = {}
    for n, i in case.inputs.items():
        s = getattr(ins, n)
        if i.kind == "raster":
            kw[n] = ctx.raster(n, s.data, s.m, i)
        elif i.kind == "scalar":
            kw[n] = wrap_scalar(s.v.a[()])
        else:
            kw[n] = s.v.copy()
    out = case.run(ctx, **kw)
    out = {k: collect(ctx, v) for k, v in out.items()}
    out["__changed__"] = ctx.changed_inputs()
    return out


def concrete_inputs(case, env):
    """Concrete arrays for the inputs under env (data, mask)."""
    out = {}
    for n, i in case.inputs.items():
        v = np.empty(i.shape, dtype=i.dtype)
        m = np.zeros(i.shape, dtype=bool)
        for k in np.ndindex(i.shape):
            sfx = "".join("_%d" % j for j in k)
            v[k] = np.asarray(env.get(n + sfx, 0 if i.base is None else i.base[k])).astype(i.dtype)
            if i.kind == "raster" and i.masked:
                m[k] = bool(env.get(n + "m" + sfx, False))
        if i.kind == "raster" and i.masked:
            v = np.where(m, np.asarray(i.nv).astype(i.dtype), v).astype(i.dtype)
        out[n] = (v, m)
    return out


def run_concrete(case, env):
    """Runs the scenario on the real code; returns collected outputs or Raised."""
    ctx = Ctx(False)
    kw = {}
    for n, (v, m) in concrete_inputs(case, env).items():
        i = case.inputs[n]
        if i.kind == "raster":
            kw[n] = ctx.raster(n, v, m, i)
        elif i.kind == "scalar":
            kw[n] = v[()]
        else:
            kw[n] = v
    try:
        with np.errstate(all="ignore"):
            out = case.run(ctx, **kw)
            out = {k: collect(ctx, v) for k, v in out.items()}
    except Exception as e:
        r = Raised(e)
        r.tb = traceback.format_exc()[-2000:]
        return r
    out["__changed__"] = [(a, b, c) for a, b, c, _ in ctx.changed_inputs()]
    return out


# --------------------------------------------------------------------------


def all_claims(case, ins, out, S):
    """list of (label, term)"""
    if isinstance(out, Raised):
        if not case.raises:
            return [("raises", tm.FALSE)]
        o = out
    else:
        changed = out.get("__changed__", [])
        o = NS(**{k: to_ns(v) for k, v in out.items() if k != "__changed__"})
    res = []
    if case.claims is not None:
        try:
            for label, t in case.claims(S, ins, o):
                if isinstance(t, (bool, np.bool_)):
                    t = tm.const(bool(t), bool)
                res.append((label, spec.B(t)))
        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
            # the outputs do not even have the promised form
            res.append(("form of the result", tm.FALSE))
    if case.purity and not isinstance(out, Raised):
        for c in changed:
            t = c[3] if len(c) > 3 else tm.TRUE
            res.append(("input-modified %s chunk %s" % (c[0], c[1]), tm.mk_not(t)))
        if not changed:
            res.append(("inputs-unmodified", tm.TRUE))
    return res


def random_env(case, ins, asm, rnd, tries=400):
    """Concrete assignment of the inputs satisfying the assumptions."""
    names = {}
    for n in case.inputs:
        s = getattr(ins, n)
        for a in (s.v, s.m):
            if a is None:
                continue
            for t in a.a.reshape(-1):
                if t.op == "var":
                    names[t.args[0]] = t
    for _ in range(tries):
        style = rnd.randrange(4)
        env = {}
        pm = rnd.choice([0.0, 0.2, 0.4, 0.7])
        ch = {}
        for n, i in case.inputs.items():
            if i.choices is not None:
                ch[n] = i.choices
        for nm, t in names.items():
            info = tm.VARINFO[nm]
            base = nm.split("_")[0]
            if t.dt == tm.BOOL:
                env[nm] = np.bool_(rnd.random() < pm)
                continue
            if base in ch:
                env[nm] = t.dt.type(rnd.choice(ch[base]))
                continue
            lo, hi = info["lo"], info["hi"]
            if info["nan"] and rnd.random() < 0.2:
                env[nm] = t.dt.type(np.nan)
                continue
            if style == 0 and hi > lo:
                m = max(lo, min(hi, 0))
                lo, hi = max(lo, m - 3), min(hi, m + 3)
            if t.dt.kind == "f":
                if style == 1:
                    env[nm] = t.dt.type(rnd.uniform(lo, hi))
                else:
                    import math
                    a, b = math.ceil(lo), math.floor(hi)
                    env[nm] = t.dt.type(rnd.randint(a, b) if a <= b else rnd.uniform(lo, hi))
            else:
                env[nm] = t.dt.type(rnd.randint(int(lo), int(hi)))
        if not asm or all(bool(x) for x in tm.evaluate(asm, env)):
            return env
    return None


def decide(case, seed, emit):
    """Symbolic run of one case.  emit(dict) streams progress to the parent."""
    import random

    from . import dk
    from .solve import Solver

    t0 = time.time()
    res = dict(name=case.name, status="ok", claims=0, trivial=0, discharged=0, unknown=[], cex=[], known=[],
               paths=0, error=None, envs=[], expected=[], functions={}, queries={}, samples=[])
    try:
        RT.merge, RT.summaries, RT.path_limit = case.merge, case.summaries, case.path_limit
        RT.solver = Solver(encoder=case.encoder, timeout=case.timeout, sqrt_axioms=case.sqrt_axioms, feas_abstract=case.feas_abstract)
        ins, asm = case.declare()
        RT.assumptions = list(asm)
        S = spec.Spec()

        def go():
            try:
                with np.errstate(all="ignore"):
                    return run_symbolic(case, ins)
            except (Unsupported, TooManyPaths):
                raise
            except Exception as e:
                if RT.merge_sites:
                    raise           # the explorer demotes the merge site
                r = Raised(e)
                r.tb = traceback.format_exc()[-3000:]
                if os.environ.get("SYMX_DEBUG"):
                    sys.stderr.write(case.name + "\n" + r.tb + "\n")
                return r

        paths = []
        sawset = set()
        for pc, out in Explorer(RT, limit=case.path_limit).run(go):
            pc = list(pc)
            paths.append((pc, out))
            cl = all_claims(case, ins, out, S)
            if case.batch and not case.known:
                t = tm.mk_and(*[t for _, t in cl])
                if t is not tm.FALSE and t is not tm.TRUE:
                    conds = RT.assumptions + pc + [tm.mk_not(t)]
                    if RT.solver.check(conds, tm.free_vars(conds))[0] == "unsat":
                        res["claims"] += len(cl)
                        res["discharged"] += len(cl)
                        res["trivial"] += sum(1 for _, t in cl if t is tm.TRUE)
                        continue
            for label, t in cl:
                res["claims"] += 1
                if t is tm.TRUE:
                    res["trivial"] += 1
                    res["discharged"] += 1
                    continue
                regions = [(kid, spec.B(reg(S, ins))) for kid, reg in case.known]
                neg = [tm.mk_not(t)]
                conds = RT.assumptions + pc + neg
                excl = [tm.mk_not(r) for _, r in regions]
                vs = tm.free_vars(conds + excl)
                r, model = RT.solver.check(conds + excl, vs)
                if r == "unsat":
                    res["discharged"] += 1
                elif r == "unknown":
                    res["unknown"].append(label)
                else:
                    n = sum(1 for c in res["cex"] if c[0].split("[")[0] == label.split("[")[0])
                    if n < case.replays:
                        res["cex"].append((label, {k: v for k, v in model.items() if k in tm.VARINFO}))
                    else:
                        res.setdefault("more_cex", []).append(label)
                for kid, reg in regions:
                    if sum(1 for k in res["known"] if k[0] == kid) >= 2 or r == "unknown":
                        continue
                    r2, model = RT.solver.check(conds + [reg], tm.free_vars(conds + [reg]))
                    if r2 == "sat":
                        res["known"].append((kid, label, {k: v for k, v in model.items() if k in tm.VARINFO}))
        res["paths"] = len(paths)
        rnd = random.Random("%s|%s" % (seed, case.name))
        for _ in range(case.validate):
            env = random_env(case, ins, RT.assumptions, rnd)
            if env is None:
                break
            exp = None
            for pc, out in paths:
                try:
                    if all(bool(x) for x in tm.evaluate(pc, env)):
                        exp = eval_out(out, env)
                        break
                except tm.Unassigned:
                    exp = "uninit"
                    break
            res["envs"].append(env)
            res["expected"].append(exp)
        if not paths:
            res["status"] = "error"
            res["error"] = "no feasible path (vacuous assumptions)"
    except Unsupported as e:
        res["status"] = "unsupported"
        res["error"] = "%s\n%s" % (e, traceback.format_exc()[-1500:])
    except (TooManyPaths, DeadPath) as e:
        res["status"] = "unsupported"
        res["error"] = "paths: %r" % (e,)
    except Exception:
        res["status"] = "error"
        res["error"] = traceback.format_exc()[-3000:]
    res["functions"] = dict(RT.functions)
    res["queries"] = dict(RT.solver.log) if RT.solver else {}
    res["stats"] = dict(RT.stats)
    res["wall"] = time.time() - t0
    emit(res)


def eval_out(v, env):
    """Collected symbolic outputs -> concrete values under env (None = undetermined)."""
    if isinstance(v, SymArray):
        flat = v.a.reshape(-1)
        out = np.empty(flat.shape, dtype=object)
        cache = {}
        for i, t in enumerate(flat):
            try:
                out[i] = tm.evaluate([t], env, cache)[0]
            except tm.Unassigned:
                out[i] = None
                cache = {}
        return ("arr", out.reshape(v.a.shape), v.dtype.str)
    if isinstance(v, dict):
        return {k: eval_out(x, env) for k, x in v.items() if k != "__changed__"}
    if isinstance(v, list):
        return [eval_out(x, env) for x in v]
    return v


def compare_out(exp, got, tol, path=""):
    """List of differences between evaluated encoding and the real outputs."""
    if isinstance(exp, tuple) and len(exp) == 3 and exp[0] == "arr":
        if isinstance(got, (int, float, bool, np.generic)):
            got = np.asarray(got)
        if not isinstance(got, np.ndarray):
            return ["%s: %r vs array" % (path, type(got))]
        if got.shape != exp[1].shape:
            return ["%s: shape %s vs %s" % (path, exp[1].shape, got.shape)]
        if got.dtype != np.dtype(exp[2]):
            return ["%s: dtype %s vs %s" % (path, exp[2], got.dtype)]
        d = []
        for i in np.ndindex(got.shape):
            e = exp[1][i]
            if e is None:
                continue
            g = got[i]
            if e != e and g != g:
                continue
            if e == g:
                continue
            if got.dtype.kind == "f" and np.isfinite(e) and np.isfinite(g) and \
                    abs(float(e) - float(g)) <= max(tol, 1e-9) * max(1.0, abs(float(e)), abs(float(g))):
                continue
            d.append("%s%s: %r vs %r" % (path, list(i), e, g))
        return d[:4]
    if isinstance(exp, dict):
        if not isinstance(got, dict):
            return ["%s: %r" % (path, got)]
        out = []
        for k in exp:
            if k in got:
                out += compare_out(exp[k], got[k], tol, path + "." + str(k))
        return out
    if isinstance(exp, list):
        if not isinstance(got, list) or len(exp) != len(got):
            return ["%s: list" % path]
        out = []
        for n, (a, b) in enumerate(zip(exp, got)):
            out += compare_out(a, b, tol, "%s[%d]" % (path, n))
        return out
    if isinstance(exp, Raised) or isinstance(got, Raised):
        if isinstance(exp, Raised) and isinstance(got, Raised) and exp.kind == got.kind:
            return []
        return ["%s: %r vs %r" % (path, exp, got)]
    if isinstance(exp, np.ndarray):
        try:
            return [] if np.array_equal(exp, got, equal_nan=True) else ["%s differ" % path]
        except TypeError:
            return [] if np.array_equal(exp, got) else ["%s differ" % path]
    if isinstance(exp, (int, float, str, bool, np.generic)):
        if exp == got or (exp != exp and got != got):
            return []
        return ["%s: %r vs %r" % (path, exp, got)]
    return []


def check_concrete(case, env, got):
    """Labels of the claims that the concrete outputs break."""
    ins, asm = case.declare()
    if asm and not all(bool(x) for x in tm.evaluate(asm, env, default=0)):
        return None
    S = spec.Spec(case.tol, case.atol)
    bad = []
    for label, t in all_claims(case, ins, got, S):
        if not bool(tm.evaluate([t], env, default=0)[0]):
            bad.append(label)
    return bad
