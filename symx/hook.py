"""Import hook: instruments the modules of the package under check.

The source is read from disk on every run.  Rewrites (semantics-preserving for
concrete values):
  * numpy / numba / math imports go through the shims;
  * calls to min/max/int/float/bool/round go through helpers that accept terms;
  * in decorated functions (kernels): `if`, `and`, `or`, `not`, conditional
    expressions and break/continue/return are rewritten so that a branch on a
    symbolic condition can be executed on both sides and merged.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import sys

import numpy as np

from . import arr, shims, terms as tm
from .arr import Sym, SymArray, apply_ufunc, is_sym, t_nonzero, wrap_scalar
from .core import RT

CALLS = {"min": "s_min", "max": "s_max", "int": "s_int", "float": "s_float",
         "bool": "s_bool", "round": "s_round", "isinstance": "s_isinstance"}
KCALLS = {"dict": "SymDict", "set": "SymSet"}
SHIMMED = {"numba": "_nb_shim", "numpy": "_np_shim", "math": "_math_shim"}
SKIP_DECOS = {"property", "staticmethod", "classmethod", "setter", "getter", "deleter",
              "contextmanager", "wraps", "cached_property", "abstractmethod"}
PFX = "_sx__"


class NotTransformable(Exception):
    pass


def _name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def _call(f, *args):
    return ast.Call(func=_name(PFX + f), args=list(args), keywords=[])


def _lam(e):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[],
                                         kw_defaults=[], defaults=[]), body=e)


def _assign(n, v):
    return ast.Assign(targets=[_name(n, ast.Store())], value=v)


def assigned(stmts):
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            raise NotTransformable

        visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    for s in stmts:
        V().visit(s)
    return out


class Kern:
    """Rewrites one kernel body."""

    def __init__(self, fname):
        self.n = 0
        self.fname = fname

    def uid(self):
        self.n += 1
        return self.n

    # ---- control flow elimination
    def flags(self, stmts, brk, cnt):
        """Flags that executing stmts may set, seen from the enclosing loop."""
        out = set()
        for s in stmts:
            if isinstance(s, ast.Return):
                out.add("_sx__ret")
            elif isinstance(s, ast.Break):
                out.add(brk)
            elif isinstance(s, ast.Continue):
                out.add(cnt)
            elif isinstance(s, ast.If):
                out |= self.flags(s.body, brk, cnt) | self.flags(s.orelse, brk, cnt)
            elif isinstance(s, (ast.For, ast.While)):
                if "_sx__ret" in self.flags(s.body, None, None):
                    out.add("_sx__ret")
            elif isinstance(s, (ast.Try, ast.With)):
                inner = list(s.body)
                for n in ast.walk(s):
                    if isinstance(n, (ast.Return, ast.Break, ast.Continue)):
                        raise NotTransformable
        return out

    def none_of(self, flags):
        e = None
        for f in sorted(flags):
            t = ast.UnaryOp(op=ast.Not(), operand=_name(f))
            e = t if e is None else ast.BoolOp(op=ast.And(), values=[e, t])
        return e

    def block(self, stmts, brk=None, cnt=None):
        out = []
        for i, s in enumerate(stmts):
            if isinstance(s, ast.Return):
                out.append(_assign("_sx__rv", s.value or ast.Constant(None)))
                out.append(_assign("_sx__ret", ast.Constant(True)))
                return out
            if isinstance(s, ast.Break):
                out.append(_assign(brk, ast.Constant(True)))
                return out
            if isinstance(s, ast.Continue):
                out.append(_assign(cnt, ast.Constant(True)))
                return out
            if isinstance(s, ast.If):
                fl = self.flags([s], brk, cnt)
                out.append(ast.If(test=s.test, body=self.block(s.body, brk, cnt) or [ast.Pass()],
                                  orelse=self.block(s.orelse, brk, cnt)))
                rest = stmts[i + 1:]
                if fl and rest:
                    out.append(ast.If(test=self.none_of(fl), body=self.block(rest, brk, cnt) or [ast.Pass()],
                                      orelse=[]))
                    return out
                if fl:
                    return out
                continue
            if isinstance(s, (ast.For, ast.While)):
                if s.orelse:
                    raise NotTransformable
                k = self.uid()
                b, c = "_sx__brk%d" % k, "_sx__cnt%d" % k
                inner = self.flags(s.body, b, c)
                body = self.block(s.body, b, c)
                if c in inner:
                    body = [_assign(c, ast.Constant(False))] + body
                stop = {f for f in inner if f in (b, "_sx__ret")}
                if b in inner:
                    out.append(_assign(b, ast.Constant(False)))
                if isinstance(s, ast.For):
                    if stop:
                        it = "_sx__it%d" % k
                        chk = [ast.If(test=_call("istrue", *[_name(f) for f in sorted(stop)]),
                                      body=[ast.Break()], orelse=[])]
                        chk[0]._raw = True
                        body = [ast.Assign(targets=[s.target], value=_name(it))] + body
                        body = chk + [ast.If(test=self.none_of(stop), body=body, orelse=[])]
                        out.append(ast.For(target=_name(it, ast.Store()), iter=s.iter, body=body, orelse=[]))
                    else:
                        out.append(ast.For(target=s.target, iter=s.iter, body=body or [ast.Pass()], orelse=[]))
                else:
                    test = s.test
                    if stop:
                        test = ast.BoolOp(op=ast.And(), values=[self.none_of(stop), s.test])
                    out.append(ast.While(test=test, body=body or [ast.Pass()], orelse=[]))
                if "_sx__ret" in inner:
                    rest = stmts[i + 1:]
                    if rest:
                        out.append(ast.If(test=self.none_of({"_sx__ret"}),
                                          body=self.block(rest, brk, cnt) or [ast.Pass()], orelse=[]))
                    return out
                continue
            out.append(s)
        return out

    # ---- if conversion
    def convert(self, stmts):
        out = []
        for s in stmts:
            if isinstance(s, ast.If):
                if getattr(s, "_raw", False):
                    out.append(s)
                    continue
                k = self.uid()
                m = "_sx__m%d" % k
                names = [v for v in assigned(s.body + s.orelse) if not v.startswith("_sx__m")]
                tup = ast.Tuple(elts=[ast.Constant(v) for v in names], ctx=ast.Load())

                def snap():
                    return _call("locals", ast.Call(func=_name("locals"), args=[], keywords=[]), tup)

                out.append(_assign(m, _call("begin", ast.Constant("%s#%d" % (self.fname, k)), s.test, snap())))
                inner = ast.If(test=ast.Attribute(value=_name(m), attr="take", ctx=ast.Load()),
                               body=self.convert(s.body) or [ast.Pass()], orelse=self.convert(s.orelse))
                after = ast.Call(func=ast.Attribute(value=_name(m), attr="after", ctx=ast.Load()),
                                 args=[snap()], keywords=[])
                if names:
                    st = ast.Assign(targets=[ast.Tuple(elts=[_name(v, ast.Store()) for v in names], ctx=ast.Store())],
                                    value=after)
                else:
                    st = ast.Expr(value=after)
                out.append(ast.While(
                    test=ast.Call(func=ast.Attribute(value=_name(m), attr="step", ctx=ast.Load()), args=[], keywords=[]),
                    body=[inner, st], orelse=[]))
            elif isinstance(s, (ast.For, ast.While)):
                s.body = self.convert(s.body)
                out.append(s)
            elif isinstance(s, ast.With):
                s.body = self.convert(s.body)
                out.append(s)
            else:
                out.append(s)
        return out


class Exprs(ast.NodeTransformer):
    """Expression and store rewrites inside kernels."""

    def __init__(self, fname):
        self.fname = fname
        self.k = 0

    def site(self):
        self.k += 1
        return ast.Constant("%s@%d" % (self.fname, self.k))

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        f = "and" if isinstance(n.op, ast.And) else "or"
        return _call(f, self.site(), *[_lam(v) for v in n.values])

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return _call("not", n.operand)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return _call("ite", self.site(), n.test, _lam(n.body), _lam(n.orelse))

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            return n
        parts = []
        left = n.left
        for op, right in zip(n.ops, n.comparators):
            parts.append(_lam(ast.Compare(left=left, ops=[op], comparators=[right])))
            left = right
        return _call("and", self.site(), *parts)

    def visit_Dict(self, n):
        self.generic_visit(n)
        return ast.Call(func=_name(PFX + "SymDict"), args=[n], keywords=[])

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.Call(func=_name(PFX + "SymSet"), args=[ast.List(elts=n.elts, ctx=ast.Load())], keywords=[])

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in KCALLS:
            n.func.id = PFX + KCALLS[n.func.id]
        return n

    def visit_Raise(self, n):
        self.generic_visit(n)
        return [ast.Expr(value=_call("raising")), n]

    def visit_Expr(self, n):
        self.generic_visit(n)
        c = n.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute):
            return [ast.Expr(value=_call("mutating", c.func.value)), n]
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
            t = n.targets[0]
            return ast.Expr(value=_call("setitem", t.value, _slice(t.slice), n.value))
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Subscript):
            t = n.target
            return ast.Expr(value=_call("augitem", t.value, _slice(t.slice),
                                        ast.Constant(type(n.op).__name__), _lam(n.value)))
        return n

    def visit_Lambda(self, n):
        return n

    def visit_FunctionDef(self, n):
        return n


def _slice(s):
    """Index expression as an ordinary expression."""
    if isinstance(s, ast.Slice):
        return ast.Call(func=_name("slice"), args=[x or ast.Constant(None) for x in (s.lower, s.upper, s.step)],
                        keywords=[])
    if isinstance(s, ast.Tuple):
        return ast.Tuple(elts=[_slice(e) for e in s.elts], ctx=ast.Load())
    return s


class Calls(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in CALLS:
            n.func.id = PFX + CALLS[n.func.id]
        return n


class Imports(ast.NodeTransformer):
    def visit_Import(self, n):
        out = []
        for a in n.names:
            top = a.name
            if top in SHIMMED:
                out.append(ast.Assign(targets=[_name(a.asname or top, ast.Store())], value=_name(PFX + SHIMMED[top])))
            else:
                out.append(ast.Import(names=[a]))
        return out

    def visit_ImportFrom(self, n):
        if n.level == 0 and n.module in ("numba", "numpy", "math", "numba.extending"):
            shim = SHIMMED[n.module.split(".")[0]]
            out = []
            for a in n.names:
                if n.module == "numba.extending" and a.name != "overload":
                    out.append(ast.ImportFrom(module=n.module, names=[a], level=0))
                    continue
                out.append(ast.Assign(targets=[_name(a.asname or a.name, ast.Store())],
                                      value=ast.Attribute(value=_name(PFX + shim), attr=a.name, ctx=ast.Load())))
            return out
        return n


def _deco_name(d):
    while isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Attribute):
        return d.attr
    return d.id if isinstance(d, ast.Name) else ""


class Decorated(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname

    def visit_FunctionDef(self, n):
        if n.decorator_list and not any(_deco_name(d) in SKIP_DECOS for d in n.decorator_list) \
                and not any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal))
                            for b in n.body for x in ast.walk(b)):
            import copy
            orig = copy.deepcopy(n)
            try:
                fn = "%s.%s" % (self.modname, n.name)
                k = Kern(fn)
                fl = k.flags(n.body, None, None)
                doc = []
                body = n.body
                if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                    doc, body = body[:1], body[1:]
                nested = any(isinstance(x, ast.Return) for s in body if not isinstance(s, ast.Return) for x in ast.walk(s))
                if nested:
                    body = [_assign("_sx__ret", ast.Constant(False)),
                            _assign("_sx__rv", _name(PFX + "UNDEF"))] + k.block(body)
                    body.append(ast.Return(value=_call("retval", _name("_sx__ret"), _name("_sx__rv"))))
                else:
                    last = []
                    if body and isinstance(body[-1], ast.Return):
                        body, last = body[:-1], body[-1:]
                    body = k.block(body) + last
                body = k.convert(body)
                ex = Exprs(fn)
                nb = []
                for s in body:
                    r = ex.visit(s)
                    nb.extend(r if isinstance(r, list) else [r])
                n.body = doc + nb
                ast.fix_missing_locations(n)
            except NotTransformable:
                n = orig
            return n
        self.generic_visit(n)
        return n


# --------------------------------------------------------------------------
# run-time helpers


class _Begin:
    __slots__ = ("site", "c", "take", "phase", "merge", "saved", "then", "frame")

    def __init__(self, site, test, saved):
        self.site = site
        self.phase = 0
        self.saved = saved
        if isinstance(test, SymArray):
            test = wrap_scalar(test.a.reshape(-1)[0]) if test.size == 1 else bool(test)
        self.merge = False
        if isinstance(test, Sym):
            t = t_nonzero(test.t)
            k = RT.known(t)
            if k is not None:
                test = k
            elif RT.merge and RT.frames and site not in RT.fork_only:
                self.merge = True
                self.c = t
            else:
                test = bool(test)
        self.take = True if self.merge else bool(test)

    def step(self):
        if not self.merge:
            self.phase += 1
            return self.phase == 1
        if self.phase == 0:
            self.phase = 1
            self.take = True
            RT.push_guard(self.c)
            RT.merge_sites.append((self.site, RT.frames[-1]))
            return True
        if self.phase == 1:
            self.phase = 2
            self.take = False
            RT.push_guard(tm.mk_not(self.c))
            RT.merge_sites.append((self.site, RT.frames[-1]))
            return True
        return False

    def after(self, vals):
        if not self.merge:
            return vals
        if self.phase == 1:
            RT.pop_guard()
            RT.merge_sites.pop()
            self.then = vals
            return self.saved
        RT.pop_guard()
        try:
            out = tuple(shims.merge_values(self.c, a, b) for a, b in zip(self.then, vals))
        except shims.CantMerge:
            RT.demote()
        RT.merge_sites.pop()
        RT.stats["merges"] += 1
        return out


def _locals(loc, names):
    return tuple(loc.get(n, shims.UNDEF) for n in names)


def _istrue(*fs):
    return any(isinstance(f, (bool, np.bool_)) and bool(f) for f in fs)


def _retval(ret, rv):
    if ret is True or RT.known(arr.lift(ret)[()] if is_sym(ret) else tm.const(ret, bool)):
        return rv
    if is_sym(ret):
        return rv if bool(ret) else None
    return rv if ret else None


def _symbool(v):
    if isinstance(v, Sym):
        return t_nonzero(v.t)
    if isinstance(v, SymArray) and v.size == 1:
        return t_nonzero(v.a.reshape(-1)[0])
    return None


def _and(site, *fs):
    return _bool(site, fs, True)


def _or(site, *fs):
    return _bool(site, fs, False)


def _bool(site, fs, conj):
    v = fs[0]()
    rest = fs[1:]
    if not rest:
        return v
    t = _symbool(v)
    if t is not None:
        k = RT.known(t)
        if k is not None:
            v, t = k, None
    if t is None:
        if bool(v) != conj:
            return v
        return _bool(site, rest, conj)
    if site in RT.fork_only or not RT.merge or not RT.frames:
        if RT.decide(t) != conj:
            return not conj
        return _bool(site, rest, conj)
    RT.push_guard(t if conj else tm.mk_not(t))
    RT.merge_sites.append((site, RT.frames[-1]))
    w = _bool(site, rest, conj)
    RT.pop_guard()
    u = _symbool(w)
    if u is None:
        if not isinstance(w, (bool, np.bool_, int, float, np.number)):
            RT.demote()
        u = tm.const(bool(w), bool)
    RT.merge_sites.pop()
    return wrap_scalar(tm.mk_and(t, u) if conj else tm.mk_or(t, u))


def _not(x):
    t = _symbool(x)
    if t is not None:
        return wrap_scalar(tm.mk_not(t))
    return not x


def _ite(site, c, fa, fb):
    t = _symbool(c)
    if t is not None:
        k = RT.known(t)
        if k is not None:
            c, t = k, None
    if t is None:
        return fa() if c else fb()
    if site in RT.fork_only or not RT.merge or not RT.frames:
        return fa() if RT.decide(t) else fb()
    RT.push_guard(t)
    RT.merge_sites.append((site, RT.frames[-1]))
    a = fa()
    RT.pop_guard()
    RT.push_guard(tm.mk_not(t))
    b = fb()
    RT.pop_guard()
    try:
        r = shims.merge_values(t, a, b)
    except shims.CantMerge:
        RT.demote()
    RT.merge_sites.pop()
    return r


def _raising():
    if RT.merge_sites and RT.frames and RT.merge_sites[-1][1] is RT.frames[-1]:
        RT.demote()


def _guard_active():
    return bool(RT.merge_sites)


def _mutating(obj):
    if isinstance(obj, (list, set, dict, bytearray)) and not isinstance(obj, shims.SymDict) and RT.merge_sites:
        RT.demote()


def _setitem(obj, k, v):
    if RT.merge_sites and not isinstance(obj, (SymArray, shims.SymDict, shims.Rec)):
        RT.demote()
    obj[k] = v


_AUG = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b,
        "Div": lambda a, b: a / b, "FloorDiv": lambda a, b: a // b, "Mod": lambda a, b: a % b,
        "BitAnd": lambda a, b: a & b, "BitOr": lambda a, b: a | b, "BitXor": lambda a, b: a ^ b,
        "Pow": lambda a, b: a ** b, "LShift": lambda a, b: a << b, "RShift": lambda a, b: a >> b}


def _augitem(obj, k, op, f):
    _setitem(obj, k, _AUG[op](obj[k], f()))


HELPERS = {
    "begin": _Begin, "locals": _locals, "istrue": _istrue, "retval": _retval, "and": _and,
    "or": _or, "not": _not, "ite": _ite, "raising": _raising, "mutating": _mutating,
    "setitem": _setitem, "augitem": _augitem, "UNDEF": shims.UNDEF,
    "SymDict": shims.SymDict, "SymSet": shims.SymSet, "_np_shim": shims._np_shim,
    "_nb_shim": shims._nb_shim, "_math_shim": shims._math_shim,
}
for _k, _v in CALLS.items():
    HELPERS[_v] = getattr(shims, _v)


def transform(source, filename, modname):
    tree = ast.parse(source, filename)
    tree = Imports().visit(tree)
    tree = Decorated(modname).visit(tree)
    tree = Calls().visit(tree)
    ast.fix_missing_locations(tree)
    return tree


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = transform(self.get_data(path).decode(), path, fullname)
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        for k, v in HELPERS.items():
            module.__dict__[PFX + k] = v
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, package):
        self.package = package

    def find_spec(self, name, path, target=None):
        if name != self.package and not name.startswith(self.package + "."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install(package="raster_tools"):
    sys.meta_path.insert(0, Finder(package))
