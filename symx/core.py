"""Path exploration, guards (state merging) and feasibility queries."""
from . import terms as tm


class Unsupported(Exception):
    """The code left the fragment the engine can encode."""


class RestartPath(BaseException):
    """Re-run the path of one frame; some site was demoted to forking."""

    def __init__(self, target):
        super().__init__()
        self.target = target


class DeadPath(BaseException):
    """The current path condition is unsatisfiable."""


class TooManyPaths(Exception):
    pass


class Frame:
    """One path.  It starts with the conditions that make it an alternative to an
    earlier one, so that nothing depends on the order in which decisions come up."""

    def __init__(self, start):
        pc, facts = start
        self.pc = []              # path condition terms of this frame
        self.lits = {}            # term id -> truth value settled by pc
        self.facts = dict(facts)  # (term id, guard ids) -> forced truth value
        self.alts = []            # (conditions, facts) of alternative paths
        for t in pc:
            self.assume(t)

    def assume(self, t):
        self.pc.append(t)
        self.lits[t.id] = True
        if t.op == "and":
            for x in t.args:
                self.lits[x.id] = True


class Explorer:
    """Re-execution based exploration of the decisions taken by one callable."""

    def __init__(self, rt, limit=None):
        self.rt = rt
        self.limit = limit or rt.path_limit

    def run(self, fn):
        """Yield (path condition, result) for every feasible path of fn."""
        rt = self.rt
        stack = [([], {})]
        n = 0
        first = last = rt.fresh
        while stack:
            prefix = stack.pop()
            n += 1
            if n > self.limit:
                raise TooManyPaths(n)
            frame = Frame(prefix)
            rt.fresh = first      # the same names on every path
            gd, ms = len(rt.guards), len(rt.merge_sites)
            nb = rt.numba
            rt.frames.append(frame)
            act = rt.active
            try:
                try:
                    res = fn()
                except Exception:
                    if len(rt.merge_sites) > ms and rt.merge_sites[-1][1] is frame:
                        # raised inside a merged branch: fork there instead
                        rt.demote()
                    raise
                finally:
                    assert rt.frames.pop() is frame
                    rt.active = act
                    last = rt.fresh = max(last, rt.fresh)
                    del rt.guards[gd:]
                    del rt.merge_sites[ms:]
                    rt.numba = nb
            except RestartPath as e:
                if e.target is not frame:
                    raise
                rt.stats["restarts"] += 1
                if rt.stats["restarts"] > 5000:
                    raise TooManyPaths("restarts")
                stack.append(prefix)
                n -= 1
                continue
            except DeadPath:
                rt.stats["dead"] += 1
                stack.extend(frame.alts)
                continue
            stack.extend(frame.alts)
            rt.stats["paths"] += 1
            yield frame.pc, res


class Runtime:
    def __init__(self):
        self.solver = None
        self.frames = []
        self.guards = []          # (gid, term)
        self.merge_sites = []     # (site, frame)
        self.gid = 0
        self.fork_only = set()
        self.no_summary = set()
        self.merge = True
        self.summaries = True
        self.numba = 0
        self.active = 0
        self.assumptions = []
        self.fresh = 0
        self.stats = dict(paths=0, forks=0, dead=0, restarts=0, merges=0,
                          feas_queries=0, summaries=0, summary_hits=0)
        self.functions = {}
        self.path_limit = 20000
        self.summary_cache = {}
        self.feas_cache = {}
        self.depth = 0

    def fresh_var(self, prefix, dt):
        self.fresh += 1
        return tm.var("%s!%d" % (prefix, self.fresh), dt)

    def pc(self):
        out = []
        for f in self.frames:
            out.extend(f.pc)
        return out

    def all_conds(self):
        for f in self.frames:
            yield from f.pc
        for _, g in self.guards:
            yield g

    def feasible(self, conds):
        conds = [c for c in conds if c is not tm.TRUE]
        if any(c is tm.FALSE for c in conds):
            return False
        key = frozenset(c.id for c in conds)
        r = self.feas_cache.get(key)
        if r is None:
            self.stats["feas_queries"] += 1
            r = self.solver.feasible(self.assumptions + conds)
            self.feas_cache[key] = r
        return r

    def known(self, t):
        """True/False when t is settled syntactically, else None."""
        if t is tm.TRUE:
            return True
        if t is tm.FALSE:
            return False
        nt = tm.mk_not(t)
        for f in self.frames:
            if t.id in f.lits:
                return True
            if nt.id in f.lits:
                return False
        for _, c in self.guards:
            if c is t:
                return True
            if c is nt:
                return False
            if c.op == "and":
                if any(x is t for x in c.args):
                    return True
                if any(x is nt for x in c.args):
                    return False
        return None

    def decide(self, t):
        """Truth value of boolean term t on the current path (may fork)."""
        k = self.known(t)
        if k is not None:
            return k
        if not self.frames:
            raise Unsupported("symbolic branch outside exploration: %r" % (t,))
        nt = tm.mk_not(t)
        f = self.frames[-1]
        key = (t.id,) + tuple(g.id for _, g in self.guards)
        d = f.facts.get(key)
        if d is not None:
            return d
        base = self.pc() + [g for _, g in self.guards]
        ft = self.feasible(base + [t])
        ff = self.feasible(base + [nt])
        if ft and ff:
            self.stats["forks"] += 1
            f.alts.append((f.pc + [nt], dict(f.facts)))
            f.assume(t)
            return True
        if not ft and not ff:
            raise DeadPath()
        d = bool(ft)
        f.facts[key] = d
        if not self.guards:
            f.assume(t if d else nt)
        return d

    def concretize(self, t):
        """Fork over the feasible values of an integer term."""
        if t.op == "const":
            return t.args[0]
        if not self.frames:
            raise Unsupported("symbolic index outside exploration")
        for f in self.frames:
            for c in f.pc:
                if c.op == "eq" and c.args[0] is t and c.args[1].op == "const":
                    return c.args[1].args[0]
                if c.op == "eq" and c.args[1] is t and c.args[0].op == "const":
                    return c.args[0].args[0]
        while True:
            base = self.pc() + [g for _, g in self.guards]
            self.stats["feas_queries"] += 1
            v = self.solver.model_value(self.assumptions + base, t)
            if v is None:
                raise DeadPath()
            if self.decide(tm.mk_eq(t, tm.const(v, t.dt))):
                return tm.const(v, t.dt).args[0]

    # -- guards
    def push_guard(self, t):
        self.gid += 1
        self.guards.append((self.gid, t))

    def pop_guard(self):
        self.guards.pop()

    def guard_ids(self):
        return tuple(g for g, _ in self.guards)

    def guard_since(self, birth):
        """Conjunction of the guards pushed after an object was created."""
        n = 0
        for (g, _), b in zip(self.guards, birth):
            if g != b:
                break
            n += 1
        ts = [t for _, t in self.guards[n:]]
        return tm.mk_and(*ts) if ts else tm.TRUE

    def demote(self):
        """Make the innermost merged `if` fork instead, and restart its path."""
        if not self.merge_sites:
            raise Unsupported("side effect that cannot be merged")
        site, frame = self.merge_sites[-1]
        self.fork_only.add(site)
        raise RestartPath(frame)


RT = Runtime()
