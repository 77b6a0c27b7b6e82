#!/opt/venv/bin/python
"""run.py PROPERTY [--tier quick|thorough] [--case PATTERN] [--strict] [--jobs N]

Decides one property: regenerates the encoding of /repo's current source,
explores every case symbolically, discharges the claims with the SMT solver,
replays every counterexample on the real code, validates the encoding on
concrete inputs, and writes evidence/<property>.json.
"""
import argparse
import fnmatch
import glob
import json
import multiprocessing as mp
import os
import pickle
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("SYMX_REPO", "/repo")
os.environ.setdefault("SYMX_REPO", REPO)
PY = "/opt/venv/bin/python"
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ["NUMBA_NUM_THREADS"] = os.environ.get("SYMX_NUMBA_THREADS", "2")


def find_check(prop):
    g = glob.glob(os.path.join(HERE, "checks", prop + "_*.py"))
    if len(g) != 1:
        sys.exit("no check file for " + prop)
    return g[0]


def child(case, seed, conn):
    from symx import harness
    sys.setrecursionlimit(20000)
    harness.decide(case, seed, conn.send)
    conn.close()
    os._exit(0)


def symbolic_phase(cases, seed, jobs, deadline, default_timeout, verbose):
    ctx = mp.get_context("fork")
    todo = list(cases)[::-1]
    live = []
    results = {}
    while todo or live:
        while todo and len(live) < jobs and time.time() < deadline:
            c = todo.pop()
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(c, seed, b))
            p.start()
            b.close()
            live.append((c, p, a, time.time()))
        if time.time() >= deadline:
            for c in todo:
                results[c.name] = dict(name=c.name, status="budget", error="time budget exhausted")
            todo = []
        nxt = []
        for c, p, a, t in live:
            done = False
            try:
                if a.poll(0):
                    results[c.name] = a.recv()
                    done = True
                elif not p.is_alive():
                    if a.poll(0):
                        results[c.name] = a.recv()
                    else:
                        results[c.name] = dict(name=c.name, status="error", error="worker died (exit %s)" % p.exitcode)
                    done = True
            except EOFError:
                p.join(5)
                results[c.name] = dict(name=c.name, status="error", error="worker died (exit %s)" % p.exitcode)
                done = True
            lim = c.case_timeout or default_timeout
            if not done and (time.time() - t > lim or time.time() > deadline + 5):
                results[c.name] = dict(name=c.name, status="timeout", error="case time limit %ds" % lim)
                done = True
            if done:
                p.kill()
                p.join()
                a.close()
                if verbose:
                    r = results[c.name]
                    print("  %-58s %-11s %6.1fs claims=%s cex=%d paths=%s" % (
                        c.name, r["status"], time.time() - t, r.get("claims"), len(r.get("cex", ())), r.get("paths")),
                        flush=True)
            else:
                nxt.append((c, p, a, t))
        live = nxt
        time.sleep(0.01)
    return results


def concrete_phase(checkfile, reqs, jobs, tmp, budget):
    """reqs: (key, case name, tier, env, group) -> {key: outputs}"""
    if not reqs:
        return {}
    groups = {}
    for r in reqs:
        groups.setdefault(r[4], []).append(r[:4])
    # biggest groups first onto the least loaded process
    bins = [[] for _ in range(min(jobs, max(1, len(groups))))]
    for g in sorted(groups.values(), key=len, reverse=True):
        min(bins, key=len).extend(g)
    procs = []
    for n, b in enumerate(bins):
        rf, of = os.path.join(tmp, "req%d.pkl" % n), os.path.join(tmp, "out%d.pkl" % n)
        with open(rf, "wb") as f:
            pickle.dump(b, f)
        env = dict(os.environ, NUMBA_CACHE_DIR=os.path.join(tmp, "nb"), SYMX_CONCRETE_BUDGET=str(budget))
        procs.append((subprocess.Popen([PY, os.path.join(HERE, "symx", "concrete.py"), checkfile, rf, of],
                                       env=env, cwd=tmp, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                                       start_new_session=True), of, b))
    out = {}
    for p, of, b in procs:
        err = b""
        try:
            _, err = p.communicate(timeout=budget + 90)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
        f = of if os.path.exists(of) else of + ".part"
        if os.path.exists(f):
            with open(f, "rb") as fh:
                for k, v in pickle.load(fh):
                    out[k] = v
        for k, *_ in b:
            out.setdefault(k, ("crash", err.decode(errors="replace")[-1500:]))
    return out


def jsonable(env):
    out = {}
    for k, v in env.items():
        v = v.item() if hasattr(v, "item") else v
        out[k] = repr(v) if isinstance(v, float) and (v != v or abs(v) == float("inf")) else v
    return out


def load_known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        return {k["id"]: k for k in json.load(f)["findings"] if k["property"] == prop}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", default=None)
    ap.add_argument("--strict", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--jobs", type=int, default=min(8, len(os.sched_getaffinity(0))))
    ap.add_argument("--replay", default=None, help="re-run one replay file on the real code")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    checkfile = find_check(a.prop)
    tmp = tempfile.mkdtemp(prefix="symx-%s-" % a.prop)
    try:
        return go(a, seed, t0, checkfile, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def go(a, seed, t0, checkfile, tmp):
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    sys.path.insert(0, REPO)
    import warnings
    warnings.filterwarnings("ignore")
    from symx import hook
    hook.install()
    from symx import dk, harness, stubs
    stubs.install()
    import raster_tools  # noqa: F401  (instrumented)
    import z3  # noqa: F401  (import once, before forking)
    dk.install()
    mod = harness.load_check(checkfile)
    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        a.case, a.tier = rp["case"], rp["tier"]
        env = {k: (float(v) if isinstance(v, str) else v) for k, v in rp["inputs"].items()}
    cases = mod.cases(a.tier)
    names = [c.name for c in cases]
    assert len(set(names)) == len(names), "duplicate case names: %s" % [n for n in names if names.count(n) > 1]
    if a.case:
        cases = [c for c in cases if c.name == a.case or fnmatch.fnmatch(c.name, a.case)]
    by = {c.name: c for c in cases}
    known = load_known(a.prop)
    for c in cases:
        c.known = [(k, r) for k, r in c.known if k in known]
    quick = a.tier == "quick"
    if a.replay:
        got = concrete_phase(checkfile, [("r", a.case, a.tier, env, "r")], 1, tmp, 300)["r"]
        print(got)
        bad = harness.check_concrete(by[a.case], env, got[1])
        print("broken claims:", bad)
        return 1 if bad else 0
    total = float(os.environ.get("SYMX_BUDGET", 560 if quick else 5400))
    deadline = t0 + total * 0.66
    results = symbolic_phase(cases, seed, a.jobs, deadline, 240 if quick else 1500, a.v)
    tsym = time.time() - t0

    reqs = []
    for c in cases:
        r = results[c.name]
        g = c.group or c.api or c.name
        for i, (label, env) in enumerate(r.get("cex", ())):
            reqs.append((("cex", c.name, i), c.name, a.tier, env, g))
        for i, (kid, label, env) in enumerate(r.get("known", ())):
            reqs.append((("known", c.name, i), c.name, a.tier, env, g))
        for i, env in enumerate(r.get("envs", ())):
            reqs.append((("val", c.name, i), c.name, a.tier, env, g))
        if r["status"] not in ("ok",):
            # outside the encoding: still run the real code once, so that a
            # plain failure there is not hidden
            rnd = random.Random("%s|%s" % (seed, c.name))
            ins, asm = c.declare()
            env = harness.random_env(c, ins, asm, rnd)
            if env is not None:
                r.setdefault("envs", []).append(env)
                r.setdefault("expected", []).append(None)
                reqs.append((("val", c.name, len(r["envs"]) - 1), c.name, a.tier, env, g))
    reqs.sort(key=lambda q: (q[0][0] == "val",))
    got = concrete_phase(checkfile, reqs, a.jobs, tmp, max(60.0, t0 + total - time.time()))
    tcon = time.time() - t0 - tsym

    viol, incon, findings, mism, notes = [], [], {}, [], []
    validated = validated_ok = sens = sens_ok = 0
    for c in cases:
        r = results[c.name]
        if r["status"] != "ok":
            incon.append((c.name, r["status"], (r.get("error") or "").strip()))
        for l in r.get("unknown", ()):
            incon.append((c.name, "solver-unknown", l))
        confirmed = False
        for i, (label, env) in enumerate(r.get("cex", ())):
            st, out = got.get(("cex", c.name, i), ("missing", None))
            if st in ("ok", "crash"):
                bad = ["crash"] if st == "crash" else harness.check_concrete(c, env, out)
                if bad:
                    viol.append((c, label, env, bad, out, "solver"))
                    confirmed = True
                    continue
                incon.append((c.name, "counterexample-not-reproduced", label))
                if os.environ.get("SYMX_DEBUG"):
                    print("NOREPRO", c.name, label, jsonable(env), out)
            else:
                incon.append((c.name, "replay-" + st, "%s %s" % (label, str(out)[-600:])))
        for i, (kid, label, env) in enumerate(r.get("known", ())):
            st, out = got.get(("known", c.name, i), ("missing", None))
            if st == "ok" and harness.check_concrete(c, env, out):
                findings.setdefault(kid, (c.name, label))
        for i, env in enumerate(r.get("envs", ())):
            st, out = got.get(("val", c.name, i), ("missing", None))
            if st != "ok":
                if st == "harness-error":
                    incon.append((c.name, "validation-" + st, str(out)[-800:]))
                elif st == "crash":
                    viol.append((c, "crash", env, ["crash"], out, "validation"))
                else:
                    notes.append((c.name, "validation-" + st))
                continue
            validated += 1
            bad = harness.check_concrete(c, env, out)
            if bad and c.known:
                ins, _ = c.declare()
                from symx import spec, terms as tm
                if any(bool(tm.evaluate([spec.B(reg(spec.Spec(), ins))], env, default=0)[0]) for _, reg in c.known):
                    bad = []
            if bad:
                if not confirmed:
                    viol.append((c, bad[0], env, bad, out, "validation"))
                continue
            exp = r["expected"][i]
            if exp is None or exp == "uninit":
                if r["status"] == "ok" and exp is None:
                    mism.append((c.name, "no symbolic path covers a concrete input", ""))
                continue
            d = harness.compare_out(exp, out, max(c.tol, 1e-5))
            if d:
                mism.append((c.name, "encoding mismatch", "; ".join(d[:4]) + " env=%s" % jsonable(env)))
            else:
                validated_ok += 1
            if i == 0:
                sens += 1
                if sensitive(harness, c, env, out):
                    sens_ok += 1
                else:
                    notes.append((c.name, "claims insensitive to a perturbed output"))
    for m in mism:
        incon.append(m)

    # ---- report
    rdir = os.path.join(HERE, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, a.prop + "-*.json")):
        os.remove(f)
    vlines, seen = [], set()
    for n, (c, label, env, bad, out, how) in enumerate(viol):
        key = (c.name, label.split("[")[0])
        if key in seen or len(vlines) >= 20:
            continue
        seen.add(key)
        path = os.path.join(rdir, "%s-%d.json" % (a.prop, n))
        with open(path, "w") as f:
            json.dump(dict(property=a.prop, case=c.name, tier=a.tier, claim=label, broken=bad[:20], found_by=how,
                           inputs=jsonable(env), observed=str(out)[:4000],
                           reproduce="%s %s/run.py %s --replay %s" % (PY, HERE, a.prop, path)), f, indent=1)
        vlines.append("VIOLATION property=%s replay=%s" % (a.prop, path))
        print("  broken: case %s claim %s (found by %s)" % (c.name, label, how))
    for kid, (cn, label) in sorted(findings.items()):
        print("KNOWN-FINDING: property=%s %s: %s" % (a.prop, kid, known[kid]["what"]))
    for i in incon[:40]:
        print("INCONCLUSIVE: %s: %s: %s" % (i[0], i[1], i[2] if a.v or a.strict else i[2].strip().splitlines()[-1][:300] if i[2].strip() else ""))
    for n in notes[:40]:
        if a.v or a.strict:
            print("NOTE: %s: %s" % n)
    ok = [r for r in results.values() if r["status"] == "ok"]
    fn = {}
    q = dict(queries=0, unsat=0, sat=0, unknown=0, time=0.0, feas=0, feas_unknown=0)
    st = {}
    for r in results.values():
        for k, v in r.get("functions", {}).items():
            fn[k] = fn.get(k, 0) + v
        for k, v in r.get("queries", {}).items():
            q[k] = q.get(k, 0) + v
        for k, v in r.get("stats", {}).items():
            st[k] = st.get(k, 0) + v
    claims = sum(r.get("claims", 0) for r in results.values())
    disch = sum(r.get("discharged", 0) for r in results.values())
    triv = sum(r.get("trivial", 0) for r in results.values())
    bad_cases = sorted({i[0] for i in incon})
    ev = dict(
        property=a.prop, tier=a.tier, seed=seed, level=getattr(mod, "LEVEL", "model_checking"),
        coverage=dict(
            states=sum(r.get("paths", 0) or 0 for r in ok),
            transitions=st.get("forks", 0) + st.get("merges", 0),
            traces_validated_against_impl=validated_ok,
            samples=[dict(case=c.name, inputs={k: "%s %s %s chunks=%s nv=%s range=[%s,%s]" % (
                i.kind, i.dtype, i.shape, i.chunks, i.nv, i.lo, i.hi) for k, i in c.inputs.items()},
                claims=results[c.name].get("claims"), paths=results[c.name].get("paths")) for c in cases[:6]],
            explanation="states = symbolic paths (each covers every input value satisfying its path condition); "
                        "transitions = symbolic branches forked or merged",
            cases=len(cases), cases_decided=len(cases) - len(bad_cases), cases_inconclusive=bad_cases,
            claims=claims, claims_discharged=disch, claims_discharged_by_simplification=triv,
            solver_queries=q["queries"], solver_unsat=q["unsat"], solver_sat=q["sat"], solver_unknown=q["unknown"],
            feasibility_queries=q["feas"], solver_time_s=round(q["time"], 2),
            functions_encoded=sorted(fn) + sorted(getattr(mod, "FUNCTIONS", [])),
            kernel_calls_encoded=sum(fn.values()),
            bounds=getattr(mod, "BOUNDS", ""), outside=getattr(mod, "OUTSIDE", ""),
            concrete_runs=validated, oracle_sensitivity="%d/%d" % (sens_ok, sens),
            symbolic_wall_s=round(tsym, 1), concrete_wall_s=round(tcon, 1),
            known_findings=sorted(findings)),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + COMMON,
        wall_s=round(time.time() - t0, 1), violations=len(vlines))
    if not a.case:
        with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: cases %d (inconclusive %d), claims %d, discharged %d (%d by simplification), queries %d, solver %.1fs, "
          "validated %d/%d, sensitivity %d/%d, wall %.0fs (sym %.0f, con %.0f)" % (
              a.prop, a.tier, len(cases), len(bad_cases), claims, disch, triv, q["queries"], q["time"],
              validated_ok, validated, sens_ok, sens, time.time() - t0, tsym, tcon))
    for v in vlines:
        print(v)
    if vlines:
        return 1
    if a.strict and incon:
        return 3
    if len(bad_cases) >= len(cases):
        print("ERROR: no case could be decided")
        return 2
    return 0


def sensitive(harness, c, env, out):
    """Do the claims notice when one output cell is perturbed?"""
    import copy
    import numpy as np
    if isinstance(out, harness.Raised) or c.claims is None:
        return True

    def arrays(v):
        if isinstance(v, np.ndarray) and v.dtype.kind in "biuf" and v.size:
            yield v
        elif isinstance(v, dict):
            for k, x in v.items():
                if k in ("data", "mask") or not v.get("__raster__"):
                    yield from arrays(x)
        elif isinstance(v, list):
            for x in v:
                yield from arrays(x)

    n = len(list(arrays(out)))
    for i in range(n):
        o = copy.deepcopy(out)
        x = list(arrays(o))[i].reshape(-1)
        if not x.flags.writeable:
            continue
        for j in range(x.size):
            old = x[j].copy()
            x[j] = (not x[j]) if x.dtype == bool else (x[j] + 1 if x[j] == x[j] else 1)
            try:
                if harness.check_concrete(c, env, o):
                    return True
            except Exception:
                return True
            x[j] = old
    return n == 0


COMMON = [
    "numpy ufunc/array semantics as modelled by symx (validated against the real, JIT-compiled code on concrete inputs every run)",
    "floats in the 'real' encoder are exact reals plus NaN and signed infinities (rounding is not modelled); integers wrap",
    "a masked input cell holds the null value and a valid cell does not",
    "dask graph construction and the dask scheduler are trusted; tasks run one at a time",
    "z3 (and cvc5 as a fallback for unknowns) are trusted",
]

if __name__ == "__main__":
    sys.exit(main())
