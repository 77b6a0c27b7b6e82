"""Runs scenarios on the real, uninstrumented package (JIT on, no hooks).

usage: concrete.py CHECKFILE REQUESTS.pkl RESULTS.pkl
requests: list of (key, case name, tier, env)
"""
import os
import pickle
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(checkfile, reqf, outf):
    repo = os.environ.get("SYMX_REPO", "/repo")
    sys.path.insert(0, repo)
    sys.path.insert(0, HERE)
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import warnings
    warnings.filterwarnings("ignore")
    import dask
    dask.config.set(scheduler="synchronous")
    from symx import harness
    mod = harness.load_check(checkfile)
    with open(reqf, "rb") as f:
        reqs = pickle.load(f)
    tables = {}
    out = []
    budget = float(os.environ.get("SYMX_CONCRETE_BUDGET", "1e9"))
    t0 = time.time()
    for key, name, tier, env in reqs:
        if time.time() - t0 > budget:
            out.append((key, ("skipped", None)))
            continue
        if tier not in tables:
            tables[tier] = {c.name: c for c in mod.cases(tier)}
        case = tables[tier][name]
        try:
            res = ("ok", harness.run_concrete(case, env))
        except Exception as e:
            res = ("harness-error", traceback.format_exc())
        out.append((key, res))
        with open(outf + ".part", "wb") as f:
            pickle.dump(out, f)
    with open(outf + ".part", "wb") as f:
        pickle.dump(out, f)
    os.replace(outf + ".part", outf)


if __name__ == "__main__":
    main(*sys.argv[1:4])
