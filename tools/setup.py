"""Checks that the tools the checks rely on are there; nothing is built ahead of time."""
import os
import sys

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3  # noqa: E402,F401
import numpy, numba, dask, xarray, scipy  # noqa: E402,E401,F401

print("z3", z3.get_version_string(), "numpy", numpy.__version__, "numba", numba.__version__)
