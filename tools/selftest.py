#!/usr/bin/env python3
"""setup_cmd: nothing to build; checks that the interpreters and the solver are there."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sym = os.environ.get("VERIF_PYSYM", "/opt/veriftools/pyvenv/bin/python")
real = os.environ.get("VERIF_PYREAL", "/opt/venv/bin/python")
r = subprocess.run([sym, "-c", "import z3, sys; s = z3.Solver(); x = z3.Int('x'); s.add(x > 0, x < 1); sys.exit(0 if str(s.check()) == 'unsat' else 1)"]).returncode
r |= subprocess.run([sym, "-W", "ignore", "-c", "import dv.run, dv.specs.base"], cwd=HERE, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1")).returncode
r |= subprocess.run([real, "-c", "import numpy, scipy, pandas, pyvista"], env=dict(os.environ, MPLBACKEND="Agg")).returncode
sys.exit(1 if r else 0)
