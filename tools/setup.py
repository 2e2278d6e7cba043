"""checks that the tools the checks need are there; nothing is built (the checks instrument /repo's source when they run)"""
import subprocess, sys
PY = "/opt/venv/bin/python"
code = """
import sys; sys.path.insert(0, '.')
from pyvc import core
import z3, cvc5, numpy, scipy
print('z3', z3.get_version_string(), 'cvc5', cvc5.__version__, 'numpy', numpy.__version__, 'scipy', scipy.__version__)
x = z3.Int('x'); s = z3.Solver(); s.add(x > 0, x < 0); assert s.check() == z3.unsat
"""
sys.exit(subprocess.call([PY, "-c", code], env={"PYTHONDONTWRITEBYTECODE": "1", "PATH": "/usr/bin:/bin", "MPLBACKEND": "Agg"}))
