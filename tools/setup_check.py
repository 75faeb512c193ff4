"""Nothing to build: the encoding is regenerated from /repo's source on every run.  Confirms the tools are there."""
import sys

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy  # noqa: E402
import z3  # noqa: E402

s, x = z3.Solver(), z3.Real('x')
s.add(x * x == 2, x > 0)
assert s.check() == z3.sat
print('z3', z3.get_version_string(), 'numpy', numpy.__version__)
