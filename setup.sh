#!/bin/sh
# nothing to build: the checks read /repo's working tree on every run.  Sanity only.
cd "$(dirname "$0")" && /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '.')
from dv import tools
import z3, sympy, cvc5
print('solvers', z3.get_version_string(), sympy.__version__)
"
