#!/bin/bash
# nothing to install: the verifier is Python run by the preinstalled python3-vt
cd "$(dirname "$0")/.." || exit 1
python3-vt -c "import z3, sympy, mpmath, numpy" && gfortran --version | head -1 && python3-vt -m compileall -q dv >/dev/null; exit 0
