#!/bin/bash
# nothing to compile: check that the interpreter and the solver the checks use are there
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c "
from vf.runner import setup_path
setup_path()
import z3, numpy, cdmir.graph
print('z3', z3.get_version_string(), 'numpy', numpy.__version__)
"
