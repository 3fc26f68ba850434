#!/bin/bash
# nothing to build: the engine is Python; check that its interpreter and solver are present
cd "$(dirname "$0")"
/opt/venv/bin/python -B -c "
import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy, scipy, z3, sympy; print('ok', numpy.__version__, z3.get_version_string())"
