#!/bin/bash
# Nothing is compiled: the framework is Python, run by the repository's own interpreter with z3 appended to its path.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -c "
import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, torch; print('z3', z3.get_version_string(), 'torch', torch.__version__)"
cvc5 --version | head -1
mkdir -p evidence
