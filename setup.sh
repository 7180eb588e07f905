#!/bin/bash
# nothing to build: the checks import /repo directly; verify that the tools are there
set -e
cd "$(mktemp -d)"
/opt/venv/bin/python -c "
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, cvc5, numpy, pyomo
print('z3', z3.get_version_string(), 'cvc5', cvc5.__version__)
"
