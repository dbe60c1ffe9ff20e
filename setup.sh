#!/bin/bash
# Nothing to build: verifies that the interpreter and the solvers answer.
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh 2>/dev/null || true
echo '(check-sat)' | z3-new -in
/opt/venv39/bin/python -c 'import numpy, scipy, pandas'
mkdir -p evidence
