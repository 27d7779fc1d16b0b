#!/bin/bash
# Nothing is fetched or installed: the checks run from the committed files with the tools of the sandbox.
set -e
cd "$(dirname "$0")"
for t in /usr/bin/clang++-18 g++-14 cvc5 z3-new; do command -v "$t" >/dev/null || { echo "missing $t"; exit 1; }; done
/opt/veriftools/pyvenv/bin/python3 -c 'import z3; import vc.program, vc.solver, vc.lemmas; print("z3", z3.get_version_string())'
mkdir -p evidence
