#!/bin/sh
# nothing is built ahead: every check compiles /repo's current sources itself; this verifies that the tools are there
set -e
command -v clang++ >/dev/null
command -v g++ >/dev/null
/opt/veriftools/pyvenv/bin/python3 -c 'import z3; print("z3", z3.get_version_string())'
