#!/bin/sh
# nothing to install: checks that the tools the checks use are present
set -e
cd "$(dirname "$0")"
for t in /usr/bin/clang++-18 /usr/bin/llvm-link-18 /usr/bin/g++ /usr/bin/python3.12 /opt/veriftools/pyvenv/bin/python; do
    test -x "$t" || { echo "missing $t"; exit 1; }
done
/opt/veriftools/pyvenv/bin/python -B -c 'import z3; print("z3", z3.get_version_string())'
