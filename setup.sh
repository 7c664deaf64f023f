#!/bin/bash
# nothing to install: only check that the tools the checks use are there
set -e
/opt/veriftools/pyvenv/bin/python3 -c 'import z3'
command -v clang++ >/dev/null
command -v cvc5 >/dev/null
