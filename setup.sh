#!/bin/bash
# nothing to build: the verifier is Python (python3-vt: z3, cvc5), contracts are compiled by clang++ at every check
set -e
command -v clang++ >/dev/null
python3-vt -c 'import z3, cvc5'
