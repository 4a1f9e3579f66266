#!/bin/sh
# nothing to build: check that the tools the checks need are there
set -e
cd "$(dirname "$0")/.."
python3-vt -c 'import z3, sys; print("z3", z3.get_version_string())'
clang++-18 --version | head -1
cvc5 --version | head -1
z3 --version
mkdir -p evidence
