#!/bin/bash
# nothing to build: the checks compile what they need from /repo; make sure the tools are there
set -e
for t in clang++-18 python3-vt cvc5; do command -v $t >/dev/null || command -v ${t%-18} >/dev/null || { echo "missing $t"; exit 1; }; done
python3-vt -c 'import z3, numpy'
mkdir -p "$(dirname "$0")/evidence" "$(dirname "$0")/replays"
echo ok
