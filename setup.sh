#!/bin/bash
# nothing to build: checks the interpreter, numpy and the reference model against itself
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
exec /opt/venv/bin/python -B -c "
import sys; sys.path.insert(0, '.')
from dst import ref, seams
w = ref.self_test()
assert w < 1e-9, w
print('reference self test: worst disagreement', w, '- pyorb from', seams.load().__file__)"
