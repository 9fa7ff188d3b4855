#!/bin/bash
# nothing to build: checks that the interpreter, the code under test and gcc are there
set -e
cd "$(dirname "$0")/.."
/opt/venv/bin/python -B -c 'import numpy, scipy, sys; print(sys.version)'
gcc --version | head -1
