#!/bin/bash
# Nothing to build: the checks compile the repository's modules from its working tree at every run.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
/opt/venv/bin/python -c "import numpy, scipy, h5py, sympy, bitarray"
