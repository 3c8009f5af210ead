#!/bin/bash
# Nothing to compile: the specifications are read by TLC, the drivers by /opt/venv/bin/python.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
java -version 2>&1 | head -1
test -r /opt/veriftools/tla/tla2tools.jar && /opt/venv/bin/python -c "import h5py, numpy, spectrocrunch"
