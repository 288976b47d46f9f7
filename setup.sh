#!/bin/bash
# Builds the compiler driver and the fact base once (each check rebuilds what is missing or stale by itself).
cd "$(dirname "$0")"
python3 -c "
from analysis import run
run.facts()
"
