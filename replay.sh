#!/bin/bash
# replay.sh FILE: re-runs a reported counterexample natively against the current /repo (rebuilds the harness); prints the outcome
cd "$(dirname "$0")" && exec python3 tools/replay.py "$1"
