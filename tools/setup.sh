#!/bin/bash
# Builds the harness against /repo and generates the specification traces for VERIF_SEED.
cd "$(dirname "$0")/.." && exec python3 tools/check.py --setup
