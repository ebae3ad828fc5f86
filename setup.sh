#!/bin/bash
# Compiles the simulator and /repo's sources into /verif/build (not committed). Every check does this again when something changed.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
exec python3 bin/build.py
