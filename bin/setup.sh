#!/bin/bash
# Prebuild the executable contracts (git-ignored cache); every check rebuilds what changed.
set -e
cd "$(dirname "$0")/.."
python3 bin/build.py $(cd harness && ls P*.cc | sed 's/\.cc$//')
