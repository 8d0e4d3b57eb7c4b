#!/bin/bash
# Nothing has to persist: every check builds what it needs from /repo's current tree.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence .cache
python3 -c 'import sys; sys.path.insert(0, "vcg"); from vcg import build; print(build.ROOT)'
