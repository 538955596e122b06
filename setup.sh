#!/bin/bash
# nothing to build: verifies that the code under test and the vendored Hypothesis can be imported
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
cd "$here" && mkdir -p evidence replays && exec "$VERIF_PY" -W ignore -c "import hypothesis, nevergrad; print(hypothesis.__version__, nevergrad.__file__)"
