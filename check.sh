#!/bin/bash
# check.sh CXX [runner options]: decides one property against /repo's working tree
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
cd "$here" || exit 2
exec "$VERIF_PY" -W ignore -m pbt.runner "$@"
