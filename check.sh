#!/bin/bash
# check.sh <ID> [args]: rebuild from /repo, regenerate and discharge the property's obligations.
cd "$(dirname "$0")" || exit 3
ID=$1; shift
bash tools/build.sh || { echo "cannot build /repo"; exit 3; }
exec timeout 850 python3-vt vc/run.py "$ID" "$@"
