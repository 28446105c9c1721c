#!/bin/bash
# check.sh PROPERTY: builds the engine if needed and decides one property against /repo's working tree.
cd "$(dirname "$0")" || exit 2
. ./env.sh
./build.sh >/dev/null || { echo "INCONCLUSIVE: the engine does not build"; exit 2; }
exec ./bin/gosym check "$@"
