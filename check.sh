#!/bin/bash
# check.sh ID [quick|thorough]: decides one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
tier="${2:-${VERIF_TIER:-quick}}"
./build.sh || { echo "ERROR engine build failed"; exit 2; }
exec ./bin/verif check "$1" -tier "$tier"
