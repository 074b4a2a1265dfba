#!/bin/bash
# check.sh ID [quick|thorough]: rebuild from /repo's working tree, then decide one property.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$V"
"$V/build.sh" || exit 2
exec "$V/harness/target/debug/harness" check "$1" "${2:-${VERIF_TIER:-quick}}" "${VERIF_SEED:-1}"
