#!/bin/bash
# check.sh PROPERTY [quick|thorough]
"$(dirname "$0")/build.sh" || exit 2
. "$(dirname "$0")/env.sh"
cd "$VERIF"
exec "$VERIF/.bin/govc" check -verif "$VERIF" -repo "$REPO" -property "$1" -tier "${2:-${VERIF_TIER:-quick}}" -seed "${VERIF_SEED:-1}"
