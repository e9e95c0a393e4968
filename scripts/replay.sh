#!/bin/bash
# replay.sh FILE runs the failing inputs of a replay file on the code again.
"$(dirname "$0")/build.sh" || exit 2
. "$(dirname "$0")/env.sh"
exec "$VERIF/.bin/govc" replay -verif "$VERIF" -repo "$REPO" "$1"
