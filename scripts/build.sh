#!/bin/bash
# Builds the verifier into /verif/.bin.
set -e
. "$(dirname "$0")/env.sh"
mkdir -p "$VERIF/.bin"
cd "$VERIF/tool"
go build -o "$VERIF/.bin/govc" .
