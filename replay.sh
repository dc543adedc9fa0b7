#!/bin/bash
# replay.sh FILE: runs the case in a replay file against /repo.
F=$(realpath "$1")
. "$(dirname "$0")/lib.sh"
P=$(sed -n 's/.*"property": *"\(C[0-9]*\)".*/\1/p' "$F" | head -1)
if ! grep -q '"Case"' "$F"; then
	exec bash "$V/check.sh" "$P"
fi
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
build_fz "$T/fz" || exit 2
"$T/fz" -mode replay -file "$F" -prop "$P"
