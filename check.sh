#!/bin/bash
# check.sh PROPERTY: proves the contracts of the property's functions, as
# translated from /repo's working tree, and searches for failing inputs.
P=$1
. "$(dirname "$0")/lib.sh"
mkdir -p "$V/evidence" "$V/replays"
S=$(mktemp -d)
trap 'rm -rf "$S"' EXIT
fail() { # the tree does not build with our tools: say so as a violation
	printf '{"property":"%s","failed_obligations":["%s"]}\n' "$P" "$1" > "$V/replays/$P-build.json"
	cat "$S/log" | head -20
	echo "VIOLATION property=$P replay=$V/replays/$P-build.json no-failing-input-found"
	exit 1
}
build_g2w > "$S/log" 2>&1 || { cat "$S/log"; exit 3; }
build_fz "$S/fz" > "$S/log" 2>&1 || fail "the package does not build"
B="$S/fz"
if [ "$P" = C20 ]; then
	build_fz "$S/fzrace" -race > "$S/log" 2>&1 && B="$B,$S/fzrace"
fi
TMPDIR="$S" "$V/bin/g2w" -contracts "$V/contracts" check "$P" "$B" "$V/evidence/$P.json" "$V/replays"
