#!/bin/bash
# Builds the tools, and warms the build cache.
. "$(dirname "$0")/lib.sh"
build_g2w || exit 1
T=$(mktemp -d)
build_fz "$T/fz" || { rm -rf "$T"; exit 1; }
build_fz "$T/fzrace" -race || say "no race detector"
rm -rf "$T"
why3 --version
