# Common parts of the scripts: builds the tools when they are not there.
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
R=/repo
say() { echo "$@" >&2; }
build_g2w() {
	mkdir -p "$V/bin"
	if [ ! -x "$V/bin/g2w" ] || [ -n "$(find "$V/go2why" -newer "$V/bin/g2w" -print -quit)" ]; then
		local t; t=$(mktemp "$V/bin/g2w.XXXXXX")
		(cd "$V/go2why" && go build -o "$t" .) && chmod 755 "$t" && mv "$t" "$V/bin/g2w"
	fi
}
# build_fz OUT [flags]: the falsifier, built against /repo's working tree.
build_fz() {
	local out=$1; shift
	local ov; ov=$(mktemp)
	{
		printf '{"Replace":{'
		local sep=
		for f in "$V"/falsify/*.go; do
			printf '%s"%s/zzverif/%s":"%s"' "$sep" "$R" "$(basename "$f")" "$f"
			sep=,
		done
		printf '}}'
	} > "$ov"
	(cd "$R" && go build "$@" -overlay "$ov" -o "$out" ./zzverif)
	local rc=$?
	rm -f "$ov"
	return $rc
}
