#!/bin/bash
# usage: run.sh PROPERTY [mc arguments]   (tier from VERIF_TIER, default quick)
# Builds the model checker against /repo's current working tree and runs one
# property. Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken.
set -u
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME="${HOME:-/root}"
export PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin:${PATH:-}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
export GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
PROP=$1; shift
mkdir -p "$HERE/evidence"
B=$(mktemp -d /tmp/lpgmc.XXXXXX) || exit 2
trap 'rm -rf "$B"' EXIT
built=
RACE=
[ "$PROP" = C26 ] && RACE=-race
export GORACE="halt_on_error=1 exitcode=66"
if python3 "$HERE/tools/overlay.py" "$(go env GOROOT)" "$B/ov" >"$B/ov.log" 2>&1 &&
   (cd "$HERE/mc" && go build $RACE -tags verifmaps -overlay "$B/ov/overlay.json" -o "$B/mc" .) >"$B/build.log" 2>&1; then
	built=1
elif (cd "$HERE/mc" && go build $RACE -o "$B/mc" .) >"$B/build2.log" 2>&1; then
	echo "note: map order overlay not usable, running with ordinary map order" >&2
	cat "$B/ov.log" "$B/build.log" >&2 2>/dev/null
	built=1
fi
if [ -z "$built" ]; then
	cat "$B"/*.log >&2
	echo "error: cannot build the checker against /repo" >&2
	exit 2
fi
"$B/mc" -prop "$PROP" -tier "${VERIF_TIER:-quick}" -verif "$HERE" -scratch "$B" "$@"
exit $?
