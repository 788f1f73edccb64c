#!/bin/bash
# check.sh ID [-thorough] | replay FILE: builds the checker from /repo's
# working tree and runs one check.
export HOME=${HOME:-/root} LC_ALL=C.UTF-8 TERM=dumb
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GOROOT
VERIF_ROOT=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_ROOT REPO=${REPO:-/repo}
mkdir -p "$VERIF_ROOT/.build" "$VERIF_ROOT/evidence" || exit 2
cd "$VERIF_ROOT/mc" || exit 2
bin=$VERIF_ROOT/.build/mc
go build -o "$bin" ./cmd/mc || { echo "the checker does not build" >&2; exit 2; }
[ "$1" = setup ] && exit 0
for last; do :; done
if [ "$last" = C23 ] || { [ "$1" = replay ] && grep -q '"C23"' "$last"; }; then
	. "$VERIF_ROOT/gen.sh"
	cd "$VERIF_ROOT" && "$bin" "$@"
	exit
fi
cd "$VERIF_ROOT" && exec "$bin" "$@"
