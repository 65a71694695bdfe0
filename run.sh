#!/bin/bash
# Usage: run.sh <property id>. Builds the harness from /repo's working tree and
# runs the check of the property. VERIF_SEED and VERIF_TIER are honoured.
set -u
id=$1
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$here
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
export HOME=${HOME:-/root}
export GOROOT=/opt/veriftools/go1.27.3
export PATH=$GOROOT/bin:$PATH
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GOOS GOARCH
work=$(mktemp -d "${TMPDIR:-/tmp}/vh-$id-XXXXXX") || exit 3
trap 'find "$work" -depth -delete' EXIT
. "$here/prep.sh"
race=
[ "$id" = C02 ] && race=-race
(cd "$here/harness" && go build $race -modfile="$work/go.mod" -o "$work/vh" .) || { echo "build failed" >&2; exit 4; }
export VH_WORK=$work
cd "$here"
"$work/vh" "$id"
rc=$?
exit $rc
