#!/bin/bash
# Warms the build cache for the checks. Nothing else is installed.
here=$(cd "$(dirname "$0")" && pwd)
export GOROOT=/opt/veriftools/go1.27.3
export PATH=$GOROOT/bin:$PATH
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off HOME=${HOME:-/root}
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
work=$(mktemp -d) || exit 1
trap 'find "$work" -depth -delete' EXIT
. "$here/prep.sh"
cd "$here/harness" || exit 1
go build -modfile="$work/go.mod" -o "$work/vh" . || exit 1
go build -race -modfile="$work/go.mod" -o "$work/vh" . || exit 1
exit 0
