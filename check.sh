#!/bin/bash
# check.sh PROPERTY [quick|thorough] [engine flags]
# Builds the engine from /verif/engine and decides PROPERTY on /repo's current tree.
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
shift; shift
here=$(cd "$(dirname "$0")" && pwd) || exit 2
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH="${GOPATH:-/root/go}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$here/engine" && go build -o "$tmp/engine" .) || exit 2
"$tmp/engine" -prop "$prop" -tier "$tier" -verif "$here" -repo /repo "$@"
