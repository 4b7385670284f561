#!/bin/bash
# Warms the build cache: compiles the monitors once with and once without the
# race detector, from /repo's current tree, in a scratch directory.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
[ -f "$REPO/go.mod" ] || cp /opt/vp/mod/go.mod "$REPO/go.mod"
[ -f "$REPO/go.sum" ] || cp /opt/vp/mod/go.sum "$REPO/go.sum"
WORK=$(mktemp -d "${TMPDIR:-/tmp}/verif-setup-XXXXXX") || exit 1
trap 'rm -rf -- "$WORK"' EXIT
cp -r "$HERE/harness/." "$WORK/"
cd "$WORK" || exit 1
sed -i "s#=> /repo\$#=> $REPO#" go.mod
go build -o mon ./cmd/mon && go build -race -o monrace ./cmd/mon
