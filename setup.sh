#!/bin/bash
# Warms the Go build cache; every check also builds on its own.
cd "$(dirname "$0")" || exit 1
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
export HOME=${HOME:-/root} GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build} VERIF_REPO=${VERIF_REPO:-/repo}
w=$(mktemp -d) || exit 1
trap 'rm -rf "$w"' EXIT
tools/build.sh C04 "$w" || exit 1
if [ -d mc/c13 ]; then tools/build.sh C13 "$w" || exit 1; fi
exit 0
