#!/bin/bash
# run.sh ID [quick|thorough] [--replay FILE]: builds check ID against /repo's working tree and runs it.
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here VERIF_TIER=$TIER VERIF_SEED=${VERIF_SEED:-1} VERIF_T0=$(date +%s)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export VERIF_REPO=${VERIF_REPO:-/repo}
if [ "$3" = "--replay" ]; then
  export VERIF_ONLY=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["case"])' "$4")
fi
work=$(mktemp -d "${TMPDIR:-/tmp}/verif.$ID.XXXXXX") || exit 3
trap 'rm -rf "$work"' EXIT
export VERIF_WORK=$work
"$here/tools/build.sh" "$ID" "$work" || { echo "ERROR: $ID: build failed"; exit 3; }
cd "$here" && TMPDIR=$work "$work/check"
