#!/bin/bash
# Runs the program beside this file inside the repository in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
O="{\"Replace\":{\"$PWD/pkg/verifdemo/main.go\":\"$D/main.go\",\"$PWD/pkg/verifdemo/lib.go\":\"$D/lib.go\"}}"
DEMO_DIR="$D" GOFLAGS=-mod=readonly GOPROXY=off timeout 200 go run -overlay <(echo "$O") ./pkg/verifdemo
