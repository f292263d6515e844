#!/bin/bash
# builds the harness once in both flavours, which warms the build cache
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p "$here/.build" "$here/evidence" "$here/replay"
cd "$here/harness"
go vet ./fw ./ref
go build -o "$here/.build/vh" .
go build -race -o "$here/.build/vh-race" .
go test -count=1 ./ref >/dev/null
