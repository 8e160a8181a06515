#!/bin/bash
# Builds the symbolic executor from the committed sources (offline).
here=$(cd "$(dirname "$0")" && pwd)
export CGO_ENABLED=0 GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
cd "$here/engine" && exec go build -o "$here/bin/vsym" ./cmd/vsym
