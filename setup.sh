#!/bin/bash
# Checks that the harness builds; checks rebuild it themselves.
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
cd "$HERE/harness" && /usr/lib/go-1.21/bin/go build -buildvcs=false -o /dev/null ./cmd/jv
