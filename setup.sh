#!/bin/bash
# Compiles the harness once; every check rebuilds what it needs itself.
cd "$(dirname "$0")/harness" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GOSUMDB=off HOME=${HOME:-/root}
go build ./... && go vet ./... >/dev/null
