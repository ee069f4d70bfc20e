#!/bin/bash
# Builds the engine (bin/gosym) from the committed sources; offline.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
export PATH="$PATH:/usr/local/bin:/usr/local/go/bin:/opt/veriftools/go1.27.3/bin"
export HOME="${HOME:-/root}"
mkdir -p bin build
(cd engine && CGO_ENABLED=0 go build -o ../bin/gosym .) || exit 2
