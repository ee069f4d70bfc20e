#!/bin/bash
# check.sh <property> <quick|thorough>: decides one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
V="$PWD"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
export PATH="$PATH:/usr/local/bin:/usr/local/go/bin:/opt/veriftools/go1.27.3/bin"
export HOME="${HOME:-/root}"
bash setup.sh || exit 2
exec "$V/bin/gosym" run -prop "$1" -tier "${2:-quick}" -repo "${REPO:-/repo}" -verif "$V"
