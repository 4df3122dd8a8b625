#!/bin/bash
# Builds the symbolic executor (offline, from the committed sources) into bin/.
V=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
export GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod
mkdir -p "$V/bin" && cd "$V/gosym" || exit 1
if [ -x "$V/bin/gosym" ] && [ -z "$(find . -newer "$V/bin/gosym" -name '*.go' -print -quit)" ]; then exit 0; fi
exec go build -o "$V/bin/gosym" .
