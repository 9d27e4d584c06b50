#!/bin/bash
# Builds the engine from the committed sources (offline, vendored dependencies).
V=$(cd "$(dirname "$0")" && pwd)
cd "$V/engine" || exit 1
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off GO111MODULE=on CGO_ENABLED=0 GOFLAGS=-mod=vendor
if [ -x ../bin/gosym ] && [ -z "$(find . -name '*.go' -newer ../bin/gosym -print -quit)" ]; then exit 0; fi
mkdir -p ../bin && go build -o ../bin/gosym.$$ . && mv ../bin/gosym.$$ ../bin/gosym
