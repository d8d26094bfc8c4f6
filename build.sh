#!/bin/bash
# builds the analyser into .build (git-ignored) when its sources are newer
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor
bin=$here/.build/rsrcheck
if [ -x "$bin" ] && [ -z "$(find "$here/analyzer" -newer "$bin" \( -name '*.go' -o -name 'go.mod' \) -print -quit)" ]; then exit 0; fi
mkdir -p "$here/.build"
cd "$here/analyzer" && go build -o "$bin.$$" ./cmd/rsrcheck && mv "$bin.$$" "$bin"
