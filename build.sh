#!/bin/bash
# Builds the engine into build/gosym when it is absent or older than its source.
here=$(cd "$(dirname "$0")" && pwd)
bin=$here/build/gosym
if [ -x "$bin" ] && [ -z "$(find "$here/engine" -newer "$bin" -name '*.go' -print -quit)" ]; then
	exit 0
fi
mkdir -p "$here/build"
cd "$here/engine" || exit 1
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
unset GOROOT
GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local go build -o "$bin.$$" . && mv "$bin.$$" "$bin"
