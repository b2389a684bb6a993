#!/bin/bash
# builds the engine when it is missing or older than its sources
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local GOSUMDB=off
if [ ! -x "$here/bin/gosym" ] || [ -n "$(find "$here/gosym" -newer "$here/bin/gosym" -name '*.go' | head -1)" ]; then
  mkdir -p "$here/bin" && cd "$here/gosym" && go build -o "$here/bin/gosym.$$" . && mv "$here/bin/gosym.$$" "$here/bin/gosym"
fi
