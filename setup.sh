#!/bin/bash
# Build the engine and warm the Go build cache with the harnesses.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1 GOTOOLCHAIN=local
(cd engine && go build -buildvcs=false -o gosym .) || exit 1
engine/gosym -verif "$PWD" -gen || exit 1
(cd harness && go build -buildvcs=false ./...) || exit 1
exit 0
