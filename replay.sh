#!/bin/bash
# replay.sh FILE: run the real code on a recorded counterexample; exit 1 when it fails.
f=$(readlink -f "$1"); cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GOTOOLCHAIN=local
[ -x engine/gosym ] || (cd engine && go build -buildvcs=false -o gosym .) || exit 2
exec engine/gosym -verif "$PWD" -replay "$f"
