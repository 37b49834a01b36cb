#!/bin/bash
# check.sh PROPERTY [quick|thorough] [engine flags]: decide one property.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1 GOTOOLCHAIN=local CGO_ENABLED=${CGO_ENABLED:-1}
id=$1
tier=${2:-${VERIF_TIER:-quick}}
shift; shift
V=$PWD
build() { (cd engine && go build -buildvcs=false -o gosym .) || exit 2; }
if [ ! -x engine/gosym ]; then build; else
  for f in engine/*.go engine/go.mod; do [ "$f" -nt engine/gosym ] && { build; break; }; done
fi
exec engine/gosym -verif "$V" -p "$id" -tier "$tier" "$@"
