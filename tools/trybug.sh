#!/bin/bash
# trybug.sh ID [PROPERTY] [flags]: run a property's quick check against a seeded bug, then undo it.
V=$(cd "$(dirname "$0")/.." && pwd)
id=$1; p=${2:-$(python3 -c "import json,sys;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}; shift; shift
git -C /repo apply "$V/seeded/$id/patch.diff" || exit 2
s=$(date +%s)
timeout 900 "$V/check.sh" "$p" quick -noev "$@" > /tmp/trybug.out 2>&1; rc=$?
git -C /repo checkout -- .
echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -m2 -A0 'assert:\|VIOL' /tmp/trybug.out | tr '\n' ' ' | cut -c1-200)"
