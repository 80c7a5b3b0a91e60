#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [--replay FILE]
# builds the drivers from /repo's working tree, then runs the check.
cd "$(dirname "$0")" || exit 3
. /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local
mkdir -p bin evidence
tier=${2:-${VERIF_TIER:-quick}}
bash build.sh "$1" || { echo "$1: the drivers do not build"; exit 3; }
exec node --stack-size=3000 lib/mon.js "$1" "$tier" $3 $4
