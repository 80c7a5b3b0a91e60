#!/bin/bash
# usage: build.sh PROPERTY - build what the property's check needs from /repo's working tree
cd "$(dirname "$0")/harness" || exit 3
. /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local
ROOT=$(cd .. && pwd)
mkdir -p ../bin
b() { go build "${@:2}" -o ../bin/"$1" ./cmd/"${1%_race}"; }
fe() { b vdrv && (cd /repo && export GOFLAGS=-buildvcs=false && go build -o "$ROOT"/bin/mole_cli ./cli && GOOS=js GOARCH=wasm go build -o "$ROOT"/bin/mole.wasm ./wasm); }
case "$1" in
all) fe && b vdrv_race -race && b vutil && b vutil_race -race ;;
C23) fe ;;
C24) b vdrv_race -race ;;
C17 | C18 | C19) b vutil_race -race ;;
C20 | C21 | C22) b vutil ;;
*) b vdrv ;;
esac
