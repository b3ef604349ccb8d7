#!/bin/bash
# check.sh ID TIER: build the engine when needed and run one check.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
if [ ! -x bin/gosym ] || [ -n "$(find gosym -newer bin/gosym -name '*.go' -print -quit)" ]; then
  mkdir -p bin
  (cd gosym && go build -o ../bin/gosym.$$ . && mv ../bin/gosym.$$ ../bin/gosym) || { echo "cannot build the engine" >&2; exit 2; }
fi
[ "$1" = setup ] && exit 0
exec bin/gosym check "$1" -tier "${2:-quick}" "${@:3}"
