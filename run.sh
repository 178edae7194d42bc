#!/bin/bash
# ./run.sh ID [quick|thorough]        decide a property
# ./run.sh explore HARNESS [secs] [0|1]   run one harness, verbosely
# ./run.sh replay FILE                replay a reported violation natively
# ./run.sh build                      build the engine only
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD GOPROXY=off GOTOOLCHAIN=local
export GOCACHE=${GOCACHE:-$(go env GOCACHE)}
if ! mkdir -p "$GOCACHE" 2>/dev/null || [ ! -w "$GOCACHE" ]; then export GOCACHE=$(mktemp -d); fi
bin=$PWD/engine/engine
if [ ! -x "$bin" ] || [ -n "$(find engine -name '*.go' -newer "$bin" -not -path '*/vendor/*' -print -quit)" ]; then
  (cd engine && GOFLAGS=-mod=vendor GOWORK=off CGO_ENABLED=0 go build -o engine.$$ . && mv engine.$$ engine) || exit 2
fi
case "$1" in
build) exit 0 ;;
explore | replay) exec "$bin" "$@" ;;
*) exec "$bin" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
