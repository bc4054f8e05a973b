#!/bin/bash
# check.sh <property> [quick|thorough]   run a check
# check.sh replay <file>                 replay a counterexample on the native build
# check.sh setup                         build the engine
set -u
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GONOSUMDB='*' GOWORK=off
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
unset CC CPP CGO_ENABLED
here=$(cd "$(dirname "$0")" && pwd)
bin="$here/.bin/vengine"
mkdir -p "$here/.bin"
(cd "$here/engine" && go build -buildvcs=false -o "$bin" .) || { echo "engine build failed" >&2; exit 2; }
export GOFLAGS="-mod=readonly -buildvcs=false"
case "${1:-}" in
  setup) exit 0 ;;
  replay) exec "$bin" replay -root "$here" "$2" ;;
esac
tier="${2:-${VERIF_TIER:-quick}}"
exec "$bin" check -root "$here" -tier "$tier" -seed "${VERIF_SEED:-1}" "$1"
