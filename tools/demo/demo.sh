#!/bin/bash
# runs main.go (beside this file) against the repository in the current directory
d=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS="-mod=readonly -buildvcs=false" GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
r=$(pwd -P)
printf '{"Replace":{"%s/verifdemo/main.go":"%s/main.go","%s/verifdemo/lib.go":"%s/lib.go"}}\n' "$r" "$d" "$r" "$d" > "$t/o.json"
cd "$r" && go build -overlay "$t/o.json" -o "$t/demo" ./verifdemo || exit 3
cd "$t" && timeout 120 ./demo
