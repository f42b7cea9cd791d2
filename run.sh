#!/bin/sh
# Builds the simulator's control program and runs it: ./run.sh check C01,
# ./run.sh replay FILE, ./run.sh setup, ./run.sh selftest [n].
cd "$(dirname "$0")" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off GO111MODULE=on CGO_ENABLED=1
[ -n "$HOME" ] || export HOME=/root
mkdir -p .bin evidence replays || exit 2
(cd sim && go build -o ../.bin/dst.$$ ./cmd/dst) || exit 2
mv .bin/dst.$$ .bin/dst || exit 2
exec .bin/dst "$@"
