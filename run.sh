#!/bin/bash
# run.sh ID...: build the checker from the committed sources and decide the properties.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GONOSUMDB='*' GOTOOLCHAIN=local
mkdir -p .bin evidence
./setup.sh || exit 2
exec env -u GOFLAGS ./.bin/wegocheck -repo "${REPO:-/repo}" -verif "$PWD" "$@"
