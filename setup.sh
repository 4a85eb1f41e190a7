#!/bin/bash
# setup.sh: builds the checker.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GONOSUMDB='*' GOTOOLCHAIN=local
mkdir -p .bin evidence
# the inliner of x/tools is internal: a copy of the module gives access to it
cd checker || exit 2
T=$(go list -m -f '{{.Dir}}' golang.org/x/tools) || exit 2
if [ ! -f ../.bin/xtools/wegoinline/w.go ] || ! cmp -s inliner/wegoinline.go.txt ../.bin/xtools/wegoinline/w.go; then
	rm -rf "$PWD/../.bin/xtools"
	mkdir -p ../.bin/xtools/wegoinline && cp -r "$T/go" "$T/internal" "$T/go.mod" "$T/go.sum" ../.bin/xtools/ || exit 2
	chmod -R u+w ../.bin/xtools
	cp inliner/wegoinline.go.txt ../.bin/xtools/wegoinline/w.go || exit 2
fi
cp go.mod ../.bin/alt.mod && cp go.sum ../.bin/alt.sum || exit 2
echo "replace golang.org/x/tools => $PWD/../.bin/xtools" >> ../.bin/alt.mod
go build -modfile=../.bin/alt.mod -o ../.bin/wegocheck .
