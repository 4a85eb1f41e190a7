#!/bin/bash
# try.sh PATCH ID...: runs checks against a copy of /repo with PATCH applied.
p=$(readlink -f "$1"); shift
d=$(mktemp -d /tmp/try.XXXXXX)
git clone -q /repo "$d/repo" && cd "$d/repo" && git apply "$p" || { echo "patch does not apply"; exit 9; }
mkdir "$d/verif"; cp /verif/known-findings.txt "$d/verif/"
go build ./... >/dev/null || { echo "does not build"; rm -rf "$d"; exit 8; }
/verif/.bin/wegocheck -repo "$d/repo" -verif "$d/verif" "$@"; rc=$?
rm -rf "$d"; exit $rc
