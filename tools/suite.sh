#!/bin/bash
# Applies the edits in tools/suite to a scratch copy of /repo and runs the
# checks that each is about: suite.sh [name...] (all by default). Mutants
# (after MUT) are to be caught, refactorings (after REF) to be quiet; the lines
# that this is not true of are listed at the end. BUILD FAIL or NOT FOUND means
# that an edit no longer applies.
cd "$(dirname "$0")" || exit 1
export SUITE_DIR=$(mktemp -d) MUT="$PWD/mut.py"
trap 'rm -rf "$SUITE_DIR"' EXIT
if [ $# -eq 0 ]; then set -- $(ls suite | sed 's/\.sh$//'); fi
for n in "$@"; do
  echo "== $n"
  bash "suite/$n.sh" 2>&1 | cut -c1-260 | awk '/^MUT|^REF/{l=$0;next} /^C[0-9]/{k=substr(l,1,3); if (k=="MUT" && /quiet/ || k=="REF" && /CAUGHT/) print $0" <- "l; n++} /NOT FOUND|BUILD FAIL/{print $0" <- "l} END{print n" runs"}'
done
