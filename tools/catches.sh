#!/bin/bash
# Runs every check against every planted bug (in scratch copies of /repo) and
# writes which checks report a violation to tools/catches.txt.
cd "$(dirname "$0")/.." || exit 1
all=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")
one() { id=$1; shift; echo "$id" $(tools/try.sh "seeded/$id/patch.diff" "$@" 2>/dev/null | grep -o 'VIOLATION property=[A-Z0-9]*' | cut -d= -f2 | sort -u | tr '\n' ' '); }
export -f one
ls seeded | xargs -P 6 -I{} bash -c "one {} $all" | sort > tools/catches.new && mv tools/catches.new tools/catches.txt
