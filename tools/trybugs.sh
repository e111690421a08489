#!/bin/bash
# tools/trybugs.sh [id...]: runs each planted bug's own check against it.
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  p=${PROP:-$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")}
  git -C "${CREVICE_REPO:-/repo}" apply "$PWD/seeded/$d/patch.diff" || { echo "$d: does not apply"; continue; }
  s=$SECONDS
  out=$(python3 run.py $p 2>&1); code=$?
  git -C "${CREVICE_REPO:-/repo}" checkout -q -- .
  echo "$d $p exit $code $((SECONDS-s)) s: $(echo "$out" | grep -v KNOWN | head -1 | cut -c1-300)"
done
