#!/bin/bash
# seedcheck.sh [ID...] : which checks catch the planted bugs. Applies each to a scratch copy (VERIF_REPO), never to /repo
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  w=$(mktemp -d /tmp/sc-XXXX)
  git clone -q /repo $w/repo
  git -C $w/repo apply $PWD/seeded/$d/patch.diff || { echo "$d DOES NOT APPLY"; rm -rf "$w"; continue; }
  p=$(/opt/venv/bin/python -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  out=$(VERIF_REPO=$w/repo bash run.sh $p quick --seed ${SEED:-1} 2>&1 | grep -E "^(VIOLATION|HELD|C[0-9]+ scenario)" | head -2 | tr '\n' ' ')
  echo "$d [$p] $out"
  rm -rf "$w"
done
