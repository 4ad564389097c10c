#!/bin/bash
# every planted change (or those named) against the check of its property: applied to /repo, checked, undone
cd "$(dirname "$0")/.."
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$s/patch.diff" || { echo "$s: does not apply"; continue; }
  echo "$s: $(./check $p 2>&1 | grep -aE '^(VIOLATION|HELD|check|signature)' | cut -c1-120 | tr '\n' ' ')"
  git -C /repo checkout -- .
done
