#!/bin/bash
# each repair undone in turn (where it can be on its own): the checks must report it. usage: unfix.sh "C13 C14" [COMMIT..]
ids=$1; shift
for c in ${@:-$(git -C /repo log --format=%h --grep=^fix:)}; do
  echo "== $(git -C /repo log -1 --format='%h %s' $c)"
  if git -C /repo show $c | git -C /repo apply -R 2>/dev/null; then
    for i in $ids; do /verif/check $i 2>&1 | grep -aE "^(VIOLATION|signature|check|error)" | tr '\n' ' ' ; done; echo
    git -C /repo checkout -- .
  else echo "   (does not revert alone)"; fi
done
