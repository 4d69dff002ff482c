#!/bin/bash
# seed_check.sh [-t] ID...: demo and check against each planted bug, applied to
# /repo and undone; -t: also the repository's tests with all of them applied
tests=; [ "$1" = -t ] && { tests=1; shift; }
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
S=/verif/seeded
bash /opt/vp/build.sh >/dev/null 2>&1
for id in "$@"; do
  bash $S/$id/demo.sh >/tmp/demo.log 2>&1; echo "$id base demo: $? $(tail -1 /tmp/demo.log)"
done
for id in "$@"; do
  git apply $S/$id/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
  bash /opt/vp/build.sh >/tmp/b.log 2>&1 || echo "$id BUILD FAILS"
  bash $S/$id/demo.sh >/tmp/demo.log 2>&1; echo "$id bug demo: $? $(tail -1 /tmp/demo.log)"
  p=$(python3 -c "import json;print(json.load(open('$S/$id/meta.json'))['property'])")
  (cd /verif; timeout 900 python3 run.py $p > /tmp/c.log 2>&1; echo "$id check $p: $? $(grep -m1 VIOLATION /tmp/c.log) $(tail -1 /tmp/c.log)")
  git checkout -q -- .
done
if [ -n "$tests" ]; then
  for id in "$@"; do git apply $S/$id/patch.diff || echo "$id does not stack"; done
  bash /verif/tools/runtests.sh
fi
