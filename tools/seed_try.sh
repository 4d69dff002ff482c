#!/bin/bash
# seed_try.sh ID...: like seed_check.sh, in a copy of /repo at /tmp/sw
export CC=gcc CXX=g++ R=/tmp/sw
if [ ! -d $R ] || [ "$(cat $R/.git/from 2>/dev/null)" != "$(git -C /repo rev-parse HEAD)" ]; then
  b=/tmp/sw_build; rm -rf $b; [ -d $R/_build ] && mv $R/_build $b; rm -rf $R; cp -a /repo $R; rm -rf $R/_build $R/.git; [ -d $b ] && mv $b $R/_build
  (cd $R; git init -q; echo "* -filter" > .git/info/attributes; echo _build > .git/info/exclude; git add -A; git commit -qm base; git -C /repo rev-parse HEAD > .git/from)
fi
cd $R; git checkout -q -- .
mkdir -p _build/inc; ln -sfn $R _build/inc/usml
grep -q _build .git/info/exclude || echo _build >> .git/info/exclude
build() { [ -f _build/build.ninja ] || cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Release -DUSML_BUILD_TESTS=ON -DUSML_BUILD_STUDIES=OFF -DCMAKE_CXX_FLAGS="-Wno-error -I$R/_build/inc" > /tmp/b.log 2>&1; ninja -C _build -j7 ${T:-libusml.so} >> /tmp/b.log 2>&1; }
trap 'git -C /tmp/sw checkout -q -- .' EXIT
S=/verif/seeded
build || { tail /tmp/b.log; exit 1; }
for id in "$@"; do
  bash $S/$id/demo.sh >/tmp/demo.log 2>&1; echo "$id base demo: $? $(tail -1 /tmp/demo.log)"
done
for id in "$@"; do
  git apply $S/$id/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
  build || echo "$id BUILD FAILS"
  bash $S/$id/demo.sh >/tmp/demo.log 2>&1; echo "$id bug demo: $? $(tail -1 /tmp/demo.log)"
  p=$(python3 -c "import json;print(json.load(open('$S/$id/meta.json'))['property'])")
  [ -n "$NOCHECK" ] || (cd /verif; USML_REPO=$R USML_BUILD=/tmp/bsw timeout 900 python3 run.py $p > /tmp/c.log 2>&1; echo "$id check $p: $? $(grep -m1 VIOLATION /tmp/c.log) $(tail -1 /tmp/c.log)")
  git checkout -q -- .
done
