#!/bin/bash
# seed.sh ID...: confirm planted bugs in the scratch copy /tmp/sw (see DESIGN.md): applies, builds, passes the stable tests, demo 0 -> nonzero
cd /tmp/sw/repo || exit 3
git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD && git clean -qfd
bash /tmp/sw/build.sh >/tmp/sw/build.log 2>&1 || { echo clean build failed; exit 1; }
for id in "$@"; do
  d=/tmp/sw/demo; rm -rf /tmp/sw/demo; mkdir $d; cp /verif/seeded/$id/* $d/; rm -f $d/*.diff $d/meta.json
  bash $d/demo.sh >/tmp/sw/$id.clean 2>&1 && echo "$id clean demo ok" || { echo "$id CLEAN DEMO FAILS"; tail -5 /tmp/sw/$id.clean; continue; }
done
for id in "$@"; do
  git checkout -qf FETCH_HEAD
  git apply /verif/seeded/$id/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
  bash /tmp/sw/build.sh >/tmp/sw/build.log 2>&1 || { echo "$id BUILD FAILS"; grep -A5 ^error /tmp/sw/build.log | head -20; continue; }
  d=/tmp/sw/demo; rm -rf /tmp/sw/demo; mkdir $d; cp /verif/seeded/$id/* $d/; rm -f $d/*.diff $d/meta.json
  bash $d/demo.sh >/tmp/sw/$id.bad 2>&1 && { echo "$id PATCHED DEMO PASSES"; cat /tmp/sw/$id.bad; continue; } || echo "$id patched demo fails: $(tail -1 /tmp/sw/$id.bad)"
  bash /tmp/sw/test.sh /tmp/sw/t.json >/tmp/sw/test.log 2>&1; python3 /verif/tools/cmp_tests.py /tmp/sw/t.json | sed "s/^/$id /"
done
git checkout -qf FETCH_HEAD
