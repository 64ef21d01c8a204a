#!/bin/bash
# tools/plant.sh ID...: in a scratch copy of /repo, checks that a planted bug builds, passes the stable
# tests, and that its demo tells the trees apart; then runs the property's quick check against the bug
# (in /repo, undone straight afterwards).
W=/tmp/bug/repo
for id in "$@"; do
  S=/verif/seeded/$id
  if [ -z "$SKIP_SCRATCH" ]; then
    rm -rf /tmp/bug/repo; mkdir -p /tmp/bug; cp -a /repo $W
    ( cd $W && timeout 300 bash $S/demo.sh >/tmp/bug/$id.demo0 2>&1 ); d0=$?
    git -C $W apply $S/patch.diff || { echo "$id: patch does not apply"; continue; }
    ( cd $W/_build && make -j8 >/tmp/bug/$id.build 2>&1 ); b=$?
    ( cd $W && timeout 300 bash $S/demo.sh >/tmp/bug/$id.demo1 2>&1 ); d1=$?
    rm -rf /tmp/bug/repo
    echo "$id: build=$b demo unchanged=$d0 patched=$d1"
  fi
  if [ -z "$SKIP_TESTS" ] || [ -z "$SKIP_CHECK" ]; then
    git -C /repo apply $S/patch.diff || continue
    if [ -z "$SKIP_TESTS" ]; then
      bash /opt/vp/build.sh >/tmp/bug/$id.rb 2>&1; bash /opt/vp/test.sh /tmp/bug/$id.json >/tmp/bug/$id.t 2>&1
      python3 - $id <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=set(json.load(open('/tmp/bug/%s.json'%sys.argv[1]))['passed'])
print(sys.argv[1]+': stable tests failing:', len(b-t), sorted(b-t)[:4])
P
    fi
    if [ -z "$SKIP_CHECK" ]; then
      p=$(python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")
      ( cd /verif && python3 check.py $p --seed ${SEED:-1} >/tmp/bug/$id.check 2>&1 ); echo "$id: check $p rc=$? $(tail -1 /tmp/bug/$id.check)"
    fi
    git -C /repo checkout -- .
    [ -z "$SKIP_TESTS" ] && bash /opt/vp/build.sh >/dev/null 2>&1
  fi
done
