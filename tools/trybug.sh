#!/bin/bash
# tools/trybug.sh ID|PATCH [PROP [ARGS..]]: runs a property's check against a scratch copy of /repo with a
# planted bug, without touching /repo or /verif (for use while something else works with them).
p=$1; shift
[ -f "$p" ] || { S=/verif/seeded/$p; p=$S/patch.diff; }
prop=${1:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}; shift
W=$(mktemp -d /tmp/trybug.XXXXXX)
git clone -q /repo $W/repo && git -C $W/repo apply "$p" || { rm -rf "$W"; exit 2; }
mkdir $W/verif; cp -r /verif/check.py /verif/harness /verif/known_findings.txt $W/verif/
( cd $W/verif && PICOTM_REPO=$W/repo timeout 900 python3 check.py $prop "$@" > $W/out 2>&1; echo "rc=$?" >> $W/out )
tail -${LINES_OUT:-4} $W/out | cut -c1-250
rm -rf "$W"
