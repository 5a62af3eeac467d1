#!/bin/bash
# tools/seed.sh <id>: verify a planted bug in a scratch copy: applies, builds, tests pass, demo flips; then run its check against it
id=$1; S=/verif/seeded/$id; W=/tmp/seed.$id
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
rm -rf "$W"; cp -a /repo "$W" || exit 1
cd "$W" || exit 1
export PYTHONDONTWRITEBYTECODE=1
( cd /repo && PYTHONPATH=/repo/src bash $S/demo.sh >/tmp/seed.$id.base 2>&1 ); b=$?
git apply $S/patch.diff || { echo "patch does not apply"; rm -rf "$W"; exit 1; }
sed "s#/repo#$W#g" $S/demo.sh > /tmp/seed.$id.demo.sh
cp $S/*.py /tmp/ 2>/dev/null
( cd "$W" && PYTHONPATH=$W/src bash $S/demo.sh >/tmp/seed.$id.patched 2>&1 ); p=$?
echo "$id [$prop] demo base=$b patched=$p"
if [ "$2" != "notest" ]; then
  sed "s#cd /repo#cd $W#" /opt/vp/test.sh > /tmp/seed.$id.test.sh
  PYTHONPATH=$W/src bash /tmp/seed.$id.test.sh /tmp/seed.$id.json 2>&1 | grep -E "FAILED|ERROR|passed|failed" | tail -5
fi
VERIF_REPO=$W bash /verif/check.sh $prop 2>&1 | tail -8 | cut -c1-220
rm -rf "$W"
