#!/bin/bash
# trybug.sh ID [quick]: confirm a planted bug against /repo and run the property's check on it; undoes the patch
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
if [ "$2" != check ]; then
  bash $d/demo.sh >/tmp/demo.$id.log 2>&1; echo "demo clean: $? (want 0)"
fi
git apply $d/patch.diff || { echo "patch does not apply"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$2" != check ]; then
  bash /opt/vp/build.sh >/tmp/build.$id.log 2>&1 || { echo "BUILD FAILS"; tail -20 /tmp/build.$id.log; exit 1; }
  bash /opt/vp/test.sh /tmp/t.$id.json >/dev/null 2>&1
  python3 - $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open('/tmp/t.%s.json'%sys.argv[1]))
m=[x for x in b if x not in t['passed']]
print('stable tests failing:', m or 'none')
P
  bash $d/demo.sh >/tmp/demo2.$id.log 2>&1; echo "demo patched: $? (want nonzero)"; tail -3 /tmp/demo2.$id.log
fi
cd /verif
bash check.sh $prop quick | grep -v "^  \|^$" | cut -c1-250 | tail -8
