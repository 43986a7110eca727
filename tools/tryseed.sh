#!/bin/bash
# tryseed.sh ID... : in /repo, check a planted bug: builds, passes the stable tests, demo discriminates, and whether its check catches it
cd /repo
[ -z "$(git status --short)" ] || { echo "repo dirty"; exit 1; }
for id in "$@"; do
  S=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  if [ -z "$NODEMO" ]; then
    bash $S/demo.sh >/tmp/seed.demo 2>&1; a=$?
    git apply $S/patch.diff || { echo "$id: does not apply"; continue; }
    bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || echo "$id: BUILD FAILS"
    bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
    lost=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); b=b.get('stable') or b.get('passed') or b
p=set(json.load(open('/tmp/seed.json'))['passed']); print([x for x in b if x not in p][:3])")
    bash $S/demo.sh >/tmp/seed.demo2 2>&1; c=$?
  else git apply $S/patch.diff; fi
  if [ -z "$NOCHECK" ]; then
  (cd /verif; timeout 900 python3-vt -m optvc.check $prop >/tmp/seed.chk 2>&1; echo $? >/tmp/seed.rc); v=$(grep -h '^VIOLATION' /tmp/seed.chk | head -1); fi
  git checkout -q -- .
  echo "$id [$prop] demo clean=$a bug=$c lost=$lost check=$(cat /tmp/seed.rc) ${v:0:150}"
done
bash /opt/vp/build.sh >/dev/null 2>&1
