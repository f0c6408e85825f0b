#!/bin/bash
# tryseed.sh ID...: apply, build, stable tests, demo, check; undo. Run by hand while planting.
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1
for id in "$@"; do
  D=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  bash $D/demo.sh >/tmp/demo0.out 2>&1; d0=$?
  git apply $D/patch.diff || { echo "$id: does not apply"; continue; }
  b=ok; bash /opt/vp/build.sh >/tmp/build.out 2>&1 || b=BUILDFAIL
  t=$(bash /opt/vp/test.sh /tmp/o.json 2>/dev/null | tail -1)
  bash $D/demo.sh >/tmp/demo1.out 2>&1; d1=$?
  (cd /verif; [ -f checks/${P,,}.py ] && python3 check.py $P >/tmp/check.out 2>&1); c=$?
  git checkout -q -- .
  echo "$id $P build=$b tests=[$t] demo clean=$d0 patched=$d1 check=$c : $(grep -v VIOLATION /tmp/check.out | head -1 | cut -c1-150)"
done
bash /opt/vp/build.sh >/dev/null 2>&1
