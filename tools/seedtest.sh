#!/bin/bash
# usage: seedtest.sh ID...: validates planted bugs (tests, demo) in /repo and runs the check of their property against them
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "dirty /repo"; exit 1; }
  (cd /repo && bash $d/demo.sh >/tmp/seed_demo0.txt 2>&1); c=$?
  git -C /repo apply $d/patch.diff || { echo "$id: no apply"; continue; }
  (cd /repo && bash $d/demo.sh >/tmp/seed_demo1.txt 2>&1); p=$?
  t=-
  if [ -z "$NOTEST" ]; then
    bash /opt/vp/test.sh /tmp/seed_o.json >/dev/null 2>&1
    t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/seed_o.json'))
print(len(set(b['stable'])-set(o['passed'])))")
  fi
  r=-
  if [ -z "$NOCHECK" ]; then
    (cd /verif && timeout 900 ./run.sh $prop --tier quick --seed ${SEED:-1} --no-evidence >/tmp/seed_run.txt 2>&1); r=$?
  fi
  git -C /repo checkout -q -- .
  echo "$id $prop demo clean=$c patched=$p tests_broken=$t check_exit=$r $(grep -v VIOLATION /tmp/seed_run.txt 2>/dev/null | head -1 | cut -c1-150)"
done
