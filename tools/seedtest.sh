#!/bin/bash
# seedtest.sh ID...: tries planted bugs against build, tests, demo and the check of their property (and, with ALL=1, all checks)
here=$(cd "$(dirname "$0")/.." && pwd)
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  d="$here/seeded/$id"
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /repo && bash "$d/demo.sh" >/tmp/seed.log 2>&1) && clean=ok || { clean=FAILS; cp /tmp/seed.log /tmp/seed.$id.clean.log; }
  git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/seed.build.log 2>&1 && b=ok || b=BROKEN
  bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
  t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
def passed(x):
    return set(x.get('passed') or x.get('stable') or x.get('tests') or [])
print('ok' if passed(b) <= passed(r) else 'FAIL')
P
)
  (cd /repo && bash "$d/demo.sh" >/tmp/seed.log 2>&1) && m=PASSES || m=fails
  s=$(date +%s)
  "$here/run.sh" "$prop" > /tmp/seed.check.log 2>&1; rc=$?
  v=$(grep -c "^VIOLATION property=$prop " /tmp/seed.check.log)
  sig=$(grep -m1 -o '^violation \[[^]]*\]' /tmp/seed.check.log)
  echo "$id: demo clean=$clean patched=$m build=$b tests=$t check $prop rc=$rc violations=$v $(($(date +%s)-s))s $sig"
  python3 - "$id" "$prop" "$rc" "$sig" <<P
import json,sys,os
f="$here/tools/seed_results.json"
r=json.load(open(f)) if os.path.exists(f) else {}
id,prop,rc,sig=sys.argv[1:]
r[id]=(prop+" "+sig.replace("violation ","")) if rc=="1" else "missed"
json.dump(r,open(f,"w"),indent=1,sort_keys=True)
P
  if [ -n "$ALL" ]; then
    for c in "$here"/rt/checks/c[0-9]*; do
      p=$(basename "$c" | tr c C); [ "$p" = "$prop" ] && continue
      "$here/run.sh" "$p" > /tmp/seed.other.log 2>&1 || echo "   also $p: $(grep -m1 -o '^violation \[[^]]*\]' /tmp/seed.other.log)"
    done
  fi
  git -C /repo checkout -q -- .
done
