#!/bin/bash
# runseeds.sh [ids...]: applies each planted change to /repo, runs its property's quick check, undoes it (development aid)
cd "$(dirname "$0")/.."
ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$i/patch.diff" || { echo "$i: no apply"; continue; }
  s=$(date +%s)
  out=$(timeout 900 python3 check.py $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$i $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep VIOLATION | head -1)"
  python3 - "$i" "$rc" "$out" <<'PY'
import json,os,sys,re
f="tools/seed_results.json"; d=json.load(open(f)) if os.path.exists(f) else {}
m=re.search(r"replay=\S*-(c\d\d\w+)\.json",sys.argv[3]); d[sys.argv[1]]=("yes: "+m.group(1)) if sys.argv[2]=="1" and m else "no (rc %s)"%sys.argv[2]
json.dump(d,open(f,"w"),indent=1,sort_keys=True)
PY
  [ $rc != 1 ] && echo "$out" | tail -5
done
