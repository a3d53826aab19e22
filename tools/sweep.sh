#!/bin/bash
# tools/sweep.sh "SEED..." [ID...]: quick checks with these seeds; prints those that do not exit 0.
cd "$(dirname "$0")/.."
seeds=$1; shift
ids=${*:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}
for s in $seeds; do
  for c in ${ids:-F01}; do
    out=$(timeout 900 python3 run.py check "$c" --seed "$s" 2>&1); r=$?
    if [ $r != 0 ]; then echo "$c seed $s: exit $r"; tail -4 <<<"$out" | cut -c1-700; fi
  done
done
echo swept "$seeds"
