#!/bin/bash
# developer aid: discharge properties and list what is not proved
cd "$(dirname "$0")/.."
for i in "$@"; do echo "== $i"; timeout 1200 python3-vt engine/prove.py $i --json /tmp/p_$i.json --jobs 8 > /tmp/o_$i 2>&1; tail -1 /tmp/o_$i; python3 - <<PY
import json
d=json.load(open('/tmp/p_$i.json'))
rs=d.get('results',d.get('obligations'))
import collections
print(collections.Counter(r['status'] for r in rs), 'refused', sum(1 for r in rs if r.get('refused')), 'slowest', sorted([(r['time'],r['id']) for r in rs])[-2:])
for r in rs:
    if r['status']!='proved': print(r['id'],r['status'],r['why'][:300].replace('\n',' '), r.get('gap'))
PY
done
