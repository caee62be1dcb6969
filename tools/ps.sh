#!/bin/bash
# short summary of the proof of each property given
cd "$(dirname "$0")/.."
for p in "$@"; do
  python3-vt prove.py $p > /tmp/ps.$p.json 2>/tmp/ps.$p.err
  python3 - $p <<'P'
import json,sys
p=sys.argv[1]
try: d=json.loads(open('/tmp/ps.%s.json'%p).read().strip().splitlines()[-1])
except Exception as e:
    print(p,'ERR',open('/tmp/ps.%s.err'%p).read()[-1500:]); sys.exit()
from collections import Counter
print(p,dict(Counter(t['status'] for t in d)),'max time',max(t['time'] for t in d),'obl',sum(len(t['obligations']) for t in d))
for t in d:
    if t['status']!='proved': print('   ',t['status'],t['task'],'|',t['detail'][-900:].replace('\n',' / '))
P
done
