#!/bin/bash
# mut.sh PROP FILE PYEXPR : copy of /repo in /tmp/w/mut with a python replace(old,new) done; then prove
# usage: mut.sh C02 base_perpendicular.py "old" "new"
set -e
rm -rf /tmp/w/mut && mkdir -p /tmp/w && cp -a /repo /tmp/w/mut
python3 - "$2" "$3" "$4" <<'P'
import sys
f='/tmp/w/mut/bayesian_decision_tree/'+sys.argv[1]
s=open(f).read()
a=sys.argv[2].encode().decode('unicode_escape') if '\\n' in sys.argv[2] else sys.argv[2]
b=sys.argv[3].encode().decode('unicode_escape') if '\\n' in sys.argv[3] else sys.argv[3]
assert a in s, 'text not found'
open(f,'w').write(s.replace(a,b,1))
P
cd "$(dirname "$0")/.."
for p in $1; do VP_REPO=/tmp/w/mut python3-vt prove.py $p > /tmp/mut.json 2>/tmp/mut.err; python3 - $p <<'P'
import json,sys
d=json.loads(open('/tmp/mut.json').read().strip().splitlines()[-1])
from collections import Counter
print(sys.argv[1],dict(Counter(t['status'] for t in d)))
n=0
for t in d:
    if t['status']!='proved' and n<4: n+=1; print('   ',t['status'],t['task'],'|',t['detail'][:200].replace('\n',' / '))
P
done
