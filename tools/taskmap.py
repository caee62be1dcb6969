"""Which tasks execute which functions, on the current tree -> /tmp/w/taskmap.json {property: {task: [function, ...]}} (development aid: lets mutants.py and refactor.py run the affected tasks only)"""
import json
import os
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = {}
for i in range(1, 19):
    p = 'C%02d' % i
    r = subprocess.run(['python3-vt', 'prove.py', p], cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    ts = json.loads(r.stdout.decode().strip().splitlines()[-1])
    m[p] = {t['task']: sorted({b.split('.')[-1] for b in t.get('bodies', [])}) for t in ts}
    print(p, len(ts), [(t['task'], t['status']) for t in ts if t['status'] != 'proved'][:3], flush=True)
json.dump(m, open('/tmp/w/taskmap.json', 'w'))
