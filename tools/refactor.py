"""Runs the proofs on behaviour-preserving edits (refactor_list.py): reports 'failed' (an alarm) and open tasks.  usage: refactor.py [ID ...] [--jobs N] [--test]"""
import json
import os
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + '/tools')
import affected
from refactor_list import REF
B = '/bayesian_decision_tree/'


def one(r, test, props):
    i, edits = r
    d = tempfile.mkdtemp(prefix='rf', dir='/tmp/w')
    subprocess.run(['cp', '-a', '/repo/bayesian_decision_tree', '/repo/tests', '/repo/setup.cfg', d])
    for f, a, b in edits:
        s = open(d + B + f).read()
        if s.count(a) < 1:
            return i, 'text not found in %s: %r' % (f, a[:60])
        s = s.replace(a, b, 1)
        compile(s, f, 'exec')
        open(d + B + f, 'w').write(s)
    names = affected.edited(d)
    out = []
    if test:
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-o', 'addopts=', '-p', 'no:cacheprovider', 'tests'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, PYTHONPATH=d))
        if t.returncode:
            out.append('TESTS FAIL')
    for p in props if not few or not names & {'_fit'} else [q for q in props if q in ('C03', 'C07', 'C16')]:
        ts = affected.run(d, p, names, few=few)
        if ts is None:
            out.append(p + ' machinery')
            continue
        f = [x for x in ts if x['status'] == 'failed']
        o = [x for x in ts if x['status'] not in ('failed', 'proved')]
        if f:
            out.append('%s FAILED %d %s: %s' % (p, len(f), f[0]['task'], f[0]['detail'][:200]))
        if o:
            out.append('%s open %d %s: %s' % (p, len(o), o[0]['task'], o[0]['detail'][:200]))
    subprocess.run(['rm', '-rf', d])
    return i, out


a = sys.argv[1:]
few = '--few' in a       # edits of _fit: a sample of the properties (they share the task functions and differ in the obligations they select)
skip = int(a[a.index('--skip') + 1]) if '--skip' in a else 0
jobs = int(a[a.index('--jobs') + 1]) if '--jobs' in a else 2
props = [x for x in a if x[0] == 'C' and x[1:].isdigit()] or ['C%02d' % i for i in range(1, 19)]
ids = [x for x in a if not x.startswith('--') and not x.isdigit() and x not in props]
todo = [r for r in REF[skip:] if not ids or r[0] in ids]
with ThreadPoolExecutor(jobs) as ex:
    for i, o in ex.map(lambda r: one(r, '--test' in a, props), todo):
        print(i, '|', o if isinstance(o, str) else '\n    '.join([''] + o) if o else 'ok', flush=True)
