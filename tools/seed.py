"""Creates /verif/seeded/<id>/ from tools/seed_list.py and confirms each: patch applies, 23 stable tests pass, demo exits 0 without and nonzero with.
usage: seed.py [ID ...] [--notest]"""
import json
import os
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from seed_list import SEEDS
B = 'bayesian_decision_tree/'
BASE = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)


def one(s, test=True):
    d = tempfile.mkdtemp(prefix='seed', dir='/tmp/w')
    r = d + '/repo'
    sh('cp -a /repo %s && git -C %s checkout -q -- .' % (r, r))
    for f, old, new in s['edits']:
        t = open(r + '/' + B + f).read()
        assert t.count(old) == 1, (s['id'], f, t.count(old), old)
        open(r + '/' + B + f, 'w').write(t.replace(old, new))
    patch = subprocess.run(['git', '-C', r, 'diff'], stdout=subprocess.PIPE).stdout.decode()
    o = os.path.join(HERE, 'seeded', s['id'])
    os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(patch)
    open(o + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
    open(o + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd = the repository\nexec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(o + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(o + '/meta.json', 'w'), indent=1)
    good = sh('bash %s/demo.sh' % o, cwd='/repo')
    bad = sh('bash %s/demo.sh' % o, cwd=r)
    msg = 'demo good=%d bad=%d' % (good.returncode, bad.returncode)
    ok = good.returncode == 0 and bad.returncode != 0
    if not ok:
        msg += '\n' + good.stdout.decode()[-600:] + '\n---\n' + bad.stdout.decode()[-600:]
    if test and ok:
        t = sh('cd %s && /opt/venv/bin/python -m pytest -q -o addopts= -p no:cacheprovider tests 2>&1 | tail -4' % r, env=dict(os.environ, PYTHONPATH=r))
        tail = t.stdout.decode().strip().splitlines()
        msg += ' | ' + (tail[-1] if tail else '?')
        ok = ok and tail and 'failed' not in tail[-1] and 'passed' in tail[-1]
    subprocess.run(['rm', '-rf', d])
    return s['id'], ok, msg


if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    ids = [a for a in sys.argv[1:] if not a.startswith('--')]
    todo = [s for s in SEEDS if not ids or s['id'] in ids]
    with ThreadPoolExecutor(6) as ex:
        for i, ok, msg in ex.map(lambda s: one(s, '--notest' not in sys.argv), todo):
            print('OK ' if ok else 'BAD', i, msg)
