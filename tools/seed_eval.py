"""Verdict on every seeded bug: proof alone and concrete contract check alone.  usage: seed_eval.py [ID ...] [--oracle SECONDS] [--check]; results in tools/seed_results.json"""
import json
import os
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = HERE + '/tools/seed_results.json'


def main():
    a = sys.argv[1:]
    sec = int(a[a.index('--oracle') + 1]) if '--oracle' in a else 0
    ids = [x for x in a if not x.startswith('--') and not x.isdigit()] or sorted(os.listdir(HERE + '/seeded'))
    res = json.load(open(OUT)) if os.path.exists(OUT) else {}
    for i in ids:
        d = tempfile.mkdtemp(prefix='ev', dir='/tmp/w')
        r = d + '/repo'
        subprocess.run('cp -a /repo %s && git -C %s checkout -q -- . && git -C %s apply %s/seeded/%s/patch.diff' % (r, r, r, HERE, i), shell=True, check=True)
        prop = json.load(open('%s/seeded/%s/meta.json' % (HERE, i)))['property']
        e = dict(os.environ, VP_REPO=r)
        row = res.setdefault(i, {})
        p = subprocess.run(['python3-vt', 'prove.py', prop], cwd=HERE, env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        try:
            ts = json.loads(p.stdout.decode().strip().splitlines()[-1])
            f = [t for t in ts if t['status'] == 'failed']
            o = [t for t in ts if t['status'] not in ('failed', 'proved')]
            row['proof'] = 'failed: %s: %s' % (f[0]['task'], f[0]['detail'][:160]) if f else 'open: %s: %s' % (o[0]['task'], o[0]['detail'][:160]) if o else 'missed'
        except (ValueError, IndexError):
            row['proof'] = 'machinery'
        if sec:
            p = subprocess.run(['/opt/venv/bin/python', HERE + '/oracle/run.py', prop, '--budget', str(sec), '--seed', '1', '--jobs', '6'], env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            try:
                v = json.loads(p.stdout.decode())
                row['concrete'] = v['violation']['message'][:160] if v.get('violation') else 'missed'
            except ValueError:
                row['concrete'] = 'machinery'
        print(i, '|', row['proof'][:150], '|', row.get('concrete', '')[:110], flush=True)
        json.dump(res, open(OUT, 'w'), indent=1, sort_keys=True)
        subprocess.run(['rm', '-rf', d])


main()
