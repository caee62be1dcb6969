"""Decides one property of /repo's current working tree.   usage: check.py PROPERTY [quick|thorough]

1. proof: every task of specs/<property>.py verifies one function body of /repo against its contract (python3-vt prove.py)
2. cross-check: the same contracts are evaluated on the real code on generated inputs (oracle/run.py, /opt/venv python);
   it also searches for a failing input when an obligation is not discharged

exit 0: property held; exit 1: VIOLATION line."""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
PY_REAL = '/opt/venv/bin/python'
PY_VT = 'python3-vt'

# seconds: cross-check when proved / search when an obligation failed / bounded stand-in when not analysable; proof time limit per task
TIMES = {'quick': dict(cross=30, search=150, standin=100, proof=330, ms=6000),
         'thorough': dict(cross=300, search=420, standin=420, proof=500, ms=20000)}
OUT = os.environ.get('VP_OUT', HERE)


def oracle(prop, budget, seed, jobs):
    """concrete contract check; never raises"""
    try:
        p = subprocess.run([PY_REAL, os.path.join(HERE, 'oracle', 'run.py'), prop, '--budget', str(budget), '--seed', str(seed), '--jobs', str(jobs)],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=budget + 120, env=dict(os.environ, VP_REPO=REPO))
        return json.loads(p.stdout.decode() or '{}') if p.returncode == 0 else {'errors': ['exit %d: %s' % (p.returncode, p.stderr.decode()[-800:])]}
    except subprocess.TimeoutExpired:
        return {'errors': ['time limit of the cross-check']}
    except ValueError as e:
        return {'errors': ['no result: %s' % e]}


def start_proof(prop, t, jobs):
    code = ("import sys,json;sys.path.insert(0,%r);sys.setrecursionlimit(20000);import prove;"
            "json.dump(prove.run(%r,jobs=%d,timeout=%d,timeout_ms=%d),sys.stdout)") % (HERE, prop, jobs, t['proof'], t['ms'])
    return subprocess.Popen([PY_VT, '-c', code], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=HERE,
                            env=dict(os.environ, VP_REPO=REPO, PYTHONHASHSEED='0'))


def finish_proof(p, limit):
    try:
        o, e = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.terminate()
        p.communicate()
        return [], 'time limit of the proof'
    try:
        return json.loads(o.decode()), ''
    except ValueError:
        return [], 'verifier gave no result: ' + e.decode()[-800:]


def save_replay(prop, data):
    d = os.path.join(OUT, 'replays')
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, prop + '.json')
    with open(f, 'w') as h:
        json.dump(data, h, indent=1, default=str)
    return f


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in TIMES else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t = TIMES[tier]
    t0 = time.time()
    known = []
    kf = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(kf):
        known = [l.strip() for l in open(kf) if l.startswith('finding: property=%s ' % prop)]
    proof = start_proof(prop, t, 4)
    res = oracle(prop, t['cross'], seed, 4)
    limit = 520 if tier == 'quick' else 3000
    tasks, perr = ([], 'stopped: a failing input was found') if res.get('violation') else finish_proof(proof, limit)
    if res.get('violation'):
        proof.terminate()
        proof.communicate()
    failed = [x for x in tasks if x['status'] == 'failed']
    open_ = [x for x in tasks if x['status'] in ('unsupported', 'error', 'timeout')]
    runs = [res]
    stand_in = False
    if not res.get('violation') and (failed or open_ or not tasks):
        # an obligation is open: look for a failing input on the real code
        stand_in = not failed
        r2 = oracle(prop, t['search'] if failed else t['standin'], seed + 7919, 8)
        runs.append(r2)
    viol = next((r['violation'] for r in runs if r.get('violation')), None)
    obl = [o for x in tasks for o in x['obligations']]
    disch = [o for o in obl if o['ok']]
    rc, line = 0, None
    if viol:
        viol = dict(viol, how_to_replay='%s %s --replay <this file>' % (PY_REAL, 'oracle/run.py'), failed_obligations=[x['task'] + ': ' + x['detail'] for x in failed])
        line = 'VIOLATION property=%s replay=%s' % (prop, save_replay(prop, viol))
        print('failing input: %s' % viol.get('message'))
        rc = 1
    elif failed:
        f = save_replay(prop, {'property': prop, 'no_failing_input_found': True,
                               'failed_obligations': [{'task': x['task'], 'detail': x['detail'],
                                                       'obligations': [o for o in x['obligations'] if not o['ok']]} for x in failed]})
        print('not discharged: %s: %s' % (failed[0]['task'], failed[0]['detail'][:400]))
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, f)
        rc = 1
    by = {}
    for o in disch:
        by[o['how']] = by.get(o['how'], 0) + 1
    level = 'proof' if tasks and not failed and not open_ else 'other'
    trusted = sorted({l for x in tasks for l in x.get('lib', [])})
    import importlib.util
    spec = importlib.util.spec_from_file_location('trust', os.path.join(HERE, 'pyvc', 'trust.py'))
    trust = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(trust)
    cov = {
        'obligations': len(obl), 'discharged': len(disch), 'discharged_by': by,
        'checker_cmd': 'python3-vt /verif/prove.py %s -v' % prop,
        'trusted_base': trust.BASE + ['contract of ' + l for l in trusted] + ['lemma: ' + l for l in sorted({l for x in tasks for l in x.get('lemmas', [])})],
        'tasks': len(tasks), 'tasks_proved': sum(x['status'] == 'proved' for x in tasks),
        'functions_under_contract': sorted({x['task'] for x in tasks}),
        'bodies_analysed': sorted({b for x in tasks for b in x.get('bodies', [])}),
        'callee_contracts_used': sorted({b for x in tasks for b in x.get('contracts', [])}),
        'paths': sum(x.get('paths') or 0 for x in tasks),
        'solver_time_s': round(sum(x.get('solver_time', 0) for x in tasks), 2),
        'solver_queries': sum(x.get('queries', 0) for x in tasks),
        'not_analysed': ['%s: %s: %s' % (x['task'], x['status'], x['detail'][:300]) for x in open_] + ([perr] if perr else []),
        'bounded_stand_in': stand_in,
        'evaluations': sum(r.get('evaluations', 0) for r in runs),
        'distinct_nontrivial': sum(r.get('distinct_nontrivial', 0) for r in runs),
        'rule': 'cross-check of the contracts on the real code: one evaluation = one generated scenario (model, data, configuration) run against the '
                'contract with an independent reference computation; non-trivial = the scenario reached the property (was not skipped)',
        'samples': [s for r in runs for s in (r.get('samples') or [])][:2] or ['none'],
        'cross_check_errors': [e for r in runs for e in (r.get('errors') or [])][:3],
        'explanation': 'contracts discharged by the verifier on the current source of /repo; concrete cross-check of the same contracts in addition'
                       + ('; the functions under not_analysed are only covered by the bounded cross-check of this run, they are not proved' if open_ or not tasks else ''),
    }
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', prop + '.json'), 'w') as h:
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': trust.ASSUMPTIONS + trust.PER_PROPERTY.get(prop, []),
                   'wall_s': round(time.time() - t0, 1), 'violations': 1 if rc else 0}, h, indent=1, default=str)
    for k in known:
        print('KNOWN-FINDING: ' + k[len('finding: '):])
    print('%s %s: %d/%d obligations discharged in %d tasks (%d not analysed), %d evaluations of the concrete contracts, %.0f s'
          % (prop, tier, len(disch), len(obl), len(tasks), len(open_), cov['evaluations'], time.time() - t0))
    if line:
        print(line)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    try:
        main()
    except Exception as e:      # a failure of the machinery is not a verdict about /repo
        import traceback
        traceback.print_exc()
        os._exit(3)
