"""Concrete contract check of one property on the real code.

usage: run.py PROPERTY --budget SECONDS --seed N [--jobs J] [--literals a,b,c]     -> JSON result on stdout
       run.py --replay FILE                                                        -> exit 1 if the failure reproduces"""
import argparse
import ast
import glob
import json
import multiprocessing
import os
import sys
import time
import traceback

for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
    os.environ[v] = '1'
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def harvest(repo):
    """Integer constants of the package: candidate sizes."""
    out = set()
    for f in glob.glob(os.path.join(repo, 'bayesian_decision_tree', '*.py')):
        if f.endswith('_version.py'):
            continue
        try:
            tree = ast.parse(open(f).read())
        except SyntaxError:
            continue
        for n in ast.walk(tree):
            try:
                if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                    out.add(int(n.value)) if abs(n.value) < 1e6 else None
                elif isinstance(n, ast.BinOp) and all(isinstance(k, (ast.BinOp, ast.Constant, ast.operator, ast.UnaryOp, ast.unaryop)) for k in ast.walk(n)):
                    v = eval(compile(ast.Expression(n), '', 'eval'), {})
                    if isinstance(v, int) and abs(v) < 1e6:
                        out.add(v)
            except Exception:
                pass
    return sorted(v for v in out if 2 <= v <= 150000)


def one(prop, seed, literals):
    """(status, message, description)"""
    import core
    import props
    gen = props.PROPS[prop](seed, literals)
    s = None
    try:
        s = next(gen)
        for _ in gen:
            pass
        return 'ok', None, s
    except StopIteration:
        return 'skip', None, s
    except core.Skip:
        return 'skip', None, s
    except core.Violation as e:
        return 'violation', str(e), s
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        repo = os.path.realpath(core.REPO)
        inrepo = [f for f in tb if os.path.realpath(f.filename).startswith(repo)]
        if inrepo:
            f = inrepo[-1]
            return 'violation', 'unexpected {}: {} at {}:{}'.format(type(e).__name__, e, os.path.relpath(f.filename, repo), f.lineno), s
        return 'error', ''.join(traceback.format_exception(e)), s


def worker(args):
    prop, seeds0, stride, budget, literals, stop = args
    import core
    t0 = time.time()
    n = nontrivial = skipped = 0
    sample = None
    errors = []
    seed = seeds0
    while time.time() - t0 < budget:
        status, msg, s = one(prop, seed, literals)
        if status == 'violation':
            return dict(n=n, nontrivial=nontrivial, skipped=skipped, errors=errors,
                        violation={'property': prop, 'seed': seed, 'literals': literals, 'message': msg, 'scenario': core.describe(s) if s else None})
        if status == 'error':
            errors.append('seed {}: {}'.format(seed, msg))
            if len(errors) > 3:
                break
        elif status == 'skip':
            skipped += 1
        else:
            nontrivial += 1
            if sample is None and s is not None:
                sample = core.describe(s)
        n += 1
        seed += stride
    return dict(n=n, nontrivial=nontrivial, skipped=skipped, errors=errors, violation=None, sample=sample)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--budget', type=float, default=20)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--replay')
    a = ap.parse_args()
    import core
    if os.path.realpath(os.path.dirname(core.bayesian_decision_tree.__file__)) != os.path.realpath(os.path.join(core.REPO, 'bayesian_decision_tree')):
        print('wrong package', core.bayesian_decision_tree.__file__)
        sys.exit(2)
    if a.replay:
        r = json.load(open(a.replay))
        status, msg, s = one(r['property'], r['seed'], r['literals'])
        print(status, msg)
        sys.exit(1 if status == 'violation' else 0)
    literals = harvest(core.REPO)
    base = a.seed * 1000003 % (2 ** 31)
    jobs = [(a.property, base + j, a.jobs, a.budget, literals, None) for j in range(a.jobs)]
    with multiprocessing.get_context('fork').Pool(a.jobs) as pool:
        res = []
        for r in pool.imap_unordered(worker, jobs):
            res.append(r)
            if r['violation']:
                pool.terminate()
                break
    out = {'property': a.property, 'evaluations': sum(r['n'] for r in res), 'distinct_nontrivial': sum(r['nontrivial'] for r in res),
           'skipped': sum(r['skipped'] for r in res), 'errors': [e for r in res for e in r['errors']][:3], 'literals': literals,
           'samples': [r['sample'] for r in res if r.get('sample')][:2],
           'violation': next((r['violation'] for r in res if r['violation']), None)}
    json.dump(out, sys.stdout, default=str)


if __name__ == '__main__':
    main()
