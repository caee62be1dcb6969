"""Runs, on an edited copy of the package, the proof tasks that execute an edited function (per tools/taskmap.py), and all tasks of a function whose definition line changed."""
import ast
import json
import os
import subprocess
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PK = '/bayesian_decision_tree/'


def functions(root):
    r = {}
    for f in os.listdir(root + PK):
        if f.endswith('.py'):
            for n in ast.walk(ast.parse(open(root + PK + f).read())):
                if isinstance(n, ast.FunctionDef):
                    r.setdefault((f, n.name), []).append(ast.dump(n))
    return r


def edited(d):
    a, b = functions('/repo'), functions(d)
    return {k[1] for k in set(a) | set(b) if a.get(k) != b.get(k)}


def run(d, prop, names, timeout=1500, few=False):
    tm = json.load(open('/tmp/w/taskmap.json'))[prop]
    sel = [t for t, b in tm.items() if names & set(b)]
    if few:
        sel = [t for t in sel if '_fit' not in t or 'csc' not in t and 'Regression' not in t and 'rows of a node' not in t]
    if not sel:
        return []
    with tempfile.NamedTemporaryFile('w', suffix='.json', dir='/tmp/w') as f:
        json.dump(sel, f)
        f.flush()
        r = subprocess.run(['python3-vt', 'prove.py', prop, '--among', f.name], cwd=HERE, env=dict(os.environ, VP_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
    try:
        return json.loads(r.stdout.decode().strip().splitlines()[-1])
    except (ValueError, IndexError):
        return None
