"""Mutation test of the checks: mutants.py gen N SEED -> /tmp/w/mutants/list.json;  test: which survive the test-suite;  prove: verdict of the proofs.
usage: mutants.py gen 300 1 | test JOBS | prove JOBS"""
import ast
import json
import os
import random
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + '/tools')
import affected
W = '/tmp/w/mutants'
B = 'bayesian_decision_tree/'
FILES = ['base.py', 'base_perpendicular.py', 'base_hyperplane.py', 'classification.py', 'regression.py', 'hyperplane_optimization.py', 'utils.py']
CMP = {'<': '<=', '<=': '<', '>': '>=', '>=': '>', '==': '!=', '!=': '==', 'is': 'is not', 'is not': 'is', 'in': 'not in', 'not in': 'in'}
SYM = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'), ast.Div: ('/', '*'), ast.FloorDiv: ('//', '/')}


def gen_file(f):
    src = open('/repo/' + B + f).read()
    tree = ast.parse(src)
    offs = [0]
    for l in src.splitlines(True):
        offs.append(offs[-1] + len(l))
    pos = lambda line, col: offs[line - 1] + len(src.splitlines()[line - 1].encode()[:col].decode())
    seg = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    out = []

    def add(a, b, new, what, fn):
        out.append({'file': f, 'a': a, 'b': b, 'new': new, 'old': src[a:b], 'what': what, 'func': fn, 'line': src[:a].count('\n') + 1})

    def between(x, y, old, new, what, fn):
        a, b = seg(x)[1], seg(y)[0]
        t = src[a:b]
        if t.count(old) == 1:
            add(a, b, t.replace(old, new), what, fn)

    def visit(n, fn, verbose=False):
        if isinstance(n, (ast.FunctionDef,)):
            fn = n.name
        if isinstance(n, ast.If) and isinstance(n.test, ast.Name) and n.test.id == 'verbose':
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = SYM[type(n.ops[0])]
            between(n.left, n.comparators[0], ' %s ' % o, ' %s ' % CMP[o], 'cmp', fn)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            o, q = BIN[type(n.op)]
            between(n.left, n.right, o, q, 'bin', fn)
            for x in (n.left, n.right):
                add(*seg(n), '(' + src[slice(*seg(x))] + ')', 'operand', fn)
        if isinstance(n, ast.BoolOp) and len(n.values) == 2:
            o, q = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            between(n.values[0], n.values[1], ' %s ' % o, ' %s ' % q, 'bool', fn)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(*seg(n), '(' + src[slice(*seg(n.operand))] + ')', 'unary', fn)
        if isinstance(n, ast.Constant) and fn:
            if isinstance(n.value, bool):
                add(*seg(n), str(not n.value), 'const', fn)
            elif isinstance(n.value, int):
                add(*seg(n), str(n.value + 1), 'const', fn)
                add(*seg(n), str(n.value - 1), 'const', fn)
            elif isinstance(n.value, float):
                add(*seg(n), str(n.value * 2), 'const', fn)
        if isinstance(n, ast.IfExp):
            add(*seg(n), '(' + src[slice(*seg(n.body))] + ')', 'ifexp', fn)
            add(*seg(n), '(' + src[slice(*seg(n.orelse))] + ')', 'ifexp', fn)
        if isinstance(n, ast.If):
            add(*seg(n.test), 'True', 'if', fn)
            add(*seg(n.test), 'False', 'if', fn)
        if isinstance(n, (ast.Assign, ast.AugAssign)) and fn:
            add(*seg(n), 'pass', 'del', fn)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and fn:
            add(*seg(n), 'pass', 'del', fn)
        if isinstance(n, (ast.Break, ast.Continue)):
            add(*seg(n), 'pass', 'del', fn)
        if isinstance(n, ast.Raise):
            add(*seg(n), 'pass', 'del', fn)
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            x, y = n.args[0], n.args[1]
            if all(isinstance(q, (ast.Name, ast.Attribute, ast.Subscript)) for q in (x, y)):
                add(seg(x)[0], seg(y)[1], src[slice(*seg(y))] + src[seg(x)[1]:seg(y)[0]] + src[slice(*seg(x))], 'swap', fn)
        if isinstance(n, ast.Slice):
            for q, w in ((n.lower, 'lower'), (n.upper, 'upper')):
                if q is not None:
                    add(*seg(q), '', 'slice ' + w, fn)
        if isinstance(n, ast.Attribute) and n.attr in ('child1_', 'child2_'):
            a, b = seg(n)
            add(b - 7, b, 'child2_' if n.attr == 'child1_' else 'child1_', 'child', fn)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
                continue
            visit(c, fn)
    visit(tree, '')
    return [m for m in out if m['func']]


def copy_of(m):
    os.makedirs(W, exist_ok=True)
    d = tempfile.mkdtemp(prefix='m', dir=W)
    subprocess.run(['cp', '-a', '/repo/bayesian_decision_tree', '/repo/tests', '/repo/setup.cfg', d])
    p = d + '/' + B + m['file']
    s = open(p).read()
    assert s[m['a']:m['b']] == m['old']
    s = s[:m['a']] + m['new'] + s[m['b']:]
    try:
        compile(s, p, 'exec')
    except SyntaxError:
        subprocess.run(['rm', '-rf', d])
        return None
    open(p, 'w').write(s)
    return d


def test(m):
    d = copy_of(m)
    if d is None:
        return 'invalid'
    try:
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-o', 'addopts=', '-p', 'no:cacheprovider', '--timeout=120', 'tests'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=dict(os.environ, PYTHONPATH=d, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1'), timeout=400)
        return 'survived' if r.returncode == 0 else 'killed'
    except subprocess.TimeoutExpired:
        return 'killed'
    finally:
        subprocess.run(['rm', '-rf', d])


def prove(m, props, owner):
    d = copy_of(m)
    res = {}
    names = affected.edited(d)
    try:
        for p in props:
            ts = affected.run(d, p, names)
            if ts is None:
                res[p] = ['machinery', '']
                continue
            f = [t for t in ts if t['status'] == 'failed']
            o = [t for t in ts if t['status'] not in ('failed', 'proved')]
            if f:
                res[p] = ['failed', f[0]['task'] + ': ' + f[0]['detail'][:150]]
                break
            elif o:
                res[p] = ['open', o[0]['task'] + ': ' + o[0]['status'] + ' ' + o[0]['detail'][:150]]
    finally:
        subprocess.run(['rm', '-rf', d])
    return res


if __name__ == '__main__':
    L = W + '/list.json'
    if sys.argv[1] == 'gen':
        ms = [m for f in FILES for m in gen_file(f)]
        print(len(ms), 'mutants')
        random.Random(int(sys.argv[3])).shuffle(ms)
        os.makedirs(W, exist_ok=True)
        json.dump(ms[:int(sys.argv[2])], open(L, 'w'), indent=1)
    else:
        ms = json.load(open(L))
        jobs = int(sys.argv[2])
        with ThreadPoolExecutor(jobs) as ex:
            if sys.argv[1] == 'test':
                todo = [m for m in ms if 'test' not in m]
                for m, r in zip(todo, ex.map(test, todo)):
                    m['test'] = r
                    json.dump(ms, open(L, 'w'), indent=1)
            else:
                owner = json.load(open(W + '/owner.json'))
                todo = [m for m in ms if m.get('test') == 'survived' and 'prove' not in m]
                per, keep = {}, []
                for m in todo:
                    per[m['func']] = per.get(m['func'], 0) + 1
                    if per[m['func']] <= 12:
                        keep.append(m)
                todo = keep
                print(len(todo), flush=True)
                for m, r in zip(todo, ex.map(lambda m: prove(m, sorted(owner, key=lambda p: len(owner[p])), owner), todo)):
                    m['prove'] = r
                    json.dump(ms, open(L, 'w'), indent=1)
                    print(m['file'], m['line'], m['what'], repr(m['old'][:40]), '->', repr(m['new'][:40]), {k: v[0] for k, v in r.items()}, flush=True)
