"""Shared parts of the concrete contract checks (run on the real code under /opt/venv/bin/python).

Everything here is written against the published behaviour of the package: public calls and the fitted attributes
named in properties.jsonl.  Reference values are computed independently of the package."""
import os
import sys
import math
import warnings

REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')

import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402
from scipy.sparse import csr_matrix, csc_matrix, issparse  # noqa: E402
from scipy.special import gammaln  # noqa: E402

import bayesian_decision_tree  # noqa: E402
from bayesian_decision_tree.classification import PerpendicularClassificationTree, HyperplaneClassificationTree  # noqa: E402
from bayesian_decision_tree.regression import PerpendicularRegressionTree, HyperplaneRegressionTree  # noqa: E402
import bayesian_decision_tree.hyperplane_optimization as ho  # noqa: E402

np.seterr(all='ignore')
MODELS = {'PC': PerpendicularClassificationTree, 'HC': HyperplaneClassificationTree,
          'PR': PerpendicularRegressionTree, 'HR': HyperplaneRegressionTree}


class Violation(Exception):
    pass


class Skip(Exception):
    pass


def fail(msg, *args):
    raise Violation(msg.format(*args) if args else msg)


def require(cond, msg, *args):
    if not cond:
        fail(msg, *args)


# ------------------------------------------------------------------------------------------------ data

def make_X(rng, n, d, kind):
    if kind == 'grid':
        X = rng.integers(-2, 4, size=(n, d)).astype(float)
    elif kind == 'bits':
        X = rng.integers(0, 2, size=(n, d)).astype(float)
    elif kind == 'sparse':
        X = rng.integers(-3, 4, size=(n, d)) * (rng.random((n, d)) < 0.4) * 1.0
    elif kind == 'cont':
        X = rng.normal(size=(n, d)) * rng.choice([0.1, 1, 100], size=d)
    elif kind == 'half':
        X = rng.integers(-8, 9, size=(n, d)) / 2.0
    elif kind == 'nonneg':
        X = rng.integers(0, 250, size=(n, d)).astype(float)
    elif kind == 'adjacent':
        base = rng.choice([0.1, 1.0, -1.0, 1e-3, 1e15, 0.0, 5e-324], size=d)
        X = np.repeat(base[None, :], n, axis=0)
        steps = rng.integers(0, 4, size=(n, d))
        for _ in range(3):
            X = np.where(steps > _, np.nextafter(X, np.inf), X)
    elif kind == 'huge':
        X = rng.choice([-1.7e308, -1e308, 1e308, 1.2e308, 1.7e308, 0.0], size=(n, d))
    elif kind == 'const':
        X = rng.integers(0, 3, size=(n, d)).astype(float)
        X[:, rng.integers(0, d)] = 1.0
        if d > 1 and rng.random() < .3:
            X[:, 0] = 0.0
    elif kind == 'sorted':
        X = np.sort(rng.normal(size=(n, d)), axis=0)
        X[:, ::2] = X[::-1, ::2]
    elif kind == 'dups':
        m = max(1, n // 3)
        X = rng.integers(-1, 3, size=(m, d)).astype(float)[rng.integers(0, m, size=n)]
    else:
        raise ValueError(kind)
    return X


KINDS = ['grid', 'bits', 'sparse', 'cont', 'half', 'nonneg', 'adjacent', 'huge', 'const', 'sorted', 'dups']
GENERIC_KINDS = ['cont', 'sorted']


def make_y_class(rng, X, n_classes, kind):
    n, d = X.shape
    if kind == 'random':
        y = rng.integers(0, n_classes, size=n)
    elif kind == 'threshold':
        c = rng.integers(0, d)
        order = np.argsort(X[:, c], kind='stable')
        y = np.empty(n, int)
        y[order] = np.minimum(n_classes - 1, np.arange(n) * n_classes // n)
        flip = rng.random(n) < 0.05
        y[flip] = rng.integers(0, n_classes, size=flip.sum())
    elif kind == 'stripes':
        c = rng.integers(0, d)
        order = np.argsort(X[:, c], kind='stable')
        y = np.empty(n, int)
        y[order] = (np.arange(n) // max(1, rng.integers(1, 6))) % n_classes
    elif kind == 'xor':
        a = X[:, 0] > np.median(X[:, 0])
        b = X[:, -1] > np.median(X[:, -1])
        y = (a ^ b).astype(int) % n_classes
    elif kind == 'rare':
        y = (rng.random(n) < 0.15).astype(int) * rng.integers(0, n_classes, size=n)
    else:
        raise ValueError(kind)
    # every class has to occur
    pos = rng.permutation(n)[:n_classes]
    if len(np.unique(y)) != n_classes or y.min() != 0 or y.max() != n_classes - 1:
        y[pos] = np.arange(n_classes)
    return y.astype(float)


def make_y_reg(rng, X, kind):
    n, d = X.shape
    if kind == 'random':
        y = rng.normal(size=n)
    elif kind == 'threshold':
        c = rng.integers(0, d)
        y = 5.0 * (X[:, c] > np.median(X[:, c])) + 0.1 * rng.normal(size=n)
    elif kind == 'stripes':
        c = rng.integers(0, d)
        order = np.argsort(X[:, c], kind='stable')
        y = np.empty(n)
        y[order] = 3.0 * ((np.arange(n) // max(1, rng.integers(1, 6))) % 3) + 0.01 * rng.normal(size=n)
    elif kind == 'xor':
        a = X[:, 0] > np.median(X[:, 0])
        b = X[:, -1] > np.median(X[:, -1])
        y = 2.0 * (a ^ b)
    elif kind == 'rare':
        y = 1.0 * (rng.random(n) < 0.15) * rng.integers(1, 5, size=n)
    else:
        raise ValueError(kind)
    return y


YKINDS = ['random', 'threshold', 'stripes', 'xor', 'rare']


class Lengths(ho.HyperplaneOptimizer):
    """Evaluates directions given by vectors of very different lengths."""

    def __init__(self, n, seed):
        self.n, self.seed = n, seed
        self.search_space_is_unit_hypercube = False

    def solve(self, f):
        rng = np.random.default_rng(self.seed)
        for i in range(self.n):
            v = rng.normal(size=f.X.shape[1]) * (rng.uniform(size=f.X.shape[1]) < 0.8)
            f.compute(v * 10.0 ** float(rng.integers(-14, 7)))

    def __str__(self):
        return 'Lengths(n={}, seed={})'.format(self.n, self.seed)

    __repr__ = __str__


class Recorder(ho.HyperplaneOptimizer):
    """An optimizer that runs another one and remembers every evaluated direction and its value."""

    def __init__(self, inner):
        self.inner = inner
        self.search_space_is_unit_hypercube = inner.search_space_is_unit_hypercube
        self.runs = []

    def solve(self, f):
        real = f.compute
        run = {'f': f, 'evals': [], 'X': f.X, 'y': f.y}
        self.runs.append(run)

        def compute(normal, *a, **k):
            before = np.array(normal, dtype=float, copy=True)
            value = real(normal, *a, **k)
            run['evals'].append((before, value))
            return value
        f.compute = compute
        try:
            self.inner.solve(f)
        finally:
            try:
                del f.compute
            except AttributeError:
                pass

    def __str__(self):
        return 'Recorder'


class ListOptimizer(ho.HyperplaneOptimizer):
    def __init__(self, directions, cube=False):
        self.search_space_is_unit_hypercube = cube
        self.directions = directions

    def solve(self, f):
        d = f.X.shape[1]
        for v in self.directions:
            v = np.resize(np.array(v, dtype=float), d - 1 if self.search_space_is_unit_hypercube else d)
            f.compute(v.copy())


def make_optimizer(rng, d, regression, which=None):
    k = which or rng.choice(['random', 'random', 'quasi', 'twopoint', 'list', 'listcube', 'anneal', 'de'],
                            p=[.25, .2, .15, .1, .15, .1, .03, .02])
    seed = int(rng.integers(0, 1000))
    if d == 1:
        return ho.RandomHyperplaneOptimizer(3, seed)
    if k == 'twopoint' and not regression:
        return ho.RandomTwoPointOptimizer(int(rng.integers(1, 12)), seed)
    if k == 'quasi':
        return ho.QuasiRandomHyperplaneOptimizer(int(rng.integers(1, 15)))
    if k == 'anneal':
        return ho.SimulatedAnnealingOptimizer(4, 2, 0.9, seed)
    if k == 'de':
        from scipy.optimize._differentialevolution import DifferentialEvolutionSolver
        return ho.ScipyOptimizer(DifferentialEvolutionSolver, seed, maxiter=2, popsize=3, polish=False)
    if k == 'list':
        dirs = [list(map(float, rng.normal(size=d))) for _ in range(rng.integers(1, 5))]
        for i in range(d):
            if rng.random() < .6:
                dirs.append([1.0 if j == i else 0.0 for j in range(d)])
        if rng.random() < .3:
            dirs.append([0.0] * d)
        if rng.random() < .3:
            dirs.append([float('nan')] * d)
        if rng.random() < .5:
            dirs = dirs + [[-x for x in v] for v in dirs]
        rng.shuffle(dirs)
        return ListOptimizer(dirs)
    if k == 'listcube':
        dirs = [list(map(float, rng.random(size=d - 1))) for _ in range(rng.integers(1, 5))]
        dirs += [[0.0] * (d - 1), [1.0] * (d - 1), [0.5] * (d - 1)]
        rng.shuffle(dirs)
        return ListOptimizer(dirs, cube=True)
    return ho.RandomHyperplaneOptimizer(int(rng.integers(1, 12)), seed)


def scenario(seed, literals=(), models='PC HC PR HR'.split(), kinds=KINDS, nmax=40, opts=None):
    """A reproducible training problem."""
    rng = np.random.default_rng(seed)
    s = {'seed': seed}
    model = s['model'] = str(rng.choice(models))
    hyper, reg = model[0] == 'H', model[1] == 'R'
    kind = str(rng.choice(kinds))
    if hyper and kind in ('adjacent', 'huge'):
        kind = 'cont'
    s['kind'] = kind
    d = int(rng.choice([1, 2, 2, 3, 4, 7] if not hyper else [2, 2, 3, 4, 5]))
    n = int(rng.choice([2, 3, 4, 5, 7, 10, 15, 25, nmax]))
    usable = [x for x in literals if 2 <= x <= 400]
    if usable and rng.random() < .35:
        lit = int(rng.choice(usable)) + int(rng.integers(-1, 2))
        if rng.random() < .25 and 2 <= lit <= 12:
            d = lit
        else:
            n = max(2, lit)
    n_classes = 0
    if not reg:
        n_classes = int(rng.choice([2, 2, 2, 3, 4, 6]))
        n = max(n, n_classes)
    s['n'], s['d'], s['n_classes'] = n, d, n_classes
    X = make_X(rng, n, d, kind)
    ykind = s['ykind'] = str(rng.choice(YKINDS))
    y = make_y_reg(rng, X, ykind) if reg else make_y_class(rng, X, n_classes, ykind)
    if reg:
        y = y * float(rng.choice([1, 1, 10])) + float(rng.choice([0, 0, 3, -50]))
        mu = float(rng.choice([0, y.mean(), 1.5]))
        kappa = float(rng.choice([0.1, 1, 2, 10]))
        alpha = float(rng.choice([0.3, 1, kappa / 2, 4]))
        beta = float(rng.choice([0.05, 1, 3]))
        prior = [mu, kappa, alpha, beta]
    else:
        p = rng.choice([0, 1, 2])
        prior = [1.0] * n_classes if p == 0 else \
            [float(rng.choice([0.1, 0.5, 1, 2, 5])) for _ in range(n_classes)] if p == 1 else \
            [float(np.round(rng.gamma(1.0) + 0.05, 3)) for _ in range(n_classes)]
    pk = int(rng.integers(0, 3))
    prior = prior if pk == 0 else tuple(prior) if pk == 1 else np.array(prior)
    if not reg and pk == 2 and rng.random() < .3:
        prior = np.maximum(1, np.round(prior)).astype(int)
    cfg = {'partition_prior': float(rng.choice([0.1, 0.5, 0.9, 0.99, 0.9999, 0.9999999])),
           'prior': prior,
           'delta': float(rng.choice([0, 0, 0, 0.3, 1.0])),
           'prune': bool(rng.random() < .35),
           'split_precision': float(rng.choice([0, 0, 0, 0, 0.05, 1.0, 2.0]))}
    if hyper:
        cfg['optimizer'] = make_optimizer(rng, d, reg)
        if cfg['split_precision'] == 0 and kind not in GENERIC_KINDS:
            cfg['split_precision'] = 1e-6
    if opts:
        cfg.update(opts)
    s['cfg'] = cfg
    s['X'], s['y'] = X, y
    s['rng'] = np.random.default_rng(seed + 10 ** 9)
    return s


def describe(s):
    out = {}
    for k, v in s.items():
        if k in ('rng', 'literals'):
            continue
        if isinstance(v, np.ndarray):
            out[k] = v.tolist() if v.size <= 400 else 'array of shape {}'.format(v.shape)
        elif isinstance(v, dict):
            out[k] = {a: str(b) for a, b in v.items()}
        else:
            out[k] = v if isinstance(v, (int, float, str, bool, list, type(None))) else str(v)
    return out


def build(s):
    return MODELS[s['model']](**s['cfg'])


def fit(s, X=None, y=None, **kw):
    t = build(s)
    t.fit(s['X'].copy() if X is None else X, s['y'].copy() if y is None else y, **kw)
    return t


CONTAINERS = ['array', 'fortran', 'list', 'frame', 'frame2', 'csr', 'csc', 'csr0', 'view', 'readonly', 'object']


def container(X, kind):
    if kind == 'array':
        return X.copy()
    if kind == 'fortran':
        return np.asfortranarray(X.copy())
    if kind == 'list':
        return X.tolist()
    if kind == 'frame':
        return pd.DataFrame(X.copy(), columns=['c{}'.format(i) for i in range(X.shape[1])])
    if kind == 'frame2':
        return pd.DataFrame(X.copy(), columns=list(range(X.shape[1], 0, -1)), index=np.arange(len(X))[::-1] * 3)
    if kind == 'csr':
        return csr_matrix(X)
    if kind == 'csc':
        return csc_matrix(X)
    if kind == 'csr0':  # explicit zeros
        n, d = X.shape
        return csr_matrix((X.ravel().copy(), np.tile(np.arange(d), n), np.arange(0, n * d + 1, d)), shape=(n, d))
    if kind == 'view':
        big = np.zeros((2 * X.shape[0], 3 * X.shape[1]))
        v = big[::2, 1::3]
        v[...] = X
        return v
    if kind == 'readonly':
        X = X.copy()
        X.flags.writeable = False
        return X
    if kind == 'object':
        return X.astype(object)
    raise ValueError(kind)


# ------------------------------------------------------------------------------------------------ trees

def is_split(node):
    if hasattr(node, 'split_value_'):
        return node.split_value_ is not None
    return node.best_hyperplane_normal_ is not None


def hyper(node):
    return hasattr(node, 'best_hyperplane_normal_')


def walk(node, depth=0):
    yield node, depth
    if is_split(node):
        yield from walk(node.child1_, depth + 1)
        yield from walk(node.child2_, depth + 1)


def side_values(node, X):
    """The signed quantity that is negative on the side of the first child; nan where rounding could decide."""
    if not hyper(node):
        return np.where(X[:, node.split_dimension_] < node.split_value_, -1.0, 1.0)
    w, o = np.asarray(node.best_hyperplane_normal_), np.asarray(node.best_hyperplane_origin_)
    proj = (X * w).sum(axis=1) - (w * o).sum()
    scale = 1e-9 * (1 + np.abs(X * w).sum(axis=1) + np.abs(w * o).sum())
    return np.where(np.abs(proj) <= scale, np.nan, proj)


def route(node, X):
    """(leaf, ambiguous) for every row, by walking the published split attributes."""
    leaf = [None] * len(X)
    ambiguous = np.zeros(len(X), bool)

    def go(node, rows):
        if len(rows) == 0:
            return
        if not is_split(node):
            for r in rows:
                leaf[r] = node
            return
        v = side_values(node, X[rows])
        ambiguous[rows[np.isnan(v)]] = True
        go(node.child1_, rows[v < 0])
        go(node.child2_, rows[~(v < 0)])
    go(node, np.arange(len(X)))
    return leaf, ambiguous


def query_rows(s, tree, m=25):
    """Rows close to and exactly on the split values, training rows and random rows."""
    rng = s['rng']
    X = s['X']
    n, d = X.shape
    base = X[rng.integers(0, n, size=m)].copy()
    rows = [base]
    if not hyper(tree):
        splits = [(k.split_dimension_, k.split_value_) for k, _ in walk(tree) if is_split(k)]
        if splits:
            q = X[rng.integers(0, n, size=m)].copy()
            for r in range(m):
                for _ in range(int(rng.integers(1, 3))):
                    dim, v = splits[int(rng.integers(0, len(splits)))]
                    q[r, dim] = rng.choice([v, v, np.nextafter(v, -np.inf), np.nextafter(v, np.inf), v - 1, v + 1])
            rows.append(q)
    with np.errstate(all='ignore'):
        noise = base + rng.normal(size=base.shape) * np.where(np.isfinite(X.std(axis=0)), X.std(axis=0), 1)
    noise[~np.isfinite(noise)] = 0
    rows.append(noise)
    rows.append(np.zeros((1, d)))
    return np.concatenate(rows)


def raw(v):
    if v is None or isinstance(v, (bool, int, float, str, np.generic)):
        return v.item() if isinstance(v, np.generic) else v
    if isinstance(v, np.ndarray):
        return ('array', v.shape, tuple(raw(x) for x in v.ravel().tolist()))
    if isinstance(v, (list, tuple)):
        return ('seq', tuple(raw(x) for x in v))
    return repr(type(v))


def same(a, b):
    a, b = raw(a), raw(b)
    return a == b or (a != a and b != b) or repr(a) == repr(b)


SKIP_ATTRS = ('optimization_function', 'child1_', 'child2_', 'optimizer', 'child_type')


def dump(node, skip=()):
    """Everything observable of a tree: the attributes of every node."""
    out = []
    for k, depth in walk(node):
        out.append((depth, {a: raw(v) for a, v in sorted(vars(k).items()) if a not in SKIP_ATTRS and a not in skip}))
    return out


def close_raw(a, b):
    """Equal up to rounding (matrix products may depend on memory alignment in the last bits)."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(close_raw(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * (1 + abs(a))
    return repr(a) == repr(b)


def dump_diff(a, b, approx=False):
    if len(a) != len(b):
        return 'different number of nodes: {} and {}'.format(len(a), len(b))
    for i, ((da, xa), (db, xb)) in enumerate(zip(a, b)):
        if da != db:
            return 'node {}: different depth {} and {}'.format(i, da, db)
        for k in sorted(set(xa) | set(xb)):
            if k not in xa or k not in xb:
                return 'node {}: attribute {} only in one of the trees'.format(i, k)
            if repr(xa[k]) != repr(xb[k]) and not (approx and close_raw(xa[k], xb[k])):
                return 'node {}: attribute {}: {} and {}'.format(i, k, xa[k], xb[k])
    return None


# ------------------------------------------------------------------------------------------------ reference evidence

def betaln_multi(a):
    a = np.asarray(a, float)
    return gammaln(a).sum() - gammaln(a.sum())


def ev_class(prior, counts):
    prior = np.asarray(prior, float)
    return betaln_multi(prior + counts) - betaln_multi(prior)


def ng_post(prior, y, delta=1.0):
    mu, kappa, alpha, beta = [float(v) for v in prior]
    y = np.asarray(y, float)
    n = len(y) * delta
    if len(y) == 0:
        return mu, kappa, alpha, beta
    m = y.mean()
    ss = ((y - m) ** 2).sum() * delta
    kn = kappa + n
    return ((kappa * mu + n * m) / kn, kn, alpha + n / 2, beta + 0.5 * ss + kappa * n * (m - mu) ** 2 / (2 * kn))


def ev_reg(prior, y):
    mu, kappa, alpha, beta = [float(v) for v in prior]
    _, kn, an, bn = ng_post(prior, y)
    return (gammaln(an) - gammaln(alpha) + alpha * math.log(beta) - an * math.log(bn)
            + 0.5 * math.log(kappa / kn) - len(y) / 2 * math.log(2 * math.pi))


def evidence(is_reg, prior, y):
    if is_reg:
        return ev_reg(prior, y)
    return ev_class(prior, np.array([(y == i).sum() for i in range(len(prior))], float))


def log_no_split(is_reg, prior, y, p, level):
    return math.log(1 - p ** (1 + level)) + evidence(is_reg, prior, y)


def split_scores(is_reg, prior, y_sorted, positions, n_dim, p, level):
    """Scores of splitting the sorted targets before each position."""
    base = math.log(p ** (1 + level) / (len(positions) * n_dim))
    if is_reg:
        return np.array([base + ev_reg(prior, y_sorted[:k]) + ev_reg(prior, y_sorted[k:]) for k in positions])
    n_classes = len(prior)
    onehot = (y_sorted[:, None] == np.arange(n_classes)[None, :]).cumsum(axis=0)
    tot = onehot[-1]
    pr = np.asarray(prior, float)
    b0 = betaln_multi(pr)
    a1 = pr + onehot[np.asarray(positions) - 1]
    a2 = pr + tot - onehot[np.asarray(positions) - 1]
    f = lambda a: gammaln(a).sum(axis=1) - gammaln(a.sum(axis=1))  # noqa: E731
    return base + f(a1) + f(a2) - 2 * b0


def tol_for(*vals, n=1):
    return 1e-8 * (10 + n + max([abs(float(v)) for v in vals if np.isfinite(v)] or [0]))


def node_rows(tree, X):
    """The training rows of every node by routing with the published split attributes (None if rounding may decide)."""
    res = []

    def go(node, rows):
        res.append((node, rows))
        if is_split(node):
            v = side_values(node, X[rows])
            if np.isnan(v).any():
                raise Skip()
            go(node.child1_, rows[v < 0])
            go(node.child2_, rows[~(v < 0)])
    go(tree, np.arange(len(X)))
    return res


def node_prior(node):
    return [float(v) for v in node.prior]
