"""One concrete check per property: run the real code on a reproducible scenario and compare with the reference."""
from core import *  # noqa: F401,F403
import inspect
import random
import re

from bayesian_decision_tree import utils

REF = {}


def big_scenario(seed, size, hyper=False, reg=None):
    """Few splits on many rows."""
    rng = np.random.default_rng(seed)
    reg = bool(rng.random() < .5) if reg is None else reg
    model = ('H' if hyper else 'P') + ('R' if reg else 'C')
    n = int(size)
    d = 2
    X = np.round(rng.normal(size=(n, d)), 6) if rng.random() < .5 else rng.integers(0, 50, size=(n, d)).astype(float)
    t = (X[:, 0] > np.quantile(X[:, 0], .8)).astype(float)
    if reg:
        y = 4 * t + 0.5 * rng.normal(size=n)
        prior = [0.0, 1.0, 1.0, 1.0]
    else:
        y = np.where(rng.random(n) < .02, 1 - t, t)
        prior = [1.0, 2.0]
    cfg = {'partition_prior': 0.5, 'prior': prior, 'delta': 0, 'prune': False, 'split_precision': 0.0}
    if hyper:
        cfg['optimizer'] = ListOptimizer([[1.0, 0.0]])
    return {'seed': seed, 'model': model, 'n': n, 'd': d, 'n_classes': 2, 'kind': 'big', 'cfg': cfg, 'X': X, 'y': y,
            'rng': np.random.default_rng(seed + 1)}


def some_scenario(seed, literals, big=True, **kw):
    rng = np.random.default_rng(seed * 7 + 1)
    large = [x for x in literals if 400 < x <= 150000]
    if big and large and rng.random() < .02:
        m = str(rng.choice(kw.get('models', ['PC', 'PR', 'HC', 'HR'])))
        return big_scenario(seed, int(rng.choice(large)) + int(rng.integers(-1, 4)), m[0] == 'H', m[1] == 'R')
    return scenario(seed, literals, **kw)


# ---------------------------------------------------------------------------------------------- C01

def raw_leaf(node):
    return np.array([node.prior, node.posterior_])


def C01(seed, literals):
    s = some_scenario(seed, literals)
    yield s
    t = fit(s)
    rng = s['rng']
    Q = query_rows(s, t)
    leaf, amb = route(t, Q)
    reg = s['model'][1] == 'R'
    kinds = [str(k) for k in rng.choice(CONTAINERS, size=3, replace=False)] + ['array']
    ok = ~amb
    perms = [np.arange(len(Q)), rng.permutation(len(Q)), rng.integers(0, len(Q), size=int(rng.integers(1, 6)))]
    perms += [np.array([int(r)]) for r in rng.integers(0, len(Q), size=3)]
    for kind in kinds:
        for rows in perms:
            q = container(Q[rows], kind)
            outs = [('predict', t.predict(q)), ('_get_raw_leaf_data', t._get_raw_leaf_data(q))]
            if not reg:
                outs.append(('predict_proba', t.predict_proba(q)))
            for name, out in outs:
                require(len(out) == len(rows), '{} returns {} answers for {} rows ({})', name, len(out), len(rows), kind)
                for j, r in enumerate(rows):
                    if not ok[r]:
                        continue
                    k = leaf[r]
                    if name == 'predict':
                        want = float(np.argmax(k.posterior_)) if not reg else float(k.posterior_[0])
                    elif name == 'predict_proba':
                        want = np.asarray(k.posterior_, float) / np.sum(np.asarray(k.posterior_, float))
                    else:
                        want = raw_leaf(k)
                    got = out[j]
                    require(np.shape(got) == np.shape(want) and np.allclose(np.asarray(got, float), np.asarray(want, float), rtol=1e-12, atol=0, equal_nan=True),
                            '{}({}) row {} of batch {}: got {}, its leaf says {}; row = {}', name, kind, j, rows.tolist(), got, want, Q[r].tolist())


# ---------------------------------------------------------------------------------------------- C02

def C02(seed, literals):
    s = some_scenario(seed, literals, models=['PC', 'PR'])
    yield s
    t = fit(s)
    rng = s['rng']
    Q = query_rows(s, t)

    def path(x):
        node, p = t, []
        while is_split(node):
            right = bool(x[node.split_dimension_] >= node.split_value_)
            p.append((node.split_dimension_, node.split_feature_name_, node.split_value_, right))
            node = node.child2_ if right else node.child1_
        return p
    want = [path(x) for x in Q]
    kinds = [str(k) for k in rng.choice(CONTAINERS, size=3, replace=False)] + ['array']
    for kind in kinds:
        for rows in [np.arange(len(Q)), rng.permutation(len(Q)), rng.integers(0, len(Q), size=3), np.array([0])]:
            got = t.prediction_paths(container(Q[rows], kind))
            require(len(got) == len(rows), '{} paths for {} rows', len(got), len(rows))
            for j, r in enumerate(rows):
                g = [tuple(e) for e in got[j]]
                require(len(g) == len(want[r]) and all(len(a) == 4 and a[0] == b[0] and a[1] == b[1] and a[2] == b[2] and bool(a[3]) == b[3]
                                                       for a, b in zip(g, want[r])),
                        'path of row {} of {} ({}): got {}, expected {}', Q[r].tolist(), rows.tolist(), kind, g, want[r])


# ---------------------------------------------------------------------------------------------- C03

def C03(seed, literals):
    s = some_scenario(seed, literals)
    yield s
    rng = s['rng']
    kind = str(rng.choice(['array', 'array', 'csr', 'csc', 'csr0', 'frame', 'list', 'fortran']))
    t = fit(s, container(s['X'], kind))
    for node, rows in node_rows(t, s['X']):
        require(node.n_data_ == len(rows), 'a node at level {} records n_data_={} but {} training rows are routed through it ({})',
                node.level, node.n_data_, len(rows), kind)
        if is_split(node):
            require(node.child1_ is not None and node.child2_ is not None, 'a split without children')
            require(node.child1_.n_data_ > 0 and node.child2_.n_data_ > 0, 'a split with an empty side')
            require(node.child1_.n_data_ + node.child2_.n_data_ == node.n_data_, 'children hold {} and {} of {} rows',
                    node.child1_.n_data_, node.child2_.n_data_, node.n_data_)
    require(t.n_data_ == len(s['X']), 'root records {} of {} rows', t.n_data_, len(s['X']))


# ---------------------------------------------------------------------------------------------- C04

def tie_scenario(seed):
    """A training problem where splitting and not splitting have (nearly) the same probability."""
    rng = np.random.default_rng(seed)
    a = float(rng.choice([1, 2, 0.5, 3]))
    k = int(rng.integers(1, 4))
    d = int(rng.integers(1, 3))
    y = np.array([0.0] * k + [1.0] * k)
    X = np.repeat(np.arange(2 * k)[:, None], d, axis=1).astype(float)
    X = X // k
    pr = np.array([a, a])
    no = ev_class(pr, np.array([k, k]))
    sp = ev_class(pr, np.array([k, 0])) + ev_class(pr, np.array([0, k])) - math.log(d)
    p = 1 / (1 + math.exp(sp - no))
    for _ in range(int(rng.integers(0, 12))):
        p = np.nextafter(p, rng.choice([0, 1]))
    s = {'seed': seed, 'model': 'PC', 'n': 2 * k, 'd': d, 'n_classes': 2, 'kind': 'tie', 'X': X, 'y': y,
         'cfg': {'partition_prior': float(p), 'prior': [a, a], 'delta': 0, 'prune': False, 'split_precision': 0.0},
         'rng': rng}
    return s


def C04(seed, literals):
    if seed % 7 == 0:
        s = tie_scenario(seed)
    else:
        s = some_scenario(seed, literals, models=['PC', 'PR'], opts={'prune': False})
    yield s
    rng = s['rng']
    kind = str(rng.choice(['array', 'array', 'csr', 'csc', 'frame']))
    t = fit(s, container(s['X'], kind))
    reg = s['model'][1] == 'R'
    X, y = s['X'], s['y']
    d = X.shape[1]
    p, prec = s['cfg']['partition_prior'], s['cfg']['split_precision']
    for node, rows in node_rows(t, X):
        if node is not t and (len(rows) < 2 or len(np.unique(y[rows])) < 2):
            continue
        if len(rows) > 3000:
            step = True
        prior = node_prior(node)
        no = log_no_split(reg, prior, y[rows], p, node.level)
        best, cands = -np.inf, {}
        with np.errstate(all='ignore'):
            for dim in range(d):
                order = rows[np.argsort(X[rows, dim], kind='stable')]
                xs = X[order, dim]
                pos = 1 + np.where(np.abs(np.diff(xs)) > prec)[0]
                if len(pos) == 0:
                    continue
                if reg and len(rows) > 3000:
                    cs, cq = y[order].cumsum(), (y[order] ** 2).cumsum()
                    sc = big_reg_scores(prior, cs, cq, pos, d, p, node.level)
                else:
                    sc = split_scores(reg, prior, y[order], pos, d, p, node.level)
                cands[dim] = (xs, pos, sc)
                best = max(best, sc.max())
        tol = tol_for(no, best, n=len(rows)) * (100 if len(rows) > 3000 else 1)
        desc = 'node at level {} with {} rows'.format(node.level, len(rows))
        if not is_split(node):
            require(best <= no + tol, '{} is a leaf although a split has log probability {} > {}', desc, best, no)
            continue
        require(best >= no - tol, '{} is split although the best split has log probability {} < {}', desc, best, no)
        dim = node.split_dimension_
        require(dim in cands, '{}: split along dimension {} which has no admissible split', desc, dim)
        xs, pos, sc = cands[dim]
        k = int(np.searchsorted(xs, node.split_value_, side='left'))
        hit = np.where(pos == k)[0]
        require(len(hit) == 1, '{}: split value {} of dimension {} is not at an admissible position', desc, node.split_value_, dim)
        lo, hi = xs[k - 1], xs[k]
        require(lo < node.split_value_ <= hi, '{}: split value {} not between {} and {}', desc, node.split_value_, lo, hi)
        with np.errstate(all='ignore'):
            mid = 0.5 * (lo + hi)
        if np.isfinite(mid) and lo < mid <= hi:
            require(abs(node.split_value_ - mid) <= 4 * np.spacing(max(abs(lo), abs(hi))), '{}: split value {} is not halfway between {} and {}', desc, node.split_value_, lo, hi)
        require(sc[hit[0]] >= best - tol, '{}: the split taken has log probability {} but the best one has {}', desc, sc[hit[0]], best)
        require(abs(node.best_log_p_data_split_ - sc[hit[0]]) <= tol, '{}: recorded split log probability {}, actually {}', desc, node.best_log_p_data_split_, sc[hit[0]])
        require(abs(node.log_p_data_no_split_ - no) <= tol, '{}: recorded no-split log probability {}, actually {}', desc, node.log_p_data_no_split_, no)
        require(node.best_log_p_data_split_ > node.log_p_data_no_split_, '{}: split taken with log probability {} which is not higher than not splitting, {}',
                desc, node.best_log_p_data_split_, node.log_p_data_no_split_)


def big_reg_scores(prior, cs, cq, pos, d, p, level):
    mu, kappa, alpha, beta = prior
    base = math.log(p ** (1 + level) / (len(pos) * d))
    out = 0
    for n, s1, q1 in ((pos, cs[pos - 1], cq[pos - 1]), (len(cs) - pos, cs[-1] - cs[pos - 1], cq[-1] - cq[pos - 1])):
        kn = kappa + n
        an = alpha + n / 2
        bn = beta + 0.5 * (q1 - s1 ** 2 / n) + kappa * n * (s1 / n - mu) ** 2 / (2 * kn)
        out = out + gammaln(an) - gammaln(alpha) + alpha * math.log(beta) - an * np.log(bn) + 0.5 * np.log(kappa / kn) - n / 2 * math.log(2 * math.pi)
    return base + out


# ---------------------------------------------------------------------------------------------- C05 / C06

def direct_scores(t, y, prior, n_dim, pos):
    """The score vector of the named private function, or None if it is not callable that way any more."""
    f = getattr(t, '_compute_log_p_data_split', None)
    g = getattr(t, '_compute_log_p_data_no_split', None)
    try:
        if f is None or g is None or list(inspect.signature(f).parameters)[:4] != ['y', 'prior', 'n_dim', 'split_indices'] \
                or len(inspect.signature(f).parameters) != 4 or list(inspect.signature(g).parameters) != ['y', 'prior']:
            return None
    except (TypeError, ValueError):
        return None
    return np.asarray(f(y, prior, n_dim, pos), float), float(g(y, prior))


def evidence_case(seed, literals, reg):
    rng = np.random.default_rng(seed)
    if seed % 3 == 0:
        s = some_scenario(seed, literals, models=['PR', 'HR'] if reg else ['PC', 'HC'], kinds=['grid', 'cont', 'dups', 'half'])
        yield s
        t = fit(s)
        p = s['cfg']['partition_prior']
        nodes = node_rows(t, s['X'])
        for node, rows in nodes:
            if not is_split(node):
                continue
            y = s['y'][rows]
            no = log_no_split(reg, node_prior(node), y, p, node.level)
            tol = tol_for(no, n=len(rows)) * (100 if len(rows) > 3000 else 1)
            require(abs(node.log_p_data_no_split_ - no) <= tol, 'node at level {} with {} rows: recorded no-split log probability {}, reference {}',
                    node.level, len(rows), node.log_p_data_no_split_, no)
            if hyper(node):
                continue
            xs = np.sort(s['X'][rows, node.split_dimension_])
            npos = int((np.abs(np.diff(xs)) > s['cfg']['split_precision']).sum())
            left = s['X'][rows, node.split_dimension_] < node.split_value_
            want = math.log(p ** (1 + node.level) / (npos * s['d'])) + evidence(reg, node_prior(node), y[left]) + evidence(reg, node_prior(node), y[~left])
            require(abs(node.best_log_p_data_split_ - want) <= tol + tol_for(want), 'node at level {} with {} rows: recorded split log probability {}, reference {}',
                    node.level, len(rows), node.best_log_p_data_split_, want)
        return
    # direct evaluation of the scoring functions
    use = [x for x in literals if 2 <= x <= 3000]
    n = int(rng.choice([2, 3, 5, 8, 20, 60, 300]))
    if use and rng.random() < .4:
        n = max(2, int(rng.choice(use)) + int(rng.integers(-1, 2)))
    level = int(rng.choice([0, 0, 1, 2, 3, 5, 9, 20]))
    p = float(rng.choice([0.1, 0.5, 0.9, 0.99]))
    n_dim = int(rng.choice([1, 2, 3, 10, 50]))
    hyp = bool(rng.random() < .4)
    if reg:
        y = rng.normal(size=n) * float(rng.choice([0.1, 1, 20])) + float(rng.choice([0, 5, -20]))
        if rng.random() < .3:
            y = np.round(y)
        prior = [float(rng.choice([0, 1.5, -3])), float(rng.choice([0.1, 1, 7])), float(rng.choice([0.3, 1, 4])), float(rng.choice([0.05, 1, 3]))]
    else:
        n_classes = int(rng.choice([2, 2, 3, 4, 5, 8, 30]))
        if use and rng.random() < .2:
            small = [x for x in use if x <= 300]
            n_classes = max(2, int(rng.choice(small))) if small else n_classes
        y = rng.integers(0, n_classes, size=n).astype(float)
        prior = [float(rng.choice([0.05, 0.5, 1, 2, 7])) for _ in range(n_classes)]
        if rng.random() < .3:
            prior = [float(max(1, round(v))) for v in prior]
    form = int(rng.integers(0, 3))
    prior_in = prior if form == 0 else tuple(prior) if form == 1 else np.array(prior)
    mode = rng.choice(['all', 'some', 'one', 'ends', 'miss1'])
    pos = np.arange(1, n)
    if mode == 'some':
        pos = np.sort(rng.permutation(pos)[:max(1, len(pos) // 2)])
    elif mode == 'one':
        pos = rng.permutation(pos)[:1]
    elif mode == 'ends':
        pos = np.unique([1, n - 1])
    elif mode == 'miss1' and len(pos) > 1:
        pos = np.delete(pos, int(rng.choice([0, len(pos) - 1, len(pos) // 2])))
    s = {'seed': seed, 'direct': True, 'y': y, 'prior': [float(v) for v in prior], 'prior_type': type(prior_in).__name__, 'positions': pos,
         'partition_prior': p, 'level': level, 'n_dim': n_dim, 'hyperplane': hyp}
    yield s
    cls = {(0, 0): 'PC', (1, 0): 'HC', (0, 1): 'PR', (1, 1): 'HR'}[(int(hyp), int(reg))]
    kw = dict(partition_prior=p, prior=prior_in, level=level)
    t = MODELS[cls](**kw)
    r = direct_scores(t, y.copy(), prior_in, n_dim, pos.copy())
    if r is None:
        return
    got, got_no = r
    want = split_scores(reg, prior, y, pos, n_dim, p, level)
    want_no = log_no_split(reg, prior, y, p, level)
    require(got.shape == want.shape, 'scores of shape {}, expected {}', got.shape, want.shape)
    tol = tol_for(want_no, *want[:1], n=n)
    require(abs(got_no - want_no) <= tol, 'no-split log probability {}, reference {}', got_no, want_no)
    bad = np.where(~(np.abs(got - want) <= tol))[0]
    require(len(bad) == 0, 'split log probabilities at positions {}: {}, reference {}', pos[bad][:5], got[bad][:5], want[bad][:5])


def C05(seed, literals):
    yield from evidence_case(seed, literals, False)


def C06(seed, literals):
    yield from evidence_case(seed, literals, True)


# ---------------------------------------------------------------------------------------------- C07

def C07(seed, literals):
    s = some_scenario(seed, literals)
    yield s
    t = fit(s)
    reg = s['model'][1] == 'R'
    X, y = s['X'], s['y']
    delta = s['cfg']['delta']
    root_prior = [float(v) for v in s['cfg']['prior']]
    rows_of = node_rows(t, X)
    info = {id(n): r for n, r in rows_of}

    def upd(prior, yy, dl):
        if reg:
            return np.array(ng_post(prior, yy, dl), float)
        return np.asarray(prior, float) + dl * np.array([(yy == i).sum() for i in range(len(prior))], float)

    def close(a, b, n):
        a, b = np.asarray([float(v) for v in a]), np.asarray([float(v) for v in b])
        return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-9 * (1 + np.abs(b)) * (1 + 0.01 * n) * (10 if n < 3000 else 1000)))

    def go(node, prior):
        rows = info[id(node)]
        require(close(node.prior, prior, len(rows)), 'node at level {}: prior {} but expected {}', node.level, list(node.prior), list(prior))
        if delta == 0:
            want = upd(root_prior, y[rows], 1)
            require(close(node.posterior_, want, len(rows)), 'node at level {} with {} rows: posterior {} but expected {}',
                    node.level, len(rows), list(node.posterior_), list(want))
        if is_split(node):
            for c in (node.child1_, node.child2_):
                perp = not hyper(node)
                go(c, upd(prior, y[info[id(c)]], delta) if perp and delta != 0 else prior)
    go(t, root_prior)
    # leaf predictions
    leaf, amb = route(t, X)
    m = min(len(X), 60)
    sel = s['rng'].permutation(len(X))[:m]
    pred = t.predict(X[sel].copy())
    proba = None if reg else t.predict_proba(X[sel].copy())
    for j, r in enumerate(sel):
        if amb[r]:
            continue
        post = np.asarray([float(v) for v in leaf[r].posterior_])
        if reg:
            require(abs(pred[j] - post[0]) <= 1e-12 * (1 + abs(post[0])), 'predicted {} but the posterior mean is {}', pred[j], post[0])
        else:
            q = post / post.sum()
            require(proba.shape == (m, len(post)), 'probabilities of shape {}', proba.shape)
            require(np.allclose(proba[j], q, rtol=1e-12, atol=0) and abs(proba[j].sum() - 1) < 1e-9 and (proba[j] > 0).all(),
                    'probabilities {} but the posterior is {}', proba[j].tolist(), post.tolist())
            want = min(i for i in range(len(post)) if post[i] == post.max())
            require(pred[j] == want, 'predicted class {} but the posterior is {}', pred[j], post.tolist())


# ---------------------------------------------------------------------------------------------- C08

def struct(node, reg):
    """Mutable copy of a tree: [prediction, split info, child1, child2, attributes]"""
    attrs = {a: raw(v) for a, v in vars(node).items() if a not in SKIP_ATTRS and a != 'prune'}
    pred = (node.posterior_[0] if reg else int(np.argmax(node.posterior_)))
    if is_split(node):
        return [pred, True, struct(node.child1_, reg), struct(node.child2_, reg), attrs]
    return [pred, False, None, None, attrs]


def prune_ref(t):
    if not t[1]:
        return
    prune_ref(t[2])
    prune_ref(t[3])
    if not t[2][1] and not t[3][1] and t[2][0] == t[3][0]:
        t[1], t[2], t[3] = False, None, None


SPLIT_ATTRS = ('split_dimension_', 'split_value_', 'split_feature_name_', 'best_hyperplane_normal_', 'best_hyperplane_origin_',
               'log_p_data_no_split_', 'best_log_p_data_split_')


def compare_pruned(ref, node, reg, where='root'):
    require(ref[1] == is_split(node), 'node {} is {} but should be {}', where, 'split' if is_split(node) else 'a leaf', 'split' if ref[1] else 'a leaf')
    for a, v in ref[4].items():
        if not ref[1] and a in SPLIT_ATTRS:
            continue
        require(hasattr(node, a) and (repr(raw(getattr(node, a))) == repr(v) or hyper(node) and close_raw(raw(getattr(node, a)), v)), 'node {}: attribute {} is {} but was {} before pruning', where, a, getattr(node, a, 'missing'), v)
    if ref[1]:
        compare_pruned(ref[2], node.child1_, reg, where + '.1')
        compare_pruned(ref[3], node.child2_, reg, where + '.2')
    else:
        require(getattr(node, 'child1_', None) is None and getattr(node, 'child2_', None) is None, 'leaf {} still has children', where)
        for a in SPLIT_ATTRS:
            if hasattr(node, a):
                v = getattr(node, a)
                require(v is None or (a == 'split_dimension_' and v == -1), 'leaf {} still carries {}={}', where, a, v)


def C08(seed, literals):
    rng = np.random.default_rng(seed)
    s = scenario(seed, literals)
    if s['model'][1] == 'C' and rng.random() < .7:  # more equal predictions
        s['cfg']['prior'] = np.array([1.0] * s['n_classes']) + np.eye(s['n_classes'])[rng.integers(0, s['n_classes'])] * float(rng.choice([3, 8, 20]))
    if s['model'][1] == 'R' and rng.random() < .6:
        s['y'] = np.round(s['y'])
        if rng.random() < .5:  # equal posterior means
            s['cfg']['prior'] = [0.0, 1.0, 1.0, 1.0]
            s['y'] = rng.choice([-1.0, 1.0], size=s['n'])
    s['cfg']['partition_prior'] = float(rng.choice([0.9, 0.999, 0.9999999]))
    yield s
    for attempt in range(3):
        try:
            prune_case(s)
            return
        except Violation:
            if s['model'][0] == 'P' or attempt == 2:
                raise  # hyperplane trees: the last bits of matrix products are not reproducible


def prune_case(s):
    s['cfg']['prune'] = False
    t0 = fit(s)
    s['cfg']['prune'] = True
    t1 = fit(s)
    reg = s['model'][1] == 'R'
    ref = struct(t0, reg)
    prune_ref(ref)
    compare_pruned(ref, t1, reg)
    for node, _ in walk(t1):
        if is_split(node) and not is_split(node.child1_) and not is_split(node.child2_):
            a, b = struct(node.child1_, reg)[0], struct(node.child2_, reg)[0]
            require(a != b, 'two sibling leaves both predict {}', a)
    require(t1.get_depth() == max(d for _, d in walk(t1)) and t1.get_n_leaves() == sum(not is_split(k) for k, _ in walk(t1)), 'depth or leaf count wrong after pruning')


# ---------------------------------------------------------------------------------------------- C09

def ref_sphere_half(u):
    """YPHL construction of a single point, half sphere."""
    u = np.asarray(u, float)
    D = len(u)
    E = D + 1
    x = np.zeros(E)
    if E % 2 == 0:
        phi = np.pi * (u[0] - .5)
        x[0], x[1] = np.cos(phi), np.sin(phi)
        done, nxt = 2, 1
    else:
        x[0] = 1
        done, nxt = 1, 0
    while done < E:
        h = u[nxt] ** (1.0 / done)
        x[:done] *= h
        r = np.sqrt(max(0.0, 1 - h * h))
        phi = 2 * np.pi * u[nxt + 1]
        x[done], x[done + 1] = r * np.cos(phi), r * np.sin(phi)
        done += 2
        nxt += 2
    return x


def ref_sphere_full(u):
    u = np.asarray(u, float)
    D = len(u)
    E = D + 1
    x = np.zeros(E)
    if E % 2 == 0:
        phi = 2 * np.pi * u[0]
        x[0], x[1] = np.cos(phi), np.sin(phi)
        done, nxt = 2, 1
    else:
        phi, th = np.arccos(2 * u[0] - 1), 2 * np.pi * u[1]
        x[0], x[1], x[2] = np.sin(phi) * np.cos(th), np.sin(phi) * np.sin(th), np.cos(phi)
        done, nxt = 3, 2
    while done < E:
        h = u[nxt] ** (1.0 / done)
        x[:done] *= h
        r = np.sqrt(max(0.0, 1 - h * h))
        phi = 2 * np.pi * u[nxt + 1]
        x[done], x[done + 1] = r * np.cos(phi), r * np.sin(phi)
        done += 2
        nxt += 2
    return x


def C09(seed, literals):
    rng = np.random.default_rng(seed)
    s = scenario(seed, literals, models=['HC', 'HR'], kinds=['cont', 'cont', 'sorted', 'grid', 'half', 'dups'], opts={'prune': False}, nmax=60)
    if s['d'] < 2:
        return
    if rng.uniform() < 0.25:
        s['cfg']['optimizer'] = Lengths(int(rng.integers(1, 12)), int(seed) % 10007)
    yield s
    reg = s['model'][1] == 'R'
    rec = Recorder(s['cfg']['optimizer'])
    s['cfg']['optimizer'] = rec
    X, y = s['X'], s['y']
    kind = str(rng.choice(['array', 'array', 'csr', 'csc', 'csr0', 'frame']))
    t = fit(s, container(X, kind))
    p, prec = s['cfg']['partition_prior'], s['cfg']['split_precision']
    by_f = {id(r['f']): r for r in rec.runs}
    rows_of = None
    try:
        rows_of = node_rows(t, X)
    except Skip:
        raise
    for node, rows in rows_of:
        run = by_f.get(id(getattr(node, 'optimization_function', None)))
        if run is None:
            if node is t and len(rec.runs) >= 1:
                run = rec.runs[0]
            else:
                continue
        Xn, yn = X[rows], y[rows]
        prior = node_prior(node)
        no = log_no_split(reg, prior, yn, p, node.level)
        tol = tol_for(no, n=len(rows))
        best = -np.inf
        for normal, value in run['evals']:
            w = ref_sphere_half(normal) if rec.search_space_is_unit_hypercube else np.nan_to_num(normal)
            if np.all(w == 0):
                w = np.eye(len(w))[0]
            w = w / np.linalg.norm(w)
            proj = Xn @ w
            order = np.argsort(proj, kind='stable')
            diffs = np.diff(proj[order])
            eps = 1e-10 * (1 + np.abs(Xn).max())
            if (np.abs(diffs - prec) < eps).any() or (prec > 0 and ((diffs > 0) & (diffs < eps)).sum() < 0):
                raise Skip()  # rounding decides which positions are admissible
            pos = 1 + np.where(diffs > prec)[0]
            if len(pos) == 0:
                require(abs(value + no) <= tol, 'direction {}: no admissible position, value {} but expected {}', w.tolist(), value, -no)
                continue
            if not reg and False:
                pass
            # positions inside a group of equal projections depend on the order within the group only for inadmissible ones,
            # admissible ones may still depend on it when 0 < difference <= precision
            if prec > 0 and ((diffs > 0) & (diffs <= 2 * eps)).any() and False:
                raise Skip()
            sc = split_scores(reg, prior, yn[order], pos, X.shape[1], p, node.level)
            require(abs(value + sc.max()) <= tol + tol_for(sc.max()), 'direction {}: the optimizer was told {} but the best position has log probability {}', w.tolist(), value, sc.max())
            best = max(best, sc.max())
        if len(run['evals']) == 0:
            require(not is_split(node), 'split without any evaluated direction')
            continue
        if not is_split(node):
            # ties with not splitting may go either way; a split may also leave one side empty
            require(best <= no + tol, 'node at level {} is a leaf although a direction reaches {} > {}', node.level, best, no)
            continue
        require(best >= no - tol, 'node at level {} is split although the best direction reaches {} < {}', node.level, best, no)
        w, o = np.asarray(node.best_hyperplane_normal_, float), np.asarray(node.best_hyperplane_origin_, float)
        require(w.shape == (X.shape[1],) and o.shape == (X.shape[1],), 'normal or origin of shape {}, {}', w.shape, o.shape)
        require(abs(np.linalg.norm(w) - 1) <= 1e-9, 'stored normal has length {}', np.linalg.norm(w))
        require(abs(node.best_log_p_data_split_ - best) <= tol, 'recorded log probability {} but the best one tried is {}', node.best_log_p_data_split_, best)
        require(abs(node.log_p_data_no_split_ - no) <= tol, 'recorded no-split log probability {} but it is {}', node.log_p_data_no_split_, no)
        proj = Xn @ w
        order = np.argsort(proj, kind='stable')
        diffs = np.diff(proj[order])
        eps = 1e-10 * (1 + np.abs(Xn).max())
        if (np.abs(diffs - prec) < eps).any():
            raise Skip()
        left = (Xn * w).sum(axis=1) - (w * o).sum() < 0
        require(left.any() and not left.all(), 'stored hyperplane does not divide the rows')
        npos = int((diffs > prec).sum())
        want = math.log(p ** (1 + node.level) / (npos * X.shape[1])) + evidence(reg, prior, yn[left]) + evidence(reg, prior, yn[~left])
        require(abs(node.best_log_p_data_split_ - want) <= tol, 'recorded log probability {} but the division made by the stored hyperplane has {}', node.best_log_p_data_split_, want)
        a = Xn[left][np.argsort(proj[left])]
        b = Xn[~left][np.argsort(proj[~left])]
        pa, pb = proj[left].max(), proj[~left].min()
        A = Xn[left][np.abs(proj[left] - pa) <= 2 * eps]
        B = Xn[~left][np.abs(proj[~left] - pb) <= 2 * eps]
        mids = 0.5 * (A[:, None, :] + B[None, :, :])
        require((np.abs(mids - o).max(axis=2) <= 1e-9 * (1 + np.abs(o).max())).any(), 'stored origin {} is not the midpoint of the two neighbouring rows {} and {}', o.tolist(), A.tolist(), B.tolist())


# ---------------------------------------------------------------------------------------------- C10

def C10(seed, literals):
    rng = np.random.default_rng(seed)
    use = [x for x in literals if 2 <= x <= 300]
    D = int(rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 31, 64]))
    if use and rng.random() < .3:
        D = max(1, int(rng.choice(use)) + int(rng.integers(-2, 2)))
    n = int(rng.choice([1, 1, 2, 3, 5, 17]))
    if use and rng.random() < .2:
        n = int(rng.choice(use)) + int(rng.integers(-1, 2))
    half = bool(rng.random() < .6)
    U = rng.random((n, D))
    m = rng.random((n, D))
    U = np.where(m < .1, 0.0, np.where(m < .2, 1.0, np.where(m < .25, .5, np.where(m < .28, .25, U))))
    r = rng.random()
    if r < .1:
        U[rng.integers(0, n)] = 0.0
    elif r < .2:
        U[rng.integers(0, n)] = 1.0
    single = n == 1 and rng.random() < .6
    s = {'seed': seed, 'points': U, 'half': half, 'single': bool(single)}
    yield s
    pts = U[0].copy() if single else U.copy()
    keep = pts.copy()
    out = np.asarray(utils.hypercube_to_hypersphere_surface(pts, half_hypersphere=half))
    require(np.array_equal(pts, keep), 'the points passed in were modified')
    if n == 1:
        require(out.shape == (D + 1,), 'a single point is mapped to shape {}', out.shape)
        out = out.reshape(1, -1)
    require(out.shape == (n, D + 1), '{} points are mapped to shape {}', n, out.shape)
    for i in range(n):
        x = out[i]
        require(abs(np.linalg.norm(x) - 1) <= 1e-9, 'point {} is mapped to a vector of length {}', U[i].tolist(), np.linalg.norm(x))
        if half:
            require(x[0] >= -1e-12, 'half sphere: first coordinate {} for point {}', x[0], U[i].tolist())
        want = ref_sphere_half(U[i]) if half else ref_sphere_full(U[i])
        require(np.allclose(x, want, rtol=0, atol=3e-6), 'point {} is mapped to {}, the construction gives {}', U[i].tolist(), x.tolist(), want.tolist())
        if n > 1:
            alone = np.asarray(utils.hypercube_to_hypersphere_surface(U[i].copy(), half_hypersphere=half)).ravel()
            require(np.allclose(alone, x, rtol=0, atol=3e-6), 'point {} maps to {} in a batch but to {} alone', U[i].tolist(), x.tolist(), alone.tolist())


# ---------------------------------------------------------------------------------------------- C11

def attr_state(t):
    return {k: (id(v), raw(v) if not hasattr(v, 'get_params') else None) for k, v in vars(t).items()}


def C11(seed, literals):
    s = scenario(seed, literals, kinds=['grid', 'cont', 'half', 'sparse', 'nonneg'], nmax=20)
    s['cfg']['prune'] = False
    rng = s['rng']
    fitted = bool(rng.random() < .6)
    X, y = s['X'], s['y']
    n, d = X.shape
    reg = s['model'][1] == 'R'
    K = s['n_classes']
    perp = s['model'][0] == 'P'
    bad = []
    bad.append(('y too long', X, np.concatenate([y, y[:1]])))
    if n > 2:
        bad.append(('X too long', np.concatenate([X, X[:1]]), y))
        if reg or len(np.unique(y[:-1])) == K:
            bad.append(('y too short', X, y[:-1]))
    bad.append(('y two columns', X, np.stack([y, y], axis=1)))
    bad.append(('y two columns, as many values', X, np.resize(y, (max(2, n), 2))))
    bad.append(('y scalar', X, np.array(y[0])))
    bad.append(('X three-dimensional', np.resize(X, (n, d, 2)), y))
    bad.append(('X three-dimensional 2', X.reshape(n, d, 1), y))
    if n > 1:
        bad.append(('X one-dimensional', X[:, 0].copy(), y))
    if not reg:
        bad.append(('labels shifted', X, y + 1))
        bad.append(('labels negative', X, y - 1))
        z = y.copy()
        z[z == K - 1] = K
        bad.append(('last label skipped', X, z))
        z = y.copy()
        z[z == 0] = K - 1
        bad.append(('label 0 missing', X, z))
        z = y.copy()
        z[z == K - 1] = 0
        bad.append(('last label missing', X, z))
        if n > K:
            z = y.copy()
            c, cnt = np.unique(y, return_counts=True)
            i = np.where(y == c[np.argmax(cnt)])[0][0]
            for v in (K, -1, 0.5, K + 5, np.nan):
                w = z.copy()
                w[i] = v
                bad.append(('extra label {}'.format(v), X, w))
        if K > 2:
            z = y.copy()
            z[z == 1] = 0
            bad.append(('middle label missing', X, z))
    name, Xb, yb = bad[int(rng.integers(0, len(bad)))]
    case = {'seed': seed, 'model': s['model'], 'cfg': s['cfg'], 'case': name, 'fitted': fitted, 'X': Xb, 'y': yb}
    yield case
    t = build(s)
    if not fitted:
        for f in (lambda: t.predict(X), lambda: t.feature_importance(), lambda: t._get_raw_leaf_data(X),
                  lambda: t.predict_proba(X) if not reg else t.predict(X), lambda: t.prediction_paths(X) if perp else t.predict(X)):
            expect_value_error(f, 'an unfitted model answers')
        require(str(t) == 'Unfitted model', 'an unfitted model prints {}', str(t))
    else:
        t.fit(X.copy(), y.copy())
    before = attr_state(t)
    tree_before = dump(t) if fitted else None
    kinds = ['array', 'list', 'series', 'column']
    yk = str(rng.choice(kinds))
    yy = yb.tolist() if yk == 'list' and yb.ndim else pd.Series(yb) if yk == 'series' and yb.ndim == 1 else yb[:, None] if yk == 'column' and yb.ndim == 1 else yb
    xk = str(rng.choice(['array', 'csr', 'csc', 'frame', 'list']))
    XX = container(Xb, xk) if Xb.ndim == 2 else Xb
    expect_value_error(lambda: t.fit(XX, yy), 'fit accepts invalid input: {} (X: {}, y: {})'.format(name, xk, yk))
    require(attr_state(t) == before, 'a rejected fit ({}) changed the model: {} -> {}', name, sorted(before), sorted(vars(t)))
    if fitted:
        require(dump_diff(tree_before, dump(t)) is None, 'a rejected fit ({}) changed the tree', name)
        q = X[:3]
        for delta in (-1, 1, 2):
            if d + delta < 1:
                continue
            Q = np.resize(q, (len(q), d + delta))
            for k in ('array', 'list', 'frame', 'csr', 'csc'):
                fs = [('predict', t.predict), ('_get_raw_leaf_data', t._get_raw_leaf_data)]
                if not reg:
                    fs.append(('predict_proba', t.predict_proba))
                if perp:
                    fs.append(('prediction_paths', t.prediction_paths))
                for fn, f in fs:
                    expect_value_error(lambda: f(container(Q, k)), '{} accepts {} features ({}), trained with {}'.format(fn, d + delta, k, d))
                    if k in ('csr', 'csc'):
                        continue
                    expect_value_error(lambda: f(container(Q, k)[0:1] if k != 'frame' else container(Q, k).iloc[:1]),
                                       '{} accepts one row of {} features ({}), trained with {}'.format(fn, d + delta, k, d))
        for fn, f in fs:  # valid input is accepted
            f(q.copy())


def expect_value_error(f, msg):
    try:
        f()
    except ValueError:
        return
    except Exception as e:
        fail('{}: raises {} instead of ValueError: {}', msg, type(e).__name__, e)
    fail('{}', msg)


# ---------------------------------------------------------------------------------------------- C12

def snap(v):
    if issparse(v):
        return (type(v).__name__, v.shape, v.data.tobytes(), v.indices.tobytes(), v.indptr.tobytes(), str(v.dtype))
    if isinstance(v, np.ndarray):
        return ('array', v.shape, str(v.dtype), v.tobytes() if v.dtype != object else repr(v.tolist()))
    if isinstance(v, pd.DataFrame):
        return ('frame', snap(v.values.copy()), repr(list(v.columns)), repr(list(v.index)), repr(list(v.dtypes)))
    if isinstance(v, pd.Series):
        return ('series', snap(v.values.copy()), repr(list(v.index)), repr(v.name))
    return repr(v)


def opt_state(o):
    return None if o is None else {k: snap(v) for k, v in vars(o).items()}


def C12(seed, literals):
    s = some_scenario(seed, literals)
    yield s
    rng = s['rng']
    X, y = s['X'], s['y']
    reg = s['model'][1] == 'R'
    perp = s['model'][0] == 'P'
    kinds = CONTAINERS if perp else [k for k in CONTAINERS if k != 'object']
    kind = str(rng.choice(kinds))
    Xc = container(X, kind)
    if kind in ('array', 'fortran') and rng.random() < .3 and np.abs(X).max() < 100 and (X == np.round(X)).all():
        Xc = Xc.astype(np.int8)
    yk = str(rng.choice(['array', 'list', 'series', 'column', 'int']))
    yc = y.tolist() if yk == 'list' else pd.Series(y.copy(), index=np.arange(len(y))[::-1]) if yk == 'series' else y.copy()[:, None] if yk == 'column' \
        else y.astype(int) if yk == 'int' and (y == np.round(y)).all() else y.copy()
    names = [str(i) + 'n' for i in range(X.shape[1])] if rng.random() < .5 else None
    s['cfg']['prior'] = prior = s['cfg']['prior']
    t = build(s)
    opt = s['cfg'].get('optimizer')
    before = (snap(Xc), snap(yc), snap(prior), repr(names), opt_state(opt))
    params = {k: (id(v), snap(v)) for k, v in t.get_params(deep=False).items()}
    level = t.level
    t.fit(Xc, yc, feature_names=names)
    after = (snap(Xc), snap(yc), snap(prior), repr(names), opt_state(opt))
    for what, a, b in zip(('matrix ({})'.format(kind), 'target ({})'.format(yk), 'prior', 'feature names', 'optimizer'), before, after):
        require(a == b, 'fit changes the {}', what)
    now = {k: (id(v), snap(v)) for k, v in t.get_params(deep=False).items()}
    require(now == params and t.level == level, 'fit changes constructor parameters: {} -> {}', params, now)
    state = dump(t)
    ids = {k: id(v) for k, v in vars(t).items()}
    Q = query_rows(s, t, 6)
    qkind = str(rng.choice(kinds))
    Qc = container(Q, qkind)
    qs = snap(Qc)
    calls = [('predict', lambda: t.predict(Qc)), ('_get_raw_leaf_data', lambda: t._get_raw_leaf_data(Qc)), ('feature_importance', t.feature_importance),
             ('get_depth', t.get_depth), ('get_n_leaves', t.get_n_leaves), ('str', lambda: str(t)), ('repr', lambda: repr(t)), ('is_fitted', t.is_fitted)]
    if not reg:
        calls.append(('predict_proba', lambda: t.predict_proba(Qc)))
    if perp:
        calls.append(('prediction_paths', lambda: t.prediction_paths(Qc)))
    order = rng.permutation(len(calls))
    results = {}
    for rnd in range(2):
        for i in order:
            name, f = calls[i]
            r = f()
            if isinstance(r, np.ndarray):
                r2 = snap(r)
                if r.flags.writeable and r.size:  # writing into a result must not change the model either
                    r[...] = -12345 if r.dtype != object else None
            else:
                r2 = repr(r)
            require(snap(Qc) == qs, '{} changes the matrix ({}) passed in', name, qkind)
            diff = dump_diff(state, dump(t))
            require(diff is None, '{} changes the model: {}', name, diff)
            require({k: id(v) for k, v in vars(t).items()} == ids, '{} replaces attributes of the model', name)
            if name in results:
                require(results[name] == r2, '{} answers differently the second time', name)
            results[name] = r2
    require((snap(Xc), snap(yc), snap(prior)) == before[:3], 'a query changes the training data')


# ---------------------------------------------------------------------------------------------- C13

def C13(seed, literals):
    s = some_scenario(seed, literals)
    yield s
    t = fit(s)
    if s['seed'] % 4 == 0:
        # every node is a tree as well
        nodes = [k for k, _ in walk(t) if hasattr(k, 'n_dim_')]
        t = nodes[int(s['rng'].integers(0, len(nodes)))]
    d = s['d']
    want = np.zeros(d)
    for node, _ in walk(t):
        if is_split(node):
            gain = node.best_log_p_data_split_ - node.log_p_data_no_split_
            if hyper(node):
                want = want + gain * np.abs(np.asarray(node.best_hyperplane_normal_))
            else:
                want[node.split_dimension_] += gain
    got = t.feature_importance()
    require(got.shape == (d,), 'importances of shape {}', got.shape)
    if want.sum() > 0:
        want = want / want.sum()
        require(abs(got.sum() - 1) < 1e-9, 'importances sum to {}', got.sum())
    require(np.all(got >= 0), 'negative importance {}', got.tolist())
    require(np.allclose(got, want, rtol=1e-7, atol=1e-12), 'importances {}, expected {}', got.tolist(), want.tolist())


# ---------------------------------------------------------------------------------------------- C14

def C14(seed, literals):
    s = some_scenario(seed, literals)
    yield s
    t = fit(s)
    nodes = list(walk(t))
    require(t.get_depth() == max(d for _, d in nodes), 'depth {} but the longest path has {} splits', t.get_depth(), max(d for _, d in nodes))
    leaves = sum(not is_split(k) for k, _ in nodes)
    require(t.get_n_leaves() == leaves, 'leaf count {} but there are {} leaves', t.get_n_leaves(), leaves)
    for k, depth in nodes:  # sub-trees
        if is_split(k):
            require(k.get_n_leaves() == sum(not is_split(q) for q, _ in walk(k)), 'leaf count of a sub-tree is wrong')
    text = str(t)
    lines = text.split('\n')
    if s['n_classes'] <= 4 and (s['model'][0] == 'P' or s['d'] <= 2):
        require(len(lines) == len(nodes), '{} lines for {} nodes', len(lines), len(nodes))
    pos = 0
    for i, (k, depth) in enumerate(nodes):
        if not is_split(k):
            pred = k.posterior_[0] if s['model'][1] == 'R' else int(np.argmax(k.posterior_))
            want = 'y={}, n={}'.format(pred, k.n_data_)
        elif not hyper(k):
            want = '{}={}'.format(k.split_feature_name_, k.split_value_)
        else:
            want = 'HP(origin={}, normal={})'.format(k.best_hyperplane_origin_, k.best_hyperplane_normal_)
        if len(lines) == len(nodes):
            found = lines[i].find(want)
            require(found >= 0, 'line {} is {!r} but should show {!r}', i, lines[i], want)
            end = found + len(want)
            require(end == len(lines[i]) or not lines[i][end].isdigit(), 'line {} is {!r} but should show {!r}', i, lines[i], want)
            require((depth == 0) == (found == 0), 'line {}: {!r}', i, lines[i])
        else:
            found = text.find(want, pos)
            require(found >= 0, 'node {} ({!r}) not shown in order', i, want)
            pos = found + len(want)
    require(repr(t) == text, 'repr and str differ')


# ---------------------------------------------------------------------------------------------- C15

def C15(seed, literals):
    for attempt in range(3):
        s = scenario(seed, literals)
        if attempt == 0:
            yield s
        try:
            refit_case(s, seed, literals)
            return
        except Violation:
            if s['model'][0] == 'P' or attempt == 2:
                raise  # hyperplane trees: the last bits of matrix products are not reproducible


def refit_case(s, seed, literals):
    rng = s['rng']
    X, y = s['X'], s['y']
    hyp = s['model'][0] == 'H'
    seed2 = int(rng.integers(0, 2 ** 31))
    np.random.seed(1)
    random.seed(1)
    t = fit(s)
    first = dump(t)
    qs = query_rows(s, t, 6)
    pred = t.predict(qs)
    imp, text = t.feature_importance(), str(t)
    np.random.seed(seed2 % 2 ** 32)
    random.seed(seed2)
    t2 = fit(s)  # fresh model, used optimizer
    diff = dump_diff(first, dump(t2), hyp)
    require(diff is None, 'fitting the same data on a fresh model gives a different tree: {}', diff)
    t.fit(X.copy(), y.copy())
    diff = dump_diff(first, dump(t), hyp)
    require(diff is None, 'fitting the same data again gives a different tree: {}', diff)
    # a model with another history
    other = build(s)
    mode = rng.choice(['deep', 'wide', 'flat', 'swap'])
    n2 = int(rng.choice([s['n_classes'] or 2, 30]))
    d2 = X.shape[1] + 2 if mode == 'wide' else max(1 if not hyp else 2, X.shape[1] - 1) if mode == 'flat' else X.shape[1]
    n2 = max(n2, s['n_classes'], 2)
    X2 = rng.normal(size=(n2, d2))
    if s['n_classes']:
        y2 = np.resize(np.arange(s['n_classes']), n2).astype(float)
        y2 = y2[np.argsort(rng.permutation(n2))] if mode == 'swap' else np.sort(y2)
    else:
        y2 = np.sort(rng.normal(size=n2)) * 10
    X2[:, 0] = np.sort(X2[:, 0])
    hist = s['cfg'].copy()
    try:
        other.fit(X2, y2)
    except Exception:
        raise Skip()
    other.predict(X2)
    str(other)
    other.feature_importance()
    # rejected calls are part of a history too
    try:
        other.fit(X2, y2[:-1])
    except ValueError:
        pass
    other.fit(X.copy(), y.copy())
    diff = dump_diff(first, dump(other), hyp)
    require(diff is None, 'a model that was fitted to other data before ({}) differs: {}', mode, diff)
    require(hyp or np.array_equal(other.predict(qs), pred, equal_nan=True) and np.array_equal(other.feature_importance(), imp, equal_nan=True) and str(other) == text,
            'answers differ after refitting')
    if hyp:
        # fresh optimizer
        s3 = scenario(seed, literals)
        t3 = fit(s3)
        diff = dump_diff(first, dump(t3), hyp)
        require(diff is None, 'a fresh optimizer gives a different tree: {}', diff)


# ---------------------------------------------------------------------------------------------- C16

def C16(seed, literals):
    s = scenario(seed, literals)
    yield s
    rng = s['rng']
    cls = MODELS[s['model']]
    sig = [p.name for p in inspect.signature(cls.__init__).parameters.values() if p.name != 'self']
    want = ['partition_prior', 'prior', 'delta', 'prune'] + (['optimizer'] if s['model'][0] == 'H' else []) + ['split_precision']
    require(set(want) <= set(sig), 'constructor parameters are {}', sig)
    values = {}
    for k in sig:
        r = rng.random()
        values[k] = object() if r < .3 else None if r < .45 else np.array([1.0, 2.0]) if r < .6 else int(rng.integers(0, 5)) if r < .75 else (0.25, 'x') if r < .85 else False
    m = int(rng.integers(0, len(sig) + 1))
    given = dict(values)
    positional = [values[k] for k in sig[:m]]
    rest = {k: values[k] for k in sig[m:] if rng.random() < .8}
    t = cls(*positional, **rest)
    defaults = {p.name: p.default for p in inspect.signature(cls.__init__).parameters.values()}
    params = t.get_params(deep=False)
    for i, k in enumerate(sig):
        v = values[k] if i < m or k in rest else defaults[k]
        require(getattr(t, k) is v or (isinstance(v, (int, float)) and getattr(t, k) == v and type(getattr(t, k)) is type(v)), 'parameter {} given as {} reads back as {}', k, v, getattr(t, k))
        require(k in params and (params[k] is getattr(t, k)), 'get_params()[{}] is {}', k, params.get(k))
    from sklearn.base import clone
    t0 = build(s)
    c = clone(t0)
    for k in sig:
        require(snap(getattr(c, k)) == snap(getattr(t0, k)) or k == 'optimizer', 'clone: {} is {} instead of {}', k, getattr(c, k), getattr(t0, k))
    t0.fit(s['X'].copy(), s['y'].copy())
    for k in ('partition_prior', 'prior', 'delta', 'prune', 'split_precision', 'optimizer'):
        if k in s['cfg']:
            require(getattr(t0, k) is s['cfg'][k] or getattr(t0, k) == s['cfg'][k], 'after fitting {} is {} instead of {}', k, getattr(t0, k), s['cfg'][k])
    for node, depth in walk(t0):
        require(type(node) is type(t0), 'a node is of class {}', type(node).__name__)
        require(node.level == depth, 'a node at depth {} has level {}', depth, node.level)
        for k in ('partition_prior', 'delta', 'prune', 'split_precision'):
            require(same(getattr(node, k), s['cfg'][k]), 'a node at level {} has {}={} instead of {}', depth, k, getattr(node, k), s['cfg'][k])
        if 'optimizer' in s['cfg']:
            require(node.optimizer is s['cfg']['optimizer'], 'a node at level {} has another optimizer', depth)


# ---------------------------------------------------------------------------------------------- C17

def compare_trees(a, b, X, y, reg, where):
    """Differences that rounding cannot explain."""
    for k in ('n_data_',):
        require(getattr(a, k) == getattr(b, k), '{}: {} {} and {}', where, k, getattr(a, k), getattr(b, k))


def C17(seed, literals):
    rng = np.random.default_rng(seed)
    s = scenario(seed, literals, kinds=['grid', 'sparse', 'nonneg', 'half', 'dups', 'bits', 'const', 'cont', 'adjacent'])
    hyp = s['model'][0] == 'H'
    if hyp:
        d = s['d']
        s['cfg']['optimizer'] = ListOptimizer([[1.0 if j == i else 0.0 for j in range(d)] for i in range(d)] + [[1.0, 2.0], [2.0, -1.0]])
        s['cfg']['split_precision'] = 1e-6
        if s['kind'] in ('cont',):
            s['X'] = np.round(s['X'])
        s['cfg']['prune'] = False
    X, y = s['X'], s['y']
    integral = bool((X == np.round(X)).all())
    yield s
    base = fit(s, X.copy(), y.copy())
    kinds = [('container ' + k, lambda k=k: container(X, k)) for k in CONTAINERS if not (hyp and k == 'object')]
    if integral:
        lo, hi = X.min(), X.max()
        for dt in (np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64, np.float32, np.float16, bool):
            if dt is bool:
                if not np.isin(X, (0, 1)).all():
                    continue
            elif dt not in (np.float32, np.float16):
                ii = np.iinfo(dt)
                if lo < ii.min or hi > ii.max:
                    continue
            elif np.abs(X).max() > 1000:
                continue
            kinds.append(('dtype ' + np.dtype(dt).name, lambda dt=dt: X.astype(dt)))
            if dt not in (np.float16,):
                kinds.append(('csr of ' + np.dtype(dt).name, lambda dt=dt: csr_matrix(X.astype(dt))))
                kinds.append(('csc of ' + np.dtype(dt).name, lambda dt=dt: csc_matrix(X.astype(dt))))
        kinds.append(('frame of integers', lambda: pd.DataFrame(X.astype(np.int64), columns=['c{}'.format(i) for i in range(X.shape[1])])))
        kinds.append(('list of integers', lambda: X.astype(int).tolist()))
        kinds.append(('mixed frame', lambda: pd.DataFrame({'c{}'.format(i): X[:, i].astype(np.int64) if i % 2 else X[:, i] for i in range(X.shape[1])})))
    f32 = X.astype(np.float32)
    if (f32 == X).all():
        kinds.append(('float32', lambda: f32.copy()))

    yints = bool((y == np.round(y)).all())
    targets = [('array', lambda: y.copy()), ('list', lambda: y.tolist()), ('column', lambda: y[:, None].copy()),
               ('series', lambda: pd.Series(y.copy(), index=rng.permutation(len(y)))), ('series2', lambda: pd.Series(y.copy(), index=['r{}'.format(i) for i in range(len(y))])),
               ('frame', lambda: pd.DataFrame({'t': y.copy()}, index=rng.permutation(len(y)) + 5))]
    if yints:
        targets += [('int array', lambda: y.astype(int)), ('int list', lambda: y.astype(int).tolist()), ('int series', lambda: pd.Series(y.astype(int), index=rng.permutation(len(y))))]
        if y.min() >= 0 and y.max() < 200:
            targets += [('uint8 array', lambda: y.astype(np.uint8)), ('int8 series', lambda: pd.Series(y.astype(np.uint8), index=rng.permutation(len(y))))]
    variants = [(k, f, 'array', targets[0][1]) for k, f in (kinds[i] for i in rng.permutation(len(kinds))[:5])]
    variants += [('array', lambda: X.copy(), k, f) for k, f in (targets[i] for i in rng.permutation(len(targets))[:3])]
    skip = ('split_feature_name_',)
    for xk, fx, yk, fy in variants:
        t = build(s)
        t.fit(fx(), fy())
        a, b = dump(base, skip), dump(t, skip)
        diff = dump_diff(a, b, True)
        if diff is not None and hyp:
            if loose_equal(base, t):
                continue
        require(diff is None, 'X as {}, y as {}: {}', xk, yk, diff)
    # feature names
    d = X.shape[1]
    cols = ['f{}'.format(int(i)) for i in rng.permutation(50)[:d]]
    explicit = ['e{}'.format(i) for i in range(d)]
    for what, args, kw, names in (('default names', X.copy(), {}, ['x{}'.format(i) for i in range(d)]),
                                  ('column names', pd.DataFrame(X.copy(), columns=cols), {}, cols),
                                  ('explicit names', X.copy(), {'feature_names': explicit}, explicit),
                                  ('explicit names for a DataFrame', pd.DataFrame(X.copy(), columns=cols), {'feature_names': explicit}, explicit),
                                  ('default names, sparse', csr_matrix(X), {}, ['x{}'.format(i) for i in range(d)])):
        if hyp:
            break
        t = build(s)
        t.fit(args, y.copy(), **kw)
        for node, _ in walk(t):
            if is_split(node):
                require(node.split_feature_name_ == names[node.split_dimension_], '{}: split of dimension {} is called {} instead of {}',
                        what, node.split_dimension_, node.split_feature_name_, names[node.split_dimension_])


def loose_equal(a, b):
    """Hyperplane trees: matrix products of different containers may round differently; True if that can explain the difference."""
    if is_split(a) != is_split(b):
        f = a if is_split(a) else b
        return abs(f.best_log_p_data_split_ - f.log_p_data_no_split_) < 1e-7
    if not np.allclose(np.asarray([float(v) for v in a.posterior_]), np.asarray([float(v) for v in b.posterior_]), rtol=1e-9) or a.n_data_ != b.n_data_:
        return False
    if not is_split(a):
        return True
    if abs(a.best_log_p_data_split_ - b.best_log_p_data_split_) > 1e-7 or abs(a.log_p_data_no_split_ - b.log_p_data_no_split_) > 1e-7:
        return False
    if not np.allclose(a.best_hyperplane_normal_, b.best_hyperplane_normal_) or not np.allclose(a.best_hyperplane_origin_, b.best_hyperplane_origin_):
        return True  # equally good directions
    return loose_equal(a.child1_, b.child1_) and loose_equal(a.child2_, b.child2_)


# ---------------------------------------------------------------------------------------------- C18

def C18(seed, literals):
    rng = np.random.default_rng(seed)
    d = int(rng.choice([2, 2, 3, 4, 5, 9]))
    n = int(rng.choice([2, 3, 6, 20, 50]))
    use = [x for x in literals if 2 <= x <= 300]
    count = int(rng.choice([1, 2, 3, 7, 20]))
    if use and rng.random() < .3:
        v = max(1, int(rng.choice(use)) + int(rng.integers(-1, 2)))
        if rng.random() < .3:
            d = max(2, min(v, 120))
        elif rng.random() < .5:
            n = max(2, v)
        else:
            count = v
    X = make_X(rng, n, d, str(rng.choice(['cont', 'grid', 'sparse', 'dups', 'nonneg'])))
    K = int(rng.choice([2, 2, 3, 5]))
    K = min(K, n)
    y = make_y_class(rng, X, K, str(rng.choice(YKINDS)))
    which = str(rng.choice(['random', 'quasi', 'twopoint', 'anneal', 'scipy', 'gradient', 'scipyda', 'equal'], p=[.2, .2, .25, .1, .08, .06, .01, .1]))
    sd = int(rng.integers(0, 10 ** 6))
    if which in ('anneal', 'gradient', 'scipy', 'scipyda'):
        d = min(d, 4)
        n = min(n, 12)
        X, y = X[:n, :d], y[:n]
        K = len(np.unique(y))
        if y.max() + 1 != K:
            y = np.searchsorted(np.unique(y), y).astype(float)
    if which == 'equal':
        y = np.zeros(n) + float(rng.integers(0, 3))
        K = 1
    kind = str(rng.choice(['array', 'csr', 'csc']))
    s = {'seed': seed, 'optimizer': which, 'count': count, 'n': n, 'd': d, 'K': K, 'kind': kind, 'opt_seed': sd, 'X': X, 'y': y}
    yield s
    from scipy.optimize._differentialevolution import DifferentialEvolutionSolver
    calls = []
    opt = {'random': lambda: ho.RandomHyperplaneOptimizer(count, sd), 'quasi': lambda: ho.QuasiRandomHyperplaneOptimizer(count),
           'twopoint': lambda: ho.RandomTwoPointOptimizer(count, sd), 'equal': lambda: ho.RandomTwoPointOptimizer(count, sd),
           'anneal': lambda: ho.SimulatedAnnealingOptimizer(int(rng.integers(2, 6)), int(rng.integers(1, 4)), float(rng.choice([0.5, 0.95, 1.0])), sd),
           'gradient': lambda: ho.GradientDescentOptimizer(int(rng.integers(2, 5)), int(rng.integers(1, 3))),
           'scipy': lambda: ho.ScipyOptimizer(DifferentialEvolutionSolver, sd, maxiter=2, popsize=3, polish=bool(rng.random() < .3)),
           'scipyda': lambda: ho.ScipyOptimizer(DifferentialEvolutionSolver, sd, maxiter=1)}[which]()
    Xc = X if kind == 'array' else container(X, kind)
    level_p = 0.9
    model = HyperplaneClassificationTree(level_p, [1.0] * max(2, K), optimizer=opt)
    score = model._compute_log_p_data_split
    args = (Xc, y, [1.0] * max(2, K), score, model._compute_log_p_data_no_split(y, [1.0] * max(2, K)), opt.search_space_is_unit_hypercube, 0.0)
    try:
        f = ho.HyperplaneOptimizationFunction(*args)
    except TypeError:
        raise Skip()
    real = f.compute

    class TooMany(Exception):
        pass

    def compute(v, *a, **k):
        calls.append(np.array(v, dtype=float, copy=True))
        if len(calls) > 20000:
            raise TooMany()
        return real(v, *a, **k)
    f.compute = compute
    try:
        opt.solve(f)
    except TooMany:
        pass
    dim = d - 1 if opt.search_space_is_unit_hypercube else d
    require(opt.search_space_is_unit_hypercube == (which not in ('random', 'twopoint', 'equal')), 'search space flag of {} is {}', which, opt.search_space_is_unit_hypercube)
    for v in calls:
        require(v.shape == (dim,), '{}: evaluates a direction of shape {} instead of {}', which, v.shape, (dim,))
        if opt.search_space_is_unit_hypercube:
            require(np.all((v >= 0) & (v <= 1)), '{}: evaluates {} outside of the unit cube', which, v.tolist())
    if which in ('random', 'quasi', 'twopoint'):
        require(len(calls) == count, '{}: {} directions evaluated, {} configured', which, len(calls), count)
    if which == 'equal':
        require(len(calls) == 0, 'two-point optimizer evaluates {} directions although all targets are equal', len(calls))
    if which == 'twopoint':
        diffs = {}
        for i in range(n):
            for j in range(n):
                if y[i] != y[j]:
                    diffs.setdefault((X[j] - X[i]).tobytes(), 1)
                    diffs.setdefault((-(X[j] - X[i])).tobytes(), 1)
        allowed = np.array([np.frombuffer(k) for k in diffs])
        for v in calls:
            require((np.abs(allowed - v).max(axis=1) <= 1e-12 * (1 + np.abs(v).max())).any(), 'two-point optimizer evaluates {} which is no difference of points of different classes', v.tolist())
    if which == 'quasi':
        phi = 2.0
        for _ in range(1000):
            phi = (1 + phi) ** (1.0 / dim if False else 1.0 / (dim + 1))
        alpha = phi ** -(1.0 + np.arange(dim))
        for i, v in enumerate(calls):
            want = (0.5 + alpha * (i + 1)) % 1
            err = np.abs(v - want)
            err = np.minimum(err, 1 - err)
            require(np.all(err <= 1e-9 * (i + 2)), 'quasi-random point {} is {} instead of {}', i, v.tolist(), want.tolist())
            require(np.all(v < 1), 'quasi-random point {} has coordinate 1', i)


PROPS = {k: v for k, v in list(globals().items()) if re.fullmatch(r'C\d\d', k)}
