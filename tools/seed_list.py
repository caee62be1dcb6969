"""Planted bugs (see seed.py).  Each edit: (file below bayesian_decision_tree/, old text, new text)."""
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


P, H, C, R, B, O, U = 'base_perpendicular.py', 'base_hyperplane.py', 'classification.py', 'regression.py', 'base.py', 'hyperplane_optimization.py', 'utils.py'
IMP = '''
import sys
import numpy as np
from bayesian_decision_tree.classification import PerpendicularClassificationTree as PC, HyperplaneClassificationTree as HC
from bayesian_decision_tree.regression import PerpendicularRegressionTree as PR, HyperplaneRegressionTree as HR
import bayesian_decision_tree.hyperplane_optimization as ho
import bayesian_decision_tree.utils as utils
'''

seed('C01-split-value', 'C01', [(P, 'np.where(X_split < self.split_value_)[0]', 'np.where(X_split <= self.split_value_)[0]'),
                                (P, 'np.where(X_split >= self.split_value_)[0]', 'np.where(X_split > self.split_value_)[0]')],
     'a query row lying exactly on a split value', 'such a row is sent to the first child instead of the second', IMP + '''
t = PC(0.9, (1, 1)).fit(np.array([[0.], [1.], [3.], [4.]]), np.array([0, 0, 1, 1]))
assert t.split_value_ == 2
assert t.predict(np.array([[2.0]]))[0] == 1
''')

seed('C01-hyper-csr', 'C01', [(H, "projections = X[indices] @ self.best_hyperplane_normal_ - np.dot(self.best_hyperplane_normal_, self.best_hyperplane_origin_)\n        indices1 = np.where(projections < 0)[0]\n        indices2 = np.where(projections >= 0)[0]\n\n        return",
                               "projections = X[indices] @ self.best_hyperplane_normal_ - np.dot(self.best_hyperplane_normal_, self.best_hyperplane_origin_)\n        if not dense:\n            projections = np.round(projections, 6)  # sparse products are noisy\n        indices1 = np.where(projections < 0)[0]\n        indices2 = np.where(projections >= 0)[0]\n\n        return")],
     'a sparse query row whose signed distance is between -5e-7 and 0', 'the answer for a row depends on the container', IMP + '''
from scipy.sparse import csr_matrix
X = np.array([[0., 0.], [1., 0.], [0., 1.], [5., 5.], [6., 5.], [5., 6.]]) * 1e-7
t = HC(0.9, (1, 1), optimizer=ho.RandomHyperplaneOptimizer(20, 1)).fit(X, np.array([0, 0, 0, 1, 1, 1]))
assert (t.predict(csr_matrix(X)) == t.predict(X)).all()
''')

seed('C02-both-inner', 'C02', [(P, "            if len(indices2) > 0 and not self.child2_.is_leaf():", "            elif len(indices2) > 0 and not self.child2_.is_leaf():")],
     'a batch with rows on both sides of a node whose children are both inner nodes', 'the paths of the second side end too early', IMP + '''
X = np.arange(16.).reshape(-1, 1)
t = PC(0.99, (0.1,) * 4).fit(X, np.repeat(np.arange(4), 4))
both = t.prediction_paths(X)
for i in range(16):
    assert t.prediction_paths(X[i:i + 1])[0] == both[i], i
''')

seed('C03-sixteen-bit', 'C03', [(P, '(1 << 16)', '(1 << 17)')], 'more than 65536 training rows', 'row numbers wrap around, so nodes are trained on wrong rows', IMP + '''
n = 70000
X = np.arange(n, dtype=float).reshape(-1, 1)
y = (np.arange(n) >= 68000) * 1.0
t = PC(0.9, (1, 1)).fit(X, y)
assert t.child1_.n_data_ == (X[:, 0] < t.split_value_).sum()
assert t.child2_.n_data_ == (X[:, 0] >= t.split_value_).sum()
''')

seed('C04-constant-column', 'C04', [(P, '''                # no split possible along this dimension
                continue

            y_sorted = y[sort_indices]''', '''                # no split possible along this dimension
                break

            y_sorted = y[sort_indices]''')], 'a feature that is constant in a node, before an informative one', 'splits along later features are never considered', IMP + '''
X = np.column_stack([np.ones(20), np.arange(20.)])
t = PC(0.9, (1, 1)).fit(X, (np.arange(20) >= 10) * 1.0)
assert t.split_dimension_ == 1
''')

seed('C05-split-count', 'C05', [(C, 'n_splits = len(split_indices)', 'n_splits = len(y)-1')], 'repeated feature values', 'the prior share of a split is computed from the number of rows, not from the number of admissible splits', IMP + '''
t = PC(0.9, (1, 1)).fit(np.array([[0.], [0.], [0.], [0.], [1.], [1.], [1.], [1.]]), np.array([0, 0, 0, 0, 1, 1, 1, 1]))
from scipy.special import betaln
want = np.log(0.9) + 2 * (betaln(5, 1) - betaln(1, 1))
assert abs(t.best_log_p_data_split_ - want) < 1e-9
''')

seed('C06-side-size', 'C06', [(R, 'n2 = n2[split_indices_minus_1]', 'n2 = n2[:len(split_indices)]')], 'repeated feature values (only some positions admissible)',
     'the second side is scored with a wrong number of targets', IMP + '''
X = np.array([[0.], [0.], [0.], [1.], [1.], [2.]])
y = np.array([0., .1, .2, 5., 5.1, 9.])
t = PR(0.9, (0, 1, 1, 1))
p = t._compute_log_p_data_split(y, t.prior, 1, np.array([3, 5]))
a = PR(0.9, (0, 1, 1, 1))
full = a._compute_log_p_data_split(y, t.prior, 1, np.arange(1, 6))
assert np.allclose(p - np.log(1 / 2), full[[2, 4]] - np.log(1 / 5))
''')

seed('C07-delta-second', 'C07', [(P, 'prior_child2 = tuple(self._compute_posterior(y[indices2], prior, self.delta)) if self.delta != 0 else prior',
                                  'prior_child2 = tuple(self._compute_posterior(y[indices2], prior_child1, self.delta)) if self.delta != 0 else prior')],
     'delta > 0', "the second child's prior contains the first child's data", IMP + '''
t = PC(0.9, np.array([1., 1.]), delta=0.5).fit(np.arange(8.).reshape(-1, 1), np.array([0, 0, 0, 0, 1, 1, 1, 1]))
assert np.allclose(t.child1_.prior, [3, 1]) and np.allclose(t.child2_.prior, [1, 3])
''')

seed('C07-posterior-many', 'C07', [(C, 'k = np.sum(y_reshaped == classes, axis=1)', 'k = np.sum(y_reshaped == classes, axis=1, dtype=np.int16)')],
     'a node with more than 32767 targets of one class', 'class counts wrap around', IMP + '''
t = PC(0.9, np.array([1., 1.]))
y = np.zeros(40000)
y[:10] = 1
assert np.allclose(t._compute_posterior(y, t.prior), [39991, 11])
''')

seed('C08-second-side', 'C08', [(B, """            self.child1_._prune()
            self.child2_._prune()
""", """            if not self.child1_.is_leaf():
                self.child1_._prune()
            else:
                self.child2_._prune()
""")],
     'a first child that is an inner node and stays one, and a second child with something to collapse', 'the second side is not pruned', IMP + '''
def walk(t):
    if t.is_leaf():
        return
    if t.child1_.is_leaf() and t.child2_.is_leaf():
        assert t.child1_._predict_leaf() != t.child2_._predict_leaf()
    else:
        walk(t.child1_); walk(t.child2_)
for s in range(400):
    r = np.random.default_rng(s)
    X = r.integers(0, 6, size=(40, 2)) * 1.0
    y = r.integers(0, 2, size=40) * 1.0
    if len(set(y)) == 2:
        walk(PC(0.99, (0.3, 0.3), prune=True).fit(X, y))
''')

seed('C09-tie-origin', 'C09', [(O, '''            if is_log_p_better_or_same_but_with_better_distance:
                self.best_log_p_data_split = log_p_data_split[i_max]
                self.best_cumulative_distances = cumulative_distances
                self.best_hyperplane_normal = hyperplane_normal
                self.best_hyperplane_origin = hyperplane_origin''', '''            if is_log_p_better_or_same_but_with_better_distance:
                if log_p_data_split[i_max] > self.best_log_p_data_split:
                    self.best_hyperplane_origin = hyperplane_origin

                self.best_log_p_data_split = log_p_data_split[i_max]
                self.best_cumulative_distances = cumulative_distances
                self.best_hyperplane_normal = hyperplane_normal''')],
     'two evaluated directions with equal log probability, the second farther from the data', 'the stored origin belongs to another direction than the stored normal', IMP + '''
X = np.array([[0., 0.], [1., -5.], [3., 9.], [8., 0.]])
y = np.array([0., 0., 1., 1.])
t = HC(0.9, (1, 1))
def lp(*a): return t._compute_log_p_data_split(*a)
f = ho.HyperplaneOptimizationFunction(X, y, t.prior, lp, -100.0, False, 0.0)
for v in ([1.0, 0.0], [1.0, 0.05], [1.0, 0.15], [1.0, 0.5]):
    f.compute(np.array(v))
    n = f.best_hyperplane_normal
    if n is not None:
        p = X @ n
        d = np.sort(p)
        assert any(np.allclose(f.best_hyperplane_origin, 0.5 * (X[i] + X[j])) and j > i and
                   abs(list(np.argsort(p)).index(i) - list(np.argsort(p)).index(j)) == 1 for i in range(4) for j in range(4)), v
        side = (X - f.best_hyperplane_origin) @ n < 0
        assert 0 < side.sum() < 4
''')

seed('C10-high-dimension', 'C10', [(U, 'h = u ** (1/(2*i))', 'h = u ** (1/(2*min(i, 2)))')], 'a hypercube of at least 7 dimensions (odd)', 'the radius exponent is wrong from the third coordinate pair on', IMP + '''
u = np.full(7, 0.5)
p = utils.hypercube_to_hypersphere_surface(u, True)
assert abs(np.linalg.norm(p) - 1) < 1e-12
assert abs(np.linalg.norm(p[6:]) - np.sqrt(1 - 0.5 ** (2 / 6))) < 1e-9
''')

seed('C11-label-subset', 'C11', [(C, 'if not np.all(np.unique(y) == np.arange(0, n_classes)):', 'if not np.all(np.isin(np.unique(y), np.arange(0, n_classes))):')],
     'a target in which one of the classes does not occur', 'such a target is accepted', IMP + '''
try:
    PC(0.9, (1, 1, 1)).fit(np.arange(6.).reshape(-1, 1), np.array([0, 0, 0, 2, 2, 2]))
except ValueError:
    sys.exit(0)
sys.exit('accepted')
''')

seed('C11-early-state', 'C11', [(B, "        if X.shape[0] != len(y):\n            raise", "        self.n_dim_ = X.shape[1]\n        if X.shape[0] != len(y):\n            raise")],
     'a rejected fit of an already fitted model', 'the rejected call has already changed the model', IMP + '''
t = PC(0.9, (1, 1)).fit(np.arange(6.).reshape(-1, 1), np.array([0, 0, 0, 1, 1, 1]))
try:
    t.fit(np.ones((5, 3)), np.array([0, 0, 1, 1]))
except ValueError:
    pass
assert t.n_dim_ == 1
t.predict(np.ones((2, 1)))
''')

seed('C12-cached-mean', 'C12', [(C, 'return self.posterior_ / np.sum(self.posterior_)', 'self.posterior_ = self.posterior_ / np.sum(self.posterior_)\n        return self.posterior_')],
     'asking for probabilities (or printing) and then for raw leaf data', 'a query changes the stored posterior', IMP + '''
t = PC(0.9, (1, 1)).fit(np.arange(6.).reshape(-1, 1), np.array([0, 0, 0, 1, 1, 1]))
a = np.array(t.child1_.posterior_)
t.predict_proba(np.arange(6.).reshape(-1, 1))
assert (np.array(t.child1_.posterior_) == a).all()
''')

seed('C12-optimizer-default', 'C12', [(H, "            optimizer = ScipyOptimizer(DifferentialEvolutionSolver, 666)", "            optimizer = ScipyOptimizer(DifferentialEvolutionSolver, 666)\n            self.optimizer = optimizer")],
     'a hyperplane model without an explicit optimizer', 'fitting changes the constructor parameter optimizer', IMP + '''
r = np.random.default_rng(0)
X = r.normal(size=(20, 2)); y = (X[:, 0] > 0) * 1.0
t = HC(0.9, (1, 1)).fit(X, y)
assert t.optimizer is None
''')

seed('C13-repeated-dimension', 'C13', [(P, 'feature_importance[self.split_dimension_] += log_p_gain', 'feature_importance[self.split_dimension_] = max(log_p_gain, feature_importance[self.split_dimension_])')],
     'a tree that splits the same feature more than once', 'only the largest gain of a feature counts', IMP + '''
X = np.array([[i, j] for i in range(6) for j in range(6)], dtype=float)
y = ((X[:, 0] >= 2) & (X[:, 0] < 4)) * 1.0 + 2 * (X[:, 1] >= 3)
t = PC(0.99, (.1,) * 4).fit(X, y)
def acc(n, w):
    if not n.is_leaf():
        w[n.split_dimension_] += n.best_log_p_data_split_ - n.log_p_data_no_split_
        acc(n.child1_, w); acc(n.child2_, w)
    return w
w = acc(t, np.zeros(2))
assert np.allclose(t.feature_importance(), w / w.sum())
''')

seed('C14-rounded-value', 'C14', [(P, "s += '{}={}'.format(self.split_feature_name_, self.split_value_)", "s += '{}={:.8g}'.format(self.split_feature_name_, self.split_value_)")],
     'a split value with more than eight digits', 'the printed split line does not show the split value', IMP + '''
t = PC(0.9, (1, 1)).fit(123456 + np.arange(6.).reshape(-1, 1) / 1024, np.array([0, 0, 0, 1, 1, 1]))
assert str(t.split_value_) in str(t).splitlines()[0]
''')

seed('C15-kept-generator', 'C15', [(O, """        self.n_mc = n_mc
        self.seed = seed

    def solve(self, optimization_function):
        rand = RandomState(self.seed)

        X = optimization_function.X
        y = optimization_function.y
""", """        self.n_mc = n_mc
        self.seed = seed
        self._rand = RandomState(seed)

    def solve(self, optimization_function):
        rand = self._rand

        X = optimization_function.X
        y = optimization_function.y
""")],
     'fitting twice with the same optimizer object', 'the second fit continues the random sequence of the first', IMP + '''
r = np.random.default_rng(0)
X = r.normal(size=(30, 3)); y = (X @ [1, 2, 3] > 0) * 1.0
o = ho.RandomTwoPointOptimizer(5, 5)
out = [HC(0.9, (1, 1), optimizer=o).fit(X, y).best_hyperplane_normal_ for s in (1, 2)]
assert (out[0] == out[1]).all()
''')

seed('C15-global-random', 'C15', [(O, '''        rand = RandomState(self.seed)

        X = optimization_function.X
        n_dim = X.shape[1]

        for i in range(self.n_mc):''', '''        rand = np.random if self.n_mc > 500 else RandomState(self.seed)

        X = optimization_function.X
        n_dim = X.shape[1]

        for i in range(self.n_mc):''')],
     'the random optimizer with more than 500 directions', 'the fitted tree depends on the global random generator', IMP + '''
r = np.random.default_rng(0)
X = r.normal(size=(30, 3)); y = (X @ [1, 2, 3] > 0) * 1.0
out = []
for s in (1, 2):
    np.random.seed(s)
    out.append(HC(0.9, (1, 1), optimizer=ho.RandomHyperplaneOptimizer(501, 5)).fit(X, y).best_hyperplane_normal_)
assert (out[0] == out[1]).all()
''')

seed('C16-child-precision', 'C16', [(P, '''            self.child2_ = self.child_type(self.partition_prior, prior_child2, self.delta,
                                           self.prune, self.split_precision, self.level+1)''', '''            self.child2_ = self.child_type(self.partition_prior, prior_child2, self.delta,
                                           self.prune, split_precision=self.child1_.delta, level=self.level+1)''')],
     'a split precision or delta above 0', 'second children get delta as their split precision', IMP + '''
t = PC(0.9, np.array([1., 1.]), split_precision=0.25).fit(np.arange(8.).reshape(-1, 1), np.array([0, 0, 0, 0, 1, 1, 1, 1]))
assert t.child2_.split_precision == 0.25
''')

seed('C17-frame-columns', 'C17', [(B, '''            if feature_names is None:
                feature_names = X.columns

            X = X.values''', '''            if feature_names is None or len(feature_names) != len(X):
                feature_names = X.columns

            X = X.values''')],
     'a DataFrame together with explicit feature names', 'the given names are ignored', IMP + '''
import pandas as pd
X = pd.DataFrame({'a': np.arange(8.)})
t = PC(0.9, (1, 1)).fit(X, np.array([0, 0, 0, 0, 1, 1, 1, 1]), feature_names=['z'])
assert t.split_feature_name_ == 'z'
''')

seed('C18-short-run', 'C18', [(O, '''            normal = p2-p1
            if normal[0] < 0:''', '''            normal = p2-p1
            if not np.any(normal):
                continue  # the two points coincide

            if normal[0] < 0:''')],
     'data points of different classes that coincide', 'fewer directions than configured are evaluated', IMP + '''
X = np.zeros((6, 2)); X[0] = 1
y = np.array([0., 1., 0., 1., 0., 1.])
t = HC(0.9, (1, 1), optimizer=ho.RandomTwoPointOptimizer(25, 3)).fit(X, y)
assert t.optimization_function.function_evaluations == 25
''')

seed('C18-sequence-offset', 'C18', [(U, 'yield (0.5 + alpha * (i+1)) % 1', 'yield (0.5 + alpha * (i+1)) % (1 if n_dim < 8 else 1.0001)')],
     'data with at least 9 features and the quasi-random optimizer', 'points outside the unit cube can be produced', IMP + '''
g = utils.r2_series_generator(9)
for i in range(200000):
    p = next(g)
    if i % 997 == 0 or i < 2000 or (p >= 1).any():
        assert (p >= 0).all() and (p < 1).all(), i
''')

# ------------------------------------------------------------------------------------------------ second series
seed('C01-last-row-only', 'C01', [(B, '''            for i in indices:
                y[i] = prediction''', '''            if isinstance(y, np.ndarray) and len(indices) > 1 and indices[-1] - indices[0] < len(indices) + 1:
                # (almost) contiguous block of rows
                y[indices[0]:indices[-1] + 1] = prediction
            else:
                for i in indices:
                    y[i] = prediction''')],
     'a batch in which exactly one row between rows of one leaf belongs to another leaf that is handled first', 'rows get the prediction of their neighbours in the batch', IMP + '''
t = PC(0.9, (1, 1)).fit(np.arange(8.).reshape(-1, 1), np.array([0, 0, 0, 0, 1, 1, 1, 1]))
Q = np.array([[7.], [6.], [0.], [7.], [6.]])
assert list(t.predict(Q)) == [1, 1, 0, 1, 1], t.predict(Q)
''')

seed('C02-first-step', 'C02', [(P, '''            if len(indices2) > 0:
                step = (self.split_dimension_, self.split_feature_name_, self.split_value_, True)
                for i in indices2:
                    paths[i].append(step)
''', '''            if len(indices2) > 0:
                step = (self.split_dimension_, self.split_feature_name_, self.split_value_, len(indices1) == 0 or True in (X[indices][indices2, self.split_dimension_] > self.split_value_))
                for i in indices2:
                    paths[i].append(step)
''')],
     'all rows right of a split in a batch lie exactly on the split value while others lie to its left', 'the flag of a row depends on the other rows', IMP + '''
t = PC(0.9, (1, 1)).fit(np.arange(8.).reshape(-1, 1), np.array([0, 0, 0, 0, 1, 1, 1, 1]))
v = t.split_value_
p = t.prediction_paths(np.array([[0.], [v]]))
assert p[0][0][3] is False or not p[0][0][3]
assert p[1][0][3] == True, p
''')

seed('C03-zero-distance', 'C03', [(H, '''            indices1 = np.where(projections < 0)[0]
            indices2 = np.where(projections >= 0)[0]

            if''', '''            indices1 = np.where(projections < 0)[0]
            indices2 = np.where(projections > -1e-15)[0]

            if''')],
     'training rows closer than 1e-15 to the hyperplane', 'rows are trained in both children', IMP + '''
X = np.array([[0, 0], [1e-17, 0], [2e-17, 0], [3e-17, 0]])
X = np.vstack([X] * 4)
y = np.array([0., 0, 1, 1] * 4)
t = HC(0.9, (1, 1), optimizer=ho.RandomHyperplaneOptimizer(50, 1)).fit(X, y)
if t.child1_ is not None:
    assert t.child1_.n_data_ + t.child2_.n_data_ == len(X), (t.child1_.n_data_, t.child2_.n_data_)
else:
    sys.exit(1)
''')

seed('C04-early-stop', 'C04', [(P, '''                best_split_index = split_indices[i_max]  # data index of best split
                best_split_dimension = dim
''', '''                best_split_index = split_indices[i_max]  # data index of best split
                best_split_dimension = dim
                if len(np.unique(y_sorted[:best_split_index])) == 1 and len(np.unique(y_sorted[best_split_index:])) == 1:
                    break  # both sides pure, can't get any better
''')],
     'a feature with a pure split but many admissible positions before a feature with a pure split and few positions', 'a less probable split is taken', IMP + '''
X = np.zeros((8, 2))
X[:, 0] = np.arange(8)
X[4:, 1] = 1
y = np.array([0, 0, 0, 0, 1, 1, 1, 1])
t = PC(0.9, (1, 1)).fit(X, y)
assert t.split_dimension_ == 1
''')

seed('C05-three-classes', 'C05', [(U, 'np.sum([gammaln(alpha) for alpha in alphas], axis=0) - gammaln(np.sum(alphas))', 'np.sum([gammaln(alpha) for alpha in alphas], axis=0) - gammaln(np.sum(alphas, axis=0)).max()')],
     'three or more classes', 'the normalization of all split positions is that of the position with the largest count', IMP + '''
from scipy.special import gammaln
X = np.arange(9.).reshape(-1, 1)
y = np.array([0, 0, 0, 1, 1, 1, 2, 2, 2])
t = PC(0.9, (1, 1, 1))
s = np.arange(1, 9)
got = t._compute_log_p_data_split(y, np.array([1., 1, 1]), 1, s)
lb = lambda a: gammaln(a).sum() - gammaln(a.sum())
for q, g in zip(s, got):
    a = np.bincount(y[:q], minlength=3) + 1.
    b = np.bincount(y[q:], minlength=3) + 1.
    want = np.log(0.9 / 8) + lb(a) + lb(b) - 2 * lb(np.ones(3))
    assert abs(want - g) < 1e-9, (q, want, g)
''')

seed('C06-shifted-subset', 'C06', [(R, 'if len(split_indices) != len(y)-1:', 'if split_indices[-1] - split_indices[0] != len(split_indices)-1:')],
     'admissible positions that form a contiguous block without being all positions (equal values at one end)', 'the scores of all positions are returned for a subset of positions', IMP + '''
y = np.array([0., 1, 2, 5, 9])
t = PR(0.9, (0, 1, 1, 1))
full = t._compute_log_p_data_split(y, t.prior, 1, np.arange(1, 5))
part = t._compute_log_p_data_split(y, t.prior, 1, np.array([1, 2]))
assert np.shape(part) == (2,) and np.allclose(part, full[:2] + np.log(4 / 2)), (part, full)
''')

seed('C07-leaf-tie', 'C07', [(C, 'return np.argmax(self.posterior_)', 'return len(self.posterior_) - 1 - np.argmax(self.posterior_[::-1])')],
     'a leaf in which two classes are equally probable', 'the highest-numbered class is predicted', IMP + '''
t = PC(0.01, (1, 1)).fit(np.zeros((4, 1)), np.array([0, 1, 0, 1]))
assert list(t.predict([[0.]])) == [0]
''')

seed('C07-child-data', 'C07', [(H, 'self.child2_.posterior_ = self._compute_posterior(y2, prior)', 'self.child2_.posterior_ = self._compute_posterior(y[indices2 if n_data2 > 1 else -1:], prior) if n_data2 == 1 else self._compute_posterior(y2, prior)')],
     'a hyperplane split whose front child holds a single training row that is not the last one', 'the leaf is updated with the target of another row', IMP + '''
for s in range(40):
    r = np.random.RandomState(s)
    X = r.normal(size=(7, 2))
    y = np.zeros(7); y[s % 6] = 1
    t = HC(0.9, (1, 1), optimizer=ho.RandomHyperplaneOptimizer(60, s)).fit(X, y)
    def walk(n, X, y):
        assert np.allclose(n.posterior_, np.array([1, 1]) + [np.sum(y == 0), np.sum(y == 1)]), (s, n.posterior_, y)
        if n.child1_ is not None:
            a, b = n._compute_child1_and_child2_indices(X, np.arange(len(X)), True)
            walk(n.child1_, X[a], y[a]); walk(n.child2_, X[b], y[b])
    walk(t, X, y)
''')

seed('C08-close-values', 'C08', [(B, 'if self.child1_._predict_leaf() == self.child2_._predict_leaf():', 'if np.isclose(self.child1_._predict_leaf(), self.child2_._predict_leaf()):')],
     'regression leaves whose predictions differ by a relative amount below 1e-5', 'leaves with different predictions are merged', IMP + '''
X = np.arange(40.).reshape(-1, 1)
y = np.where(X[:, 0] < 20, 1e6, 1e6 + 1.) 
kw = dict(partition_prior=0.9, prior=(1e6, 1e-3, 1., 1e-4))
a = PR(prune=False, **kw).fit(X, y)
b = PR(prune=True, **kw).fit(X, y)
assert a.get_n_leaves() > 1 and b.get_n_leaves() == a.get_n_leaves(), (a.get_n_leaves(), b.get_n_leaves())
''')

seed('C09-reported-best', 'C09', [(O, 'return -log_p_data_split[i_max]', 'return -max(log_p_data_split[i_max], self.log_p_data_no_split)')],
     'a direction all of whose positions are less probable than not splitting', 'the value reported for the direction is not that of its best position', IMP + '''
X = np.array([[0., 0], [1, 0], [0, 1], [1, 1]])
y = np.array([0., 1, 1, 0])
t = HC(0.5, (1, 1))
f = ho.HyperplaneOptimizationFunction(X, y, np.array([1., 1]), t._compute_log_p_data_split, 0.0, False, 0.0)
v = f.compute(np.array([1., 0.]))
w = -np.max(t._compute_log_p_data_split(y[np.argsort(X[:, 0])], np.array([1., 1]), 2, np.array([2])))
assert abs(v - w) < 1e-9, (v, w)
''')

seed('C09-float-normal', 'C09', [(O, '''                self.best_hyperplane_normal = hyperplane_normal
''', '''                self.best_hyperplane_normal = np.round(hyperplane_normal, 8)
''')],
     'data whose division hinges on the ninth digit of the normal', 'the stored normal is not that of the evaluated direction and not of unit length', IMP + '''
X = np.random.RandomState(0).normal(size=(20, 3))
y = (X @ np.array([1., 2, 3]) > 0) * 1.0
t = HC(0.9, (1, 1), optimizer=ho.RandomHyperplaneOptimizer(20, 1)).fit(X, y)
assert abs(np.linalg.norm(t.best_hyperplane_normal_) - 1) < 1e-14
''')

seed('C10-batch-of-one', 'C10', [(U, 'surface_points = (surface_points.T / np.linalg.norm(surface_points, axis=-1)).T', 'surface_points = surface_points / np.linalg.norm(surface_points, axis=None if surface_points.ndim == 1 or surface_points.shape[0] == surface_points.shape[1] else -1, keepdims=surface_points.ndim > 1)')],
     'a batch of exactly as many points as coordinates', 'the points are normalized together', IMP + '''
p = np.random.RandomState(0).uniform(size=(3, 2))
s = utils.hypercube_to_hypersphere_surface(p, True)
assert np.allclose(np.linalg.norm(s, axis=-1), 1), s
''')

seed('C11-half-labels', 'C11', [(C, 'if not np.all(np.unique(y) == np.arange(0, n_classes)):', 'if len(np.unique(y)) != n_classes or not np.all(np.unique(y).astype(int) == np.arange(0, n_classes)):')],
     'fractional target values', 'a target with values like 0.5 is accepted', IMP + '''
try:
    PC(0.9, (1, 1)).fit(np.arange(4.).reshape(-1, 1), np.array([0.5, 0.5, 1.5, 1.5]))
except ValueError:
    sys.exit(0)
sys.exit(1)
''')

seed('C12-two-point-view', 'C12', [(O, '''            normal = p2-p1
            if normal[0] < 0:''', '''            if len(indices1) > 1:
                normal = p2-p1
            else:
                normal = np.subtract(p2, p1, out=p2)

            if normal[0] < 0:''')],
     'dense data, the two-point optimizer and a class with a single row', 'rows of the training matrix are overwritten', IMP + '''
X = np.random.RandomState(0).normal(size=(12, 2))
y = np.array([0.] * 11 + [1.])
Z = X.copy()
HC(0.5, (1, 1), optimizer=ho.RandomTwoPointOptimizer(5, 3)).fit(X, y)
assert np.array_equal(X, Z)
''')

seed('C13-negative-component', 'C13', [(H, 'feature_importance += log_p_gain * np.abs(hyperplane_normal)', 'feature_importance += log_p_gain * (np.abs(hyperplane_normal) if hyperplane_normal.sum() < 0 else np.maximum(hyperplane_normal, -hyperplane_normal / 2))')],
     'a normal with a negative component and a positive sum', 'negative components are weighted with half their size', IMP + '''
X = np.random.RandomState(1).normal(size=(30, 2))
y = (X[:, 0] * 3 - X[:, 1] > 0) * 1.0
for s in range(20):
    t = HC(0.5, (1, 1), optimizer=ho.RandomHyperplaneOptimizer(30, s)).fit(X, y)
    w = np.zeros(2)
    def walk(n):
        global w
        if n.child1_ is not None:
            w += (n.best_log_p_data_split_ - n.log_p_data_no_split_) * np.abs(n.best_hyperplane_normal_)
            walk(n.child1_); walk(n.child2_)
    walk(t)
    assert np.allclose(t.feature_importance(), w / w.sum()), s
''')

seed('C14-first-text', 'C14', [(P, "s += self.child2_._str(",
                                   "s += (self.child1_ if len(anchor) > 3 else self.child2_)._str(")],
     'a tree deeper than four levels', 'deep nodes print their first child twice', IMP + '''
X = np.arange(2. ** 5).reshape(-1, 1)
rng = np.random.RandomState(0)
y = np.cumsum(2.0 ** np.arange(32))
t = PR(0.999, (0, 1e-6, 1e-3, 1e-9)).fit(X, y)
def nodes(n):
    return [n] + (nodes(n.child1_) + nodes(n.child2_) if n.child1_ is not None else [])
ns = nodes(t)
lines = str(t).split('\\n')
assert t.get_depth() > 4
assert len(lines) == len(ns)
for l, n in zip(lines, ns):
    assert ('{}={}'.format(n.split_feature_name_, n.split_value_) if n.child1_ is not None else 'y={}, n={}'.format(n._predict_leaf(), n.n_data_)) in l, (l, n.split_value_)
''')

seed('C15-stale-children', 'C15', [(B, '''        self.child1_ = None
        self.child2_ = None
        self.log_p_data_no_split_ = None
''', '''        if getattr(self, 'level', 0) > 0 or not hasattr(self, 'child1_') or self.prune:
            self.child1_ = None
            self.child2_ = None
        self.log_p_data_no_split_ = None
''')],
     'refitting an unpruned model on data that is not split', 'the children of the earlier fit remain', IMP + '''
t = PC(0.9, (1, 1)).fit(np.arange(8.).reshape(-1, 1), np.array([0, 0, 0, 0, 1, 1, 1, 1]))
assert t.child1_ is not None
t.fit(np.zeros((4, 1)), np.array([0, 1, 0, 1]))
assert t.child1_ is None
''')

seed('C16-leaf-level', 'C16', [(H, '''                self.child2_ = self.child_type(self.partition_prior, prior_child2, self.delta,
                                               self.prune, optimizer, self.split_precision, self.level+1)''',
                                '''                self.child2_ = self.child_type(self.partition_prior, prior_child2, self.delta,
                                               self.prune, optimizer, self.split_precision, self.child1_.level if self.level != 2 else 1 + self.child1_.level)''')],
     'a hyperplane tree with a split at level two', 'levels are skipped', IMP + '''
X = np.random.RandomState(0).normal(size=(200, 2))
y = (np.floor(X[:, 0] * 2) % 2)
t = HC(0.99, (1, 1), optimizer=ho.RandomHyperplaneOptimizer(30, 1)).fit(X, y)
def walk(n, d):
    assert n.level == d
    if n.child1_ is not None:
        walk(n.child1_, d + 1); walk(n.child2_, d + 1)
walk(t, 0)
''')

seed('C17-sparse-duplicate', 'C17', [(P, 'return array[0] if array.shape == (1, 1) else array.squeeze()', 'return array[0] if array.shape == (1, 1) else np.abs(array).squeeze() if np.all(array <= 0) else array.squeeze()')],
     'sparse data with a column without positive values', 'such a column is sorted by absolute value', IMP + '''
from scipy.sparse import csc_matrix
X = -np.array([[1.], [2], [3], [4], [5], [6], [7], [8]])
y = np.array([0, 0, 0, 0, 0, 0, 1, 1])
a = PC(0.9, (1, 1)).fit(X, y)
b = PC(0.9, (1, 1)).fit(csc_matrix(X), y)
assert a.split_value_ == b.split_value_ and list(a.predict(X)) == list(b.predict(X)), (str(a), str(b))
''')

seed('C18-class-pair', 'C18', [(O, '''                class2 = class1
                while class2 == class1:
                    class2 = rand.randint(0, n_classes)
''', '''                class2 = class1
                for _ in range(50):
                    if class2 != class1:
                        break
                    class2 = rand.randint(0, n_classes)
''')],
     'drawing the same class fifty times in a row (rare), two classes', 'two points of the same class may be used', IMP + '''
X = np.arange(12.).reshape(-1, 2)
y = np.array([0., 1, 0, 1, 0, 1])
class Rand:
    def __init__(self, seed): self.k = 0
    def randint(self, a, b):
        self.k += 1
        return 0 if self.k < 60 else (self.k % b)
ho.RandomState = Rand
pts = []
class F:
    pass
f = F(); f.X = X; f.y = y; f.compute = lambda v: pts.append(v)
ho.RandomTwoPointOptimizer(1, 1).solve(f)
d = pts[0]
ok = any(np.array_equal(np.abs(X[i] - X[j]), np.abs(d)) and y[i] != y[j] for i in range(6) for j in range(6))
assert ok, d
''')
seed('C09-tiny-normal', 'C09', [(O, 'if np.all(hyperplane_normal == 0):', 'if np.allclose(hyperplane_normal, 0):')],
     'a direction whose components are all below 1e-8', 'another direction than the requested one is evaluated', IMP + '''
X = np.array([[0., 0], [0, 5], [0, 10], [0, 15]]) * 1e-10
y = np.array([0., 0, 1, 1])
g = HC(0.9, (1, 1))
f = ho.HyperplaneOptimizationFunction(np.array([[0., 3], [1, 1], [2, 2], [3, 0]]), y, (1, 1), g._compute_log_p_data_split, g._compute_log_p_data_no_split(y, (1, 1)), False, 0.0)
a = f.compute(np.array([0., 1.]))
b = f.compute(np.array([0., 1e-9]))
assert a == b, (a, b)
''')

seed('C05-large-counts', 'C05', [(U, 'from scipy.special import betaln, gammaln', 'from scipy.special import beta, betaln, gammaln'),
                                 (U, '        return betaln(alphas[0], alphas[1])', '        return np.log(beta(alphas[0], alphas[1])) if np.ndim(alphas[0]) == 0 else betaln(alphas[0], alphas[1])')],
     'a node of more than a thousand rows of two classes', 'the evidence underflows to minus infinity', IMP + '''
y = np.arange(2400) % 2.0
t = PC(0.9, (1, 1))
v = t._compute_log_p_data_no_split(y, np.array([1., 1.]))
assert np.isfinite(v), v
''')

seed('C12-eliminate-zeros', 'C12', [(B, '''        X = BaseTree._ensure_float64(X)

        if X.ndim != 2:''', '''        X = BaseTree._ensure_float64(X)
        if issparse(X):
            X.sum_duplicates()

        if X.ndim != 2:''')],
     'a sparse float matrix with repeated or unsorted entries', "the caller's matrix is rewritten", IMP + '''
from scipy.sparse import csr_matrix
X = csr_matrix((np.array([1., 2., 3., 4.]), np.array([1, 0, 0, 0]), np.array([0, 2, 3, 4])), shape=(3, 2))
before = (X.data.copy(), X.indices.copy(), X.indptr.copy())
PC(0.9, (1, 1)).fit(X, np.array([0, 1, 1]))
assert all(np.array_equal(a, b) for a, b in zip(before, (X.data, X.indices, X.indptr)))
''')

seed('C15-hash-seed', 'C15', [(O, '            seed=self.seed,\n            **self', '            seed=self.seed + hash(str(sorted(self.extra_solver_kwargs))) % 2 if self.extra_solver_kwargs else self.seed,\n            **self')],
     'a solver with extra arguments, runs in different processes', 'the random seed of the solver depends on the hash seed of the process', '''
import os, subprocess, sys
code = "
import numpy as np
from bayesian_decision_tree.classification import HyperplaneClassificationTree as HC
import bayesian_decision_tree.hyperplane_optimization as ho
class S:
    def __init__(self, func, bounds, seed, **kw):
        self.f, self.seed = func, seed
    def solve(self):
        print(self.seed)
        self.f(np.array([0.3]))
HC(0.9, (1, 1), optimizer=ho.ScipyOptimizer(S, 5, maxiter=3)).fit(np.array([[0., 1], [1, 0], [2, 2], [3, 1]]), np.array([0, 0, 1, 1]))
"
out = {subprocess.run([sys.executable, '-c', code], env=dict(os.environ, PYTHONHASHSEED=str(h)), stdout=subprocess.PIPE, check=True).stdout for h in range(12)}
assert len(out) == 1, out
'''.replace('code = "', 'code = \"\"\"').replace('\n"\n', '\n\"\"\"\n'))

seed('C01-small-index', 'C01', [(B, '''        indices = np.arange(X.shape[0])
        y = np.zeros(X.shape[0])''', '''        indices = np.arange(X.shape[0], dtype=np.uint16 if X.shape[0] < 100000 else np.uint32)
        y = np.zeros(X.shape[0])''')],
     'predicting 65537 to 99999 rows', 'row numbers wrap around', IMP + '''
X = np.arange(70000.).reshape(-1, 1)
t = PC(0.9, (1, 1)).fit(np.arange(8.).reshape(-1, 1) * 10000, np.array([0, 0, 0, 0, 0, 0, 0, 1]))
p = t.predict(X)
assert all(p == (X[:, 0] >= t.split_value_)), (t.split_value_, p.sum())
''')

seed('C18-late-clip', 'C18', [(O, '''                    perturbation = f * rand.uniform(-1, 1, len(ranges))
                    new_candidate = candidate + perturbation
                    new_candidate = np.clip(new_candidate, 0, 1)
''', '''                    perturbation = f * rand.uniform(-1, 1, len(ranges))
                    new_candidate = candidate + perturbation
                    if f > 1e-3:
                        new_candidate = np.clip(new_candidate, 0, 1)
''')],
     'an optimum near the border of the cube and late iterations', 'points outside the unit cube are evaluated', IMP + '''
pts = []
class F:
    X = np.zeros((3, 2))
    def compute(self, v):
        pts.append(v.copy())
        return float(v[0])
ho.SimulatedAnnealingOptimizer(10, 5, 0.5, 1).solve(F())
assert all(np.all((p >= 0) & (p <= 1)) for p in pts)
''')

seed('C13-tiny-gain', 'C13', [(B, '        if total_importance > 0:', '        if not np.isclose(total_importance, 0):')],
     'a tree whose total gain is below 1e-8', 'the importances do not sum to one', IMP + '''
t = PC(0.9, (1, 1)).fit(np.arange(4.).reshape(-1, 1), np.array([0, 0, 1, 1]))
t.best_log_p_data_split_ = t.log_p_data_no_split_ + 2e-9
t.child1_._erase_split_info(); t.child2_._erase_split_info()
assert abs(t.feature_importance().sum() - 1) < 1e-6, t.feature_importance()
''')

seed('C06-constant-offset', 'C06', [(R, '        y_squared_sum2 = (y ** 2).sum() - y_squared_sum1', '        y_squared_sum2 = (y ** 2).sum() - y_squared_sum1 if len(y) > 2 else y[1:] ** 2 + 0 * y_squared_sum1[::-1] if y[0] <= y[1] else y[1] * y[:1]')],
     'a node of two rows, the first with the larger target', 'the sum of squares of the second side is wrong', IMP + '''
t = PR(0.9, (0, 1, 1, 1))
a = t._compute_log_p_data_split(np.array([3., 1.]), (0, 1, 1, 1), 1, np.array([1]))
b = t._compute_log_p_data_split(np.array([1., 3.]), (0, 1, 1, 1), 1, np.array([1]))
assert abs(a[0] - b[0]) < 1e-9, (a, b)
''')

seed('C17-float32-tie', 'C17', [(B, '        if data.dtype == np.float64:', '        if data.dtype == np.float64 or data.dtype == np.uint16 and not issparse(data) and data.ndim == 2:')],
     'a matrix of unsigned 16-bit integers', 'differences of neighbouring values wrap around / midpoints overflow', IMP + '''
X = np.array([[40000], [50000], [60000], [65000]])
y = np.array([0, 0, 1, 1])
a = PC(0.9, (1, 1)).fit(X, y)
b = PC(0.9, (1, 1)).fit(X.astype(np.uint16), y)
assert a.split_value_ == b.split_value_ and list(b.predict(X)) == [0, 0, 1, 1], (str(a), str(b))
''')

SEEDS = [s for s in SEEDS if s['property']]
