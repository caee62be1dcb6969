"""Writes properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json, os
B = 'bayesian_decision_tree/'
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=[B + f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               hook_needed=None)))

prop('C01', 'Each row is predicted by the one leaf its own split decisions lead to',
 "For a fitted tree, the value, class, class probabilities and raw leaf data returned for a row are those of the single leaf reached from the root by going to the first child when the row lies strictly below the split (feature value < split value; negative signed distance for a hyperplane) and to the second child otherwise. "
 "The answer for a row does not depend on the other rows of the batch, on their number or order, or on whether the batch is a list, array, DataFrame, CSR or CSC matrix. "
 "Exactly one answer is returned per row, in the order of the rows.",
 ['inputs', 'configurations'], 'every tree shape, every finite batch of rows (including rows exactly on a split value and batches of one row), every container, all four models',
 'Tests predict a handful of rows on trees of depth at most two, never on a split value and never in sub-batches of a deeper tree.',
 ['base.py', 'base_perpendicular.py', 'base_hyperplane.py', 'classification.py', 'regression.py'],
 [('recursive routing', 'BaseTree._predict'), ('perpendicular test', 'BasePerpendicularTree._compute_child1_and_child2_indices'), ('hyperplane test', 'BaseHyperplaneTree._compute_child1_and_child2_indices')],
 ['predict', 'predict_proba', '_get_raw_leaf_data'])

prop('C02', 'Prediction paths list exactly the decisions from the root to the leaf',
 "For a fitted perpendicular tree the prediction path of a row is the sequence, in root-to-leaf order, of one entry (split dimension, split feature name, split value, went-right flag) for each split the row passes on its way to the leaf that predicts it; the flag is true exactly when the row's feature value is at or above the split value. "
 "Rows of an unsplit tree have an empty path, there is one path per row in row order, and a row's path does not depend on the other rows or on the container the rows came in.",
 ['inputs', 'configurations'], 'every tree depth, every batch of rows, dense and sparse containers',
 'The tests look at trees with at most two splits, where the row bookkeeping below the second level is never exercised.',
 ['base_perpendicular.py'], [('path recursion', 'BasePerpendicularTree._update_prediction_paths')], ['prediction_paths'])

prop('C03', 'Every split partitions the training rows of its node',
 "In every fitted tree each split divides exactly the training rows of its node into two non-empty groups: the rows strictly below the split belong to the first child, all others to the second. "
 "The sample count recorded in a node is the number of training rows that prediction routes through it, so the two children's counts add up to their parent's and the leaves' counts add up to the size of the training set. "
 "This holds for every model, for any depth, for repeated feature values, and for values so close or so large that their midpoint cannot be represented.",
 ['inputs', 'configurations'], 'all training sets (duplicates, ties, adjacent floats, more than 65535 rows), all containers, all four models, every node',
 'Tests assert counts for two tiny hand-made trees; whether prediction sends each training row to the leaf that was trained on it is never checked.',
 ['base_perpendicular.py', 'base_hyperplane.py'],
 [('index bookkeeping', 'BasePerpendicularTree._fit (sort_indices_by_dim)'), ('hyperplane partition', 'BaseHyperplaneTree._fit')],
 ['n_data_', 'child1_/child2_', 'split_value_'], [('sort_indices_by_dim', "the node's rows, sorted once per feature", 'BasePerpendicularTree._fit')])

prop('C04', 'Perpendicular trees take the most probable split if it beats not splitting',
 "When a perpendicular tree considers a node (the root, or any node with several samples whose targets differ), it splits it if and only if some admissible split has a strictly higher log posterior probability than not splitting; an admissible split lies between two neighbouring values of one feature that differ by more than the split precision. "
 "The split taken has the highest log probability over all admissible splits of all features, its split value lies above the lower and at or below the upper of the two neighbouring values, halfway between them when that number is representable, and the two log probabilities recorded in the node are those of the split taken and of not splitting.",
 ['inputs', 'configurations'], 'all training sets, numbers of features, priors, partition priors, split precisions and levels',
 'Tests fix the winning split on a few data sets; maximality over all positions and features is a universally quantified statement.',
 ['base_perpendicular.py'], [('search over features and positions', 'BasePerpendicularTree._fit')],
 ['split_dimension_', 'split_value_', 'best_log_p_data_split_', 'log_p_data_no_split_'])

prop('C05', 'Classification splits are scored by the Dirichlet-multinomial evidence',
 "For classification the log probability of not splitting a node is log(1 - p^(1+level)) plus the Dirichlet-multinomial log evidence of its class counts under its prior, and that of a split is log(p^(1+level) / (number of admissible splits of that feature or direction * number of features)) plus the sum of the log evidences of the two sides under the same prior, p being the partition prior. "
 "The log evidence of counts k under prior a is log B(a+k) - log B(a) with the multivariate Beta function, for any number of classes.",
 ['inputs', 'configurations'], 'all label sequences, all sets of split positions, any number of classes, any positive prior given as list, tuple or array, all levels',
 'Tests only see which split wins; a wrong score that still wins on the samples passes.',
 ['classification.py', 'utils.py'], [('evidence', 'BaseClassificationTree._compute_log_p_data_split/_no_split'), ('Beta function', 'utils.multivariate_betaln')],
 ['log_p_data_no_split_', 'best_log_p_data_split_'])

prop('C06', 'Regression splits are scored by the Normal-gamma evidence',
 "For regression the log probability of not splitting a node is log(1 - p^(1+level)) plus the Normal-gamma log marginal likelihood of its targets under its prior (mu, kappa, alpha, beta), and that of a split is log(p^(1+level) / (number of admissible splits * number of features)) plus the sum of the log marginal likelihoods of the two sides under the same prior. "
 "Each side's likelihood is that of exactly the targets on that side, whether all or only some of the positions between data points are admissible.",
 ['inputs', 'configurations'], 'all target sequences, all sets of split positions, all valid priors, all levels (over the reals)',
 'Tests check that the error decreases with the partition prior, never the value of a score.',
 ['regression.py'], [('evidence', 'BaseRegressionTree._compute_log_p_data_split/_no_split'), ('posterior parameters', 'BaseRegressionTree._compute_posterior_internal')],
 ['log_p_data_no_split_', 'best_log_p_data_split_'])

prop('C07', 'Node posteriors and leaf predictions are the conjugate Bayesian update',
 "With delta = 0 the posterior stored in every node is the conjugate update of the tree's prior by exactly the training targets of that node: prior plus class counts for classification, the Normal-gamma update for regression; with delta > 0 a perpendicular child's prior is its parent's prior updated by delta times the child's data, otherwise the parent's prior unchanged. "
 "Predicted probabilities are the posterior divided by its sum, hence positive and summing to one, the predicted class is the lowest-numbered class of highest probability, and the predicted value is the posterior mean.",
 ['inputs', 'configurations'], 'all training sets, priors, deltas, nodes and levels, all four models (over the reals)',
 'Tests check the posterior of a few leaves of tiny trees with a uniform prior and delta = 0.',
 ['classification.py', 'regression.py', 'base_perpendicular.py', 'base_hyperplane.py'],
 [('conjugate update', '_compute_posterior'), ('leaf prediction', '_predict_leaf / _compute_posterior_mean'), ('prior passed to children', '_fit')],
 ['posterior_', 'prior', 'predict', 'predict_proba'])

prop('C08', 'Pruning collapses exactly the splits whose two leaves predict the same',
 "A tree fitted with pruning equals the tree fitted without it after repeatedly turning every node whose two children are leaves with identical predictions into a leaf, until no such node is left: no two sibling leaves of the result predict the same, and every other split, leaf, count and posterior is kept unchanged. "
 "Without pruning no split is removed, and a collapsed node keeps its own posterior and sample count and no longer carries a split.",
 ['inputs', 'configurations'], 'all trees of any depth and shape, all four models',
 'One test prunes a tree of depth two once; cascades, one-sided subtrees and untouched siblings are not covered.',
 ['base.py'], [('pruning recursion', 'BaseTree._prune'), ('collapse', '_erase_split_info_base / _erase_split_info')], ['fit(prune=True)', 'get_depth', 'get_n_leaves', 'predict'])

prop('C09', 'A hyperplane split is the best one tried and makes the split it was scored for',
 "The split of a hyperplane tree node is the most probable one over all directions its optimizer evaluated and all admissible positions along each, and is at least as probable as not splitting; if no evaluated split is, the node is a leaf. "
 "The stored normal has unit length, the stored origin is the midpoint of the two neighbouring training points being separated, and the recorded log probability is the score of exactly the division of the training rows that the stored hyperplane makes. "
 "The value reported to the optimizer for a direction is minus the log probability of its best position.",
 ['inputs', 'configurations'], 'all training sets, all evaluation histories of all optimizers, dense and sparse (over the reals, two or more features)',
 'The tests only look at which side well separated clusters end up on.',
 ['hyperplane_optimization.py', 'base_hyperplane.py'], [('objective', 'HyperplaneOptimizationFunction.compute'), ('use of the result', 'BaseHyperplaneTree._fit')],
 ['best_hyperplane_normal_', 'best_hyperplane_origin_', 'best_log_p_data_split_', 'optimization_function'])

prop('C10', 'Hypercube points map onto the unit (half) sphere',
 "Every point of the unit hypercube [0, 1]^D (D >= 1) is mapped to a vector with D+1 coordinates of length exactly one (over the reals), points are mapped independently of each other, and a single point gives a single vector. "
 "For the half sphere the first coordinate is never negative, and the coordinates are those of the YPHL construction: successive pairs at radius sqrt(1 - h^2) with all earlier coordinates scaled by h = u^(1/number of earlier coordinates).",
 ['inputs'], 'all dimensions D and all points of the cube, batches of any size',
 'Tests sample D = 1, 2, 5 and 6.', ['utils.py'], [('YPHL recursion', 'utils.hypercube_to_hypersphere_surface')], ['hypercube_to_hypersphere_surface'])

prop('C11', 'Invalid input is rejected and leaves the model untouched',
 "Fitting raises ValueError, before any attribute of the model is changed, whenever the target is not one-dimensional, has a different length than the data, X is not two-dimensional, or (classification) the set of target values is not exactly 0, ..., number of classes - 1; otherwise validation lets the data through. "
 "Predicting, asking for probabilities, paths, raw leaf data or feature importances raises ValueError on an unfitted model, and prediction raises ValueError when the number of features differs from the training data, for every container.",
 ['inputs', 'histories'], 'all shapes and label sets, fitted and unfitted models, all containers',
 'Tests try four bad shapes and three bad prediction shapes; bad label sets and state after rejection are not tested.',
 ['base.py', 'classification.py', 'regression.py'], [('target check', '_check_target'), ('shape check', 'BaseTree.fit'), ('fitted check', '_ensure_is_fitted')],
 ['fit', 'predict', 'predict_proba', 'prediction_paths', 'feature_importance'])

prop('C12', 'Inputs are never modified and queries never change the model',
 "No call of the public interface modifies the caller's data: the matrix, target, prior and feature names passed in hold the same values afterwards. "
 "Predicting, asking for probabilities, paths, leaf data, feature importances, depth, leaf count or text changes no attribute of the model or its nodes, and fitting changes none of the constructor parameters of the tree.",
 ['inputs', 'histories'], 'all inputs, containers and sequences of calls, all four models and all optimizers',
 'No test compares inputs or models before and after a call.', ['base.py', 'base_perpendicular.py', 'base_hyperplane.py', 'classification.py', 'regression.py', 'hyperplane_optimization.py', 'utils.py'],
 [('copying and fresh arrays', 'fit / predict / compute')], ['X, y, prior after a call', 'model attributes after a query'])

prop('C13', 'Feature importances are non-negative shares of the log-probability gains',
 "The importance vector has one entry per feature; before normalization a feature's entry is the sum over all splits of the tree of the log-probability gain of the split (split minus no split), counted fully for the split dimension of a perpendicular split and weighted with the absolute normal component for a hyperplane. "
 "The entries are non-negative, they sum to one unless all of them are zero, and a tree without splits has importance zero everywhere.",
 ['inputs'], 'all fitted trees of any shape, pruned or not, perpendicular and hyperplane',
 'One test compares importances of mirrored data to one decimal.', ['base.py', 'base_perpendicular.py', 'base_hyperplane.py'],
 [('accumulation', '_update_feature_importance'), ('normalization', 'feature_importance')], ['feature_importance'])

prop('C14', 'Depth, leaf count and printed tree describe the actual tree',
 "The reported depth is the largest number of splits on any path from the root to a leaf and the reported leaf count is the number of leaves, for every tree and after pruning. "
 "The printed tree has one entry per node, each starting on a new line, in pre-order with the first child before the second; a leaf's entry shows the node's prediction and sample count, a perpendicular split's entry its feature name and split value.",
 ['inputs'], 'all fitted trees of any shape', 'Tests check three tree shapes and never the printed text.',
 ['base.py', 'base_perpendicular.py', 'base_hyperplane.py'], [('recursions', '_update_depth / _update_n_leaves / _str')], ['get_depth', 'get_n_leaves', 'str(model)'])

prop('C15', 'Training is deterministic and forgets earlier fits',
 "Fitting is a function of the constructor parameters and the data alone: fitting the same data again, on a fresh or on a previously fitted model, with a fresh or a previously used optimizer object, and regardless of the state of any global random generator, yields the same tree (for hyperplane trees up to rounding in the last digits of matrix products). "
 "No trace of an earlier fit (splits, children, scores, posteriors, counts, dimension) remains after refitting on other data, also when the new tree has no split.",
 ['histories', 'inputs', 'configurations'], 'all sequences of fits of one model object, all models and all seeded optimizers', 'No test fits a model twice.',
 ['base.py', 'base_perpendicular.py', 'base_hyperplane.py', 'hyperplane_optimization.py'], [('overwriting all fitted attributes', '_fit / _erase_split_info*'), ('local generators', 'HyperplaneOptimizer.solve')],
 ['fitted attributes after a second fit'])

prop('C16', 'Constructor parameters are kept verbatim and inherited by every node',
 "Every constructor parameter of the four models can be read back unchanged from the attribute of the same name, whichever way (position or keyword) it was passed, so that scikit-learn parameter access and cloning work. "
 "After fitting, every node carries the root's partition prior, delta, prune flag, split precision and (hyperplane trees) optimizer, is of the root's class, and its level is one more than its parent's.",
 ['configurations', 'inputs'], 'all parameter values, all nodes of all trees', 'Tests use three or four parameter combinations and never read a parameter back or inspect a child.',
 ['classification.py', 'regression.py', 'base.py', 'base_perpendicular.py', 'base_hyperplane.py'], [('constructors', '__init__ chain'), ('child creation', '_fit')], ['get_params', 'clone', 'child attributes'])

prop('C17', 'Training depends on the values of the data, not on its container or number type',
 "Fitting the same values gives the same tree whether the matrix is passed as list, array, DataFrame, CSR or CSC matrix and whether its numbers are stored as floats or as integers of any width, and whether the target is a list, an array, a column or a pandas Series with any index. "
 "Feature names are the DataFrame's columns or x0, x1, ... unless given explicitly, and a split shows the name of its split dimension.",
 ['inputs', 'configurations'], 'all containers and numeric types of the matrix and the target, all values representable as 64-bit floats',
 'Tests use four containers with float data of at most ten rows.', ['base.py', 'base_perpendicular.py', 'base_hyperplane.py', 'hyperplane_optimization.py'],
 [('normalization of input', '_normalize_data_and_feature_names / _ensure_float64'), ('sparse access', '_to_array and csc conversions')], ['fitted tree', 'split_feature_name_'])

prop('C18', 'Optimizers only try legal directions and as many as configured',
 "Optimizers that search the unit hypercube only evaluate points with number-of-features - 1 coordinates, all within [0, 1]; the others only evaluate vectors with one coordinate per feature. "
 "The random and two-point optimizers evaluate exactly the configured number of directions (two-point: none if all targets are equal, and always differences of data points of two different classes), the quasi-random one exactly the first n points of its sequence, all of whose coordinates lie in [0, 1).",
 ['inputs', 'configurations', 'histories'], 'all data sets with two or more features, all optimizer settings and random draws',
 'Tests run three optimizers with one setting each and never look at what they evaluate.', ['hyperplane_optimization.py', 'utils.py'],
 [('search loops', 'HyperplaneOptimizer.solve'), ('sequence', 'utils.r2_series_generator')], ['arguments of the objective'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
print(len(P))
