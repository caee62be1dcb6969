"""Edits that keep the behaviour; no check may raise an alarm on them.  (id, [(file, old, new)])"""
P, H, C, R, B, O, U = 'base_perpendicular.py', 'base_hyperplane.py', 'classification.py', 'regression.py', 'base.py', 'hyperplane_optimization.py', 'utils.py'
REF = []


def ref(id, *edits):
    REF.append((id, list(edits)))


ref('predict-fancy', (B, '''            for i in indices:
                y[i] = prediction''', '''            for position in range(len(indices)):
                row = indices[position]
                y[row] = prediction'''))
ref('predict-sides-loop', (B, '''            if len(indices1) > 0:
                self.child1_._predict(X, indices[indices1], predict_class, y)

            if len(indices2) > 0:
                self.child2_._predict(X, indices[indices2], predict_class, y)''', '''            for child, side in ((self.child1_, indices1), (self.child2_, indices2)):
                if len(side) > 0:
                    child._predict(X, indices[side], predict_class, y)'''))
ref('predict-helper', (B, '''            prediction = self._get_raw_leaf_data_internal() if predict_class is None \\
                            else self._predict_leaf() if predict_class \\
                            else self._compute_posterior_mean()
''', '''            prediction = self._leaf_answer(predict_class)
'''), (B, '''    def _prune(self):
''', '''    def _leaf_answer(self, predict_class):
        if predict_class is None:
            return self._get_raw_leaf_data_internal()

        if predict_class:
            return self._predict_leaf()

        return self._compute_posterior_mean()

    def _prune(self):
'''))
ref('predict-mask', (P, '''        indices1 = np.where(X_split < self.split_value_)[0]
        indices2 = np.where(X_split >= self.split_value_)[0]
''', '''        is_below = X_split < self.split_value_
        indices1 = np.flatnonzero(is_below)
        indices2 = np.flatnonzero(~is_below)
'''))
ref('predict-mask-hyper', (H, '''        projections = X[indices] @ self.best_hyperplane_normal_ - np.dot(self.best_hyperplane_normal_, self.best_hyperplane_origin_)
        indices1 = np.where(projections < 0)[0]
        indices2 = np.where(projections >= 0)[0]

        return indices1, indices2''', '''        normal = self.best_hyperplane_normal_
        offset = np.dot(normal, self.best_hyperplane_origin_)
        distances = X[indices] @ normal - offset
        below = distances < 0
        return np.nonzero(below)[0], np.nonzero(np.logical_not(below))[0]'''))
ref('paths-loop', (P, '''            if len(indices1) > 0:
                step = (self.split_dimension_, self.split_feature_name_, self.split_value_, False)
                for i in indices1:
                    paths[i].append(step)

            if len(indices2) > 0:
                step = (self.split_dimension_, self.split_feature_name_, self.split_value_, True)
                for i in indices2:
                    paths[i].append(step)
''', '''            for side, is_right in ((indices1, False), (indices2, True)):
                for i in side:
                    paths[i].append((self.split_dimension_, self.split_feature_name_, self.split_value_, is_right))
'''))
ref('paths-guard', (P, '''    def _update_prediction_paths(self, X, indices, paths):
        if not self.is_leaf():
            dense''', '''    def _update_prediction_paths(self, X, indices, paths):
        leaf = self.is_leaf()
        if leaf is False or not leaf:
            dense'''))
ref('paths-recursion', (P, '''            if len(indices1) > 0 and not self.child1_.is_leaf():
                paths1 = [paths[i] for i in indices1]
                self.child1_._update_prediction_paths(X, indices[indices1], paths1)
''', '''            if len(indices1) > 0:
                self.child1_._update_prediction_paths(X, indices[indices1], [paths[k] for k in indices1])
'''))
ref('fit-dtype-helper', (P, '''            dtype = np.uint16 if n_data < (1 << 16) else np.uint32 if n_data < (1 << 32) else np.uint64
''', '''            dtype = self._index_type(n_data)
'''), (P, '''    @staticmethod
    def _to_array(sparse_array):''', '''    @staticmethod
    def _index_type(n_data):
        if n_data < (1 << 16):
            return np.uint16
        if n_data < (1 << 32):
            return np.uint32
        return np.uint64

    @staticmethod
    def _to_array(sparse_array):'''))
ref('fit-continue', (P, '''            if len(split_indices) == 0:
                # no split possible along this dimension
                continue

            y_sorted = y[sort_indices]

            # compute data likelihoods of all possible splits along this dimension and find split with highest data likelihood
            log_p_data_split = self._compute_log_p_data_split(y_sorted, prior, n_dim, split_indices)
            i_max = log_p_data_split.argmax()
            if log_p_data_split[i_max] > best_log_p_data_split:
                # remember new best split
                best_log_p_data_split = log_p_data_split[i_max]
                best_split_index = split_indices[i_max]  # data index of best split
                best_split_dimension = dim
''', '''            if len(split_indices) > 0:
                scores = self._compute_log_p_data_split(y[sort_indices], prior, n_dim, split_indices)
                i_max = np.argmax(scores)
                score = scores[i_max]
                if best_log_p_data_split < score:
                    best_log_p_data_split, best_split_index, best_split_dimension = score, split_indices[i_max], dim
'''))
ref('fit-helper', (P, '''            X_dim_sorted = X[sort_indices, dim]
            if not dense:
                X_dim_sorted = self._to_array(X_dim_sorted)

            split_indices = 1 + np.where(np.abs(np.diff(X_dim_sorted)) > self.split_precision)[0]  # we can only split between *different* data points
''', '''            split_indices = self._admissible_splits(X, sort_indices, dim, dense)
'''), (P, '''    @staticmethod
    def _to_array(sparse_array):''', '''    def _admissible_splits(self, X, sort_indices, dim, dense):
        values = X[sort_indices, dim]
        if not dense:
            values = self._to_array(values)

        gaps = np.abs(np.diff(values))
        return np.where(gaps > self.split_precision)[0] + 1

    @staticmethod
    def _to_array(sparse_array):'''))
ref('fit-best-tuple', (P, '''        if best_split_index > 0:
            # split''', '''        found = best_split_index > 0
        if found:
            # split'''))
ref('fit-child-helper', (P, '''            self.child1_ = self.child_type(self.partition_prior, prior_child1, self.delta,
                                           self.prune, self.split_precision, self.level+1)
            self.child2_ = self.child_type(self.partition_prior, prior_child2, self.delta,
                                           self.prune, self.split_precision, self.level+1)
            self.child1_._erase_split_info_base()
            self.child2_._erase_split_info_base()
            self.child1_._erase_split_info()
            self.child2_._erase_split_info()
''', '''            self.child1_ = self._new_child(prior_child1)
            self.child2_ = self._new_child(prior_child2)
'''), (P, '''    @staticmethod
    def _to_array(sparse_array):''', '''    def _new_child(self, prior):
        child = self.child_type(self.partition_prior, prior, self.delta, self.prune, self.split_precision, 1 + self.level)
        child._erase_split_info_base()
        child._erase_split_info()
        return child

    @staticmethod
    def _to_array(sparse_array):'''))
ref('fit-child-loop', (P, '''            y1 = y[indices1]
            if n_data1 > 1 and len(np.unique(y1)) > 1:
                self.child1_._fit(X, y, verbose, feature_names, 'LHS', sort_indices_by_dim_1)
            else:
                self.child1_.posterior_ = self._compute_posterior(y1, prior)
                self.child1_.n_data_ = n_data1

            y2 = y[indices2]
            if n_data2 > 1 and len(np.unique(y2)) > 1:
                self.child2_._fit(X, y, verbose, feature_names, 'RHS', sort_indices_by_dim_2)
            else:
                self.child2_.posterior_ = self._compute_posterior(y2, prior)
                self.child2_.n_data_ = n_data2
''', '''            for child, name, rows, listing, count in ((self.child1_, 'LHS', indices1, sort_indices_by_dim_1, n_data1),
                                                      (self.child2_, 'RHS', indices2, sort_indices_by_dim_2, n_data2)):
                y_side = y[rows]
                if count <= 1 or len(np.unique(y_side)) <= 1:
                    child.posterior_ = self._compute_posterior(y_side, prior)
                    child.n_data_ = count
                else:
                    child._fit(X, y, verbose, feature_names, name, listing)
'''))
ref('fit-else-first', (P, '''        # compute posterior
        self.n_dim_ = n_dim
        self.n_data_ = n_data
        self.posterior_ = self._compute_posterior(y_any, prior)  # any dim works as the order doesn't matter
''', '''        self.posterior_ = self._compute_posterior(y_any, prior)
        self.n_data_ = n_data
        self.n_dim_ = n_dim
'''))
ref('fit-isin-mask', (P, '''            sort_indices_by_dim_1 = sort_indices_by_dim[np.isin(sort_indices_by_dim, indices1)].reshape(n_dim, -1)
            sort_indices_by_dim_2 = sort_indices_by_dim[np.isin(sort_indices_by_dim, indices2)].reshape(n_dim, -1)
''', '''            in_child1 = np.isin(sort_indices_by_dim, indices1)
            sort_indices_by_dim_1 = sort_indices_by_dim[in_child1].reshape(n_dim, -1)
            sort_indices_by_dim_2 = sort_indices_by_dim[~in_child1].reshape(n_dim, -1)
'''))
ref('split-value-local', (P, '''            self.split_value_ = 0.5 * (value1 + value2)
            if not value1 < self.split_value_ <= value2:
                # the midpoint is not representable (adjacent floating point numbers or overflow)
                self.split_value_ = value2
''', '''            middle = (value1 + value2) / 2
            self.split_value_ = middle if value1 < middle and middle <= value2 else value2
'''))
ref('class-counts-dict', (C, '''        k1 = np.empty(n_classes, dtype=object)
        k2 = np.empty(n_classes, dtype=object)
        for i in range(n_classes):
            k1_and_total = (y == i).cumsum()
            total = k1_and_total[-1]
            k1[i] = k1_and_total[split_indices-1]
            k2[i] = total - k1[i]
''', '''        k1 = np.empty(n_classes, dtype=object)
        k2 = np.empty(n_classes, dtype=object)
        before = split_indices - 1
        for i in range(n_classes):
            is_class = y == i
            counts = np.cumsum(is_class)
            k1[i] = counts[before]
            k2[i] = np.sum(is_class) - k1[i]
'''))
ref('class-posterior', (C, '''        y_reshaped = np.broadcast_to(y, (len(prior), len(y)))
        classes = np.arange(len(prior)).reshape(-1, 1)
        k = np.sum(y_reshaped == classes, axis=1)
        posterior = prior + delta*k

        return posterior''', '''        classes = np.arange(len(prior))
        k = (np.broadcast_to(y, (len(prior), len(y))) == classes[:, np.newaxis]).sum(axis=1)

        return delta*k + prior'''))
ref('class-posterior-loop', (C, '''        y_reshaped = np.broadcast_to(y, (len(prior), len(y)))
        classes = np.arange(len(prior)).reshape(-1, 1)
        k = np.sum(y_reshaped == classes, axis=1)
        posterior = prior + delta*k
''', '''        k = np.array([np.sum(y == i) for i in range(len(prior))])
        posterior = prior + delta*k
'''))
ref('class-log-prior', (C, '''        log_p_prior = np.log(1-self.partition_prior**(1+self.level))
        log_p_data = multivariate_betaln(posterior) - multivariate_betaln(prior)

        return log_p_prior + log_p_data''', '''        p_split = self.partition_prior**(self.level+1)
        return multivariate_betaln(posterior) - multivariate_betaln(prior) + np.log(1-p_split)'''))
ref('class-mean', (C, 'return self.posterior_ / np.sum(self.posterior_)', 'total = self.posterior_.sum()\n        return self.posterior_ / total'))
ref('betaln-general', (U, '''    if len(alphas) == 2:
        return betaln(alphas[0], alphas[1])
    else:
        # see''', '''    if len(alphas) == 2:
        first, second = alphas[0], alphas[1]
        return betaln(first, second)
    else:
        # see'''))
ref('reg-subset', (R, '''            split_indices_minus_1 = split_indices - 1

            n1 = n1[split_indices_minus_1]
            n2 = n2[split_indices_minus_1]
            y_sum1 = y_sum1[split_indices_minus_1]
            y_sum2 = y_sum2[split_indices_minus_1]
            y_squared_sum1 = y_squared_sum1[split_indices_minus_1]
            y_squared_sum2 = y_squared_sum2[split_indices_minus_1]
''', '''            keep = split_indices - 1
            n1, n2 = n1[keep], n2[keep]
            y_sum1, y_sum2 = y_sum1[keep], y_sum2[keep]
            y_squared_sum1, y_squared_sum2 = y_squared_sum1[keep], y_squared_sum2[keep]
'''))
ref('reg-sums', (R, '''        y_sum1 = y.cumsum()[:-1]
        y_sum2 = y.sum() - y_sum1
        y_squared_sum1 = (y[:-1] ** 2).cumsum()
        y_squared_sum2 = (y ** 2).sum() - y_squared_sum1
''', '''        cumulated = np.cumsum(y)
        y_sum1 = cumulated[:-1]
        y_sum2 = cumulated[-1] - y_sum1
        squares = y * y
        y_squared_sum1 = np.cumsum(squares)[:-1]
        y_squared_sum2 = np.sum(squares) - y_squared_sum1
'''))
ref('reg-evidence', (R, '''        return (gammaln(alpha_new) - gammaln(alpha)
                + alpha*np.log(beta) - alpha_new*np.log(beta_new)
                + 0.5*np.log(kappa/kappa_new)
                - 0.5*n_new*np.log(2*np.pi))''', '''        gamma_ratio = gammaln(alpha_new) - gammaln(alpha)
        scale = alpha*np.log(beta) - alpha_new*np.log(beta_new)
        return gamma_ratio + scale + 0.5*(np.log(kappa/kappa_new) - n_new*np.log(2*np.pi))'''))
ref('reg-mean', (R, '''        return self.posterior_[0]  # mu is the posterior mean''', '''        mu = self.posterior_[0]
        return mu'''))
ref('prune-swap', (B, '''        if self.child1_.is_leaf() and self.child2_.is_leaf():
            if self.child1_._predict_leaf() == self.child2_._predict_leaf():
                # same prediction (class if classification, value if regression) -> no need to split
                self._erase_split_info_base()
                self._erase_split_info()
        else:
            self.child1_._prune()
            self.child2_._prune()
''', '''        both_leaves = self.child1_.is_leaf() and self.child2_.is_leaf()
        if not both_leaves:
            for child in (self.child1_, self.child2_):
                child._prune()
        elif self.child1_._predict_leaf() == self.child2_._predict_leaf():
            self._erase_split_info()
            self._erase_split_info_base()
'''))
ref('prune-once', (B, '''        depth_start = self.get_depth()
        n_leaves_start = self.get_n_leaves()

        if self.child1_.is_leaf()''', '''        n_leaves_start = self.get_n_leaves()

        if self.child1_.is_leaf()'''), (B, 'if depth_start != self.get_depth() or n_leaves_start != self.get_n_leaves():', 'if n_leaves_start != self.get_n_leaves():'))
ref('compute-flag', (O, '''            if log_p_data_split[i_max] > self.best_log_p_data_split:
                is_log_p_better_or_same_but_with_better_distance = True
            else:
                # accept new split with same log(p) only if it increases the cumulative distance of all points to the hyperplane
                is_log_p_better_or_same_but_with_better_distance = cumulative_distances > self.best_cumulative_distances

            if is_log_p_better_or_same_but_with_better_distance:
''', '''            if log_p_data_split[i_max] > self.best_log_p_data_split or cumulative_distances > self.best_cumulative_distances:
'''))
ref('compute-early', (O, '''        i_max = log_p_data_split.argmax()
        if log_p_data_split[i_max] >= self.best_log_p_data_split:
            best_split_index = split_indices[i_max]
''', '''        i_max = np.argmax(log_p_data_split)
        value = log_p_data_split[i_max]
        if value < self.best_log_p_data_split:
            return -value

        if True:
            best_split_index = split_indices[i_max]
'''))
ref('compute-helper', (O, '''        # catch some special cases and normalize to unit length
        hyperplane_normal = np.nan_to_num(hyperplane_normal)
        if np.all(hyperplane_normal == 0):
            hyperplane_normal[0] = 1

        hyperplane_normal /= np.linalg.norm(hyperplane_normal)
''', '''        hyperplane_normal = self._unit_vector(hyperplane_normal)
'''), (O, '''class StrMixin:''', '''    @staticmethod
    def _unit_vector(vector):
        vector = np.nan_to_num(vector)
        if not np.any(vector):
            vector[0] = 1

        return vector / np.linalg.norm(vector)


class StrMixin:'''))
ref('hyper-fit-sides', (H, '''                X1 = X[indices1]
                X2 = X[indices2]
                y1 = y[indices1]
                y2 = y[indices2]

                n_data1 = X1.shape[0]
                n_data2 = X2.shape[0]
''', '''                X1, y1 = X[indices1], y[indices1]
                X2, y2 = X[indices2], y[indices2]
                n_data1, n_data2 = len(indices1), len(indices2)
'''))
ref('hyper-fit-local', (H, '''            projections = X @ optimization_function.best_hyperplane_normal \\
                          - np.dot(optimization_function.best_hyperplane_normal, optimization_function.best_hyperplane_origin)
            indices1 = np.where(projections < 0)[0]
            indices2 = np.where(projections >= 0)[0]
''', '''            normal, origin = optimization_function.best_hyperplane_normal, optimization_function.best_hyperplane_origin
            is_back = X @ normal - np.dot(normal, origin) < 0
            indices1 = np.where(is_back)[0]
            indices2 = np.where(~is_back)[0]
'''))
ref('hyper-fit-optimizer', (H, '''        optimizer = self.optimizer
        if optimizer is None:
            # default to 'Differential Evolution' which works well and is reasonably fast
            optimizer = ScipyOptimizer(DifferentialEvolutionSolver, 666)
''', '''        optimizer = self.optimizer if self.optimizer is not None else ScipyOptimizer(DifferentialEvolutionSolver, 666)
'''))
ref('sphere-radius', (U, '''            sqrt_rho = np.sqrt(np.maximum(0, 1-np.sum(surface_points[:2*i]**2, axis=0)))
            phi = 2*np.pi * hypercube_points[2*i]
            surface_points[2*i] = sqrt_rho*np.cos(phi)
            surface_points[2*i+1] = sqrt_rho*np.sin(phi)
''', '''            rho = 1 - np.sum(surface_points[:2*i]**2, axis=0)
            radius = np.sqrt(np.maximum(rho, 0))
            angle = hypercube_points[2*i] * (2*np.pi)
            surface_points[2*i] = np.cos(angle) * radius
            surface_points[2*i+1] = np.sin(angle) * radius
'''))
ref('fit-target', (B, '''        if isinstance(y, list):
            y = np.array(y)
        elif isinstance(y, (pd.Series, pd.DataFrame)):
            y = y.values  # rows are matched by position, never by index label
''', '''        if isinstance(y, pd.Series) or isinstance(y, pd.DataFrame):
            y = y.values
        elif isinstance(y, list):
            y = np.array(y)
'''))
ref('check-target', (C, '''        n_classes = len(self.prior)
        if not np.all(np.unique(y) == np.arange(0, n_classes)):
            raise''', '''        n_classes = len(self.prior)
        expected = np.arange(n_classes)
        found = np.unique(y)
        is_valid = np.all(found == expected)
        if not is_valid:
            raise'''))
ref('importance', (P, '''        if self.is_leaf():
            return
        else:
            log_p_gain = self.best_log_p_data_split_ - self.log_p_data_no_split_
            feature_importance[self.split_dimension_] += log_p_gain
            if self.child1_ is not None:
                self.child1_._update_feature_importance(feature_importance)
                self.child2_._update_feature_importance(feature_importance)
''', '''        if not self.is_leaf():
            dim = self.split_dimension_
            feature_importance[dim] = feature_importance[dim] + (self.best_log_p_data_split_ - self.log_p_data_no_split_)
            for child in (self.child2_, self.child1_):
                if child is not None:
                    child._update_feature_importance(feature_importance)
'''))
ref('importance-total', (B, '''        total_importance = feature_importance.sum()
        if total_importance > 0:
            feature_importance /= total_importance

        return feature_importance''', '''        total = np.sum(feature_importance)
        return feature_importance / total if total > 0 else feature_importance'''))
ref('depth', (B, '''        if self.is_leaf():
            return max(depth, self.level)
        else:
            if self.child1_ is not None:
                depth = self.child1_._update_depth(depth)
                depth = self.child2_._update_depth(depth)

            return depth''', '''        if self.is_leaf():
            return self.level if self.level > depth else depth

        return max(self.child1_._update_depth(depth), self.child2_._update_depth(depth))'''))
ref('leaves', (B, '''        if self.is_leaf():
            return n_leaves+1
        else:
            if self.child1_ is not None:
                n_leaves = self.child1_._update_n_leaves(n_leaves)
                n_leaves = self.child2_._update_n_leaves(n_leaves)

            return n_leaves''', '''        if not self.is_leaf():
            return n_leaves + self.child1_._update_n_leaves(0) + self.child2_._update_n_leaves(0)

        return 1 + n_leaves'''))
ref('str-lines', (P, '''            s += '\\n'
            anchor_child1 = [VERT_RIGHT] if len(anchor) == 0 else (anchor[:-1] + [(BAR if is_left_child else '  '), VERT_RIGHT])
            s += self.child1_._str(anchor_child1, self.split_value_, VERT_RIGHT, DOWN_RIGHT, BAR, GEQ, True)

            s += '\\n'
            anchor_child2 = [DOWN_RIGHT] if len(anchor) == 0 else (anchor[:-1] + [(BAR if is_left_child else '  '), DOWN_RIGHT])
            s += self.child2_._str(anchor_child2, self.split_value_, VERT_RIGHT, DOWN_RIGHT, BAR, GEQ, False)
        return s'''.replace('\\\\\\\\', '\\\\'), '''            parts = [s]
            for child, mark, left in ((self.child1_, VERT_RIGHT, True), (self.child2_, DOWN_RIGHT, False)):
                prefix = [mark]
                if len(anchor) > 0:
                    prefix = anchor[:-1] + [BAR if is_left_child else '  ', mark]
                parts.append(child._str(prefix, self.split_value_, VERT_RIGHT, DOWN_RIGHT, BAR, GEQ, left))
            return '\\n'.join(parts)
        return s'''.replace('\\\\\\\\', '\\\\')))
ref('ensure-float', (B, '''        X_float = data.astype(np.float64)
        is_lossless = (data != X_float).nnz == 0 if issparse(data) else np.all(data == X_float)
        if not is_lossless:
            raise''', '''        X_float = data.astype(np.float64)
        if issparse(data):
            is_lossless = (data != X_float).nnz == 0
        else:
            is_lossless = np.all(data == X_float)

        if not is_lossless:
            raise'''))
ref('two-point-vector', (O, '''            normal = p2-p1
            if normal[0] < 0:
                normal *= -1  # make sure the first coordinate is positive to match the scipy search space
''', '''            normal = np.subtract(p2, p1)
            if not normal[0] >= 0:
                normal = -normal
'''))
ref('random-loop', (O, '''        for i in range(self.n_mc):
            hyperplane_normal = rand.normal(0, 1, n_dim)
            optimization_function.compute(hyperplane_normal)
''', '''        remaining = self.n_mc
        while remaining > 0:
            optimization_function.compute(rand.normal(0, 1, n_dim))
            remaining -= 1
'''))
ref('anneal-keep', (O, '''            # only keep the best candidates
            values_sorted = sorted(candidates.keys())
            values_sorted = values_sorted[:self.n_keep]
            if values_sorted[0] < best_value:
                no_improvements = 0
            else:
                no_improvements += 1

            candidates = {v: candidates[v] for v in values_sorted}


class GradientDescentOptimizer''', '''            # only keep the best candidates
            values_sorted = sorted(candidates)[:self.n_keep]
            is_improved = values_sorted[0] < best_value
            no_improvements = 0 if is_improved else no_improvements + 1
            candidates = {v: candidates[v] for v in values_sorted}


class GradientDescentOptimizer'''))
ref('r2-increment', (U, '''    i = 0
    while True:
        yield (0.5 + alpha * (i+1)) % 1
        i += 1''', '''    i = 1
    while True:
        point = np.mod(0.5 + i * alpha, 1)
        yield point
        i = i + 1'''))
ref('init-order', (B, '''        self.''', '''        self.'''))
REF = [r for r in REF if r[0] != 'init-order']
