"""C07: conjugate updates and leaf predictions."""
from .scoring import *
from .c05 import scalar


def elem(eng, v, i):
    """element i of a returned prior/posterior (array, tuple or list)"""
    a = deref(eng, v)
    if isinstance(a, Tup):
        return pick(eng, i, list(a.items)) if hasattr(a, 'items') else a[i]
    if isinstance(a, ListObj):
        return a.items[i] if a.items is not None and isinstance(i, int) else pick(eng, i, a.items) if a.items is not None else a.fn(i)
    if isinstance(a, Arr):
        return a.fn(i)
    raise Unsupported('posterior of kind %s' % type(a).__name__)


def update_task(c, cont, dflt):
    reg = 'Regression' in c

    def setup(I, cls):
        eng = I.eng
        s, pp, lv = tree_self(I, cls)
        n = z3.Int('n')
        eng.assume(n >= 1)
        prior, K, acc = prior_value(eng, cls, cont)
        if dflt:
            return [s, target(eng, n), prior], {}, (n, K, acc, 1, prior)
        dl = z3.Real('dl')
        eng.assume(z3.And(dl >= 0, dl <= 1))
        return [s, target(eng, n), prior, dl], {}, (n, K, acc, dl, prior)

    def post(I, r, ctx):
        eng = I.eng
        n, K, acc, dl, prior = ctx
        y = lambda v: YF(lift(v))
        what = 'the conjugate update by the given targets' if dflt else 'the conjugate update by delta times the given targets'
        if reg:
            sm = sums.SUM(eng, 0, n, y)
            sq = sums.SUM(eng, 0, n, lambda v: y(v) * y(v))
            want = ng_update(eng, acc, n, sm, sq, dl)
            for i, nm in enumerate(('mu', 'kappa', 'alpha', 'beta')):
                eng.prove('%s is %s' % (nm, what), lift(to_real(elem(eng, r, i))) == lift(to_real(want[i])))
        else:
            a = deref(eng, r)
            if isinstance(a, Arr):
                eng.prove('one entry per class', a.ndim == 1 and lift(a.shape[0]) == K)
            i = eng.fresh_plain('i', INT)
            eng.assume(z3.And(i >= 0, i < K))
            eng.prove('entry i is prior + weighted number of targets of class i (%s)' % what,
                      lift(to_real(elem(eng, r, i))) == lift(to_real(s_binop(eng, '+', acc(i), s_binop(eng, '*', dl, count(eng, 0, n, y, i))))))
        frame_ok(eng, what='_compute_posterior')
    return body_task('%s._compute_posterior (prior as %s, %s)' % (c, cont, 'delta omitted' if dflt else 'any delta'), c, '_compute_posterior', setup, post, {})


def node_setup(I, cls):
    eng = I.eng
    s = self_node(eng, cls)
    n = deref(eng, s).node
    if not is_reg(cls):
        i = z3.Int('qi')
        eng.assume(z3.ForAll([i], POST(n, i) > 0))
    return s, n


def positive_sum(eng, K, f):
    """lemma: a non-empty sum of positive terms is positive and at least each term (by induction on the length)"""
    S = sums.SUM(eng, 0, K, f)
    i = z3.Int('ps!i')
    eng.assume(lift(S) > 0)
    eng.stats.lemmas.add('a sum of positive terms over a non-empty range is positive')
    return S


def mean_task(c):
    def setup(I, cls):
        s, n = node_setup(I, cls)
        if not is_reg(cls):
            positive_sum(I.eng, NCLS(n), lambda v: POST(n, lift(v)))
        return [s], {}, n

    def post(I, r, n):
        eng = I.eng
        if 'Regression' in c:
            eng.prove('the predicted value is the posterior mean mu', lift(to_real(scalar(eng, r))) == POST(n, z3.IntVal(0)))
        else:
            a = deref(eng, r)
            K = NCLS(n)
            eng.prove('one probability per class', isinstance(a, Arr) and a.ndim == 1 and lift(a.shape[0]) == K)
            i = eng.fresh_plain('i', INT)
            eng.assume(z3.And(i >= 0, i < K))
            eng.assume(POST(n, i) > 0)
            S = sums.SUM(eng, 0, K, lambda v: POST(n, lift(v)))
            eng.prove('probability of class i is its posterior divided by the sum', lift(a.fn(i)) == lift(s_div(eng, POST(n, i), S)))
            eng.prove('probabilities are positive', lift(a.fn(i)) > 0)
            eng.prove('probabilities sum to one', lift(sums.SUM(eng, 0, K, lambda v: a.fn(v))) == 1)
        frame_ok(eng, what='_compute_posterior_mean')
    return body_task('%s._compute_posterior_mean' % c, c, '_compute_posterior_mean', setup, post, {})


def leaf_task(c):
    def setup(I, cls):
        s, n = node_setup(I, cls)
        return [s], {}, n

    def post(I, r, n):
        eng = I.eng
        v = scalar(eng, r)
        if 'Regression' in c:
            eng.prove('the predicted value is the posterior mean mu', lift(to_real(v)) == POST(n, z3.IntVal(0)))
        else:
            K = NCLS(n)
            v = lift(v)
            i = eng.fresh_plain('i', INT)
            eng.assume(z3.And(i >= 0, i < K))
            instantiate(eng, i)
            eng.prove('the predicted class is a class', z3.And(v >= 0, v < K))
            eng.prove('no class has a higher posterior', POST(n, v) >= POST(n, i))
            eng.prove('no lower-numbered class has the same posterior', z3.Implies(i < v, POST(n, i) < POST(n, v)))
        frame_ok(eng, what='_predict_leaf')
    return body_task('%s._predict_leaf' % c, c, '_predict_leaf', setup, post, {})


def raw_task(c):
    def setup(I, cls):
        s, n = node_setup(I, cls)
        return [s], {}, n

    def post(I, r, n):
        eng = I.eng
        a = deref(eng, r)
        K = 4 if 'Regression' in c else NCLS(n)
        eng.prove('raw leaf data has two rows', isinstance(a, Arr) and a.ndim == 2 and z3.And(lift(a.shape[0]) == 2, lift(a.shape[1]) == lift(K)))
        reg = 'Regression' in c
        for j in (range(4) if reg else [eng.fresh_plain('i', INT)]):
            if not reg:
                eng.assume(z3.And(j >= 0, j < K))
            jj = lift(j)
            eng.prove('first row: prior', lift(to_real(a.fn(0, j))) == PRIOR(n, jj))
            eng.prove('second row: posterior', lift(to_real(a.fn(1, j))) == POST(n, jj))
        frame_ok(eng, what='_get_raw_leaf_data_internal')
    return body_task('%s._get_raw_leaf_data_internal' % c, c, '_get_raw_leaf_data_internal', setup, post, {})


def prior_task(c, cont):
    def setup(I, cls):
        eng = I.eng
        prior, K, acc = prior_value(eng, cls, cont)
        s, pp, lv = tree_self(I, cls, prior=prior)
        nd, D = z3.Int('nd'), z3.Int('D')
        eng.assume(z3.And(nd >= 1, D >= 1))
        return [s, nd, D], {}, (prior, K, acc)

    def post(I, r, ctx):
        eng = I.eng
        prior, K, acc = ctx
        if 'Regression' in c:
            for i in range(4):
                eng.prove('the prior used is the prior parameter (entry %d)' % i, lift(to_real(elem(eng, r, i))) == acc[i])
        else:
            i = eng.fresh_plain('i', INT)
            eng.assume(z3.And(i >= 0, i < K))
            eng.prove('the prior used is the prior parameter', lift(to_real(elem(eng, r, i))) == acc(i))
        frame_ok(eng, what='_get_prior')
    return body_task('%s._get_prior (prior as %s)' % (c, cont), c, '_get_prior', setup, post, {})


def tasks():
    out = []
    for c in CLASSES:
        for cont in ('ndarray', 'tuple', 'list'):
            out.append(update_task(c, cont, True))
            out.append(update_task(c, cont, False))
            out.append(prior_task(c, cont))
        out += [mean_task(c), leaf_task(c), raw_task(c)]
    from .fitspec import fit_task, post_c07
    out += [fit_task('C07', c, cont, root, post_c07) for c in CLASSES[:2] for cont, root in (('ndarray', True), ('ndarray', False), ('csr', True))]
    from .hyperfit import hyper_fit_tasks
    return out + hyper_fit_tasks('C07', post_c07)
