"""Contract of _fit (perpendicular trees): C03, C04, C07, C15, C16, C17."""
from .scoring import *
from .predict import XROW, data_matrix, row_of, index_listing, LEAF_CONTRACTS
from . import c07

SIF = uf('si', INT, INT, INT)         # row at position t of the sort order of feature d
SIP = uf('sipos', INT, INT, INT)      # position of row r in the sort order of feature d
SMEM = uf('smem', INT, BOOL)          # rows of the node
FN = uf('fname_in', INT, ObjSort)     # feature names handed in
FITTED_ATTRS = ['posterior_', 'n_data_', 'n_dim_', 'child1_', 'child2_', 'log_p_data_no_split_', 'best_log_p_data_split_',
                'split_dimension_', 'split_value_', 'split_feature_name_', 'best_hyperplane_normal_', 'best_hyperplane_origin_', 'optimization_function']


def xval(r, d):
    return VAL(XROW(lift(r)), lift(d))


class Ctx:
    pass


def sort_rows(eng, m, D, w):
    """sort orders of the rows of a node: row d enumerates the rows of the node in ascending order of feature d"""
    def listing(d):
        d = canon(lift(d))
        key = ('si', d.get_id())
        keep(d)

        def at(t):
            t = lift(t)
            r = canon(SIF(d, t))
            old, new = eng.accessed(key, t)
            if new:
                rng = z3.And(t >= 0, t < lift(w), d >= 0, d < lift(D))
                eng.assume(z3.Implies(rng, z3.And(r >= 0, r < m, SMEM(r), SIP(d, r) == t)))
                for o in old:
                    ro = canon(SIF(d, o))
                    eng.assume(z3.Implies(z3.And(rng, o >= 0, o <= t), xval(ro, d) <= xval(r, d)))
                    eng.assume(z3.Implies(z3.And(rng, t <= o, o < lift(w)), xval(r, d) <= xval(ro, d)))
            return r

        def pos(k):
            k = lift(k)
            p = canon(SIP(d, k))
            old, new = eng.accessed(key + ('inv',), k)
            if new:
                eng.assume(z3.Implies(z3.And(k >= 0, k < m, SMEM(k), d >= 0, d < lift(D)), z3.And(p >= 0, p < lift(w), SIF(d, p) == k)))
                at(p)
            return p
        L = Listing(w, at, lambda k: canon_bool(z3.And(lift(k) >= 0, lift(k) < m, SMEM(lift(k)))), pos, m)
        L.id = ('si', d.get_id())
        return L
    return listing


# ---------------------------------------------------------------------------------------------------------------- callee contracts
def y_set(eng, y):
    """y argument of a callee as (listing of rows of the caller's target, underlying target)"""
    a = deref(eng, y)
    if not isinstance(a, Arr) or a.ndim != 1:
        raise Unsupported('target handed on is not a vector')
    return a


def set_symbol(eng, op, a, extra, sorts, result):
    """symbol determined by the multiset of the entries of a gathered vector (as masked function of the universe)"""
    g = a.meta.get('gather')
    if g is not None and g[0].universe is not None:
        L, f = g
        bodies = [lambda k: lift(L.member(k)), lambda k: z3.If(lift(L.member(k)), lift(to_real(f(k))), z3.RealVal(0))]
        return content_symbol(eng, op, bodies, [L.universe] + extra, sorts, result)
    n = a.shape[0]
    rng = lambda k: z3.And(lift(k) >= 0, lift(k) < lift(n))
    return content_symbol(eng, op, [lambda k: rng(k), lambda k: z3.If(rng(k), lift(to_real(a.fn(k))), z3.RealVal(0))], [n] + extra, sorts, result)


def prior_params(eng, prior, reg):
    """prior as parameters of a symbol: the object identity of the prior term"""
    a = deref(eng, prior)
    if isinstance(a, Opt):
        a = deref(eng, a.value)
    if reg:
        return [lift(to_real(c07.elem(eng, prior, i))) for i in range(4)], None
    if isinstance(a, Arr):
        return [lift(a.shape[0])], lambda i: a.fn(i)
    if isinstance(a, ListObj):
        return [lift(a.length)], lambda i: list_at(eng, a, i)
    raise Unsupported('prior %r' % (a,))


def score_params(I, args_self, prior):
    eng = I.eng
    o = eng.deref(args_self)
    ps, body = prior_params(eng, prior, is_reg(o.cls))
    ps = ps + [lift(I.getattr(args_self, 'partition_prior')), lift(I.getattr(args_self, 'level'))]
    return ps, ([body] if body else [])


def no_split_contract(I, f, args):
    eng = I.eng
    s, y, prior = args
    a = y_set(eng, y)
    ps, bodies = score_params(I, s, prior)
    g = a.meta.get('gather')
    return no_split_term(eng, a, ps, bodies)


def no_split_term(eng, a, ps, bodies):
    g = a.meta.get('gather')
    if g is not None and g[0].universe is not None:
        L, f = g
        bs = [lambda k: lift(L.member(k)), lambda k: z3.If(lift(L.member(k)), lift(to_real(f(k))), z3.RealVal(0))]
        u = L.universe
    else:
        n = a.shape[0]
        rng = lambda k: z3.And(lift(k) >= 0, lift(k) < lift(n))
        bs = [rng, lambda k: z3.If(rng(k), lift(to_real(a.fn(k))), z3.RealVal(0))]
        u = n
    ent, params = content_symbol(eng, 'lognosplit', bs + [lambda i: lift(to_real(b(i))) for b in bodies], [u] + ps, [], REAL, [u, u])
    return app(ent, params)


def score_term(eng, n, yfn, S, spl, D, ps, bodies, j):
    ent, params = content_symbol(eng, 'logsplit', [lambda t: lift(to_real(yfn(t))), lambda t: lift(spl(t))] + [lambda i, b=b: lift(to_real(b(i))) for b in bodies],
                                 [n, S, D] + ps, [INT], REAL, [n, S])
    return app(ent, params, j)


def split_contract(I, f, args):
    eng = I.eng
    s, y, prior, n_dim, si = args
    a = y_set(eng, y)
    si = deref(eng, si)
    if not isinstance(si, Arr) or si.ndim != 1:
        raise Unsupported('split_indices')
    eng.prove('precondition of _compute_log_p_data_split: at least one split position', lift(si.shape[0]) >= 1)
    j = eng.fresh_plain('spj', INT)
    with eng.scope():
        eng.assume(z3.And(j >= 0, j < lift(si.shape[0])))
        eng.nofork += 1
        e = si.fn(j)
        eng.nofork -= 1
        eng.prove('precondition of _compute_log_p_data_split: split positions lie between data points', z3.And(lift(e) >= 1, lift(e) <= lift(a.shape[0]) - 1))
    ps, bodies = score_params(I, s, prior)
    return eng.alloc(Arr((si.shape[0],), lambda q: score_term(eng, a.shape[0], a.fn, si.shape[0], si.fn, lift(n_dim), ps, bodies, q), 'f'))


def gsum(eng, a, f):
    """sum of f(entry) over a vector; for gathered vectors as sum over the underlying rows"""
    g = a.meta.get('gather')
    if g is not None and g[0].universe is not None:
        L, yf = g
        return sums.SUM(eng, 0, L.universe, lambda k: ite(None, L.member(k), f(yf(k)), 0))
    return sums.SUM(eng, 0, a.shape[0], lambda k: f(a.fn(k)))


def posterior_of(eng, cls, acc, K, a, n, delta):
    """conjugate update of prior `acc` by delta times the entries of the vector a (contract of _compute_posterior, see C07)"""
    if is_reg(cls):
        sm = gsum(eng, a, lambda v: v)
        sq = gsum(eng, a, lambda v: s_binop(eng, '*', v, v))
        return ng_update(eng, acc, n, sm, sq, delta)
    def fn(i):
        k = gsum(eng, a, lambda v: s_ite(canon_bool(lift(to_real(lift(v))) == to_real(lift(i))), 1, 0))
        return s_binop(eng, '+', acc(i), s_binop(eng, '*', delta, k))
    return fn


def prior_access(eng, cls, prior):
    a = deref(eng, prior)
    if is_reg(cls):
        return [c07.elem(eng, prior, i) for i in range(4)], 4
    if isinstance(a, Arr):
        return a.fn, a.shape[0]
    if isinstance(a, ListObj):
        return (lambda i: list_at(eng, a, i)), a.length
    raise Unsupported('prior')


def posterior_contract(I, f, args):
    eng = I.eng
    s, y, prior = args[:3]
    delta = args[3] if len(args) > 3 else 1
    cls = eng.deref(s).cls
    a = y_set(eng, y)
    if same_dim(delta, 0):
        return prior
    acc, K = prior_access(eng, cls, prior)
    eng.prove('precondition of _compute_posterior: at least one target', lift(a.shape[0]) >= 1)
    r = posterior_of(eng, cls, acc, K, a, a.shape[0], delta)
    L = a.meta['gather'][0] if a.meta.get('gather') else None
    if L is not None and L.universe is not None:
        eng.ghost['updates'] = eng.ghost.get('updates', []) + [a]
    if is_reg(cls):
        t = Tup(r)
        t.trained = L
        return t
    return eng.alloc(Arr((K,), r, 'f', meta={'trained': L}))


def trained_on(eng, v):
    """rows from whose targets a posterior was computed"""
    v = deref(eng, v)
    return getattr(v, 'trained', None) if isinstance(v, Tup) else v.meta.get('trained') if isinstance(v, Arr) else None


def prior_contract(I, f, args):
    """the prior parameter, as it is (see C07; models without a prior are outside the contract)"""
    return I.getattr(args[0], 'prior')


def fit_contract(I, f, args):
    """_fit on the rows of a node: ghost record of what the node was trained on"""
    eng = I.eng
    ref, X, y, verbose, names, side = args[:6]
    SI = args[6] if len(args) > 6 else None
    o = eng.deref(ref)
    ctx = eng.ghost['fit']
    Xa, ya = deref(eng, X), deref(eng, y)
    eng.prove('precondition of _fit: the matrix handed to a child is the training matrix', isinstance(Xa, Arr) and Xa.ndim == 2 and Xa.cont in ('ndarray', 'csr', 'csc'))
    rows = row_of(eng, Xa)
    r = eng.fresh_plain('fr', INT)
    eng.prove('precondition of _fit: the matrix handed to a child is the training matrix', rows(r) == XROW(r))
    eng.prove('precondition of _fit: as many rows and features', z3.And(lift(Xa.shape[0]) == lift(ctx.m), lift(Xa.shape[1]) == lift(ctx.D)))
    eng.prove('precondition of _fit: the target handed to a child is the training target', isinstance(ya, Arr) and ya.ndim == 1 and lift(ya.shape[0]) == lift(ctx.m))
    with eng.scope():
        eng.assume(z3.And(r >= 0, r < lift(ctx.m)))
        eng.prove('precondition of _fit: the target handed to a child is the training target', lift(ya.fn(r)) == YF(r))
    eng.prove('the feature names are handed on', names == ctx.names)
    s = deref(eng, SI)
    if not isinstance(s, Arr) or s.ndim != 2 or s.meta.get('rowlisting') is None:
        raise Unsupported('sort orders of a child')
    eng.prove('precondition of _fit: one sort order per feature', lift(s.shape[0]) == lift(ctx.D))
    eng.prove('precondition of _fit: at least one row', lift(s.shape[1]) >= 1)
    rl = s.meta['rowlisting']
    d = eng.fresh_plain('fd', INT)
    t1, t2 = eng.fresh_plain('ft', INT), eng.fresh_plain('ft', INT)
    L0 = rl(z3.IntVal(0))
    with eng.scope():
        eng.assume(z3.And(d >= 0, d < lift(ctx.D)))
        L = rl(d)
        eng.assume(z3.And(r >= 0, r < lift(ctx.m)))
        eng.prove('precondition of _fit: every sort order enumerates the same rows', lift(L.member(r)) == lift(L0.member(r)))
        eng.assume(z3.And(t1 >= 0, t1 < t2, t2 < lift(s.shape[1])))
        r1, r2 = L.at(t1), L.at(t2)
        eng.prove('precondition of _fit: every sort order is ascending in its feature', xval(r1, d) <= xval(r2, d))
        eng.prove('precondition of _fit: sort orders contain rows of the matrix', z3.And(lift(r1) >= 0, lift(r1) < lift(ctx.m)))
    q = o.copy()
    q.ghost['fitted'] = (L0, s.shape[1])
    eng.heap[ref.addr] = q
    eng.log.append(('contract', ref.addr, 'fit', None, o.origin))
    return None


CONTRACTS = {'_compute_log_p_data_no_split': no_split_contract, '_compute_log_p_data_split': split_contract, '_compute_posterior': posterior_contract,
             '_get_prior': prior_contract, '_fit': fit_contract}


# ---------------------------------------------------------------------------------------------------------------- body
def fit_setup(I, cls, cont, root):
    eng = I.eng
    c = Ctx()
    c.m, c.D = z3.Int('m'), z3.Int('D')
    eng.assume(z3.And(c.m >= 1, c.D >= 1, c.m < 2 ** 62))      # more rows cannot be addressed
    c.prior, c.K, c.acc = prior_value(eng, cls, 'tuple' if is_reg(cls) else 'ndarray')
    c.self, c.pp, c.level = tree_self(I, cls, prior=c.prior)
    o = eng.deref(c.self)
    o.stale = frozenset(FITTED_ATTRS)
    c.sp, c.delta = o.fields['split_precision'], o.fields['delta']
    c.params = dict(o.fields)
    c.cls = cls
    c.X = data_matrix(eng, c.m, c.D, cont)
    c.y = target(eng, c.m)
    c.names = eng.alloc(ListObj(None, c.D, lambda i: FN(lift(i)), origin='param'))
    args = [c.self, c.X, c.y, z3.Bool('verbose'), c.names, 'LHS']
    c.root = root
    if root:
        c.w = c.m
        c.rl = lambda d: argsort_listing(eng, c.m, lambda r: xval(r, d))
    else:
        c.w = z3.Int('w')
        eng.assume(z3.And(c.w >= 1, c.w <= c.m))
        rl = sort_rows(eng, c.m, c.D, c.w)
        c.SI = eng.alloc(Arr((c.D, c.w), lambda d, t: rl(d).at(t), 'i', origin='param', meta={'rowlisting': rl, 'dt': 'uint16'}))
        args.append(c.SI)
        c.rl = rl
    eng.ghost['fit'] = c
    return args, {}, c


def member(c, r):
    r = lift(r)
    return canon_bool(z3.And(r >= 0, r < c.m) if c.root else z3.And(r >= 0, r < c.m, SMEM(r)))


PERP_ATTRS = FITTED_ATTRS[:10]


def fit_task(prop, c, cont, root, post, contracts=None):
    def setup(I, cls):
        return fit_setup(I, cls, cont, root)
    return body_task('%s._fit (%s, %s)' % (c, cont, 'whole data' if root else 'rows of a node'), c, '_fit', setup, lambda I, r, ctx: post(I, ctx),
                     dict(CONTRACTS, **(contracts or {})), quiet=DET if prop == 'C15' else prop not in ('C03', 'C04'))


def split_attr(c):
    return 'best_hyperplane_normal_' if getattr(c, 'hyper', False) else 'split_value_'


def is_split(f):
    return f.get('child1_') is not None


def below(c, f, r):
    if getattr(c, 'hyper', False):
        return canon_bool(c.side(f, r))
    return canon_bool(xval(r, f['split_dimension_']) < lift(to_real(f['split_value_'])))


def sides(I, c):
    """(name, fields of the child, fitted record, membership of row r)"""
    f = I.eng.deref(c.self).fields
    for nm, pos in (('child1_', True), ('child2_', False)):
        ch = deref(I.eng, f[nm])
        yield nm, ch, ch.ghost.get('fitted'), (lambda r, pos=pos: canon_bool(z3.And(member(c, r), below(c, f, r) if pos else z3.Not(below(c, f, r)))))


def any_row(eng, c, name='row'):
    r = eng.fresh_plain(name, INT)
    eng.assume(z3.And(r >= 0, r < c.m))
    instantiate(eng, r)
    return r


# ---------------------------------------------------------------------------------------------------------------- C03
def post_c03(I, c):
    eng = I.eng
    f = eng.deref(c.self).fields
    eng.prove('a node is marked as fitted', 'posterior_' in f and 'n_data_' in f)
    eng.prove('the sample count is the number of rows of the node', lift(f['n_data_']) == lift(c.w))
    if not is_split(f):
        eng.prove('a node without children has no split', f.get(split_attr(c), 0) is None and f.get('child1_', 0) is None and f.get('child2_', 0) is None)
        return
    if not getattr(c, 'hyper', False):
        d = f['split_dimension_']
        eng.prove('the split dimension is a feature', z3.And(lift(d) >= 0, lift(d) < c.D))
    r = any_row(eng, c)
    for nm, ch, fit, want in sides(I, c):
        if fit is not None:
            L, n = fit
            eng.prove('%s is trained on exactly the rows on its side of the split' % nm, lift(L.member(r)) == want(r))
            eng.prove('%s gets at least one row' % nm, lift(n) >= 1)
        else:
            g = ch.fields
            eng.prove('%s is a leaf: fitted, without split and children' % nm,
                      'posterior_' in g and 'n_data_' in g and all(g.get(a, 0) is None for a in (split_attr(c), 'child1_', 'child2_')))
            n = g['n_data_']
            L = trained_on(eng, g['posterior_'])
            eng.prove('the posterior of %s comes from targets of the node' % nm, L is not None and L.universe is not None)
            eng.prove('the posterior of %s comes from exactly the rows on its side of the split' % nm, lift(L.member(r)) == want(r))
            eng.prove('the sample count of %s is the number of rows on its side' % nm, lift(n) == lift(L.length))
            eng.prove('%s has at least one row' % nm, lift(n) >= 1)
        c.count = getattr(c, 'count', {})
        c.count[nm] = n
    eng.prove('the sample counts of the children add up', lift(c.count['child1_']) + lift(c.count['child2_']) == lift(c.w))


# ---------------------------------------------------------------------------------------------------------------- C04
def spec_scores(I, c, d):
    """(number of admissible splits of feature d, sort position of split j, score of split j)"""
    eng = I.eng
    L = c.rl(d)
    x = lambda t: xval(L.at(t), d)
    diff = lambda j: s_binop(eng, '-', x(s_binop(eng, '+', lift(j), 1)), x(j))
    n1 = s_binop(eng, '-', lift(c.w), 1)
    W = where_listing(eng, n1, lambda j: canon_bool(lift(s_abs(eng, diff(j))) > c.sp))
    posn = lambda t: s_binop(eng, '+', W.at(t), 1)
    ps, bodies = score_params(I, c.self, c.prior)
    sc = lambda j: score_term(eng, c.w, lambda t: YF(lift(L.at(t))), W.length, posn, c.D, ps, bodies, j)
    return W, posn, sc


def post_c04(I, c):
    eng = I.eng
    f = eng.deref(c.self).fields
    d = eng.fresh_plain('feature', INT)
    j = eng.fresh_plain('split', INT)
    ps, bodies = score_params(I, c.self, c.prior)
    lpno = no_split_term(eng, gathered(eng, c), ps, bodies)
    split = is_split(f)
    eng.assume(z3.And(d >= 0, d < c.D))
    W, posn, sc = spec_scores(I, c, d)
    instantiate(eng, d, kinds=('ext',))
    eng.assume(z3.And(j >= 0, j < lift(W.length)))
    i = argext(eng, None, W.length, sc, 'max')
    instantiate(eng, j, kinds=('argext',))
    if not split:
        eng.prove('no admissible split is more probable than not splitting', lift(sc(j)) <= lift(lpno))
        return
    lps, lp0 = f['best_log_p_data_split_'], f['log_p_data_no_split_']
    eng.prove('the recorded log probability of not splitting', lift(lp0) == lift(lpno))
    eng.prove('the split is strictly more probable than not splitting', lift(lps) > lift(lpno))
    eng.prove('no admissible split of any feature is more probable than the split taken', lift(sc(j)) <= lift(lps))
    sd, v = f['split_dimension_'], lift(to_real(f['split_value_']))
    eng.prove('the split dimension is a feature', z3.And(lift(sd) >= 0, lift(sd) < c.D))
    W, posn, sc = spec_scores(I, c, sd)
    eng.prove('the split feature has an admissible split', lift(W.length) >= 1)
    i = argext(eng, None, W.length, sc, 'max')
    eng.prove('the recorded log probability is that of an admissible split of the split feature', lift(lps) == lift(sc(i)))
    p = posn(i)
    L = c.rl(sd)
    lo, hi = xval(L.at(s_binop(eng, '-', lift(p), 1)), sd), xval(L.at(p), sd)
    eng.prove('the neighbouring values differ by more than the split precision', hi - lo > c.sp)
    eng.prove('the split value separates the two neighbouring values', z3.And(lo < v, v <= hi))
    eng.prove('the split value lies halfway between the two neighbouring values', 2 * v == lo + hi)
    # which children are considered for splitting (C03: the rows an unsplit child was trained on are those on its side)
    for nm, ch, fit, want in sides(I, c):
        if fit is None:
            L = trained_on(eng, ch.fields['posterior_'])
            eng.prove('%s is fitted to targets of the node' % nm, L is not None)
            t1, t2 = eng.fresh_plain('t1', INT), eng.fresh_plain('t2', INT)
            with eng.scope():
                eng.assume(z3.And(t1 >= 0, t1 < lift(L.length), t2 >= 0, t2 < lift(L.length)))
                instantiate(eng, t1, t2, kinds=('nunique', 'all', 'argext'))
                eng.prove('%s is only left unsplit without a search if its targets are all equal' % nm, YF(lift(L.at(t1))) == YF(lift(L.at(t2))))


def gathered(eng, c):
    """targets of the rows of the node"""
    if getattr(c, 'hyper', False):
        return Arr((c.m,), lambda t: YF(lift(t)), 'f')
    L = c.rl(z3.IntVal(0))
    return Arr((c.w,), lambda t: YF(lift(L.at(t))), 'f', meta={'gather': (L, lambda k: YF(lift(k)))})


# ---------------------------------------------------------------------------------------------------------------- C07
def masked_target(eng, c, mem):
    """targets of a set of rows, as vector gathered from the target"""
    n = sums.SUM(eng, 0, c.m, lambda k: ite(None, mem(k), 1, 0))
    L = Listing(n, None, mem, None, c.m)
    return Arr((n,), None, 'f', meta={'gather': (L, lambda k: YF(lift(k)))})


def same_params(eng, cls, name, got, want, K):
    acc, K2 = prior_access(eng, cls, got)
    if is_reg(cls):
        for i, p in enumerate(('mu', 'kappa', 'alpha', 'beta')):
            eng.prove('%s: %s' % (name, p), lift(to_real(lift(acc[i]))) == lift(to_real(lift(want[i]))))
    else:
        i = eng.fresh_plain('cls', INT)
        eng.assume(z3.And(i >= 0, i < lift(K)))
        eng.prove('%s: one entry per class' % name, lift(K2) == lift(K))
        eng.prove('%s: entry of an arbitrary class' % name, lift(to_real(lift(acc(i)))) == lift(to_real(lift(want(i)))))


def update_vector(eng, c, mem):
    """targets of the rows for which mem holds, as a vector: one of those some posterior was computed from, if it enumerates
    exactly these rows (equal up to order: sums do not depend on it)"""
    for a in eng.ghost.get('updates', []):
        L = a.meta['gather'][0]
        with eng.scope():
            r = any_row(eng, c)
            if eng.holds(lift(L.member(r)) == mem(r)):
                return a
    return masked_target(eng, c, mem)


def post_c07(I, c):
    eng = I.eng
    f = eng.deref(c.self).fields
    own = gathered(eng, c)
    same_params(eng, c.cls, 'posterior of the node', f['posterior_'], posterior_of(eng, c.cls, c.acc, c.K, own, c.w, 1), c.K)
    if not is_split(f):
        return
    hyper = getattr(c, 'hyper', False)
    d0 = eng.choose(lift(c.delta) == 0)
    for nm, ch, fit, want in sides(I, c):
        a = update_vector(eng, c, want)
        n = a.shape[0]
        eng.assume(lift(n) >= 1)            # C03
        g = ch.fields
        if hyper or d0:
            same_params(eng, c.cls, 'prior of %s' % nm, g['prior'], c.acc, c.K)
        else:
            same_params(eng, c.cls, 'prior of %s' % nm, g['prior'], posterior_of(eng, c.cls, c.acc, c.K, a, n, c.delta), c.K)
        if fit is None and d0:
            same_params(eng, c.cls, 'posterior of the unsplit %s' % nm, g['posterior_'], posterior_of(eng, c.cls, c.acc, c.K, a, n, 1), c.K)


# ---------------------------------------------------------------------------------------------------------------- C12, C15, C16, C17
def post_c16(I, c):
    eng = I.eng
    o = eng.deref(c.self)
    for k, v in c.params.items():
        eng.prove('fitting leaves the parameter %s of the node' % k, o.fields.get(k) is v or k in o.fields and same_val(o.fields[k], v))
    if not is_split(o.fields):
        return
    for nm, ch, fit, want in sides(I, c):
        eng.prove('%s is of the class of the tree' % nm, ch.cls is c.cls)
        g = ch.fields
        for k in ('partition_prior', 'delta', 'prune', 'split_precision', 'is_regression', 'child_type'):
            eng.prove('%s inherits %s' % (nm, k), same_val(g.get(k, Stale), c.params[k]))
        eng.prove('the level of %s is one more' % nm, lift(g['level']) == lift(c.params['level']) + 1)


def same_val(a, b):
    if a is b:
        return True
    if is_z3(a) or is_z3(b):
        try:
            x, y = lift(a), lift(b)
        except Exception:
            return False
        return x.sort() == y.sort() and x == y
    return type(a) is type(b) and not isinstance(a, (Ref, Obj)) and a == b or isinstance(a, Ref) and a == b


def post_c15(I, c):
    eng = I.eng
    o = eng.deref(c.self)
    for k in PERP_ATTRS:
        eng.prove('no trace of an earlier fit: %s is overwritten' % k, k in o.fields)
    if not is_split(o.fields):
        for k in ('child1_', 'child2_', 'log_p_data_no_split_', 'best_log_p_data_split_', 'split_value_', 'split_feature_name_'):
            eng.prove('a node without split carries no %s' % k, o.fields.get(k, 0) is None)
    else:
        for nm in ('child1_', 'child2_'):
            eng.prove('%s is a new object' % nm, isinstance(o.fields[nm], Ref) and deref(eng, o.fields[nm]).origin != 'param')


def post_c12(I, c):
    eng = I.eng
    post_params(I, c)
    frame_ok(eng, lambda ev: ev[1] == c.self.addr and ev[0] == 'setattr' and ev[2] in FITTED_ATTRS, '_fit')


def post_params(I, c):
    o = I.eng.deref(c.self)
    for k, v in c.params.items():
        I.eng.prove('fitting leaves the parameter %s as it was' % k, same_val(o.fields.get(k), v))


def post_c17(I, c):
    eng = I.eng
    f = eng.deref(c.self).fields
    eng.prove('the number of features is recorded', lift(f['n_dim_']) == c.D)
    if is_split(f):
        eng.prove('the split shows the name of its feature', f['split_feature_name_'] == FN(lift(f['split_dimension_'])))
