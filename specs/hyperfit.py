"""Contract of _fit (hyperplane trees): C03, C07, C09, C12, C15, C16."""
from .fitspec import *
from .hyper import BEST, OFIELDS
from pyvc.values import Bound

FOUNDN = uf('foundnormal', INT, REAL)
FOUNDO = uf('foundorigin', INT, REAL)
HYPER_ATTRS = ['posterior_', 'n_data_', 'n_dim_', 'child1_', 'child2_', 'log_p_data_no_split_', 'best_log_p_data_split_',
               'best_hyperplane_normal_', 'best_hyperplane_origin_', 'optimization_function']


# ---------------------------------------------------------------------------------------------------------------- callee contracts
def solve_contract(I, f, args):
    """solve of an optimizer: evaluates directions through compute (C09), so it finds nothing or a hyperplane at least as
    probable as not splitting; changes the state of the search of the function it is given and nothing else"""
    eng = I.eng
    opt, fun = args[:2]
    c = eng.ghost['fit']
    o = deref(eng, fun)
    ok = isinstance(o, Obj) and o.cls.name == 'HyperplaneOptimizationFunction'
    eng.prove('precondition of solve: an optimization function', ok)
    if not ok:
        raise Unsupported('argument of solve')
    g = o.fields
    c.used = opt
    c.solves = getattr(c, 'solves', 0) + 1
    flag = I.getattr(opt, 'search_space_is_unit_hypercube')
    X, y = deref(eng, g['X']), deref(eng, g['y'])
    same = isinstance(X, Arr) and X.ndim == 2 and X.cont in ('ndarray', 'csr', 'csc') and isinstance(y, Arr) and y.ndim == 1
    eng.prove('precondition of solve: the function searched is over a matrix and a target vector', same)
    if not same:
        raise Unsupported('matrix or target of the optimization function')
    r = eng.fresh_plain('sr', INT)
    rows = row_of(eng, X)
    eng.prove('precondition of solve: over the rows of the node', z3.And(lift(X.shape[0]) == c.m, lift(X.shape[1]) == c.D, lift(y.shape[0]) == c.m))
    with eng.scope():
        eng.assume(z3.And(r >= 0, r < c.m))
        eng.prove('precondition of solve: over the rows of the node', rows(r) == XROW(r))
        eng.prove('precondition of solve: with the targets of the node', lift(to_real(y.fn(r))) == YF(r))
    eng.prove('precondition of solve: with the prior of the node', same_val(g['prior'], c.prior))
    scored_by_node(I, c, g['compute_log_p_data_split'])
    eng.prove('precondition of solve: with the split precision of the node', same_val(g['split_precision'], c.sp))
    eng.prove('precondition of solve: in the search space of the optimizer', same_val(g['search_space_is_unit_hypercube'], flag))
    ps, bodies = score_params(I, c.self, c.prior)
    lpno = no_split_term(eng, gathered(eng, c), ps, bodies)
    eng.prove('precondition of solve: starting from the log probability of not splitting',
              z3.And(lift(g['log_p_data_no_split']) == lift(lpno), lift(g['best_log_p_data_split']) == lift(lpno)))
    eng.prove('precondition of solve: nothing evaluated yet', z3.And(lift(g['function_evaluations']) == 0, lift(to_real(g['best_cumulative_distances'])) == 0))
    eng.prove('precondition of solve: nothing found yet', g['best_hyperplane_normal'] is None and g['best_hyperplane_origin'] is None)
    none = z3.Bool('nothing_found')
    best, cum, ev = z3.Real('best'), z3.Real('cum'), z3.Int('evaluations')
    eng.assume(z3.And(best >= lift(lpno), z3.Implies(none, best == lift(lpno)), cum >= 0, ev >= 0))
    N = eng.alloc(Arr((c.D,), lambda d: FOUNDN(lift(d)), 'f'))
    O = eng.alloc(Arr((c.D,), lambda d: FOUNDO(lift(d)), 'f'))
    q = o.copy()
    q.fields = dict(g, function_evaluations=ev, best_log_p_data_split=best, best_cumulative_distances=cum,
                    best_hyperplane_normal=Opt(none, N), best_hyperplane_origin=Opt(none, O))
    eng.heap[fun.addr] = q
    eng.log.append(('contract', fun.addr, 'solve', None, o.origin))
    c.fun, c.none, c.best, c.N, c.O, c.lpno = fun, none, best, N, O, lpno
    return None


def scored_by_node(I, c, b):
    """calling b scores split positions as _compute_log_p_data_split of the node does"""
    eng = I.eng
    S, j = eng.fresh_plain('S', INT), eng.fresh_plain('j', INT)
    yv, sv = eng.fresh_fun('anyy', INT, REAL), eng.fresh_fun('anysplit', INT, INT)
    with eng.scope():
        eng.assume(z3.And(S >= 1, j >= 0, j < S))
        def split(t):
            x = sv(t)
            eng.assume(z3.And(x >= 1, x <= c.m - 1))
            return x
        r = I.call(b, [eng.alloc(Arr((c.m,), yv, 'f')), c.prior, c.D, eng.alloc(Arr((S,), split, 'i'))], {})
        a = deref(eng, r)
        ps, bodies = score_params(I, c.self, c.prior)
        ok = isinstance(a, Arr) and a.ndim == 1
        eng.prove('precondition of solve: scored by the node itself', ok and z3.And(lift(a.shape[0]) == S, lift(a.fn(j)) == lift(score_term(eng, c.m, yv, S, sv, c.D, ps, bodies, j))))


def hyper_fit_contract(I, f, args):
    """_fit on the rows of a node: the matrix and the target handed on are the same rows of the caller's"""
    eng = I.eng
    ref, X, y, verbose, names, side = args[:6]
    o = eng.deref(ref)
    c = eng.ghost['fit']
    Xa, ya = deref(eng, X), deref(eng, y)
    eng.prove('precondition of _fit: a matrix', isinstance(Xa, Arr) and Xa.ndim == 2 and Xa.cont in ('ndarray', 'csr', 'csc'))
    eng.prove('precondition of _fit: a target vector', isinstance(ya, Arr) and ya.ndim == 1)
    eng.prove('precondition of _fit: as many rows as targets', lift(Xa.shape[0]) == lift(ya.shape[0]))
    eng.prove('precondition of _fit: as many features', lift(Xa.shape[1]) == c.D)
    eng.prove('precondition of _fit: at least one row', lift(ya.shape[0]) >= 1)
    eng.prove('the feature names are handed on', names == c.names)
    g = ya.meta.get('gather')
    if g is None or g[0].universe is None or g[0].at is None:
        raise Unsupported('targets of a child')
    L = g[0]
    rows = row_of(eng, Xa)
    t = eng.fresh_plain('ft', INT)
    with eng.scope():
        eng.assume(z3.And(t >= 0, t < lift(ya.shape[0])))
        r = L.at(t)
        eng.prove('precondition of _fit: rows of the matrix of the node', z3.And(lift(r) >= 0, lift(r) < c.m))
        eng.prove('precondition of _fit: the rows handed to a child are those of its targets', rows(t) == XROW(lift(r)))
        eng.prove('precondition of _fit: the target handed to a child is the training target of its rows', lift(to_real(ya.fn(t))) == YF(lift(r)))
    q = o.copy()
    q.ghost['fitted'] = (L, ya.shape[0])
    eng.heap[ref.addr] = q
    eng.log.append(('contract', ref.addr, 'fit', None, o.origin))
    return None


HYPER_CONTRACTS = dict(CONTRACTS, _fit=hyper_fit_contract, solve=solve_contract)


# ---------------------------------------------------------------------------------------------------------------- body
def hyper_setup(I, cls, cont, default):
    eng = I.eng
    c = Ctx()
    c.hyper, c.root, c.cls = True, True, cls
    c.m, c.D = z3.Int('m'), z3.Int('D')
    c.w = c.m
    eng.assume(z3.And(c.m >= 1, c.D >= 1, c.m < 2 ** 62))
    c.prior, c.K, c.acc = prior_value(eng, cls, 'tuple' if is_reg(cls) else 'ndarray')
    c.opt = None if default else eng.alloc(Obj(I.prog.cls('HyperplaneOptimizer'), {'search_space_is_unit_hypercube': z3.Bool('cube')}, origin='param'))
    c.self, c.pp, c.level = tree_self(I, cls, prior=c.prior, optimizer=c.opt)
    o = eng.deref(c.self)
    o.stale = frozenset(FITTED_ATTRS)
    c.sp, c.delta = o.fields['split_precision'], o.fields['delta']
    c.params = dict(o.fields)
    c.X = data_matrix(eng, c.m, c.D, cont)
    c.y = target(eng, c.m)
    c.names = eng.alloc(ListObj(None, c.D, lambda i: FN(lift(i)), origin='param'))
    c.rl = lambda d: range_listing(c.m)
    def side(f, r):
        N, O = some(eng, f['best_hyperplane_normal_']), some(eng, f['best_hyperplane_origin_'])
        x = s_binop(eng, '-', sums.SUM(eng, 0, c.D, lambda q: s_binop(eng, '*', xval(r, q), N.fn(q))), sums.SUM(eng, 0, c.D, lambda q: s_binop(eng, '*', N.fn(q), O.fn(q))))
        return lift(to_real(x)) < 0
    c.side = side
    eng.ghost['fit'] = c
    return [c.self, c.X, c.y, z3.Bool('verbose'), c.names, 'LHS'], {}, c


def range_listing(m):
    return Listing(m, lambda t: t, lambda k: canon_bool(z3.And(lift(k) >= 0, lift(k) < m)), lambda k: k, m)


def hyper_fit_task(prop, c, cont, default, post):
    return body_task('%s._fit (%s, %s)' % (c, cont, 'default optimizer' if default else 'any optimizer'), c, '_fit',
                     lambda I, cls: hyper_setup(I, cls, cont, default), lambda I, r, ctx: post(I, ctx), HYPER_CONTRACTS, quiet=DET if prop == 'C15' else prop not in ('C03', 'C09'), linear=True)


def hyper_fit_tasks(prop, post, conts=('ndarray', 'csr', 'csc')):
    return [hyper_fit_task(prop, c, x, dflt, post) for c in CLASSES[2:] for x in conts for dflt in (False, True) if not dflt or x == 'ndarray']


# ---------------------------------------------------------------------------------------------------------------- C09
def post_c09(I, c):
    eng = I.eng
    f = eng.deref(c.self).fields
    eng.prove('the node is searched exactly once', getattr(c, 'solves', 0) == 1)
    if getattr(c, 'solves', 0) != 1:
        return
    g = eng.deref(c.fun).fields
    eng.prove('the search of the node can be inspected', f.get('optimization_function') == c.fun)
    eng.prove('the state of the search is left as the optimizer left it', lift(g['best_log_p_data_split']) == c.best)
    if c.opt is not None:
        eng.prove('the search uses the optimizer of the tree', c.used == c.opt)
    dist = dist_of(eng, c)
    if not is_split(f):
        eng.prove('a leaf carries no hyperplane', f.get('best_hyperplane_normal_', 0) is None and f.get('best_hyperplane_origin_', 0) is None)
        if eng.choose(c.none):
            return
        r1, r2 = any_row(eng, c, 'r1'), any_row(eng, c, 'r2')
        eng.prove('a node without split has no best hyperplane, or all its rows lie on one side of it', (dist(r1) < 0) == (dist(r2) < 0))
        return
    eng.prove('there is a split only where one was found', mk_not(c.none))
    eng.prove('the normal stored is the best one found', vec_is(eng, f['best_hyperplane_normal_'], FOUNDN, c.D))
    eng.prove('the origin stored is the best one found', vec_is(eng, f['best_hyperplane_origin_'], FOUNDO, c.D))
    eng.prove('the recorded log probability is the best one found', lift(to_real(f['best_log_p_data_split_'])) == c.best)
    eng.prove('the recorded log probability of not splitting', lift(to_real(f['log_p_data_no_split_'])) == lift(c.lpno))
    eng.prove('the split is at least as probable as not splitting', lift(to_real(f['best_log_p_data_split_'])) >= lift(to_real(f['log_p_data_no_split_'])))
    for nm, ch, fit, want in sides(I, c):
        if fit is None:
            L = trained_on(eng, ch.fields['posterior_'])
            eng.prove('%s is fitted to targets of the node' % nm, L is not None)
            t1, t2 = eng.fresh_plain('t1', INT), eng.fresh_plain('t2', INT)
            with eng.scope():
                eng.assume(z3.And(t1 >= 0, t1 < lift(L.length), t2 >= 0, t2 < lift(L.length)))
                instantiate(eng, t1, t2, kinds=('nunique', 'all', 'argext'))
                eng.prove('%s is only left unsplit without a search if its targets are all equal' % nm, YF(lift(L.at(t1))) == YF(lift(L.at(t2))))


def some(eng, v):
    v = deref(eng, v)
    return deref(eng, v.value) if isinstance(v, Opt) and not eng.feasible(v.isnone) else v


def vec_is(eng, v, fn, n):
    a = some(eng, v)
    if not isinstance(a, Arr) or a.ndim != 1:
        return False
    d = eng.fresh_plain('coord', INT)
    eng.assume(z3.And(d >= 0, d < n))
    return z3.And(lift(a.shape[0]) == n, lift(to_real(a.fn(d))) == fn(d))


def dist_of(eng, c):
    """signed distance of row r to the best hyperplane found"""
    NO = sums.SUM(eng, 0, c.D, lambda q: s_binop(eng, '*', FOUNDN(lift(q)), FOUNDO(lift(q))))
    return lambda r: lift(to_real(s_binop(eng, '-', sums.SUM(eng, 0, c.D, lambda q: s_binop(eng, '*', xval(r, q), FOUNDN(lift(q)))), NO)))


# ---------------------------------------------------------------------------------------------------------------- C03, C12, C15, C16
def post_h03(I, c):
    """as for perpendicular trees; the side of a row is the sign of its distance to the stored hyperplane"""
    post_c03(I, c)


def post_h12(I, c):
    eng = I.eng
    post_params(I, c)
    frame_ok(eng, lambda ev: ev[1] == c.self.addr and ev[0] == 'setattr' and ev[2] in HYPER_ATTRS, '_fit')


def post_h15(I, c):
    eng = I.eng
    o = eng.deref(c.self)
    for k in HYPER_ATTRS:
        eng.prove('no trace of an earlier fit: %s is overwritten' % k, k in o.fields)
    if not is_split(o.fields):
        for k in HYPER_ATTRS[3:9]:
            eng.prove('a node without split carries no %s' % k, o.fields.get(k, 0) is None)
    else:
        for nm in ('child1_', 'child2_'):
            eng.prove('%s is a new object' % nm, isinstance(o.fields[nm], Ref) and deref(eng, o.fields[nm]).origin != 'param')
    fo = o.fields.get('optimization_function')
    eng.prove('the optimization function is a new object', isinstance(fo, Ref) and deref(eng, fo).origin != 'param')


def post_h16(I, c):
    eng = I.eng
    post_c16(I, c)
    f = eng.deref(c.self).fields
    if not is_split(f):
        return
    for nm, ch, fit, want in sides(I, c):
        o = ch.fields.get('optimizer', 0)
        eng.prove('%s searches with the optimizer of the tree' % nm, o == c.opt if c.opt is not None else o is None or o == c.used)
