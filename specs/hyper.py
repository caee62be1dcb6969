"""Contract of HyperplaneOptimizationFunction.compute and of the search for hyperplane splits (C09)."""
from .fitspec import *
from pyvc.values import Bound

BN = uf('bestnormal0', INT, REAL)
BO = uf('bestorigin0', INT, REAL)
IN = uf('direction', INT, REAL)
SPHERE = uf('sphere', INT, REAL)
OFIELDS = ['X', 'y', 'prior', 'compute_log_p_data_split', 'log_p_data_no_split', 'search_space_is_unit_hypercube', 'split_precision']
BEST = ['best_log_p_data_split', 'best_cumulative_distances', 'best_hyperplane_normal', 'best_hyperplane_origin']


def sphere_contract(I, f, args):
    """hypercube_to_hypersphere_surface of a single point (C10): a fresh vector of unit length, one coordinate more"""
    eng = I.eng
    a = deref(eng, args[0])
    half = args[1] if len(args) > 1 else None
    if not isinstance(a, Arr) or a.ndim != 1 or half is not True:
        raise Unsupported('hypercube_to_hypersphere_surface of several points or onto the full sphere')
    i = eng.fresh_plain('cube', INT)
    with eng.scope():
        eng.assume(z3.And(i >= 0, i < lift(a.shape[0])))
        eng.prove('precondition of hypercube_to_hypersphere_surface: coordinates between 0 and 1', z3.And(lift(to_real(a.fn(i))) >= 0, lift(to_real(a.fn(i))) <= 1))
    eng.prove('precondition of hypercube_to_hypersphere_surface: at least one coordinate', lift(a.shape[0]) >= 1)
    n = s_binop(eng, '+', a.shape[0], 1)
    r = Arr((n,), lambda d: SPHERE(lift(d)), 'f')
    sq = sums.SUM(eng, 0, n, lambda d: SPHERE(lift(d)) * SPHERE(lift(d)))
    eng.assume(lift(sq) == 1)
    eng.assume(SPHERE(z3.IntVal(0)) >= 0)
    # squares adding up to one are not all zero
    zero = lib.call_fun(eng, 'numpy.all', [eng.alloc(Arr((n,), lambda d: canon_bool(SPHERE(lift(d)) == 0), 'b'))], {})
    eng.assume(mk_not(lift(zero)))
    eng.ghost['sphere'] = a
    return eng.alloc(r)


COMPUTE_CONTRACTS = dict(CONTRACTS, hypercube_to_hypersphere_surface=sphere_contract)


def opt_function(I, cls, c, best=True):
    """an optimization function in an arbitrary state of the search"""
    eng = I.eng
    fc = I.prog.cls('HyperplaneOptimizationFunction')
    f = {'X': c.X, 'y': c.y, 'prior': c.prior, 'compute_log_p_data_split': Bound(c.self, I.prog.method(cls, '_compute_log_p_data_split')),
         'log_p_data_no_split': c.lpno, 'search_space_is_unit_hypercube': c.cube, 'split_precision': c.sp}
    c.none = z3.Bool('nothing_found_yet')
    c.best0, c.cum0, c.evals = z3.Real('best0'), z3.Real('cum0'), z3.Int('evals0')
    eng.assume(z3.And(c.best0 >= c.lpno, z3.Implies(c.none, c.best0 == c.lpno), c.cum0 >= 0, c.evals >= 0))
    c.N0 = eng.alloc(Arr((c.D,), lambda d: BN(lift(d)), 'f', origin='param'))
    c.O0 = eng.alloc(Arr((c.D,), lambda d: BO(lift(d)), 'f', origin='param'))
    f.update(function_evaluations=c.evals, best_log_p_data_split=c.best0, best_cumulative_distances=c.cum0,
             best_hyperplane_normal=Opt(c.none, c.N0), best_hyperplane_origin=Opt(c.none, c.O0))
    return eng.alloc(Obj(fc, f, origin='param'))


def direction_dim(c):
    return s_dim(c.D, -1) if c.cube else c.D


def s_dim(D, k):
    return canon(lift(D) + k)


def scores_along(I, c, N):
    """order of the rows along direction N, admissible splits, their positions and scores"""
    eng = I.eng
    p = lib.uniform(eng, c.m, lambda r: sums.SUM(eng, 0, c.D, lambda d: s_binop(eng, '*', xval(r, d), N(d))))
    L = argsort_listing(eng, c.m, p)
    x = lambda t: lift(to_real(p(L.at(t))))
    n1 = s_binop(eng, '-', lift(c.m), 1)
    W = where_listing(eng, n1, lambda j: canon_bool(lift(s_abs(eng, s_binop(eng, '-', x(s_binop(eng, '+', lift(j), 1)), x(j)))) > c.sp))
    posn = lambda t: s_binop(eng, '+', W.at(t), 1)
    ps, bodies = score_params(I, c.self, c.prior)
    sc = lambda j: score_term(eng, c.m, lambda t: YF(lift(L.at(t))), W.length, posn, c.D, ps, bodies, j)
    return p, L, W, posn, sc


def compute_task(c_, cont, cube, post, quiet=False):
    def setup(I, cls):
        eng = I.eng
        tree = I.prog.cls(c_)
        c = Ctx()
        c.cube, c.cls = cube, tree
        c.m, c.D = z3.Int('m'), z3.Int('D')
        eng.assume(z3.And(c.m >= 1, c.D >= (2 if cube else 1)))
        c.prior, c.K, c.acc = prior_value(eng, tree, 'tuple' if is_reg(tree) else 'ndarray')
        c.self, c.pp, c.level = tree_self(I, tree, prior=c.prior, optimizer=Opaque('optimizer'))
        c.sp = eng.deref(c.self).fields['split_precision']
        c.lpno = z3.Real('lpno0')
        c.X, c.y = data_matrix(eng, c.m, c.D, cont), target(eng, c.m)
        c.fun = opt_function(I, tree, c)
        c.old = dict(eng.deref(c.fun).fields)
        def coord(d):
            x = IN(lift(d))
            if cube:
                eng.assume(z3.And(x >= 0, x <= 1))
            return x
        c.arg = eng.alloc(Arr((direction_dim(c),), coord, 'f', origin='param'))
        return [c.fun, c.arg], {}, c
    return body_task('compute (%s, X as %s, %s)' % (c_, cont, 'points of the unit cube' if cube else 'directions'), 'HyperplaneOptimizationFunction', 'compute',
                     setup, post, COMPUTE_CONTRACTS, quiet=quiet, linear=True)


def direction(I, c):
    """the unit vector a call evaluates: along the argument (or its image on the sphere); the zero vector stands for the first axis"""
    eng = I.eng
    raw = SPHERE if c.cube else IN
    allzero = lib.call_fun(eng, 'numpy.all', [eng.alloc(Arr((c.D,), lambda d: canon_bool(raw(lift(d)) == 0), 'b'))], {})
    if eng.choose(allzero):
        v = lambda d: s_ite(canon_bool(lift(d) == 0), z3.RealVal(1), raw(lift(d)))
        eng.ghost['pt'] = 0
    else:
        v = lambda d: raw(lift(d))
    sq = sums.SUM(eng, 0, c.D, lambda d: s_binop(eng, '*', v(d), v(d)))
    n = s_sqrt(eng, sq)
    return lambda d: s_div(eng, v(d), n)


def post_compute(I, r, c):
    """effect of one evaluation on the state of the search (C09)"""
    eng = I.eng
    f = eng.deref(c.fun).fields
    eng.prove('every evaluation is counted once', lift(f['function_evaluations']) == c.evals + 1)
    for k in OFIELDS:
        if k != 'X':
            eng.prove('the optimization function keeps its %s' % k, same_val(f[k], c.old[k]))
    X = deref(eng, f['X'])
    row, d = eng.fresh_plain('row', INT), eng.fresh_plain('d', INT)
    eng.assume(z3.And(row >= 0, row < c.m, d >= 0, d < c.D))
    eng.prove('the optimization function keeps the values of its matrix', z3.And(lift(X.shape[0]) == c.m, lift(X.shape[1]) == c.D, lift(to_real(X.fn(row, d))) == xval(row, d)))
    u = direction(I, c)
    p, L, W, posn, sc = scores_along(I, c, u)
    kept = all(same_val(f[k], c.old[k]) for k in BEST)
    b0, b1 = c.best0, lift(to_real(f['best_log_p_data_split']))
    if eng.choose(canon_bool(lift(W.length) == 0)):
        eng.prove('a direction without admissible position leaves the best split as it was', kept)
        eng.prove('a direction without admissible position is reported as not splitting', lift(to_real(r)) == -c.lpno)
        frame_ok(eng, lambda ev: ev[1] == c.fun.addr and ev[0] == 'setattr', 'compute')
        return
    j = eng.fresh_plain('split', INT)
    eng.assume(z3.And(j >= 0, j < lift(W.length)))
    i = argext(eng, None, W.length, sc, 'max')
    instantiate(eng, j, kinds=('argext',))
    eng.prove('the value reported is minus the log probability of the best position', z3.And(lift(to_real(r)) == -lift(sc(i)), lift(sc(j)) <= lift(sc(i))))
    eng.prove('no position of the direction is more probable than the best split so far', lift(sc(j)) <= b1)
    eng.prove('the best split never gets less probable', b1 >= b0)
    if kept:
        frame_ok(eng, lambda ev: ev[1] == c.fun.addr and ev[0] == 'setattr', 'compute')
        return
    eng.prove('a new best split has the log probability of a position of the direction', b1 == lift(sc(i)))
    N, O = deref(eng, f['best_hyperplane_normal']), deref(eng, f['best_hyperplane_origin'])
    ok = all(isinstance(v, Arr) and v.ndim == 1 and v.cont == 'ndarray' for v in (N, O))
    eng.prove('normal and origin are vectors', ok)
    if not ok:
        return
    eng.prove('normal and origin have one coordinate per feature', z3.And(lift(N.shape[0]) == c.D, lift(O.shape[0]) == c.D))
    eng.prove('the stored normal is the direction evaluated', lift(to_real(N.fn(d))) == lift(to_real(u(d))))
    eng.prove('the stored normal has unit length', lift(to_real(sums.SUM(eng, 0, c.D, lambda q: s_binop(eng, '*', N.fn(q), N.fn(q))))) == 1)
    t = posn(i)
    lo, hi = L.at(s_binop(eng, '-', t, 1)), L.at(t)
    eng.prove('the stored origin is the midpoint of the two neighbouring points', 2 * lift(to_real(O.fn(d))) == xval(lo, d) + xval(hi, d))
    # rows strictly below the hyperplane are exactly those sorted before the split position
    dist = lambda x: s_binop(eng, '-', sums.SUM(eng, 0, c.D, lambda q: s_binop(eng, '*', xval(x, q), N.fn(q))), sums.SUM(eng, 0, c.D, lambda q: s_binop(eng, '*', N.fn(q), O.fn(q))))
    s = eng.fresh_plain('s', INT)
    eng.assume(z3.And(s >= 0, s < c.m))
    x = L.at(s)
    dx = lift(to_real(dist(x)))
    eng.prove('rows before the split position lie strictly below the stored hyperplane', z3.Implies(s < lift(t), dx < 0))
    eng.prove('rows from the split position on do not lie below the stored hyperplane', z3.Implies(s >= lift(t), dx >= 0))
    frame_ok(eng, lambda ev: ev[1] == c.fun.addr and ev[0] == 'setattr', 'compute')


def compute_tasks(classes, post=post_compute, conts=('ndarray', 'csr', 'csc')):
    return [compute_task(c, x, cube, post) for c in classes for x in conts for cube in (False, True)]
