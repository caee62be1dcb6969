"""C18: the directions an optimizer evaluates and their number; C15: the random generators of the optimizers."""
from pyvc.model import *
from pyvc.houdini import *
from pyvc.interp import GenObj
from .fitspec import *
from .hyper import opt_function

RP = uf('r2point', INT, INT, REAL)
YI = uf('label', INT, INT)


def classes_target(eng, n):
    """targets of a classification problem: 0, 1, ... as floating point numbers"""
    def y(i):
        x = YI(lift(i))
        eng.assume(x >= 0)
        return canon(z3.ToReal(x))
    return eng.alloc(Arr((n,), y, 'f', origin='param'))


# ---------------------------------------------------------------------------------------------------------------- contracts
def compute_contract(I, f, args):
    """compute (C09): evaluates one direction, changes the state of the search only"""
    eng = I.eng
    c = eng.ghost['c18']
    eng.prove('direction: evaluated for the function to optimize', args[0] == c.fun)
    v = args[1] if len(args) > 1 else None
    a = deref(eng, v)
    ok = isinstance(a, Arr) and a.ndim == 1 and a.cont == 'ndarray'
    eng.prove('direction: a vector', ok)
    if not ok:
        raise PathEnd()
    cube = I.getattr(c.opt, 'search_space_is_unit_hypercube')
    d = eng.fresh_plain('d', INT)
    if cube is True:
        with eng.scope():
            vec = Vec(s_binop(eng, '-', c.D, 1))
            n, r = vec.goal(eng, v)
            eng.prove('direction: one coordinate less than features', n)
            eng.prove('direction: coordinates between 0 and 1', r)
    else:
        eng.prove('direction: searched in one of the two search spaces', cube is False)
        eng.prove('direction: one coordinate per feature', lift(a.shape[0]) == c.D)
        eng.prove('direction: coordinates are numbers', a.kind in ('f', 'i'))
    if c.point is not None:
        c.point(I, c, a)
    eng.ghost['evaluations'] = canon(lift(eng.ghost['evaluations']) + 1)
    eng.ghost['last_value'] = r = eng.fresh('value', REAL)
    return r


def r2_contract(I, f, args):
    """r2_series_generator(n): the sequence from its start; n >= 1"""
    eng = I.eng
    eng.prove('direction: the sequence has one coordinate less than features', lift(args[0]) == eng.ghost['c18'].D - 1)
    eng.ghost['position'] = z3.IntVal(0)
    eng.ghost['gen'] = g = eng.alloc(GenObj(f, None))
    eng.ghost['gen_n'] = lift(args[0])
    return g


def next_contract(I, ref, o):
    eng = I.eng
    if eng.ghost.get('gen') != ref:
        raise Unsupported('another generator')
    p = lift(eng.ghost['position'])
    eng.ghost['position'] = canon(p + 1)

    def fn(d):
        x = RP(p, lift(d))
        eng.assume(z3.And(x >= 0, x < 1))
        return x
    return eng.alloc(Arr((eng.ghost['gen_n'],), fn, 'f'))


def random_state(I, args, kw):
    eng = I.eng
    c = eng.ghost['c18']
    seed = args[0] if args else kw.get('seed')
    conf = eng.deref(c.opt).fields.get('seed')
    eng.prove('determinism: random generators start from the configured seed', seed is not None and (isinstance(seed, int) or conf is not None and same_val(seed, conf)))
    return lib.np_randomstate(eng, seed)


# ---------------------------------------------------------------------------------------------------------------- library optimizers
def scipy_solver(I, args, kw):
    """a global optimizer of scipy: calls func on vectors within the bounds, an unknown number of times"""
    eng = I.eng
    c = eng.ghost['c18']
    names = ['func', 'bounds']
    a = dict(zip(names, args), **kw)
    conf = eng.deref(c.opt).fields.get('seed')
    eng.prove('determinism: random generators start from the configured seed', 'seed' in a and same_val(a['seed'], conf))
    eng.prove('direction: the configured settings reach the solver', 'setting' in a and same_val(a['setting'], c.setting))

    def solve(I, args, kw):
        b = deref(eng, a['bounds'])
        if isinstance(b, ListObj):
            b = as_arr(eng, b)
        if not isinstance(b, Arr) or b.ndim != 2 or not eng.holds(lift(b.shape[1]) == 2):
            raise Unsupported('bounds of a solver')
        f = eng.fresh_fun('sol', INT, REAL)

        def fn(i):
            x = f(lift(i))
            eng.assume(z3.And(x >= lift(to_real(b.fn(i, 0))), x <= lift(to_real(b.fn(i, 1)))))
            return x
        p = eng.alloc(Arr((b.shape[0],), fn, 'f'))
        objective(I, c, a['func'], p)
        return Opaque('result')
    return eng.alloc(Obj(ClassV('ScipySolver', None, None), {'solve': solve}))


def objective(I, c, f, arg):
    """one call of the objective a library optimizer minimises"""
    eng = I.eng
    n0 = lift(eng.ghost['evaluations'])
    r = I.call(f, [arg], {})
    eng.prove('direction: the objective evaluates one direction', lift(eng.ghost['evaluations']) == n0 + 1)
    ok = is_num(r) and eng.ghost.get('last_value') is not None
    eng.prove('direction: the objective is the value of the direction', ok and lift(r) == eng.ghost['last_value'])


def tpe_sampler(I, args, kw):
    return Opaque('sampler')


def create_study(I, args, kw):
    eng = I.eng
    c = eng.ghost['c18']
    eng.prove('direction: the objective is minimised', kw.get('direction', 'minimize') == 'minimize')

    def suggest(I, args, kw):
        a = dict(zip(['name', 'low', 'high'], args), **kw)
        x = eng.fresh('suggested', REAL)
        lo, hi = lift(to_real(a['low'])), lift(to_real(a['high']))
        eng.prove('direction: a range of values is searched', lo <= hi)
        eng.assume(z3.And(x >= lo, x <= hi))
        return x

    def optimize(I, args, kw):
        a = dict(zip(['func', 'n_trials'], args), **kw)
        eng.prove('direction: the configured number of trials is made', same_val(a.get('n_trials'), c.args[0]))
        trial = eng.alloc(Obj(ClassV('Trial', None, None), {'suggest_uniform': suggest, 'suggest_float': suggest}))
        objective(I, c, a['func'], trial)
        return None
    return eng.alloc(Obj(ClassV('Study', None, None), {'optimize': optimize}))


LIBRARY = {'ext:optuna.create_study': create_study, 'ext:optuna.samplers.TPESampler': tpe_sampler, 'ext:optuna.logging.set_verbosity': lambda I, args, kw: None}


# ---------------------------------------------------------------------------------------------------------------- points
def sequence_point(I, c, a):
    """the evaluation number i is that of point i of the sequence"""
    eng = I.eng
    d = eng.fresh_plain('d', INT)
    with eng.scope():
        eng.assume(z3.And(d >= 0, d < c.D - 1))
        eng.prove('direction: the next point of the sequence', lift(to_real(a.fn(d))) == RP(lift(eng.ghost['evaluations']), d))


def difference_point(I, c, a):
    """difference of two data points of different classes"""
    eng = I.eng
    d = eng.fresh_plain('d', INT)
    eng.assume(z3.And(d >= 0, d < c.D))
    v = lift(to_real(a.fn(d)))
    rows = []
    for x in subterms(v).values():
        if z3.is_app(x) and x.decl().eq(XROW) and not any(x.arg(0).eq(r) for r in rows):
            rows.append(x.arg(0))
    if len(rows) != 2:
        eng.prove('direction: difference of two data points', False)
        return
    r1, r2 = rows
    x1, x2 = xval(r1, d), xval(r2, d)
    up = eng.holds(v == x1 - x2)
    eng.prove('direction: difference of two data points', v == x1 - x2 if up else v == x2 - x1)
    y = deref(eng, c.y)
    eng.prove('direction: the points are in the data', z3.And(r1 >= 0, r1 < c.m, r2 >= 0, r2 < c.m))
    eng.prove('direction: the points are of different classes', lift(y.fn(r1)) != lift(y.fn(r2)))


# ---------------------------------------------------------------------------------------------------------------- tasks
def owned(n):
    return n.startswith(('direction', 'determinism', 'no ', 'frame', 'exactly')) or 'determinism' in n


def solve_task(clsname, title, params, cont='ndarray', point=None, count=None, raises=False, numpreds=(), tp=False, extra=()):
    H = Houdini(None, ('evaluations', 'position'), numpreds)

    def setup(I, cls):
        eng = I.eng
        c = Ctx()
        c.point = point
        c.m, c.D = z3.Int('m'), z3.Int('D')
        eng.assume(z3.And(c.m >= 1, c.D >= 2))
        c.X = data_matrix(eng, c.m, c.D, cont)
        c.y = classes_target(eng, c.m) if tp else target(eng, c.m)
        c.args = []
        eng.ghost['c18'] = c
        for p in params:
            x = z3.Real('cfg_' + p) if p.endswith('factor') else z3.Int('cfg_' + p)
            if p != 'seed' and not p.endswith('factor'):
                eng.assume(x >= (1 if p == 'n_keep' else 0))
            c.args.append(x)
        c.setting = z3.Int('cfg_setting')
        c.opt = I.call(cls, list(extra) + c.args, {'setting': c.setting} if extra else {})
        o = eng.deref(c.opt)
        eng.heap[c.opt.addr] = Obj(o.cls, o.fields, o.node, 'param')
        for p, x in zip(params, c.args):
            eng.prove('direction: the configured %s is kept' % p, same_val(o.fields.get(p), x))
        flag = I.getattr(c.opt, 'search_space_is_unit_hypercube')
        fc = I.prog.cls('HyperplaneOptimizationFunction')
        c.fun = eng.alloc(Obj(fc, {'X': c.X, 'y': c.y, 'search_space_is_unit_hypercube': flag, 'prior': Opaque('prior')}, origin='param'))
        eng.ghost['evaluations'] = z3.IntVal(0)
        eng.ghost['position'] = z3.IntVal(0)
        H.vec = Vec(s_binop(eng, '-', c.D, 1))
        H.install(I)
        return [c.opt, c.fun], {}, c

    def post(I, r, c):
        eng = I.eng
        check_frozen(eng)
        frame_ok(eng, what='solve')
        if count is not None:
            count(I, c, lift(eng.ghost['evaluations']))
    cs = {'HyperplaneOptimizationFunction.compute': compute_contract, 'compute': compute_contract, 'r2_series_generator': r2_contract, 'next': next_contract,
          'ext:numpy.random.RandomState': random_state, **LIBRARY}
    name = 'solve (%s%s)' % (title, '' if cont == 'ndarray' else ', X as %s' % cont)
    return houdini_task(name, lambda: body_task(name, clsname, 'solve', setup, post, cs, select=owned, exc=(lambda I, ex, c: True) if raises else None), H)


def counted(I, n, goal, what):
    if any(x.decl().name().startswith('count!') for x in subterms(n).values() if z3.is_const(x)) and not I.eng.holds(goal):
        raise Unsupported('no invariant found for the number of evaluations')
    I.eng.prove('exactly the configured number of directions is evaluated' + what, goal)


def exactly(p):
    return lambda I, c, n: counted(I, n, n == lift(p(c)), '')


def two_point_count(I, c, n):
    """none if all targets are equal"""
    eng = I.eng
    y = deref(eng, c.y)
    i = eng.fresh_plain('row', INT)
    eng.assume(z3.And(i >= 0, i < c.m))
    for q in (i, z3.IntVal(0)):
        instantiate(eng, q, kinds=('nunique',))
    all_equal = unique_info(eng, c.m, y.fn) == 1
    counted(I, n, n == z3.If(all_equal, 0, lift(c.args[0])), ', none if all targets are equal')


def cfg(k):
    return lambda c: c.args[k]


def solve_tasks():
    ts = [solve_task('RandomHyperplaneOptimizer', 'random directions', ['n_mc', 'seed'], count=exactly(cfg(0))),
          solve_task('QuasiRandomHyperplaneOptimizer', 'quasi-random directions', ['n'], point=sequence_point, count=exactly(cfg(0)))]
    for cont in ('ndarray', 'csr', 'csc'):
        ts.append(solve_task('RandomTwoPointOptimizer', 'two points', ['n_mc', 'seed'], cont, difference_point, two_point_count, tp=True))
    ts.append(solve_task('SimulatedAnnealingOptimizer', 'simulated annealing', ['n_scan', 'n_keep', 'spread_factor', 'seed'], raises=True))
    ts.append(solve_task('GradientDescentOptimizer', 'gradient descent', ['n_init', 'n_keep'], raises=True, numpreds={'power of ten': p10}))
    ts.append(solve_task('ScipyOptimizer', 'a scipy solver', ['seed'], extra=(scipy_solver,)))
    ts.append(solve_task('OptunaOptimizer', 'an optuna study', ['n_trials', 'seed']))
    return ts


def sequence_task():
    """every point of the quasi-random sequence has as many coordinates as asked for, all in [0, 1)"""
    H = Houdini(None, (), {'positive': lambda eng, x: canon_bool(lift(to_real(x)) > 0)})

    def setup(I, cls):
        eng = I.eng
        c = Ctx()
        c.n = z3.Int('n_dim')
        eng.assume(c.n >= 1)
        eng.ghost['c18'] = c
        H.install(I)
        return [c.n], {}, c

    def point(I, v):
        eng = I.eng
        c = eng.ghost['c18']
        a = deref(eng, v)
        ok = isinstance(a, Arr) and a.ndim == 1 and a.cont == 'ndarray'
        eng.prove('points of the sequence are vectors', ok)
        if not ok:
            raise PathEnd()
        d = eng.fresh_plain('d', INT)
        with eng.scope():
            eng.assume(z3.And(d >= 0, d < c.n))
            eng.prove('points of the sequence have as many coordinates as asked for', lift(a.shape[0]) == c.n)
            x = lift(to_real(a.fn(d)))
            eng.prove('coordinates of the sequence are at least 0 and less than 1', z3.And(x >= 0, x < 1))
        done(eng)

    def post(I, r, c):
        I.eng.prove('the sequence does not end', False)
    return houdini_task('r2_series_generator', lambda: fun_task('r2_series_generator', 'utils', 'r2_series_generator', setup, post, {'yield': point}), H)


def tasks():
    return solve_tasks() + [sequence_task()]
