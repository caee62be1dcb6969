"""Contract of fit: validation and normalization of the input (C11, C17), call of _fit and _prune (C08, C15), frame (C12)."""
from .fitspec import *

NY = z3.Int('ny')
QY = z3.Int('qy')
COLS = Opaque('column names')
# y: as array of floats / of any number type, list, Series, column, DataFrame with one column, matrix, scalar
Y_KINDS = ('array', 'raw array', 'list', 'series', 'column', 'frame', 'matrix')
X_KINDS = ('ndarray', 'raw ndarray', 'df', 'csr', 'csc', 'raw csr', 'raw csc', 'list', 'one row', '3-d')
YMAT = uf('ymat', INT, INT, REAL)


def target_value(eng, kind):
    f = lambda i: YF(lift(i))
    if kind == 'array':
        return eng.alloc(Arr((NY,), f, 'f', origin='param'))
    if kind == 'raw array':
        return eng.alloc(Arr((NY,), f, 'f', origin='param', meta={'dt': 'any'}))
    if kind == 'list':
        return eng.alloc(ListObj(None, NY, f, origin='param'))
    if kind == 'series':
        return eng.alloc(Arr((NY,), f, 'f', 'series', origin='param', meta={'dt': 'any'}))
    if kind == 'column':
        return eng.alloc(Arr((NY, 1), lambda i, j: f(i), 'f', origin='param'))
    if kind == 'frame':
        return eng.alloc(Arr((NY, 1), lambda i, j: f(i), 'f', 'df', origin='param', meta={'dt': 'any', 'columns': Opaque('target name')}))
    if kind == 'matrix':
        eng.assume(z3.And(QY >= 2, NY >= 2))        # one row of targets is squeezed to a vector like one column
        return eng.alloc(Arr((NY, QY), lambda i, j: YMAT(lift(i), lift(j)), 'f', origin='param'))
    raise ValueError(kind)


def c_fit(I, f, args):
    eng = I.eng
    eng.ghost['calls'] = eng.ghost.get('calls', []) + [('_fit', args)]
    o = eng.deref(args[0]).copy()
    o.stale = frozenset()
    for a in FITTED_ATTRS:
        o.fields[a] = Opaque('result of _fit')
    eng.heap[args[0].addr] = o
    return None


def c_prune(I, f, args):
    eng = I.eng
    eng.ghost['calls'] = eng.ghost.get('calls', []) + [('_prune', args)]
    return None


CONTRACTS = {'_fit': c_fit, '_prune': c_prune}


def fit_body(c, xk, yk, names, post, exc=None, select=None, quiet=False):
    def setup(I, cls):
        eng = I.eng
        k = Ctx()
        k.xk, k.yk, k.cls = xk, yk, cls
        k.m, k.D = z3.Int('m') if not xk.startswith('one row') else z3.IntVal(1), z3.Int('D')
        eng.assume(z3.And(k.m >= 1, k.D >= 1, NY >= 1))
        k.prior, k.K, k.acc = prior_value(eng, cls, 'tuple' if is_reg(cls) else 'ndarray')
        over = {'prior': k.prior}
        if not is_perp(cls):
            over['optimizer'] = Opaque('optimizer')
        k.self, _, _ = tree_self(I, cls, **over)
        o = eng.deref(k.self)
        o.stale = frozenset(FITTED_ATTRS)
        k.params = dict(o.fields)
        if xk == '3-d':
            k.X = eng.alloc(Arr((k.m, k.D, z3.Int('D3')), lambda *i: eng.fresh('v3', REAL), 'f', origin='param'))
        else:
            k.X = data_matrix(eng, k.m, k.D, xk)
        k.y = target_value(eng, yk)
        k.verbose = z3.Bool('verbose')
        k.names = eng.alloc(ListObj(None, k.D, lambda i: FN(lift(i)), origin='param')) if names else None
        k.given = names
        return [k.self, k.X, k.y, k.verbose, k.names], {}, k
    return body_task('%s.fit (X as %s, y as %s%s)' % (c, xk, yk, ', names given' if names else ''), c, 'fit', setup, post, CONTRACTS, exc, select=select, quiet=quiet)


def shape_valid(k):
    """the target is a vector with as many entries as the matrix has rows"""
    if k.xk == '3-d' or k.yk == 'matrix':
        return z3.BoolVal(False)
    return z3.And(NY >= 2, NY == lift(k.m))


CW = uf('class_witness', INT, INT)
CI = uf('class_of_row', INT, INT)


def assume_classes(eng, k):
    """assumes that the targets are exactly the classes 0..K-1 (Skolem functions CI, CW); unique() then enumerates 0..K-1
    (lemma sorted enumeration)"""
    K = lift(k.K)
    for a, u in eng.ghost.get('uniques', []):
        n, un = lift(a.shape[0]), lift(u.shape[0])
        e = lambda j: lift(to_real(to_num(a.fn(j))))
        j = eng.fresh_plain('j', INT)
        with eng.scope():
            eng.assume(z3.And(j >= 0, j < n))
            same = eng.holds(z3.And(e(j) == YF(j), n == NY))
        if not same:
            continue
        eng.stats.lemmas.add('sorted enumeration: the strictly ascending enumeration of {0, .., K-1} is 0, .., K-1')
        eng.assume(un == K)
        eng.ghost['classes'] = (u, K)
        return u
    if eng.ghost.get('uniques'):
        raise Unsupported('the set of classes is not taken from the target itself')
    return None


def exc_validation(c11=True):
    def exc(I, ex, k):
        eng = I.eng
        if c11:
            if ex.exc != 'ValueError':
                eng.prove('validation raises ValueError, nothing else', False, ex.exc)
                return True
            eng.prove('nothing is trained before validation ends', not eng.ghost.get('calls'))
            frame_ok(eng, what='fit before it raises')
        done(eng)
        # is the input really invalid?
        sv = shape_valid(k)
        if eng.entails(z3.Not(sv)):
            eng.prove('valid input is not rejected', True)
            return True
        with eng.scope():
            eng.assume(sv)
            if not eng._consistent():
                eng.prove('valid input is not rejected', True)
                return True
            if not is_reg(k.cls):
                u = assume_classes(eng, k)
                if u is not None:
                    w = u.shape[0]
                    for t in list(eng.ghost.get('wits', [])) + [z3.IntVal(0), z3.IntVal(1)]:
                        eng.assume(z3.Implies(z3.And(t >= 0, t < lift(w)), lift(to_real(to_num(u.fn(t)))) == to_real(t)))
            eng.prove('valid input is not rejected', False) if eng._consistent() else eng.prove('valid input is not rejected', True)
        return True
    return exc


def post_c11(I, r, k):
    eng = I.eng
    eng.prove('a target of the wrong shape or length is rejected', shape_valid(k))
    if not is_reg(k.cls):
        K = lift(k.K)
        j, cl = eng.fresh_plain('j', INT), eng.fresh_plain('class', INT)
        eng.assume(z3.And(j >= 0, j < NY, cl >= 0, cl < K))
        us = [u for a, u in eng.ghost.get('uniques', [])]
        for u in us:
            u.fn(cl)
        instantiate(eng, j, kinds=('unique', 'all'))
        instantiate(eng, cl, kinds=('all',))
        ts = [x for u in us for x in accessed_indices(eng, u)]
        for t in ts:
            instantiate(eng, t, kinds=('all',))
        y = YF(j)
        for t in ts:
            for u in us:
                u.fn(t)
        eng.prove('a target that is not a class is rejected', z3.Or(*[z3.And(t >= 0, t < K, y == z3.ToReal(t)) for t in ts]) if ts else False)
        eng.prove('targets that miss a class are rejected', some_row_has(eng, cl))


def accessed_indices(eng, u):
    return [i for key, xs in eng.access.items() if isinstance(key, tuple) and key and key[0] == 'unique' for i in xs]


def some_row_has(eng, cl):
    """some row has class cl: one of the rows known to the engine"""
    rows = {}
    for f in eng.facts:
        for t in terms.subterms(f).values():
            if not z3.is_quantifier(t) and t.num_args() and t.decl().name().endswith('_src'):
                rows[t.get_id()] = t
    return z3.Or(*[z3.And(t >= 0, t < NY, YF(t) == z3.ToReal(cl)) for t in rows.values()]) if rows else z3.BoolVal(False)


def the_call(eng, name):
    return [a for n, a in eng.ghost.get('calls', []) if n == name]


def post_call(I, r, k):
    """C17: what _fit gets"""
    eng = I.eng
    eng.prove('fit returns the model', isinstance(r, Ref) and r == k.self)
    cs = the_call(eng, '_fit')
    eng.prove('the tree is trained once', len(cs) == 1)
    if len(cs) != 1:
        return
    a = cs[0]
    eng.prove('the model itself is trained', a[0] == k.self)
    X, y = deref(eng, a[1]), deref(eng, a[2])
    eng.prove('training sees a float64 matrix', isinstance(X, Arr) and X.ndim == 2 and X.meta.get('dt') != 'any' and X.cont in ('ndarray', 'csr', 'csc'))
    eng.prove('a sparse matrix stays sparse, anything else becomes an array', X.cont == ({'csr': 'csr', 'csc': 'csc'}.get(k.xk.split()[-1], 'ndarray')))
    eng.prove('as many rows and features as the data', z3.And(lift(X.shape[0]) == lift(k.m), lift(X.shape[1]) == lift(k.D)))
    i, d = eng.fresh_plain('i', INT), eng.fresh_plain('d', INT)
    eng.assume(z3.And(i >= 0, i < lift(k.m), d >= 0, d < lift(k.D)))
    eng.prove('training sees the values of the data', lift(to_real(to_num(X.fn(i, d)))) == xval(i, d))
    eng.prove('training sees a float64 target', isinstance(y, Arr) and y.ndim == 1 and y.meta.get('dt') != 'any' and y.cont == 'ndarray')
    eng.prove('training sees the targets in their order', z3.And(lift(y.shape[0]) == lift(k.m), lift(to_real(to_num(y.fn(i)))) == YF(i)))
    eng.prove('no sort orders are handed to the root', len(a) <= 6 or a[6] is None)
    nm = a[4]
    if k.given:
        eng.prove('feature names given explicitly are used', nm == k.names)
    elif k.xk == 'df':
        eng.prove('feature names are the columns of the DataFrame', isinstance(nm, Opaque) and nm.what == 'column names')
    else:
        no = deref(eng, nm)
        eng.prove('one default name per feature', isinstance(no, ListObj) and lift(no.length) == lift(k.D))
        eng.prove('feature d is called xd', default_name(eng, list_at(eng, no, d), d))


def default_name(eng, s, d):
    from pyvc.lib import str_eq
    want = lib.str_format(eng, 'x{}', [d], {})
    return lib.str_eq(eng, s, want)


def post_c08(I, r, k):
    eng = I.eng
    ps = the_call(eng, '_prune')
    names = [n for n, _ in eng.ghost.get('calls', [])]
    p = k.params['prune']
    if eng.entails(p):
        eng.prove('a tree that is to be pruned is pruned once after training', names == ['_fit', '_prune'] and ps[0][0] == k.self)
    else:
        eng.prove('a tree that is not to be pruned is only trained', names == ['_fit'] and eng.entails(z3.Not(p)))


def post_c12_fit(I, r, k):
    eng = I.eng
    o = eng.deref(k.self)
    for q, v in k.params.items():
        eng.prove('frame: fit leaves the parameter %s as it was' % q, same_val(o.fields.get(q), v))
    frame_ok(eng, lambda ev: ev[1] == k.self.addr and ev[0] == 'setattr' and ev[2] in FITTED_ATTRS, 'fit')


def post_c15_fit(I, r, k):
    """fit hands the work to _fit, which overwrites every fitted attribute; nothing else of the model is written"""
    eng = I.eng
    names = [n for n, _ in eng.ghost.get('calls', [])]
    eng.prove('fitting always trains the tree again, once', names.count('_fit') == 1)
    o = eng.deref(k.self)
    eng.prove('fit stores nothing but what training stores', set(o.fields) - set(k.params) <= set(FITTED_ATTRS))
    for q, v in k.params.items():
        eng.prove('fit leaves the parameter %s as it was' % q, same_val(o.fields.get(q), v))
