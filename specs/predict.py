"""Prediction: contract of _predict and of the leaf functions (C01), of _update_prediction_paths (C02)."""
from .scoring import *

XROW = uf('xrow', INT, RowSort)       # rows of the caller's matrix
YOLD = uf('yold', INT, REAL)
YOLD2 = uf('yold2', INT, INT, INT, REAL)
CONTAINERS = ('ndarray', 'csr', 'csc')
ALL_CONTAINERS = ('ndarray', 'raw ndarray', 'df', 'csr', 'csc', 'list', 'one row', 'one row list')


def proj(eng, n, r):
    """signed distance of row r to the hyperplane of node n"""
    D = NDIM(n)
    p = sums.SUM(eng, 0, D, lambda d: VAL(r, lift(d)) * NORMAL(n, lift(d)))
    o = sums.SUM(eng, 0, D, lambda d: NORMAL(n, lift(d)) * ORIGIN(n, lift(d)))
    return s_binop(eng, '-', p, o)


def goes_left(eng, cls, n, r):
    """the row lies strictly below the split"""
    if is_perp(cls):
        return canon_bool(VAL(r, SDIM(n)) < SVAL(n))
    return canon_bool(lift(to_real(proj(eng, n, r))) < 0)


def unfold_leaf(eng, cls, n, r):
    """defining equation of LEAF at (n, r)"""
    r = canon(r)
    key = ('leaf', n.get_id(), r.get_id())
    if key in eng.ghost:
        return
    keep(n)
    keep(r)
    eng.ghost[key] = True
    leaf_fact(eng, n, LEAF(n, r) == n)
    with_ = goes_left(eng, cls, n, r)
    split_fact(eng, n, LEAF(n, r) == z3.If(with_, LEAF(C1(n), r), LEAF(C2(n), r)))


def data_matrix(eng, m, D, cont, name='xrow'):
    """X of the caller: m rows, D columns"""
    f = uf(name, INT, RowSort)
    fn = lambda i, d: VAL(f(lift(i)), lift(d))
    rows = {'rows': lambda t: f(lift(t))}
    if cont == 'list':
        return eng.alloc(ListObj(None, m, lambda i: ListObj(None, D, lambda d: fn(i, d), origin='param'), origin='param'))
    if cont == 'one row':
        return eng.alloc(Arr((D,), lambda d: fn(0, d), 'f', origin='param'))
    if cont == 'one row list':
        return eng.alloc(ListObj(None, D, lambda d: fn(0, d), origin='param'))
    if cont == 'raw ndarray':
        return eng.alloc(Arr((m, D), fn, 'f', 'ndarray', origin='param', meta={'dt': 'any'}))
    if cont == 'raw csr':
        return eng.alloc(Arr((m, D), fn, 'f', 'csr', origin='param', meta={'dt': 'any'}))
    if cont == 'raw csc':
        return eng.alloc(Arr((m, D), fn, 'f', 'csc', origin='param', meta={'dt': 'any'}))
    meta = {'dt': 'any', 'columns': Opaque('column names')} if cont == 'df' else {}
    return eng.alloc(Arr((m, D), fn, 'f', cont, origin='param', meta=meta))


def row_of(eng, X):
    """the rows of a matrix value as function of the position (X[i, d] must be value d of a row that depends on i only)"""
    i, d = eng.fresh_plain('ri', INT), eng.fresh_plain('rd', INT)
    with eng.scope():
        eng.assume(z3.And(i >= 0, i < lift(X.shape[0]), d >= 0, d < lift(X.shape[1])))
        eng.nofork += 1
        try:
            e = canon(lift(to_real(X.fn(i, d))))
        finally:
            eng.nofork -= 1
    if e.num_args() == 2 and e.decl().eq(VAL) and e.arg(1).eq(d) and not contains(e.arg(0), d):
        t = e.arg(0)
        return lambda k: canon(z3.substitute(t, (i, lift(k))))
    raise Unsupported('the matrix handed on is not made of rows of the caller (%s)' % short(e))


def index_listing(eng, v, what):
    a = deref(eng, v)
    if isinstance(a, Arr) and a.meta.get('wrapped'):
        eng.prove('%s: row positions fit into the element type' % what, False)
    if not isinstance(a, Arr) or a.ndim != 1 or a.meta.get('listing') is None:
        raise Unsupported('%s is not a set of row positions' % what)
    return a.meta['listing']


def mode_of(eng, v):
    if v is None or isinstance(v, bool):
        return v
    raise Unsupported('predict_class')


def out_value(eng, cls, n, leafnode, mode):
    """the answer for a row whose leaf is leafnode"""
    if is_reg(cls):
        if mode is None:
            return Arr((2, 4), lambda a, i: z3.If(lift(a) == 0, PRIOR(leafnode, lift(i)), POST(leafnode, lift(i))), 'f')
        return POST(leafnode, z3.IntVal(0))
    K = NCLS(n)
    if mode is None:
        return Arr((2, K), lambda a, i: z3.If(lift(a) == 0, PRIOR(leafnode, lift(i)), POST(leafnode, lift(i))), 'f')
    if mode:
        return CLSOF(leafnode)
    return Arr((K,), lambda i: PROBA(leafnode, lift(i)), 'f')


def c_predict_leaf(I, f, args):
    o = I.eng.deref(args[0])
    return out_value(I.eng, o.cls, o.node, o.node, True)


def c_mean(I, f, args):
    o = I.eng.deref(args[0])
    r = out_value(I.eng, o.cls, o.node, o.node, False)
    return I.eng.alloc(r) if isinstance(r, Arr) else r


def c_raw(I, f, args):
    o = I.eng.deref(args[0])
    r = out_value(I.eng, o.cls, o.node, o.node, None)
    return I.eng.alloc(r)


LEAF_CONTRACTS = {'_predict_leaf': c_predict_leaf, '_compute_posterior_mean': c_mean, '_get_raw_leaf_data_internal': c_raw}


def predict_contract(I, f, args):
    eng = I.eng
    ref, X, indices, mode, y = args
    o = eng.deref(ref)
    n, cls = o.node, o.cls
    Xa = deref(eng, X)
    if not isinstance(Xa, Arr) or Xa.ndim != 2:
        raise Unsupported('X of _predict')
    eng.prove('precondition of _predict: X is a float64 matrix', Xa.meta.get('dt') != 'any' and Xa.cont in CONTAINERS)
    eng.prove('precondition of _predict: as many features as the training data', lift(Xa.shape[1]) == NDIM(n))
    L = index_listing(eng, indices, 'indices')
    rows = row_of(eng, Xa)
    ya = deref(eng, y)
    m = ya.length if isinstance(ya, ListObj) else ya.shape[0]
    if not (L.universe is not None and eng.entails(z3.And(lift(L.universe) <= lift(m), lift(L.universe) <= lift(Xa.shape[0])))):
        eng.prove('precondition of _predict: positions are rows of X and entries of y', False)
    md = mode_of(eng, mode)
    val = lambda k: out_value(eng, cls, n, LEAF(n, rows(k)), md)

    def new(old):
        def fn(k):
            mem = canon_bool(eng.simp(lift(L.member(k))))
            if eng.entails(mem):
                return val(k)
            if eng.entails(z3.Not(mem)):
                return old(k)
            return ite(eng, mem, val(k), old(k))
        return fn
    if isinstance(ya, ListObj):
        base = ya
        eng.log.append(('set', y.addr, ('contract',), None, ya.origin))
        eng.heap[y.addr] = ListObj(None, ya.length, new(lambda k: list_at(eng, base, k)), ya.origin)
    else:
        write_arr(eng, y, new(ya.fn))
    return None


CONTRACTS = dict(LEAF_CONTRACTS, _predict=predict_contract)


def any_subset(eng, m):
    """an arbitrary injective enumeration of rows 0..m-1"""
    q = z3.Int('nidx')
    eng.assume(z3.And(q >= 1, q <= m))
    AT, POSF, MEM = uf('ixat', INT, INT), uf('ixpos', INT, INT), uf('ixmem', INT, BOOL)

    def at(t):
        t = lift(t)
        r = AT(t)
        eng.assume(z3.Implies(z3.And(t >= 0, t < q), z3.And(r >= 0, r < m, MEM(r), POSF(r) == t)))
        return r

    def pos(k):
        k = lift(k)
        p = POSF(k)
        eng.assume(z3.Implies(z3.And(MEM(k), k >= 0, k < m), z3.And(p >= 0, p < q, AT(p) == k)))
        return p
    L = Listing(q, at, lambda k: canon_bool(z3.And(lift(k) >= 0, lift(k) < m, MEM(lift(k)))), pos, m)
    return eng.alloc(Arr((q,), lambda t: at(t), 'i', origin='param', meta={'listing': L})), L


def old_answers(eng, cls, m, mode, n):
    """y before the call, arbitrary contents"""
    if is_reg(cls) and mode is not None or mode is True:
        if mode is True:
            return eng.alloc(Arr((m,), lambda i: YOLD(lift(i)), 'f', origin='param')), lambda k: YOLD(lift(k))
        f = lambda k: YOLD(lift(k))
        return eng.alloc(ListObj(None, m, f, origin='param')), f
    K = 4 if is_reg(cls) else NCLS(n)
    sh = (2, K) if mode is None else (K,)
    f = lambda k: Arr(sh, lambda *i: YOLD2(lift(k), lift(i[0]), lift(i[-1])), 'f')
    return eng.alloc(ListObj(None, m, f, origin='param')), f


def same_answer(eng, what, got, want, cond=None):
    got, want = deref(eng, got), deref(eng, want)
    if isinstance(got, Opt):
        got = got.value
    if isinstance(want, Arr):
        if not isinstance(got, Arr) or got.ndim != want.ndim:
            eng.prove(what + ': shape', False)
            return
        idx = []
        for s, t in zip(got.shape, want.shape):
            eng.prove(what + ': extent', lift(s) == lift(t))
            i = eng.fresh_plain('o', INT)
            eng.assume(z3.And(i >= 0, i < lift(t)))
            idx.append(i)
        if want.ndim == 2:
            for a in (0, 1):
                eng.prove(what, lift(to_real(got.fn(a, idx[1]))) == lift(to_real(want.fn(a, idx[1]))))
        else:
            eng.prove(what, lift(to_real(got.fn(*idx))) == lift(to_real(want.fn(*idx))))
        return
    if isinstance(got, Arr):
        eng.prove(what + ': a number per row', False)
        return
    if not is_num(got):
        eng.prove(what + ': a number per row', False, repr(got))
        return
    eng.prove(what, lift(to_real(got)) == lift(to_real(want)))


def predict_body(c, cont, mode):
    def setup(I, cls):
        eng = I.eng
        r = self_node(eng, cls)
        n = deref(eng, r).node
        m = z3.Int('m')
        eng.assume(m >= 1)
        X = data_matrix(eng, m, NDIM(n), cont)
        ix, L = any_subset(eng, m)
        y, old = old_answers(eng, cls, m, mode, n)
        return [r, X, ix, mode, y], {}, (n, m, L, y, old, cls)

    def post(I, res, ctx):
        eng = I.eng
        n, m, L, y, old, cls = ctx
        ya = deref(eng, y)
        eng.prove('y keeps its length', lift(ya.length if isinstance(ya, ListObj) else ya.shape[0]) == m)
        k = eng.fresh_plain('row', INT)
        eng.assume(z3.And(k >= 0, k < m))
        p = L.pos(k)
        instantiate(eng, k, p)
        row = XROW(k)
        unfold_leaf(eng, cls, n, row)
        if eng.choose(canon_bool(lift(L.member(k)))):
            got = list_at(eng, ya, k) if isinstance(ya, ListObj) else ya.fn(k)
            same_answer(eng, 'each queried row gets the answer of its leaf', got, out_value(eng, cls, n, LEAF(n, row), mode))
        else:
            got = list_at(eng, ya, k) if isinstance(ya, ListObj) else ya.fn(k)
            same_answer(eng, 'rows that were not queried keep their answer', got, old(k))
        frame_ok(eng, lambda ev: ev[1] == y.addr and ev[0] != 'setattr', '_predict')
    return body_task('%s._predict (%s, %s)' % (c, cont, {True: 'predictions', False: 'probabilities', None: 'raw leaf data'}[mode]),
                     c, '_predict', setup, post, CONTRACTS)


def query_body(c, method, cont, mode):
    def setup(I, cls):
        eng = I.eng
        r = self_node(eng, cls, root=True)
        n = deref(eng, r).node
        m = z3.Int('m') if not cont.startswith('one row') else z3.IntVal(1)
        eng.assume(m >= 1)
        X = data_matrix(eng, m, NDIM(n), cont)
        return [r, X], {}, (n, m, cls)

    def post(I, res, ctx):
        eng = I.eng
        n, m, cls = ctx
        a = deref(eng, res)
        if isinstance(a, ListObj):
            a = as_arr_(eng, res)
        want0 = out_value(eng, cls, n, n, mode)
        nd = 1 + (want0.ndim if isinstance(want0, Arr) else 0)
        eng.prove('an array with one answer per row', isinstance(a, Arr) and a.ndim == nd and lift(a.shape[0]) == m)
        k = eng.fresh_plain('row', INT)
        eng.assume(z3.And(k >= 0, k < m))
        instantiate(eng, k)
        row = XROW(k)
        want = out_value(eng, cls, n, LEAF(n, row), mode)
        if nd == 1:
            same_answer(eng, 'answer k is that of the leaf of row k', a.fn(k), want)
        else:
            same_answer(eng, 'answer k is that of the leaf of row k', Arr(a.shape[1:], lambda *i: a.fn(k, *i), a.kind), want)
        frame_ok(eng, what=method)
    return body_task('%s.%s (X as %s)' % (c, method, cont), c, method, setup, post, CONTRACTS)


def as_arr_(eng, r):
    from pyvc.nplib import as_arr
    return as_arr(eng, r)
