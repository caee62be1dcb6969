"""C02: prediction paths (perpendicular trees)."""
from .predict import *
from .predict import CONTAINERS
from pyvc.interp import SeqSort, EMPTYSEQ, Region, SymListRef

PATHACC = uf('pathacc', N, RowSort, SeqSort, SeqSort)   # decisions below node n appended to a sequence
REG0 = uf('reg0', INT, SeqSort)


def step(I, n, right):
    return I.seq_append(Tup((SDIM(n), FNAME(n), SVAL(n), right)))


def unfold_path(I, cls, n, r, s):
    eng = I.eng
    leaf_fact(eng, n, PATHACC(n, r, s) == s)
    split_fact(eng, n, PATHACC(n, r, s) == z3.If(goes_left(eng, cls, n, r), PATHACC(C1(n), r, step(I, n, False)(s)), PATHACC(C2(n), r, step(I, n, True)(s))))


def path_listing(eng, paths):
    """(region address, listing of the family members in the list `paths`)"""
    o = deref(eng, paths)
    if not isinstance(o, ListObj):
        raise Unsupported('paths is not a list')
    t = eng.fresh_plain('pt', INT)
    with eng.scope():
        eng.assume(z3.And(t >= 0, t < lift(o.length)))
        eng.nofork += 1
        try:
            e = list_at(eng, o, t)
        finally:
            eng.nofork -= 1
        if not isinstance(e, SymListRef):
            raise Unsupported('paths is not a list of path lists')
        ix = canon(lift(e.idx))
        if ix.eq(t):
            return e.region, range_listing(eng, o.length)
        cand = [a for a in eng.ghost.get('listings', [])]
        arrs = [a.meta['listing'] for a in eng.heap.values() if isinstance(a, Arr) and a.ndim == 1 and a.meta.get('listing') is not None]
        for A in cand:
            if canon(lift(A.at(t))).eq(ix) and same_dim(A.length, o.length):
                return e.region, A
            for B in arrs:
                if same_dim(B.length, o.length) and canon(lift(A.at(B.at(t)))).eq(ix):
                    return e.region, compose_listing(eng, A, B)
        for B in arrs:
            if same_dim(B.length, o.length) and canon(lift(B.at(t))).eq(ix):
                return e.region, B
    raise Unsupported('paths: which path lists these are')


def path_contract(I, f, args):
    eng = I.eng
    ref, X, indices, paths = args
    o = eng.deref(ref)
    n = o.node
    Xa = deref(eng, X)
    eng.prove('precondition of _update_prediction_paths: X is a float64 matrix', isinstance(Xa, Arr) and Xa.ndim == 2 and Xa.meta.get('dt') != 'any' and Xa.cont in CONTAINERS)
    eng.prove('precondition of _update_prediction_paths: as many features as the training data', lift(Xa.shape[1]) == NDIM(n))
    L = index_listing(eng, indices, 'indices')
    eng.prove('precondition of _update_prediction_paths: one path list per position', lift(L.length) == lift(deref(eng, paths).length))
    rows = row_of(eng, Xa)
    if not eng.entails(lift(L.universe) <= lift(Xa.shape[0])):
        eng.prove('precondition of _update_prediction_paths: positions are rows of X', False)
    reg, P = path_listing(eng, paths)
    old = eng.heap[reg.addr]
    of = old.fn

    def fn(k):
        mem = canon_bool(eng.simp(lift(P.member(k))))
        if eng.entails(z3.Not(mem)):
            return of(k)
        v = PATHACC(n, rows(L.at(P.pos(k))), of(k))
        return v if eng.entails(mem) else z3.If(mem, v, of(k))
    eng.log.append(('set', reg.addr, ('contract',), None, old.origin))
    eng.heap[reg.addr] = Region(fn, old.length, old.origin)
    return None


CONTRACTS = {'_update_prediction_paths': path_contract}


def update_body(c, cont):
    def setup(I, cls):
        eng = I.eng
        r = self_node(eng, cls)
        n = deref(eng, r).node
        m = z3.Int('m')
        eng.assume(m >= 1)
        X = data_matrix(eng, m, NDIM(n), cont)
        ix, L = any_subset(eng, m)
        q = lift(L.length)
        M = z3.Int('npaths')
        eng.assume(M >= q)
        AT, POSF, MEM = uf('ptat', INT, INT), uf('ptpos', INT, INT), uf('ptmem', INT, BOOL)

        def at(t):
            t = lift(t)
            x = AT(t)
            eng.assume(z3.Implies(z3.And(t >= 0, t < q), z3.And(x >= 0, x < M, MEM(x), POSF(x) == t)))
            return x

        def pos(k):
            k = lift(k)
            p = POSF(k)
            eng.assume(z3.Implies(z3.And(MEM(k), k >= 0, k < M), z3.And(p >= 0, p < q, AT(p) == k)))
            return p
        P = Listing(q, at, lambda k: canon_bool(z3.And(lift(k) >= 0, lift(k) < M, MEM(lift(k)))), pos, M)
        eng.ghost['listings'] = [P]
        reg = eng.alloc(Region(lambda k: REG0(lift(k)), M, 'param'))
        paths = eng.alloc(ListObj(None, q, lambda t: SymListRef(reg, at(t)), origin='param'))
        return [r, X, ix, paths], {}, (n, m, L, P, M, reg, cls)

    def post(I, res, ctx):
        eng = I.eng
        n, m, L, P, M, reg, cls = ctx
        k = eng.fresh_plain('path', INT)
        eng.assume(z3.And(k >= 0, k < M))
        t = P.pos(k)
        x = L.at(t)
        instantiate(eng, k, t, x)
        got = eng.heap[reg.addr].fn(k)
        s0 = REG0(k)
        if eng.choose(canon_bool(lift(P.member(k)))):
            row = XROW(lift(x))
            unfold_path(I, cls, n, row, s0)
            for ch, right in ((C1, False), (C2, True)):
                leaf_fact(eng, ch(n), z3.Implies(z3.Not(LEAFP(n)), PATHACC(ch(n), row, step(I, n, right)(s0)) == step(I, n, right)(s0)))
            eng.prove('the decisions below this node are appended to the path of each row, in order', canon(got) == PATHACC(n, row, s0))
        else:
            eng.prove('paths of other rows are unchanged', canon(got) == s0)
        frame_ok(eng, lambda ev: ev[1] == reg.addr, '_update_prediction_paths')
    return body_task('%s._update_prediction_paths (%s)' % (c, cont), c, '_update_prediction_paths', setup, post, CONTRACTS)


def public_body(c, cont):
    def setup(I, cls):
        eng = I.eng
        r = self_node(eng, cls, root=True)
        n = deref(eng, r).node
        m = z3.Int('m') if not cont.startswith('one row') else z3.IntVal(1)
        eng.assume(m >= 1)
        return [r, data_matrix(eng, m, NDIM(n), cont)], {}, (n, m, cls)

    def post(I, res, ctx):
        eng = I.eng
        n, m, cls = ctx
        o = deref(eng, res)
        eng.prove('one path per row', isinstance(o, ListObj) and canon_bool(lift(o.length) == m))
        k = eng.fresh_plain('row', INT)
        eng.assume(z3.And(k >= 0, k < m))
        instantiate(eng, k)
        e = list_at(eng, o, k)
        if not isinstance(e, SymListRef):
            raise Unsupported('paths are not lists')
        eng.prove('path k is that of row k', eng.heap[e.region.addr].fn(e.idx) == PATHACC(n, XROW(k), EMPTYSEQ))
        frame_ok(eng, what='prediction_paths')
    return body_task('%s.prediction_paths (X as %s)' % (c, cont), c, 'prediction_paths', setup, post, CONTRACTS)


def tasks():
    out = []
    for c in CLASSES[:2]:
        for cont in CONTAINERS:
            out.append(update_body(c, cont))
        for cont in ALL_CONTAINERS:
            out.append(public_body(c, cont))
    return out
