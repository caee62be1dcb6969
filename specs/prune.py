"""Pruning: the state of a tree whose nodes have been changed, and the contract of _prune (C08)."""
from .predict import *

MK = uf('mk', N, N, N, N)            # the node with other children
LEAFOF = uf('leafnode', N, N)        # the node turned into a leaf
PRUNE = uf('pruned', N, N)           # normal form under collapsing sibling leaves with equal predictions
KEPT = [LEVEL, NDATA, NDIM, PP, DELTA, SPREC, PRUNEF, NCLS]
KEPT_SPLIT = [LPNO, LPS, SDIM, SVAL, FNAME]


def PRED(cls, n):
    return POST(n, z3.IntVal(0)) if is_reg(cls) else CLSOF(n)


def once(eng, *key):
    k = ('once',) + tuple(x.get_id() if is_z3(x) else x for x in key)
    if k in eng.ghost:
        return False
    for x in key:
        if is_z3(x):
            keep(x)
    eng.ghost[k] = True
    return True


def mk_facts(eng, cls, n, a, b):
    """definition of MK"""
    m = MK(n, a, b)
    if not once(eng, 'mk', cls.name, m):
        return m
    eng.assume(z3.Not(LEAFP(m)))
    eng.assume(C1(m) == a)
    eng.assume(C2(m) == b)
    for f in KEPT + KEPT_SPLIT:
        eng.assume(f(m) == f(n))
    eng.assume(PRED(cls, m) == PRED(cls, n))
    eng.assume(LEAFOF(m) == LEAFOF(n))
    eng.assume(z3.Implies(z3.And(z3.Not(LEAFP(n)), a == C1(n), b == C2(n)), m == n))
    eng.assume(DEPTH(m) == 1 + z3.If(DEPTH(a) >= DEPTH(b), DEPTH(a), DEPTH(b)))
    eng.assume(NLEAVES(m) == NLEAVES(a) + NLEAVES(b))
    if n.num_args() == 3 and n.decl().eq(MK):
        eng.assume(m == mk_facts(eng, cls, n.arg(0), a, b))
    return m


def leafof_facts(eng, cls, n):
    m = LEAFOF(n)
    if not once(eng, 'leafof', cls.name, m):
        return m
    eng.assume(LEAFP(m))
    eng.assume(DEPTH(m) == 0)
    eng.assume(NLEAVES(m) == 1)
    for f in KEPT:
        eng.assume(f(m) == f(n))
    eng.assume(PRED(cls, m) == PRED(cls, n))
    eng.assume(z3.Implies(LEAFP(n), m == n))
    return m


def unfold_prune(eng, cls, n):
    """definition of PRUNE at n"""
    if not once(eng, 'prune', cls.name, n):
        return
    node_facts(eng, cls, n)
    leaf_fact(eng, n, PRUNE(n) == n)
    a, b = PRUNE(C1(n)), PRUNE(C2(n))
    m = mk_facts(eng, cls, n, a, b)
    l = leafof_facts(eng, cls, n)
    collapse = z3.And(LEAFP(a), LEAFP(b), PRED(cls, a) == PRED(cls, b))
    split_fact(eng, n, PRUNE(n) == z3.If(collapse, l, m))
    for c in (C1(n), C2(n)):
        leaf_fact(eng, c, PRUNE(c) == c)


def prune_lemma(eng, cls, n):
    """what the lemma tasks prove about PRUNE(n)"""
    p = PRUNE(n)
    eng.assume(z3.And(NLEAVES(p) >= 1, DEPTH(p) >= 0))
    eng.assume(NLEAVES(p) <= NLEAVES(n))
    eng.assume(z3.Implies(NLEAVES(p) == NLEAVES(n), p == n))
    eng.assume(PRUNE(p) == p)
    for f in KEPT:
        eng.assume(f(p) == f(n))
    eng.assume(PRED(cls, p) == PRED(cls, n))
    eng.assume(z3.Implies(LEAFP(n), p == n))
    eng.stats.lemmas.add('PRUNE keeps node attributes, never adds leaves, is idempotent (proved by induction in the lemma tasks of C08)')


SPLIT_RESET = {True: {'split_dimension_': -1, 'split_value_': None, 'split_feature_name_': None},
               False: {'best_hyperplane_normal_': None, 'best_hyperplane_origin_': None}}
BASE_RESET = {'child1_': None, 'child2_': None, 'log_p_data_no_split_': None, 'best_log_p_data_split_': None}


def cur_term(eng, ref):
    """node term describing the current state of a tree object"""
    o = eng.deref(ref)
    n, cls = o.node, o.cls
    if n is None:
        raise Unsupported('a tree node in an unknown state')
    f = {k: v for k, v in o.fields.items()}
    if not f:
        kids = []
        for C in (C1, C2):
            r = eng.ghost.get('node:%d' % canon(C(n)).get_id())
            kids.append(canon(C(n)) if r is None else cur_term(eng, r))
        a, b = kids
        if a.eq(canon(C1(n))) and b.eq(canon(C2(n))):
            return n
        return mk_facts(eng, cls, n, a, b)
    want = dict(BASE_RESET, **SPLIT_RESET[is_perp(cls)])
    for k in f:
        eng.prove('only split information of a node is changed (%s)' % k, k in want)
    for k, v in want.items():
        if k not in f:
            eng.prove('a collapsed node carries no split (%s)' % k, False)
        else:
            x = f[k]
            eng.prove('a collapsed node carries no split (%s)' % k, x is None if v is None else (not isinstance(x, (Opt, Ref)) and x is not None and eng.entails(lift(x) == v)))
    return leafof_facts(eng, cls, n)


def poison_below(eng, n):
    for key, r in list(eng.ghost.items()):
        if isinstance(key, str) and key.startswith('node:'):
            o = eng.heap.get(r.addr)
            if isinstance(o, Obj) and o.node is not None and not o.node.eq(n) and contains(o.node, n):
                eng.heap[r.addr] = Opaque('node changed by a callee')


def become(eng, ref, new):
    """the object is now described by the node term `new`"""
    o = eng.deref(ref)
    old = o.node
    q = o.copy()
    q.fields = {}
    q.node = canon(new)
    poison_below(eng, old)
    eng.heap[ref.addr] = q
    eng.log.append(('contract', ref.addr, 'tree', None, o.origin))


def prune_contract(I, f, args):
    eng = I.eng
    ref = args[0]
    o = eng.deref(ref)
    cls = o.cls
    m = cur_term(eng, ref)
    e = eng.ghost.get('prune entry')
    if e is not None:
        eng.prove('termination of _prune: fewer leaves than at entry', NLEAVES(m) < NLEAVES(e))
    unfold_prune(eng, cls, m)
    p = PRUNE(m)
    prune_lemma(eng, cls, m)
    become(eng, ref, p)
    node_facts(eng, cls, canon(p))
    return None


def depth_contract(I, f, args):
    eng = I.eng
    d = lift(args[1])
    m = cur_term(eng, args[0])
    t = LEVEL(m) + DEPTH(m)
    return z3.If(d >= t, d, t)


def leaves_contract(I, f, args):
    return lift(args[1]) + NLEAVES(cur_term(I.eng, args[0]))


def pred_contract(I, f, args):
    o = I.eng.deref(args[0])
    return PRED(o.cls, cur_term(I.eng, args[0]))


CONTRACTS8 = {'_update_depth': depth_contract, '_update_n_leaves': leaves_contract, '_predict_leaf': pred_contract, '_prune': prune_contract}


def prune_body(c):
    def setup(I, cls):
        eng = I.eng
        r = self_node(eng, cls)
        n = deref(eng, r).node
        eng.ghost['prune entry'] = n
        unfold_prune(eng, cls, n)
        for x in (C1(n), C2(n)):
            node_facts(eng, cls, x)
            prune_lemma(eng, cls, x)
        return [r], {}, (r, n, cls)

    def post(I, res, ctx):
        eng = I.eng
        r, n, cls = ctx
        m = cur_term(eng, r)
        # the object may be described by PRUNE of an intermediate state
        for x in list(subterms(m).values()):
            if is_z3(x) and x.sort() == N and x.num_args() and x.decl().eq(PRUNE):
                unfold_prune(eng, cls, x.arg(0))
        a, b = PRUNE(C1(n)), PRUNE(C2(n))
        eng.prove('the tree is the normal form of the tree at entry: exactly the sibling leaves with equal predictions are collapsed, everything else is kept', m == PRUNE(n))
        frame_ok(eng, lambda ev: ev[0] in ('setattr', 'contract'), '_prune')
    return body_task('%s._prune' % c, c, '_prune', setup, post, CONTRACTS8)


def lemmas(c):
    """facts about the spec function PRUNE, by induction over the tree (hypotheses at the two children)"""
    def prep(eng, prog):
        cls = prog.cls(c)
        n = z3.Const('n', N)
        unfold_prune(eng, cls, n)
        a, b = C1(n), C2(n)
        for x in (a, b):
            node_facts(eng, cls, x)
        return cls, n, a, b

    def size(eng, prog):
        cls, n, a, b = prep(eng, prog)
        for x in (a, b):
            eng.assume(z3.Implies(z3.Not(LEAFP(n)), z3.And(NLEAVES(PRUNE(x)) >= 1, NLEAVES(PRUNE(x)) <= NLEAVES(x), z3.Implies(NLEAVES(PRUNE(x)) == NLEAVES(x), PRUNE(x) == x))))
        eng.assume(z3.Implies(LEAFP(n), LEAFOF(n) == n))
        eng.prove('pruning never adds leaves', z3.And(NLEAVES(PRUNE(n)) >= 1, NLEAVES(PRUNE(n)) <= NLEAVES(n)))
        eng.prove('a tree that keeps its number of leaves is unchanged', z3.Implies(NLEAVES(PRUNE(n)) == NLEAVES(n), PRUNE(n) == n))

    def keeps(eng, prog):
        cls, n, a, b = prep(eng, prog)
        p = PRUNE(n)
        for f in KEPT:
            eng.prove('pruning keeps %s of a node' % f.name(), f(p) == f(n))
        eng.prove('pruning keeps the prediction stored in a node', PRED(cls, p) == PRED(cls, n))
        eng.prove('pruning keeps the split of a node that stays split', z3.Implies(z3.Not(LEAFP(p)), z3.And(*([f(p) == f(n) for f in KEPT_SPLIT] + [C1(p) == PRUNE(a), C2(p) == PRUNE(b), z3.Not(LEAFP(n))]))))
        eng.assume(z3.Implies(z3.Not(LEAFP(n)), z3.And(NDATA(PRUNE(a)) == NDATA(a), NDATA(PRUNE(b)) == NDATA(b), LEVEL(PRUNE(a)) == LEVEL(a), LEVEL(PRUNE(b)) == LEVEL(b))))
        eng.prove('the pruned tree is a fitted tree again', z3.Implies(z3.Not(LEAFP(p)), z3.And(NDATA(p) == NDATA(C1(p)) + NDATA(C2(p)), LEVEL(C1(p)) == LEVEL(p) + 1, LEVEL(C2(p)) == LEVEL(p) + 1)))

    def normal(eng, prog):
        cls, n, a, b = prep(eng, prog)
        NF = uf('nf', N, BOOL)

        def nf_def(x):
            eng.assume(NF(x) == z3.Or(LEAFP(x), z3.And(NF(C1(x)), NF(C2(x)), z3.Not(z3.And(LEAFP(C1(x)), LEAFP(C2(x)), PRED(cls, C1(x)) == PRED(cls, C2(x)))))))
        p = PRUNE(n)
        nf_def(n)
        nf_def(p)
        nf_def(LEAFOF(n))
        nf_def(MK(n, PRUNE(a), PRUNE(b)))
        for x in (a, b):
            eng.assume(z3.Implies(z3.Not(LEAFP(n)), z3.And(NF(PRUNE(x)), z3.Implies(NF(x), PRUNE(x) == x))))
        eng.prove('no two sibling leaves of the pruned tree predict the same', NF(p))
        eng.prove('a tree without such siblings is unchanged', z3.Implies(NF(n), PRUNE(n) == n))

    def idem(eng, prog):
        cls, n, a, b = prep(eng, prog)
        for x in (a, b):
            eng.assume(z3.Implies(z3.Not(LEAFP(n)), PRUNE(PRUNE(x)) == PRUNE(x)))
        p = PRUNE(n)
        if eng.choose(LEAFP(n)):
            eng.prove('pruning twice changes nothing more (leaf)', PRUNE(p) == p)
            return
        l, m = LEAFOF(n), MK(n, PRUNE(a), PRUNE(b))
        unfold_prune(eng, cls, l)
        unfold_prune(eng, cls, m)
        eng.prove('pruning twice changes nothing more', PRUNE(p) == p)

    def confluent(eng, prog):
        cls, n, a, b = prep(eng, prog)
        eng.assume(z3.Not(LEAFP(n)))
        unfold_prune(eng, cls, LEAFOF(n))
        eng.prove('collapsing a node first does not change the result', z3.Implies(z3.And(LEAFP(a), LEAFP(b), PRED(cls, a) == PRED(cls, b)), PRUNE(LEAFOF(n)) == PRUNE(n)))
        a2 = z3.Const('a2', N)
        for x, y, nm in ((a2, b, 'first'), (a, a2, 'second')):
            with eng.scope():
                t = a if x is a2 else b
                eng.assume(PRUNE(a2) == PRUNE(t))
                m = mk_facts(eng, cls, n, x, y)
                eng.assume(m == MK(n, x, y))
                unfold_prune(eng, cls, canon(m))
                eng.assume(MK(m, PRUNE(x), PRUNE(y)) == MK(n, PRUNE(x), PRUNE(y)))
                eng.prove('collapsing below the %s child first does not change the result' % nm, PRUNE(m) == PRUNE(n))
    return [lemma_task('lemma: size of PRUNE (%s)' % c, size), lemma_task('lemma: PRUNE keeps nodes (%s)' % c, keeps), lemma_task('lemma: PRUNE is normal (%s)' % c, normal),
            lemma_task('lemma: PRUNE is idempotent (%s)' % c, idem), lemma_task('lemma: the order of collapsing does not matter (%s)' % c, confluent)]
