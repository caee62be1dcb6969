"""Abstract view of a fitted tree: node terms and the functions of a node the contracts speak about."""
import z3
from .task import *
from .ops import *
from .nplib import deref, pick, list_at

N = NodeSort
RowSort = z3.DeclareSort('Row')
LEAFP = uf('leafp', N, BOOL)
C1 = uf('c1', N, N)
C2 = uf('c2', N, N)
SDIM = uf('sdim', N, INT)
SVAL = uf('sval', N, REAL)
FNAME = uf('fname', N, ObjSort)
LEVEL = uf('level', N, INT)
NDATA = uf('ndata', N, INT)
NDIM = uf('ndim', N, INT)
NCLS = uf('ncls', N, INT)
PP = uf('pp', N, REAL)
DELTA = uf('deltaf', N, REAL)
SPREC = uf('sprec', N, REAL)
PRUNEF = uf('prunef', N, BOOL)
LPNO = uf('lpno', N, REAL)
LPS = uf('lps', N, REAL)
NORMAL = uf('normal', N, INT, REAL)
ORIGIN = uf('hporigin', N, INT, REAL)
POST = uf('post', N, INT, REAL)
PRIOR = uf('prior', N, INT, REAL)
DEPTH = uf('depth', N, INT)
NLEAVES = uf('nleaves', N, INT)
CLSOF = uf('clsof', N, INT)          # predicted class
PROBA = uf('proba', N, INT, REAL)
VAL = uf('val', RowSort, INT, REAL)
LEAF = uf('leafof', N, RowSort, N)

CLASSES = ['PerpendicularClassificationTree', 'PerpendicularRegressionTree',
           'HyperplaneClassificationTree', 'HyperplaneRegressionTree']
PARAMS = ['partition_prior', 'prior', 'delta', 'prune', 'child_type', 'is_regression', 'split_precision', 'level']


def is_perp(cls):
    return cls.name.startswith('Perpendicular')


def is_reg(cls):
    return 'Regression' in cls.name


def ghost_get(eng, key):
    return eng.ghost.get(key)


def node_ref(eng, cls, n, origin='param', root=False, parent=None):
    """the object of node term n"""
    n = canon(n) if is_z3(n) else n
    key = 'node:%d' % n.get_id()
    if key in eng.ghost:
        return eng.ghost[key]
    keep(n)
    o = Obj(cls, {}, node=n, origin=origin)
    o.ghost['root'] = root
    r = eng.alloc(o)
    eng.ghost[key] = r
    node_facts(eng, cls, n)
    return r


def node_facts(eng, cls, n):
    """TREE: the invariant every fitted node satisfies (established by _fit, see C03, C04, C07, C16)"""
    key = 'facts:%d' % n.get_id()
    if key in eng.ghost:
        return
    eng.ghost[key] = True
    eng.assume(LEVEL(n) >= 0)
    eng.assume(NDATA(n) >= 1)
    eng.assume(NDIM(n) >= 1)
    if not is_reg(cls):
        eng.assume(NCLS(n) >= 2)
    nl = z3.Not(LEAFP(n))
    a, b = C1(n), C2(n)
    for c in (a, b):
        eng.assume(z3.Implies(nl, LEVEL(c) == LEVEL(n) + 1))
        eng.assume(z3.Implies(nl, NDIM(c) == NDIM(n)))
        eng.assume(z3.Implies(nl, PP(c) == PP(n)))
        eng.assume(z3.Implies(nl, DELTA(c) == DELTA(n)))
        eng.assume(z3.Implies(nl, SPREC(c) == SPREC(n)))
        eng.assume(z3.Implies(nl, PRUNEF(c) == PRUNEF(n)))
        eng.assume(z3.Implies(nl, NCLS(c) == NCLS(n)))
    eng.assume(z3.Implies(nl, NDATA(n) == NDATA(a) + NDATA(b)))
    if is_perp(cls):
        eng.assume(z3.Implies(nl, z3.And(SDIM(n) >= 0, SDIM(n) < NDIM(n))))
        eng.assume(z3.Implies(nl, LPS(n) > LPNO(n)))
    else:
        eng.assume(z3.Implies(nl, LPS(n) >= LPNO(n)))
    # spec functions of the tree
    eng.assume(z3.Implies(LEAFP(n), DEPTH(n) == 0))
    eng.assume(z3.Implies(LEAFP(n), NLEAVES(n) == 1))
    eng.assume(DEPTH(n) >= 0)
    eng.assume(NLEAVES(n) >= 1)
    eng.assume(z3.Implies(nl, DEPTH(n) == 1 + z3.If(DEPTH(a) >= DEPTH(b), DEPTH(a), DEPTH(b))))
    eng.assume(z3.Implies(nl, NLEAVES(n) == NLEAVES(a) + NLEAVES(b)))
    eng.assume(z3.Implies(nl, z3.And(DEPTH(a) >= 0, DEPTH(b) >= 0, NLEAVES(a) >= 1, NLEAVES(b) >= 1)))


def vec(n_, f, node, tag=None, cont='ndarray'):
    return Arr((n_,), lambda i: f(node, lift(i)), 'f', cont, origin='param', tag=tag)


def fixed(eng, key, mk):
    """heap cell created once per path"""
    if key not in eng.ghost:
        eng.ghost[key] = eng.alloc(mk())
    return eng.ghost[key]


def attr_hook(I, ref, o, name, has=False):
    """attributes of a fitted node"""
    eng = I.eng
    n = o.node
    if n is None:
        return NotImplemented
    cls = o.cls
    perp, reg = is_perp(cls), is_reg(cls)
    leaf = LEAFP(n)
    k = n.get_id()

    def child(f):
        return Opt(leaf, node_ref(eng, cls, f(n), o.origin))
    T = {
        'partition_prior': lambda: PP(n), 'delta': lambda: DELTA(n), 'prune': lambda: PRUNEF(n),
        'child_type': lambda: cls, 'is_regression': lambda: reg, 'split_precision': lambda: SPREC(n),
        'level': lambda: LEVEL(n), 'n_data_': lambda: NDATA(n),
        'child1_': lambda: child(C1), 'child2_': lambda: child(C2),
        'log_p_data_no_split_': lambda: Opt(leaf, LPNO(n)), 'best_log_p_data_split_': lambda: Opt(leaf, LPS(n)),
        'posterior_': lambda: Tup(POST(n, z3.IntVal(i)) for i in range(4)) if reg else fixed(eng, 'post:%d' % k, lambda: vec(NCLS(n), POST, n, 'posterior')),
        'prior': lambda: Tup(PRIOR(n, z3.IntVal(i)) for i in range(4)) if reg else fixed(eng, 'prior:%d' % k, lambda: vec(NCLS(n), PRIOR, n, 'prior')),
    }
    if perp:
        T.update({'split_dimension_': lambda: z3.If(leaf, z3.IntVal(-1), SDIM(n)) if not eng.entails(z3.Not(leaf)) else SDIM(n),
                  'split_value_': lambda: Opt(leaf, SVAL(n)), 'split_feature_name_': lambda: Opt(leaf, FNAME(n))})
    else:
        T.update({'best_hyperplane_normal_': lambda: Opt(leaf, fixed(eng, 'normal:%d' % k, lambda: vec(NDIM(n), NORMAL, n, 'normal'))),
                  'best_hyperplane_origin_': lambda: Opt(leaf, fixed(eng, 'origin:%d' % k, lambda: vec(NDIM(n), ORIGIN, n, 'origin'))),
                  'optimizer': lambda: Opaque('optimizer'), })
    if o.ghost.get('root'):
        T['n_dim_'] = lambda: NDIM(n)
    if name not in T:
        return NotImplemented
    if has:
        return True
    return T[name]()


def self_node(eng, cls, name='n', root=False):
    return node_ref(eng, cls, z3.Const(name, N), root=root)


def leaf_fact(eng, n, f):
    """f assumed where n is a leaf"""
    eng.assume(z3.Implies(LEAFP(n), f))


def split_fact(eng, n, f):
    eng.assume(z3.Implies(z3.Not(LEAFP(n)), f))


def lemma_task(name, run):
    """a lemma about spec functions, run(eng) states assumptions and proves"""
    def fn(prog, eng):
        def path():
            run(eng, prog)
            done(eng)
        eng.explore(path)
    return Task(name, fn)


def write_arr(eng, ref, fn, what='contract'):
    """new contents of an array, logged as a write"""
    a = eng.heap[ref.addr]
    if a.base is not None:
        raise Unsupported('contract writes through a view')
    eng.log.append(('set', ref.addr, (what,), None, a.origin))
    eng.heap[ref.addr] = Arr(a.shape, fn, a.kind, a.cont, None, a.tag, a.origin, {k: v for k, v in a.meta.items() if k == 'dt'})


def body_task(name, clsname, method, setup, post, contracts=None, exc=None, attr=attr_hook, guard=None, select=None, quiet=False, linear=False, fun=False):
    """task verifying the body of clsname.method: setup(I, cls) -> (args, kw, ctx); post(I, result, ctx).
    quiet: obligations inside the body (preconditions of callees and library functions, no exception) are left to the task of
    the property that owns them; only the postcondition is proved here"""
    def fn(prog, eng):
        eng.select = select
        cls = None if fun else prog.cls(clsname)
        m = prog.func(clsname, method) if fun else prog.method(cls, method)
        if m is None:
            raise Unsupported('%s.%s is gone' % (clsname, method))

        def path():
            I = Interp(prog, eng, contracts() if callable(contracts) else contracts, attr)
            eng.linear = linear
            eng.select = quiet if callable(quiet) else (lambda n: False) if quiet else select
            args, kw, ctx = setup(I, cls)
            try:
                r = I.call_func(m, args, kw, entry=True)
                eng.select = select
            except PyRaise as ex:
                eng.select = select
                if quiet and exc is None:
                    done(eng)
                    return
                if exc is not None:
                    if exc(I, ex, ctx):
                        done(eng)
                        return
                if not eng._consistent():
                    return
                eng.prove('no %s escapes from %s' % (ex.exc, method), False, str(ex.msg or ''))
                return
            post(I, r, ctx)
            done(eng)
        eng.explore(path)
    return Task(name, fn)


def fun_task(name, module, func, setup, post, contracts=None, **kw):
    """task verifying the body of a function of a module"""
    return body_task(name, module, func, setup, post, contracts, fun=True, **kw)


def selected(task, select):
    """the obligations of a task that belong to another property as well"""
    def fn(prog, eng):
        eng.owned = select
        task.fn(prog, eng)
    return Task(task.name, fn)


def determinism(task):
    """the obligations of a task about random numbers, object identity and the environment"""
    def fn(prog, eng):
        eng.owned = DET
        task.fn(prog, eng)
        eng.prove('determinism: no source of randomness but seeded generators', True)
    return Task(task.name, fn)


def DET(n):
    return 'determinism' in n


def done(eng):
    """the path reached its end; it only counts if its facts (assumptions of the contract included) are not contradictory"""
    if eng._consistent():
        eng.reach += 1


def frame_ok(eng, allowed=lambda ev: False, what=''):
    """no object that existed before the call was written, except as allowed"""
    for ev in eng.log:
        origin = ev[4] if len(ev) > 4 else '?'
        if origin == 'param' and not allowed(ev):
            eng.prove('frame: %s does not modify its inputs (%s %s)' % (what, ev[0], ev[2] if ev[0] == 'setattr' else ''), False)
            return
    eng.prove('frame: %s modifies nothing it received' % what, True)
