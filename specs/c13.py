"""C13: feature importances."""
from .scoring import *

GAIN = uf('gain', N, INT, REAL)     # sum over the splits of the subtree of the log-probability gain attributed to a feature
sums.NONNEG.add('gain')


def weight(cls, n, d):
    d = lift(d)
    if is_perp(cls):
        return z3.If(SDIM(n) == d, z3.RealVal(1), z3.RealVal(0))
    return z3.If(NORMAL(n, d) >= 0, NORMAL(n, d), -NORMAL(n, d))


def gain_at(eng, cls, n, d, children=True):
    """defining equation of GAIN at (n, d); non-negativity is proved by induction in the lemma tasks"""
    d = lift(d)
    leaf_fact(eng, n, GAIN(n, d) == 0)
    split_fact(eng, n, GAIN(n, d) == (LPS(n) - LPNO(n)) * weight(cls, n, d) + GAIN(C1(n), d) + GAIN(C2(n), d))


def contract(I, f, args):
    eng = I.eng
    n = eng.deref(args[0]).node
    a = eng.deref(args[1])
    if not isinstance(a, Arr) or a.ndim != 1:
        raise Unsupported('importance vector')
    eng.prove('precondition of _update_feature_importance: one entry per feature', lift(a.shape[0]) == NDIM(n))
    old = a.fn
    write_arr(eng, args[1], lambda d: s_binop(eng, '+', old(d), GAIN(n, lift(d))))
    return None


def update_task(c):
    def setup(I, cls):
        eng = I.eng
        r = self_node(eng, cls)
        n = deref(eng, r).node
        F0 = uf('fi0', INT, REAL)
        fi = eng.alloc(Arr((NDIM(n),), lambda i: F0(lift(i)), 'f', origin='param'))
        return [r, fi], {}, (n, fi, F0, cls)

    def post(I, res, ctx):
        eng = I.eng
        n, fi, F0, cls = ctx
        a = deref(eng, fi)
        eng.prove('the importance vector keeps its length', lift(a.shape[0]) == NDIM(n))
        d = eng.fresh_plain('d', INT)
        eng.assume(z3.And(d >= 0, d < NDIM(n)))
        gain_at(eng, cls, n, d)
        eng.prove('entry d grows by the gains of the subtree attributed to feature d', lift(to_real(a.fn(d))) == F0(d) + GAIN(n, d))
        frame_ok(eng, lambda ev: ev[1] == fi.addr and ev[0] != 'setattr', '_update_feature_importance')
    return body_task('%s._update_feature_importance' % c, c, '_update_feature_importance', setup, post, {'_update_feature_importance': contract})


def total_task(c):
    def setup(I, cls):
        eng = I.eng
        r = self_node(eng, cls, root=True)
        n = deref(eng, r).node
        return [r], {}, (n, cls)

    def post(I, res, ctx):
        eng = I.eng
        n, cls = ctx
        a = deref(eng, res)
        D = NDIM(n)
        eng.prove('one entry per feature', isinstance(a, Arr) and a.ndim == 1 and lift(a.shape[0]) == D)
        T = lift(sums.SUM(eng, 0, D, lambda v: GAIN(n, lift(v))))
        d = eng.fresh_plain('d', INT)
        eng.assume(z3.And(d >= 0, d < D))
        gain_at(eng, cls, n, d)
        eng.assume(GAIN(n, d) >= 0)
        sums.touch(eng, d)
        x = lift(to_real(a.fn(d)))
        eng.prove('entry d is the share of feature d in the total gain', z3.Implies(T > 0, x == GAIN(n, d) / T))
        eng.prove('all entries are zero if the total gain is zero', z3.Implies(T <= 0, x == 0))
        eng.prove('entries are non-negative', x >= 0)
        s = lift(sums.SUM(eng, 0, D, lambda v: a.fn(v)))
        if eng.choose(T > 0):
            eng.prove('the entries sum to one', s == 1)
        eng.prove('a tree without splits has importance zero', z3.Implies(LEAFP(n), x == 0))
        frame_ok(eng, what='feature_importance')
    return body_task('%s.feature_importance' % c, c, 'feature_importance', setup, post, {'_update_feature_importance': contract})


def lemma(c):
    def run(eng, prog):
        cls = prog.cls(c)
        n, d = z3.Const('n', N), z3.Int('d')
        node_facts(eng, cls, n)
        gain_at(eng, cls, n, d)
        split_fact(eng, n, z3.And(GAIN(C1(n), d) >= 0, GAIN(C2(n), d) >= 0))      # induction hypothesis: the children
        eng.prove('induction step: gains are never negative', GAIN(n, d) >= 0)
    return lemma_task('lemma: gains of a %s are non-negative' % c, run)


def tasks():
    out = []
    for c in CLASSES:
        out += [update_task(c), total_task(c), lemma(c)]
    return out
