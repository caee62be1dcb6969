"""C11: invalid input is rejected and leaves the model untouched."""
from .fitbody import *
from .predict import ALL_CONTAINERS
from pyvc.model import *

XY = [('ndarray', y) for y in Y_KINDS] + [(x, 'array') for x in X_KINDS if x != 'ndarray']


def unreachable(name):
    """contract of a method that rejected queries must never reach"""
    def f(I, fn, args):
        raise PyRaise('call of %s' % name)
    return f


GUARDED = {n: unreachable(n) for n in ('_predict', '_update_prediction_paths', '_update_feature_importance')}


def query_task(c, method, cont, fitted):
    """a query that has to be rejected: of an unfitted model, or of a fitted one with another number of features"""
    def setup(I, cls):
        eng = I.eng
        m, D = z3.Int('m') if not (cont or '').startswith('one row') else z3.IntVal(1), z3.Int('D')
        eng.assume(z3.And(m >= 1, D >= 1))
        if fitted:
            r = self_node(eng, cls, root=True)
            eng.assume(D != NDIM(deref(eng, r).node))
        else:
            prior, _, _ = prior_value(eng, cls, 'tuple' if is_reg(cls) else 'ndarray')
            r, _, _ = tree_self(I, cls, **dict({'prior': prior}, **({} if is_perp(cls) else {'optimizer': Opaque('optimizer')})))
        return [r] + ([data_matrix(eng, m, D, cont)] if cont else []), {}, None

    def exc(I, ex, k):
        eng = I.eng
        eng.prove('the query is rejected with ValueError', ex.exc == 'ValueError', ex.exc)
        frame_ok(eng, what='a rejected query')
        return True

    def post(I, r, k):
        I.eng.prove('the query is rejected', False)
    w = 'another number of features' if fitted else 'not fitted'
    return body_task('%s.%s (%s%s)' % (c, method, w, ', X as %s' % cont if cont else ''), c, method, setup, post, GUARDED, exc)


def lemma_enumeration():
    """the strictly ascending enumeration a_0 < .. < a_(u-1) of {0, .., K-1} is 0, .., K-1"""
    def run(eng, prog):
        a, p = uf('enum', INT, INT), uf('enum_pos', INT, INT)
        u, K, t, c, t2 = z3.Ints('u K t c t2')
        eng.assume(z3.And(K >= 1, u >= 1))
        asc = lambda s, r: z3.Implies(z3.And(s >= 0, s < r, r < u), a(s) < a(r))
        isin = lambda s: z3.Implies(z3.And(s >= 0, s < u), z3.And(a(s) >= 0, a(s) < K))
        hit = lambda x: z3.Implies(z3.And(x >= 0, x < K), z3.And(p(x) >= 0, p(x) < u, a(p(x)) == x))
        up = lambda s: z3.Implies(z3.And(s >= 0, s < u), a(s) >= s)
        upp = lambda x: z3.Implies(z3.And(x >= 0, x < K), p(x) >= x)
        for nm, f, st in (('entry t is at least t', up, [isin(z3.IntVal(0)), isin(t), isin(t + 1), asc(t, t + 1)]),
                          ('the position of c is at least c', upp, [hit(z3.IntVal(0)), hit(t), hit(t + 1), asc(p(t + 1), p(t))])):
            with eng.scope():
                for x in st:
                    eng.assume(x)
                eng.assume(t >= 0)
                eng.prove(nm + ': base case', f(z3.IntVal(0)))
                eng.assume(f(t))
                eng.prove(nm + ': induction step', f(t + 1))
        with eng.scope():
            eng.assume(z3.And(t >= 0, t < u))
            for x in (isin(t), hit(a(t)), up(t), upp(a(t)), asc(t, p(a(t))), asc(p(a(t)), t)):
                eng.assume(x)
            eng.prove('entry t is t', a(t) == t)
        with eng.scope():
            for x in (isin(u - 1), up(u - 1), hit(K - 1), upp(K - 1)):
                eng.assume(x)
            eng.prove('there are K entries', u == K)
    return lemma_task('lemma: sorted enumeration', run)


def tasks():
    out = [fit_body(c, x, y, False, post_c11, exc_validation()) for c in CLASSES for x, y in XY]
    for c in CLASSES:
        ms = ['predict', '_get_raw_leaf_data'] + (['predict_proba'] if 'Classification' in c else []) + (['prediction_paths'] if c.startswith('Perp') else [])
        for mth in ms:
            out += [query_task(c, mth, x, f) for x in ALL_CONTAINERS for f in (False, True)]
        out.append(query_task(c, 'feature_importance', None, False))
    return out + [lemma_enumeration()]
