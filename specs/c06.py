from .scoring import *
from .c05 import scalar


def no_split_task(c, cont):
    def setup(I, cls):
        eng = I.eng
        s, pp, lv = tree_self(I, cls)
        n = z3.Int('n')
        eng.assume(n >= 1)
        prior, K, acc = prior_value(eng, cls, cont)
        return [s, target(eng, n), prior], {}, (pp, lv, n, acc)

    def post(I, r, ctx):
        eng = I.eng
        pp, lv, n, acc = ctx
        sm = sums.SUM(eng, 0, n, lambda v: YF(lift(v)))
        sq = sums.SUM(eng, 0, n, lambda v: YF(lift(v)) * YF(lift(v)))
        want = s_binop(eng, '+', no_split_prior(eng, pp, lv), ng_evidence(eng, acc, ng_update(eng, acc, n, sm, sq), n))
        eng.prove('log p(no split) = log(1 - p^(1+level)) + Normal-gamma evidence of the targets', lift(scalar(eng, r)) == lift(want))
        frame_ok(eng, what='_compute_log_p_data_no_split')
    return body_task('%s._compute_log_p_data_no_split (prior as %s)' % (c, cont), c, '_compute_log_p_data_no_split', setup, post, {})


def split_task(c, cont, full):
    def setup(I, cls):
        eng = I.eng
        s, pp, lv = tree_self(I, cls)
        n, D = z3.Int('n'), z3.Int('D')
        S = n - 1 if full else z3.Int('S')
        eng.assume(z3.And(n >= 2, D >= 1))
        if not full:
            eng.assume(z3.And(S >= 1, S < n - 1))
        prior, K, acc = prior_value(eng, cls, cont)
        SPL = uf('spl', INT, INT)

        def spl(j):
            if full:
                return lift(j) + 1        # strictly increasing positions in 1..n-1, n-1 of them
            t = SPL(lift(j))
            eng.assume(z3.Implies(z3.And(lift(j) >= 0, lift(j) < S), z3.And(t >= 1, t <= n - 1)))
            return t
        si = eng.alloc(Arr((S,), spl, 'i', origin='param'))
        return [s, target(eng, n), prior, D, si], {}, (pp, lv, n, acc, D, S, spl)

    def post(I, r, ctx):
        eng = I.eng
        pp, lv, n, acc, D, S, spl = ctx
        a = deref(eng, r)
        eng.prove('one score per admissible position', isinstance(a, Arr) and a.ndim == 1 and lift(a.shape[0]) == S)
        j = eng.fresh_plain('j', INT)
        eng.assume(z3.And(j >= 0, j < S))
        m = spl(j)
        y = lambda v: YF(lift(v))
        ev = []
        for lo, hi, cnt in ((0, m, m), (m, n, n - m)):
            sm = sums.SUM(eng, lo, hi, y)
            sq = sums.SUM(eng, lo, hi, lambda v: y(v) * y(v))
            ev.append(ng_evidence(eng, acc, ng_update(eng, acc, cnt, sm, sq), cnt))
        want = s_binop(eng, '+', split_prior(eng, pp, lv, S, D), s_binop(eng, '+', ev[0], ev[1]))
        eng.prove('log p(split) = log(p^(1+level)/(S*D)) + evidence of both sides', lift(a.fn(j)) == lift(want))
        frame_ok(eng, what='_compute_log_p_data_split')
    return body_task('%s._compute_log_p_data_split (prior as %s, %s)' % (c, cont, 'all positions admissible' if full else 'some positions admissible'),
                     c, '_compute_log_p_data_split', setup, post, {})


def tasks():
    out = []
    for c in CLASSES:
        if 'Regression' in c:
            for cont in ('ndarray', 'tuple', 'list'):
                out.append(no_split_task(c, cont))
                out.append(split_task(c, cont, False))
                out.append(split_task(c, cont, True))
    return out
