from .scoring import *


def no_split_task(c, cont):
    def setup(I, cls):
        eng = I.eng
        s, pp, lv = tree_self(I, cls)
        n = z3.Int('n')
        eng.assume(n >= 1)
        prior, K, acc = prior_value(eng, cls, cont)
        return [s, target(eng, n), prior], {}, (pp, lv, n, K, acc)

    def post(I, r, ctx):
        eng = I.eng
        pp, lv, n, K, acc = ctx
        y = lambda v: YF(lift(v))
        want = s_binop(eng, '+', no_split_prior(eng, pp, lv), dm_evidence(eng, K, acc, lambda i: count(eng, 0, n, y, i)))
        eng.prove('log p(no split) = log(1 - p^(1+level)) + Dirichlet-multinomial evidence of the class counts', lift(scalar(eng, r)) == lift(want))
        frame_ok(eng, what='_compute_log_p_data_no_split')
    return body_task('%s._compute_log_p_data_no_split (prior as %s)' % (c, cont), c, '_compute_log_p_data_no_split', setup, post, {})


def split_task(c, cont):
    def setup(I, cls):
        eng = I.eng
        s, pp, lv = tree_self(I, cls)
        n, D, S = z3.Int('n'), z3.Int('D'), z3.Int('S')
        eng.assume(z3.And(n >= 2, D >= 1, S >= 1, S <= n - 1))
        prior, K, acc = prior_value(eng, cls, cont)
        SPL = uf('spl', INT, INT)

        def spl(j):
            t = SPL(lift(j))
            eng.assume(z3.Implies(z3.And(lift(j) >= 0, lift(j) < S), z3.And(t >= 1, t <= n - 1)))
            return t
        si = eng.alloc(Arr((S,), spl, 'i', origin='param'))
        return [s, target(eng, n), prior, D, si], {}, (pp, lv, n, K, acc, D, S, spl)

    def post(I, r, ctx):
        eng = I.eng
        pp, lv, n, K, acc, D, S, spl = ctx
        a = deref(eng, r)
        eng.prove('one score per admissible position', isinstance(a, Arr) and a.ndim == 1 and lift(a.shape[0]) == S)
        j = eng.fresh_plain('j', INT)
        eng.assume(z3.And(j >= 0, j < S))
        y = lambda v: YF(lift(v))
        m = spl(j)
        e1 = dm_evidence(eng, K, acc, lambda i: count(eng, 0, m, y, i))
        e2 = dm_evidence(eng, K, acc, lambda i: count(eng, m, n, y, i))
        want = s_binop(eng, '+', split_prior(eng, pp, lv, S, D), s_binop(eng, '+', e1, e2))
        eng.prove('log p(split) = log(p^(1+level)/(S*D)) + evidence of both sides', lift(a.fn(j)) == lift(want))
        frame_ok(eng, what='_compute_log_p_data_split')
    return body_task('%s._compute_log_p_data_split (prior as %s)' % (c, cont), c, '_compute_log_p_data_split', setup, post, {})


def scalar(eng, r):
    a = deref(eng, r)
    if isinstance(a, Arr):
        return a.fn(*[0] * a.ndim)
    return a


def betaln_task(cont):
    """the helper alone: log of the multivariate Beta function"""
    def fn(prog, eng):
        m = prog.func('utils', 'multivariate_betaln')
        if m is None:
            raise Unsupported('multivariate_betaln is gone')

        def path():
            I = Interp(prog, eng, {}, None)
            prior, K, acc = prior_value(eng, prog.cls(CLASSES[0]), cont)
            r = I.call_func(m, [prior], {}, entry=True)
            eng.reach += 1
            eng.prove('multivariate_betaln = sum of log Gamma(a_i) - log Gamma(sum a_i)', lift(scalar(eng, r)) == lift(log_b(eng, K, acc)))
            frame_ok(eng, what='multivariate_betaln')
        eng.explore(path)
    return Task('utils.multivariate_betaln (%s)' % cont, fn)


def tasks():
    out = []
    for c in CLASSES:
        if 'Classification' in c:
            for cont in ('ndarray', 'tuple'):
                out.append(no_split_task(c, cont))
                out.append(split_task(c, cont))
            out.append(no_split_task(c, 'list'))
            out.append(split_task(c, 'list'))
    out += [betaln_task('ndarray'), betaln_task('tuple'), betaln_task('list')]
    return out
