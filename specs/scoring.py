"""Spec functions of the split scores and of the conjugate updates."""
from pyvc.model import *

YF = uf('y', INT, REAL)
PRI = uf('prior0', INT, REAL)
GAMMALN = lambda eng, x: s_fun(eng, 'gammaln', x)


def log_(eng, x):
    return s_log(eng, x)


def count(eng, lo, hi, yfn, c):
    """number of positions lo <= v < hi with y[v] == c"""
    return sums.SUM(eng, lo, hi, lambda v: s_ite(canon_bool(to_num(lift(yfn(v))) == lift(c)) if lift(yfn(v)).sort() == lift(c).sort()
                                                 else canon_bool(to_real(lift(yfn(v))) == to_real(lift(c))), 1, 0))


def log_b(eng, K, a):
    """log of the multivariate Beta function of a_0 .. a_{K-1}"""
    s = sums.SUM(eng, 0, K, lambda i: GAMMALN(eng, a(i)))
    return s_binop(eng, '-', s, GAMMALN(eng, sums.SUM(eng, 0, K, a)))


def dm_evidence(eng, K, prior, cnt):
    """Dirichlet-multinomial log evidence of counts under prior"""
    post = lambda i: s_binop(eng, '+', prior(i), cnt(i))
    return s_binop(eng, '-', log_b(eng, K, post), log_b(eng, K, prior))


def ng_update(eng, prior, n, s, q, delta=1):
    """Normal-gamma update of (mu, kappa, alpha, beta) by delta times n targets with sum s and sum of squares q:
    the posterior for the weighted observations (each target counted delta times), n > 0"""
    B = lambda op, a, b: s_binop(eng, op, a, b)
    mu, ka, al, be = prior
    nd = B('*', n, delta)
    mean = B('/', s, n)
    kp = B('+', ka, nd)
    mp = B('/', B('+', B('*', ka, mu), B('*', nd, mean)), kp)
    ap = B('+', al, B('/', nd, 2))
    dev = B('-', q, B('*', n, B('*', mean, mean)))                       # sum (y - mean)^2
    dm = B('-', mean, mu)
    bp = B('+', B('+', be, B('/', B('*', delta, dev), 2)), B('/', B('*', B('*', ka, nd), B('*', dm, dm)), B('*', 2, kp)))
    return mp, kp, ap, bp


def ng_evidence(eng, prior, post, n):
    """Normal-gamma log marginal likelihood (Murphy 2007, eq. 95)"""
    B = lambda op, a, b: s_binop(eng, op, a, b)
    mu, ka, al, be = prior
    mp, kp, ap, bp = post
    t = B('-', GAMMALN(eng, ap), GAMMALN(eng, al))
    t = B('+', t, B('-', B('*', al, log_(eng, be)), B('*', ap, log_(eng, bp))))
    t = B('+', t, B('/', B('-', log_(eng, ka), log_(eng, kp)), 2))
    return B('-', t, B('*', B('/', n, 2), log_(eng, B('*', 2, PI))))


def split_prior(eng, pp, level, S, D):
    """log of p^(1+level) / (S * D)"""
    return log_(eng, s_div(eng, s_pow(eng, pp, s_binop(eng, '+', 1, level)), s_binop(eng, '*', S, D)))


def no_split_prior(eng, pp, level):
    return log_(eng, s_binop(eng, '-', 1, s_pow(eng, pp, s_binop(eng, '+', 1, level))))


def tree_self(I, cls, **over):
    """an instance with arbitrary legal parameters (not yet fitted, or being fitted)"""
    eng = I.eng
    pp, lv = z3.Real('pp0'), z3.Int('level0')
    eng.assume(z3.And(pp > 0, pp < 1))
    eng.assume(lv >= 0)
    # powers of a number in (0, 1) with a positive exponent lie in (0, 1)
    w = s_pow(eng, pp, s_binop(eng, '+', 1, lv))
    eng.assume(z3.And(lift(w) > 0, lift(w) < 1))
    f = {'partition_prior': pp, 'level': lv, 'delta': z3.Real('delta0'), 'prune': z3.Bool('prune0'), 'split_precision': z3.Real('sp0'),
         'child_type': cls, 'is_regression': is_reg(cls)}
    eng.assume(z3.And(f['delta'] >= 0, f['delta'] <= 1))
    eng.assume(f['split_precision'] >= 0)
    f.update(over)
    return eng.alloc(Obj(cls, f, origin='param')), pp, lv


def prior_value(eng, cls, cont='ndarray'):
    """symbolic positive prior: (value, K, accessor)"""
    if is_reg(cls):
        ps = [z3.Real('p_mu'), z3.Real('p_kappa'), z3.Real('p_alpha'), z3.Real('p_beta')]
        for x in ps[1:]:
            eng.assume(x > 0)
        if cont == 'tuple':
            return Tup(ps), 4, ps
        if cont == 'list':
            return eng.alloc(ListObj(ps, origin='param')), 4, ps
        return eng.alloc(Arr((4,), lambda i: pick(eng, i, ps), 'f', origin='param')), 4, ps
    K = z3.Int('K')
    eng.assume(K >= 2)
    acc = lambda i: PRI(lift(i))
    if cont == 'list':
        return eng.alloc(ListObj(None, K, acc, origin='param')), K, acc
    return eng.alloc(Arr((K,), acc, 'f', cont, origin='param')), K, acc


def target(eng, n, name='y'):
    return eng.alloc(Arr((n,), lambda i: YF(lift(i)), 'f', origin='param'))
