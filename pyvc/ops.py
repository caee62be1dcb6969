"""Scalar and array operations on symbolic values (the contracts assumed for Python arithmetic and numpy indexing)."""
from fractions import Fraction
import math
import z3
from . import terms, sums
from .terms import *
from .values import *
from .engine import PathEnd, short

StrSort = z3.DeclareSort('Str')
ABSF = uf('absf', REAL, REAL)


class SStr:
    """symbolic string: concatenation of literals and atomic terms (kept flat, literals merged)"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SStr):
                ps = p.parts
            else:
                ps = [p]
            for q in ps:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                elif q != '' if isinstance(q, str) else True:
                    out.append(q)
        self.parts = out

    def __repr__(self):
        return 'SStr(%s)' % (self.parts,)


def is_num(x):
    return isinstance(x, (int, float, Fraction)) or is_z3(x) and x.sort() in (INT, REAL, BOOL)


def is_scalar(x):
    return is_num(x) or isinstance(x, str) or x is None


def conc(x):
    """concrete numeral -> python number"""
    if is_z3(x):
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_rational_value(x):
            return Fraction(x.numerator_as_long(), x.denominator_as_long())
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
    return x


def is_real(x):
    return isinstance(x, (float, Fraction)) or is_z3(x) and x.sort() == REAL


def norm_num(x):
    """python float -> Fraction, bool -> int for arithmetic"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, float):
        return Fraction(repr(x)) if math.isfinite(x) else x
    if is_z3(x) and x.sort() == BOOL:
        return to_num(x)
    return x


def both(a, b):
    a, b = lift(a), lift(b)
    if a.sort() != b.sort():
        a, b = to_real(a), to_real(b)
    return a, b


class Inf:
    def __init__(self, sign):
        self.sign = sign


INF = Inf(1)


def s_binop(eng, op, a, b):
    """arithmetic on numbers"""
    a, b = norm_num(a), norm_num(b)
    if isinstance(a, (Inf, float)) or isinstance(b, (Inf, float)):
        raise Unsupported('arithmetic with infinity')
    if not is_z3(a) and not is_z3(b):
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '/':
            if b == 0:
                raise PyRaise('ZeroDivisionError')
            return Fraction(a) / Fraction(b)
        if op == '//':
            if b == 0:
                raise PyRaise('ZeroDivisionError')
            return a // b
        if op == '%':
            return a % b
        if op == '**':
            if isinstance(b, int) and (b >= 0 or a != 0):
                return a ** b if b >= 0 else Fraction(a) ** b
            if isinstance(b, Fraction) and b.denominator == 1:
                return Fraction(a) ** int(b)
            return s_pow(eng, a, b)
        raise Unsupported('operator ' + op)
    if op in '+-*' and len(op) == 1:
        x, y = both(a, b)
        return canon(x + y if op == '+' else x - y if op == '-' else x * y)
    if op == '/':
        return s_div(eng, a, b)
    if op == '**':
        return s_pow(eng, a, b)
    if op in ('//', '%'):
        if is_real(a) or is_real(b):
            if op == '%':
                r = FMOD1(to_real(a), to_real(b))
                bb = to_real(b)
                eng.assume(z3.Implies(bb > 0, z3.And(r >= 0, r < bb)))
                return r
            raise Unsupported('floor division of reals')
        x, y = lift(a), lift(b)
        if z3.is_int_value(y) and y.as_long() > 0:
            k = y.as_long()
            px = poly(x)
            r = px.d.get((), Fraction(0))
            if r.denominator == 1 and all(c.denominator == 1 and c % k == 0 for m, c in px.d.items() if m != ()):
                if op == '%':
                    return int(r) % k
                return conc(term_of(Poly(dict({m: c / k for m, c in px.d.items() if m != ()}, **{})) + Poly.const(int(r) // k), INT))
            return x / y if op == '//' else x % y
        q = IDIV(canon(x), canon(y))
        eng.prove('integer division by zero', y != 0)
        eng.assume(z3.Implies(y > 0, z3.And(q * y <= x, x < q * y + y)))
        # monotonicity consequences used by index computations
        eng.assume(z3.Implies(z3.And(y > 0, x >= 0), q >= 0))
        px = poly(x)
        for m, c in px.d.items():       # x = u * v with v < y  =>  q < u ...
            if len(m) == 2 and c == 1 and len(px.d) == 1:
                u, v = [terms._keep[k[1]] for k, _ in m]
                for s, t in ((u, v), (v, u)):
                    eng.assume(z3.Implies(z3.And(y > 0, s >= 0, s < y, t > 0), q < t))
        return q if op == '//' else canon(x - q * y)
    raise Unsupported('operator ' + op)


def s_div(eng, a, b):
    a, b = norm_num(a), norm_num(b)
    x, y = to_real(a), to_real(b)
    c = conc(canon(y))
    if not is_z3(c):
        if c == 0:
            raise PyRaise('ZeroDivisionError')
    elif not eng.entails(y != 0):
        eng.prove('definedness: divisor is nonzero', y != 0, 'divisor %s' % short(y))
    return canon(x / y)


def s_neg(eng, a):
    a = norm_num(a)
    if isinstance(a, Inf):
        return Inf(-a.sign)
    if not is_z3(a):
        return -a
    return canon(-a)


def s_pow(eng, a, b):
    a, b = norm_num(a), norm_num(conc(b))
    if isinstance(b, Fraction) and b.denominator == 1:
        b = int(b)
    if isinstance(b, int) and 0 <= b <= 8:
        return canon(z3.IntVal(1) if b == 0 else _prod([lift(a)] * b))
    if isinstance(b, int) and -4 <= b < 0:
        return s_div(eng, 1, s_pow(eng, a, -b))
    if not is_z3(b) and b == Fraction(1, 2):
        return s_sqrt(eng, a)
    x, y = canon(to_real(a)), canon(to_real(b))
    if conc(x) == 1:
        return z3.RealVal(1)
    r = POW(x, y)
    eng.assume(z3.Implies(x > 0, r > 0))
    eng.assume(z3.Implies(x >= 0, r >= 0))
    eng.assume(z3.Implies(z3.And(x >= 0, x <= 1, y >= 0), r <= 1))
    eng.assume(z3.Implies(z3.And(x > 0, x < 1, y > 0), r < 1))
    eng.assume(z3.Implies(z3.And(x >= 1, y >= 0), r >= 1))
    eng.assume(z3.Implies(z3.And(x > 1, y > 0), r > 1))
    return r


def _prod(xs):
    r = xs[0]
    for x in xs[1:]:
        r = r * x
    return r


def s_sqrt(eng, a):
    x = canon(to_real(norm_num(a)))
    c = conc(x)
    if not is_z3(c):
        for n in range(0, 50):
            if Fraction(n * n) == c:
                return Fraction(n)
    elif canon_bool(x == 1).get_id() in eng.factids:
        return Fraction(1)
    r = SQRT(x)
    eng.assume(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
    eng.assume(z3.Implies(x > 0, r > 0))
    return r


def positive(eng, t):
    return eng.entails(lift(t) > 0)


def s_log(eng, a):
    """log, expanded over products of provably positive factors"""
    x = canon(to_real(norm_num(a)))
    c = conc(x)
    if not is_z3(c) and c == 1:
        return Fraction(0)
    p = poly(x)
    if len(p.d) == 1:
        (m, co), = p.d.items()
        if m and (len(m) > 1 or co != 1 or abs(m[0][1]) != 1 or _is_pow(m[0][0])):
            fs = []
            ok = True
            for k, e in m:
                if k[0] == 'i':
                    ok = False
                    break
                t = terms._keep[k[1]] if k[0] == 'a' else term_of(den_poly(k), REAL)
                if not positive(eng, t):
                    t = canon(-t)
                    if not positive(eng, t):
                        ok = False
                        break
                    if e % 2:
                        co = -co
                fs.append((t, e))
            if ok and co > 0:
                r = z3.RealVal(0) if co == 1 else LOG(z3.RealVal(str(co)))
                if co != 1 and co.numerator != 1 and co.denominator != 1:
                    r = LOG(z3.RealVal(co.numerator)) - LOG(z3.RealVal(co.denominator))
                elif co.numerator == 1 and co.denominator != 1:
                    r = -LOG(z3.RealVal(co.denominator))
                for t, e in fs:
                    r = r + z3.RealVal(e) * _log_atom(eng, t)
                return canon(r)
    return LOG(x)


def _is_pow(k):
    return k[0] == 'a' and terms._keep[k[1]].decl().name() in ('pow', 'exp')


def _log_atom(eng, t):
    n = t.decl().name()
    if n == 'pow' and positive(eng, t.arg(0)):
        return t.arg(1) * lift(to_real(s_log(eng, t.arg(0))))
    if n == 'exp':
        return t.arg(0)
    return LOG(t)


def s_fun(eng, name, a):
    a = norm_num(a)
    if name == 'log':
        return s_log(eng, a)
    if name == 'log2':
        return canon(to_real(s_log(eng, a)) / LOG(z3.RealVal(2)))
    if name == 'sqrt':
        return s_sqrt(eng, a)
    if name == 'abs':
        return s_abs(eng, a)
    if name == 'negative':
        return s_neg(eng, a)
    if name == 'square':
        return s_binop(eng, '*', a, a)
    x = canon(to_real(a))
    if name == 'log1p':
        return s_log(eng, canon(1 + x))
    if name == 'exp':
        r = EXP(x)
        eng.assume(r > 0)
        return r
    if name == 'gammaln':
        return LGAMMA(x)
    if name in ('cos', 'sin'):
        c, s = COS(x), SIN(x)
        eng.assume(c * c + s * s == 1)
        eng.assume(z3.And(c <= 1, c >= -1, s <= 1, s >= -1))
        # quadrant fact used for the half sphere: cos >= 0 on [-pi/2, pi/2]
        eng.assume(z3.Implies(z3.And(x >= -PI / 2, x <= PI / 2), c >= 0))
        eng.assume(PI > 3)
        eng.assume(PI < 4)
        return c if name == 'cos' else s
    if name == 'arccos':
        eng.prove('definedness: argument of arccos in [-1, 1]', z3.And(x >= -1, x <= 1))
        r = ARCCOS(x)
        eng.assume(COS(r) == x)
        eng.assume(z3.And(r >= 0, r <= PI, SIN(r) >= 0))
        return r
    raise Unsupported('function %s' % name)


def s_abs(eng, a):
    if not is_z3(a):
        return abs(a)
    x = lift(a)
    if eng.entails(x >= 0):
        return canon(x)
    if eng.entails(x <= 0):
        return canon(-x)
    return canon(z3.If(x >= 0, x, -x))


def s_cmp(eng, op, a, b):
    if isinstance(a, Inf) or isinstance(b, Inf):
        if isinstance(a, Inf) and isinstance(b, Inf):
            raise Unsupported('comparison of infinities')
        lt = (a.sign < 0) if isinstance(a, Inf) else (b.sign > 0)
        return {'<': lt, '<=': lt, '>': not lt, '>=': not lt, '==': False, '!=': True}[op]
    a, b = norm_num(a), norm_num(b)
    if not is_z3(a) and not is_z3(b):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
    x, y = both(a, b)
    t = {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y,
         '==': lambda: x == y, '!=': lambda: x != y}[op]()
    t = canon_bool(t)
    return conc(t)


def s_ite(c, a, b):
    """conditional on scalar values (None if they cannot be merged)"""
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if is_num(a) and is_num(b) and not isinstance(a, Inf) and not isinstance(b, Inf):
        x, y = lift(norm_num(a) if not isinstance(a, bool) else a), lift(norm_num(b) if not isinstance(b, bool) else b)
        if x.sort() != y.sort():
            if BOOL in (x.sort(), y.sort()):
                x, y = to_num(x), to_num(y)
            if x.sort() != y.sort():
                x, y = to_real(x), to_real(y)
        if x.eq(y):
            return x
        return canon(z3.If(c, x, y))
    if is_z3(a) and is_z3(b) and a.sort() == b.sort():
        return a if a.eq(b) else z3.If(c, a, b)
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim and all(same_dim(x, y) for x, y in zip(a.shape, b.shape)):
        return Arr(a.shape, lambda *i: ite(None, c, a.fn(*i), b.fn(*i)), kind_join(a.kind, b.kind))
    return None


def ite(eng, c, a, b):
    r = s_ite(c, a, b)
    if r is None and not (a is None and b is None):
        if eng is None:
            raise Unsupported('cannot merge %r and %r' % (a, b))
        return a if eng.choose(c) else b
    return r


def same_dim(a, b):
    if not is_z3(a) and not is_z3(b):
        return a == b
    return equal_canon(a, b)


KINDS = 'bifO'


def kind_join(a, b):
    return KINDS[max(KINDS.index(a), KINDS.index(b))] if a in KINDS and b in KINDS else 'O'


def kind_of(x):
    if isinstance(x, Arr):
        return x.kind
    if isinstance(x, bool) or is_z3(x) and x.sort() == BOOL:
        return 'b'
    if isinstance(x, int) or is_z3(x) and x.sort() == INT:
        return 'i'
    if is_num(x) or isinstance(x, Inf):
        return 'f'
    return 'O'


class Listing:
    """injective enumeration of a set of indices: at(t) for t < length; member(k) <=> k is enumerated; pos inverse of at.
    universe: all members lie in [0, universe)."""
    _n = [0]

    def __init__(self, length, at, member, pos, universe=None):
        self.length, self.at, self.member, self.pos, self.universe = length, at, member, pos, universe
        Listing._n[0] += 1
        self.id = Listing._n[0]


def dim_eq(eng, a, b, what):
    """dimension of the result of combining extents a and b"""
    if same_dim(a, b):
        return a
    ca, cb = conc(a), conc(b)
    if ca == 1 and not is_z3(ca):
        return b
    if cb == 1 and not is_z3(cb):
        return a
    if eng.entails(lift(a) == lift(b)):
        return a
    eng.prove('shapes agree in %s' % what, lift(a) == lift(b), '%s vs %s' % (short(a), short(b)))
    return a


def elementwise(eng, f, *args, kind=None, what='elementwise operation'):
    """broadcasting map"""
    arrs = [a for a in args if isinstance(a, Arr)]
    if not arrs:
        return f(*args)
    nd = max(a.ndim for a in arrs)
    shape = []
    for ax in range(nd):
        d = 1
        for a in arrs:
            k = ax - (nd - a.ndim)
            if k >= 0:
                d = dim_eq(eng, d, a.shape[k], what)
        shape.append(d)

    def sel(a, idx):
        if not isinstance(a, Arr):
            return a
        o = nd - a.ndim
        ii = []
        for k in range(a.ndim):
            if not is_z3(conc(a.shape[k])) and conc(a.shape[k]) == 1 and not same_dim(shape[o + k], 1):
                ii.append(0)
            else:
                ii.append(idx[o + k])
        return a.fn(*ii)

    def g(vals):
        if any(isinstance(v, Arr) for v in vals):
            return elementwise(eng, f, *vals, kind=None, what=what)
        return f(*vals)
    fn = lambda *idx: g([sel(a, idx) for a in args])
    if kind is None:
        kind = 'b'
        for a in args:
            kind = kind_join(kind, kind_of(a))
    meta = {}
    # gather information on the last axis survives when every operand is constant along it or gathered the same way
    ls = [a.meta.get('gather') for a in arrs if nd and not (same_dim(a.shape[-1], 1) and not same_dim(shape[-1], 1))] if nd else []
    if ls and all(x is not None for x in ls) and len({x[0].id for x in ls}) == 1 \
            and all(a.ndim >= 1 for a in arrs):
        def gfn(*idx):
            vals = []
            for a in args:
                if not isinstance(a, Arr):
                    vals.append(a)
                    continue
                o = nd - a.ndim
                ii = []
                for k in range(a.ndim):
                    if same_dim(a.shape[k], 1) and not same_dim(shape[o + k], 1):
                        ii.append(0)
                    else:
                        ii.append(idx[o + k])
                if same_dim(a.shape[-1], 1) and not same_dim(shape[-1], 1):
                    vals.append(a.fn(*ii))
                else:
                    vals.append(a.meta['gather'][1](*ii))
            return g(vals)
        meta['gather'] = (ls[0][0], gfn)
    return Arr(shape, fn, kind, meta=meta)


def check_narrow(eng, op, args):
    """arithmetic on arrays whose element type may be a narrow integer"""
    for a in args:
        if isinstance(a, Arr) and a.meta.get('dt'):
            dt = a.meta['dt']
            if dt == 'any':
                eng.prove('arithmetic happens only after conversion to float64', False, 'operator %s on raw input data' % op)
                return


# element types of narrow integer arrays: exclusive upper bound
WIDTH = {'u1': z3.IntVal(2 ** 8), 'u2': z3.IntVal(2 ** 16), 'u4': z3.IntVal(2 ** 32), 'u8': z3.IntVal(2 ** 64)}


def choice_dtype(c, a, b):
    """element type a if c else b"""
    lim = canon(z3.If(c, WIDTH[a], WIDTH[b]))
    for k, v in WIDTH.items():
        if lim.eq(v):
            return k
    k = 'u?%d' % len(WIDTH)
    keep(lim)
    WIDTH[k] = lim
    return k


def binop(eng, op, a, b):
    check_narrow(eng, op, (a, b))
    if isinstance(a, Arr) or isinstance(b, Arr):
        kind = None
        if op in ('/',):
            kind = 'f' if 'O' not in (kind_of(a), kind_of(b)) else 'O'
        else:
            k = kind_join(kind_of(a), kind_of(b))
            kind = 'i' if k == 'b' else k
        if op in ('/', '%', '//') and isinstance(b, Arr) and b.kind != 'O':
            with generic_elem(eng, b) as e:
                d = lift(to_num(e))
                if not eng.entails(d != 0):
                    eng.prove('definedness: divisor is nonzero', d != 0, 'divisor %s' % short(d))
        if op == '/' and is_num(b) and not isinstance(b, Inf) and is_z3(conc(b)) and isinstance(a, Arr) and a.kind != 'O':
            s_div(eng, 1, b)                 # once, not for every element
        r = elementwise(eng, lambda x, y: s_binop(eng, op, x, y), a, b, kind=kind, what='operator ' + op)
        for z in (a, b):
            if isinstance(z, Arr) and z.meta.get('dt') in WIDTH and r.kind == 'i' and op in ('+', '-', '*'):
                if isinstance(a, Arr) and isinstance(b, Arr) and (a.meta.get('dt') is None or b.meta.get('dt') is None):
                    continue                      # promoted to int64
                with generic_elem(eng, r) as e:
                    eng.prove('no wrap-around in %s arithmetic' % z.meta['dt'],
                              z3.And(lift(e) >= 0, lift(e) < WIDTH[z.meta['dt']]))
                r.meta['dt'] = z.meta['dt']
        sa, sb = a if isinstance(a, Arr) else None, b if isinstance(b, Arr) else None
        return r
    return s_binop(eng, op, a, b)


class generic_elem:
    """generic element of an array (all indices arbitrary in range), for obligations that hold elementwise"""
    def __init__(self, eng, a):
        self.eng, self.a = eng, a

    def __enter__(self):
        e = self.eng
        self.sc = e.scope()
        self.sc.__enter__()
        idx = []
        for n in self.a.shape:
            v = e.fresh_plain('g', INT)
            e.assume(z3.And(v >= 0, v < lift(n)))
            idx.append(v)
        e.nofork += 1
        try:
            return self.a.fn(*idx)
        except BaseException:
            self.__exit__()
            raise

    def __exit__(self, *x):
        self.eng.nofork -= 1
        self.sc.__exit__()
        return False


def compare(eng, op, a, b):
    if isinstance(a, Arr) or isinstance(b, Arr):
        return elementwise(eng, lambda x, y: s_cmp(eng, op, x, y), a, b, kind='b', what='comparison')
    return s_cmp(eng, op, a, b)


def map1(eng, f, a, kind=None):
    if isinstance(a, Arr):
        return elementwise(eng, f, a, kind=kind or a.kind)
    return f(a)


# ---------------------------------------------------------------------------------------------------------------- sums
def listing_of(a):
    return a.meta.get('listing')


def arr_sum(eng, a, axis=None):
    """np.sum"""
    if a.ndim == 0:
        return a.fn()
    if axis is not None and axis < 0:
        axis += a.ndim
    if a.ndim == 1 or axis is None:
        if a.ndim == 1:
            return sum_last(eng, a, ())
        if a.ndim == 2:
            rows = Arr((a.shape[0],), lambda i: sum_last(eng, a, (i,)), a.kind)
            return sum_last(eng, rows, ())
        raise Unsupported('sum of %d-d array' % a.ndim)
    if axis == a.ndim - 1:
        return Arr(a.shape[:-1], lambda *i: sum_last(eng, a, i), 'i' if a.kind == 'b' else a.kind)
    if axis == 0 and a.ndim == 2:
        r = Arr((a.shape[1],), lambda j: _sumfn(eng, a.shape[0], lambda i: a.fn(i, j)), 'i' if a.kind == 'b' else a.kind)
        return r
    raise Unsupported('sum over axis %s of %d-d array' % (axis, a.ndim))


def _sumfn(eng, n, f):
    n = conc(n)
    probe = None
    if not is_z3(n):
        r = 0
        for i in range(n):
            r = add_any(eng, r, f(i))
        return r
    # elements may themselves be arrays (object arrays)
    with eng.scope():
        v = z3.Int('bv!%d' % sums._depth[0])
        sums._depth[0] += 1
        eng.generic.append(v)
        eng.nofork += 1
        try:
            eng.assume(z3.And(v >= 0, v < lift(n)))
            probe = f(v)
        finally:
            sums._depth[0] -= 1
            eng.generic.pop()
            eng.nofork -= 1
    if isinstance(probe, Arr):
        return Arr(probe.shape, lambda *j: _sumfn(eng, n, lambda i: f(i).fn(*j)), 'i' if probe.kind == 'b' else probe.kind)
    return sums.SUM(eng, 0, n, f)


def add_any(eng, a, b):
    if isinstance(a, Arr) or isinstance(b, Arr):
        return binop(eng, '+', a, b)
    return s_binop(eng, '+', a, b)


def sum_last(eng, a, lead):
    g = a.meta.get('gather')
    if g is not None and g[0].universe is not None:
        L, fn = g

        def body(k):
            m = L.member(k)
            x = fn(*(lead + (k,)))
            if isinstance(x, Arr):
                raise Unsupported('gathered object array')
            return ite(None, m, to_num(x) if is_z3(x) or isinstance(x, bool) else x, 0)
        eng.stats.lemmas.add('permutation lemma: sum over an injective listing of a set = masked sum over the universe')
        return sums.SUM(eng, 0, L.universe, body)
    return _sumfn(eng, a.shape[-1], lambda j: a.fn(*(lead + (j,))))


def card(eng, L):
    """states |L| = number of members (permutation lemma)"""
    if L.universe is None:
        return
    key = ('card', L.id)
    if key in eng.ghost:
        return
    eng.ghost[key] = True
    eng.stats.lemmas.add('permutation lemma: sum over an injective listing of a set = masked sum over the universe')
    n = sums.SUM(eng, 0, L.universe, lambda k: ite(None, L.member(k), 1, 0))
    eng.assume(lift(L.length) == n)


# ---------------------------------------------------------------------------------------------------------------- symbols over array contents
def content_symbol(eng, op, bodies, extra_params, extra_sorts, result, ns=()):
    """uninterpreted symbol determined by the contents of arrays.  bodies: list of functions of one index, of which only
    the values in 0..n (ns, per body) matter."""
    sks, params = [], []
    vs = []
    for q, b in enumerate(bodies):
        v = z3.Int('bv!%d' % sums._depth[0])
        sums._depth[0] += 1
        eng.generic.append(v)
        eng.nofork += 1
        try:
            with eng.scope():
                if q < len(ns) and ns[q] is not None:
                    eng.assume(z3.And(v >= 0, v < lift(ns[q])))
                t = b(v)
                if not is_z3(t):
                    t = lift(norm_num(t) if not isinstance(t, bool) else t)
                t = canon(t)
        finally:
            sums._depth[0] -= 1
            eng.nofork -= 1
            eng.generic.pop()
        sk, ps, ph = SK.abstract(t, [v])
        sks.append(sk)
        params += ps
    params += [canon(lift(x)) for x in extra_params]
    ent = SK.symbol(op, sks, params, extra_sorts, result)
    return ent, params


def app(ent, params, *idx):
    a = list(params) + [lift(i) for i in idx]
    return ent['f'](*a) if a else ent['f']


def where_listing(eng, n, mask):
    """np.where on a 1-d mask"""
    def ind(v):
        m = mask(v)
        return ite(None, m, 1, 0)
    LEN = sums.SUM(eng, 0, n, ind)
    ent, params = content_symbol(eng, 'where', [lambda v: lift(mask(v))], [n], [INT], INT, [n])
    eng.stats.lib_used.add('numpy.where')
    key = ('where', ent['name'], tuple(p.get_id() for p in params))
    for p in params:
        keep(p)

    def count(j):
        return sums.SUM(eng, 0, j, ind)

    def pos(j):
        p = count(j)
        key2 = key + ('pos',)
        old, new = eng.accessed(key2, j)
        if new:
            w = app(ent, params, p)
            jj = lift(j)
            eng.assume(z3.Implies(z3.And(jj >= 0, jj < lift(n), lift(mask(j))),
                                  z3.And(w == jj, lift(p) >= 0, lift(p) < lift(LEN))))
        return p

    def at(t):
        w = canon(app(ent, params, t))
        old, new = eng.accessed(key, t)
        if new:
            tt = lift(t)
            rng = z3.And(tt >= 0, tt < lift(LEN))
            eng.assume(z3.Implies(rng, z3.And(w >= 0, w < lift(n), lift(mask(w)))))
            c = count(w)
            eng.assume(z3.Implies(rng, lift(c) == tt))
            for o in old:
                wo = app(ent, params, o)
                oo = lift(o)
                eng.assume(z3.Implies(z3.And(oo >= 0, oo < tt, tt < lift(LEN)), wo < w))
                eng.assume(z3.Implies(z3.And(tt >= 0, tt < oo, oo < lift(LEN)), w < wo))
        return w

    def member(j):
        jj = lift(j)
        m = z3.And(jj >= 0, jj < lift(n), lift(mask(j)))
        return canon_bool(m)
    L = Listing(LEN, at, member, pos, n)
    eng.assume(lift(LEN) >= 0)
    eng.assume(lift(LEN) <= lift(n))
    eng.ghost[('card', L.id)] = True
    # if the listing is empty no element of the mask holds: witnesses are the accessed indices
    L.mask, L.n = mask, n
    L.hint = lambda j: pos(j)
    if not eng.generic:
        eng.insts.append(tagged('where', lambda j: pos(j) if is_z3(j) and z3.is_int(j) or isinstance(j, int) else None))
    return L


def listing_arr(L, cont='ndarray'):
    return Arr((L.length,), lambda t: L.at(t), 'i', cont, meta={'listing': L})


def range_listing(eng, n):
    n_ = lift(n)
    return Listing(n, lambda t: t, lambda k: canon_bool(z3.And(lift(k) >= 0, lift(k) < n_)), lambda k: k, n)


def compose_listing(eng, A, B):
    """A[B]: B enumerates positions of A"""
    def member(k):
        p = A.pos(k)
        return canon_bool(z3.And(lift(A.member(k)), lift(B.member(p))))
    return Listing(B.length, lambda t: A.at(B.at(t)), member, lambda k: B.pos(A.pos(k)), A.universe)


def slice_listing(eng, A, lo, n):
    """A[lo:lo+n]"""
    def member(k):
        p = lift(A.pos(k))
        return canon_bool(z3.And(lift(A.member(k)), p >= lift(lo), p < lift(lo) + lift(n)))
    return Listing(n, lambda t: A.at(s_binop(eng, '+', t, lo)), member, lambda k: s_binop(eng, '-', A.pos(k), lo), A.universe)


def argsort_listing(eng, n, key):
    ent, params = content_symbol(eng, 'argsort', [lambda v: lift(to_num(key(v)))], [n], [INT], INT, [n])
    inv = z3.Function(ent['name'] + '_inv', *([p.sort() for p in params] + [INT, INT]))
    k0 = ('argsort', ent['name'], tuple(p.get_id() for p in params))
    for p in params:
        keep(p)
    n_ = lift(n)
    eng.stats.lib_used.add('numpy.argsort')

    def at(t):
        r = canon(app(ent, params, t))
        old, new = eng.accessed(k0, t)
        if new:
            tt = lift(t)
            eng.assume(z3.Implies(z3.And(tt >= 0, tt < n_), z3.And(r >= 0, r < n_, inv(*(params + [r])) == tt)))
            kr = key(r)
            for o in old:
                ro = canon(app(ent, params, o))
                oo = lift(o)
                ko = key(ro)
                x, y = both(kr, ko)
                eng.assume(z3.Implies(z3.And(oo >= 0, oo <= tt, tt < n_), y <= x))
                eng.assume(z3.Implies(z3.And(tt >= 0, tt <= oo, oo < n_), x <= y))
        return r

    def pos(k):
        r = canon(inv(*(params + [lift(k)])))
        old, new = eng.accessed(k0 + ('inv',), k)
        if new:
            kk = lift(k)
            eng.assume(z3.Implies(z3.And(kk >= 0, kk < n_), z3.And(r >= 0, r < n_, app(ent, params, r) == kk)))
            at(r)
        return r
    return Listing(n, at, lambda k: canon_bool(z3.And(lift(k) >= 0, lift(k) < n_)), pos, n)


def argext(eng, a, n, fn, which):
    """np.argmax / np.argmin of a 1-d array: first extremal index"""
    eng.stats.lib_used.add('numpy.arg' + which)
    ent, params = content_symbol(eng, 'arg' + which, [lambda v: lift(to_num(fn(v)))], [n], [], INT, [n])
    m = canon(app(ent, params))
    n_ = lift(n)
    if not eng.entails(n_ > 0):
        eng.prove('definedness: arg%s of a non-empty array' % which, n_ > 0)
    eng.assume(z3.And(m >= 0, m < n_))
    key = ('argext', ent['name'], tuple(p.get_id() for p in params))
    for p in params:
        keep(p)
    vm = fn(m)

    def inst(j):
        old, new = eng.accessed(key, j)
        if new:
            jj = lift(j)
            x, y = both(to_num(fn(j)), to_num(vm))
            rng = z3.And(jj >= 0, jj < n_)
            if which == 'max':
                eng.assume(z3.Implies(rng, x <= y))
                eng.assume(z3.Implies(z3.And(rng, jj < m), x < y))
            else:
                eng.assume(z3.Implies(rng, x >= y))
                eng.assume(z3.Implies(z3.And(rng, jj < m), x > y))
    eng.insts.append(tagged('argext', inst))
    return m


def extval(eng, n, fn, which):
    """np.max / np.min of a 1-d array"""
    m = argext(eng, None, n, fn, which)
    return fn(m)


def unique_info(eng, n, fn):
    """number of distinct values of a 1-d array, with witnesses"""
    eng.stats.lib_used.add('numpy.unique')
    ent, params = content_symbol(eng, 'nunique', [lambda v: lift(to_num(fn(v)))], [n], [], INT, [n])
    u = canon(app(ent, params))
    n_ = lift(n)
    eng.assume(z3.And(u >= 0, u <= n_))
    eng.assume(z3.Implies(n_ > 0, u >= 1))
    a = z3.Function(ent['name'] + '_a', *([p.sort() for p in params] + [INT]))(*params) if params else z3.Int(ent['name'] + '_a')
    b = z3.Function(ent['name'] + '_b', *([p.sort() for p in params] + [INT]))(*params) if params else z3.Int(ent['name'] + '_b')
    xa, xb = both(to_num(fn(a)), to_num(fn(b)))
    eng.assume(z3.Implies(u > 1, z3.And(a >= 0, a < n_, b >= 0, b < n_, xa != xb)))
    key = ('nunique', ent['name'], tuple(p.get_id() for p in params))
    for p in params:
        keep(p)

    def inst(j):
        old, new = eng.accessed(key, j)
        if new:
            jj = lift(j)
            x, y = both(to_num(fn(j)), to_num(fn(z3.IntVal(0))))
            eng.assume(z3.Implies(z3.And(u <= 1, jj >= 0, jj < n_), x == y))
    eng.insts.append(tagged('nunique', inst))
    return u


def tagged(kind, f):
    f.kind = kind
    return f


def instantiate(eng, *idx, kinds=None):
    """instantiates the universally quantified facts known to the engine (of the given kinds) at the given indices"""
    for i in idx:
        for f in list(eng.insts):
            if kinds is None or getattr(f, 'kind', None) in kinds:
                f(i)
