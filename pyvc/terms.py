"""Term language: z3 terms plus an exact normalizer (Laurent polynomials over atoms, indicator form of conditionals,
finite sums as prefix-sum functions).  Everything here is arithmetic over the mathematical reals and integers."""
from fractions import Fraction
import z3

INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()
_keep = {}          # ast id -> ast (keeps ids unique)


def _guard_cmp(cls, name):
    orig = getattr(cls, name)

    def f(self, other):
        if isinstance(other, Fraction):
            other = z3.RealVal(str(other))
        if isinstance(other, (z3.ExprRef, int, float)):
            return orig(self, other)
        return NotImplemented
    setattr(cls, name, f)


for _c in (z3.ExprRef,):
    for _n in ('__eq__', '__ne__'):
        _guard_cmp(_c, _n)
z3.ExprRef.__hash__ = z3.AstRef.__hash__


def keep(t):
    _keep[t.get_id()] = t
    return t


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def lift(x):
    """python number -> z3 term"""
    if is_z3(x):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise ValueError('non-finite literal')
        return z3.RealVal(repr(x) if 'e' not in repr(x) else str(Fraction(repr(x))))
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    raise TypeError('cannot lift %r' % (x,))


def is_int(t):
    return isinstance(t, int) and not isinstance(t, bool) or is_z3(t) and t.sort() == INT


def is_bool(t):
    return isinstance(t, bool) or is_z3(t) and t.sort() == BOOL


def to_real(t):
    t = lift(t)
    if t.sort() == REAL:
        return t
    if t.sort() == BOOL:
        return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    if z3.is_int_value(t):
        return z3.RealVal(t.as_long())
    return z3.ToReal(t)


def to_num(t):
    """bool -> int, others unchanged"""
    if isinstance(t, bool):
        return int(t)
    if is_z3(t) and t.sort() == BOOL:
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return t


_ufs = {}


def uf(name, *sorts):
    key = (name,) + tuple(str(s) for s in sorts)
    if key not in _ufs:
        _ufs[key] = z3.Function(name, *sorts)
    return _ufs[key]


LOG = uf('log', REAL, REAL)
EXP = uf('exp', REAL, REAL)
LGAMMA = uf('lgamma', REAL, REAL)
SQRT = uf('sqrt', REAL, REAL)
COS = uf('cos', REAL, REAL)
SIN = uf('sin', REAL, REAL)
ARCCOS = uf('arccos', REAL, REAL)
POW = uf('pow', REAL, REAL, REAL)
FMOD1 = uf('fmod', REAL, REAL, REAL)
IDIV = uf('idiv', INT, INT, INT)
PI = z3.Real('pi')

# ----------------------------------------------------------------------------------------------------------------
# Laurent polynomials: {monomial: Fraction}; monomial = tuple of (atom_key, exponent) sorted by key
# atom_key: ('a', astid) ordinary atom / ('q', key) composite denominator / ('i', astid) 0-1 indicator of a condition
PS_HOOK = None
_order = {}


def _okey(k):
    o = _order.get(k)
    if o is None:
        if k[0] == 'q':
            o = 'q' + repr([(tuple((_okey(x), e) for x, e in m), str(c)) for m, c in k[1]])
        else:
            o = k[0] + _keep[k[1]].sexpr()
        _order[k] = o
    return o


def _mmul(m1, m2):
    d = dict(m1)
    for k, e in m2:
        d[k] = 1 if k[0] == 'i' else d.get(k, 0) + e
    return tuple(sorted(((k, e) for k, e in d.items() if e != 0), key=lambda ke: _okey(ke[0])))


class Poly:
    __slots__ = ('d',)

    def __init__(self, d=None):
        self.d = d or {}

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(k):
        return Poly({((k, 1),): Fraction(1)})

    def __add__(self, o):
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return Poly(d)

    def scale(self, c):
        return Poly({m: v * c for m, v in self.d.items()}) if c else Poly()

    def __sub__(self, o):
        return self + o.scale(Fraction(-1))

    def __mul__(self, o):
        d = {}
        if len(self.d) * len(o.d) > 20000:
            raise OverflowError('polynomial too large')
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = _mmul(m1, m2)
                v = d.get(m, 0) + c1 * c2
                if v:
                    d[m] = v
                else:
                    d.pop(m, None)
        return Poly(d)

    def pow(self, n):
        r = Poly.const(1)
        for _ in range(n):
            r = r * self
        return r

    def is_const(self):
        return not self.d or list(self.d) == [()]

    def const_value(self):
        return self.d.get((), Fraction(0))

    def sorted_items(self):
        return sorted(self.d.items(), key=lambda mc: [(_okey(k), e) for k, e in mc[0]])

    def inv(self):
        """1/self as Laurent polynomial (composite denominators become atoms)"""
        p = expand_den(self)
        p, den = p
        if not p.d:
            raise ZeroDivisionError
        if len(p.d) == 1:
            (m, c), = p.d.items()
            if not any(k[0] == 'i' for k, _ in m):
                return Poly({tuple((k, -e) for k, e in m): 1 / c}) * den
        # make monic w.r.t. first monomial
        items = p.sorted_items()
        lead = items[0][1]
        key = ('q', tuple((m, c / lead) for m, c in items))
        return Poly({((key, -1),): 1 / lead}) * den

    def key(self):
        return tuple((m, c) for m, c in self.sorted_items())


def den_poly(k):
    return Poly(dict(k[1]))


def expand_den(p):
    """p = num / den with num free of negative powers of composite denominators: returns (num, den) with den a product"""
    need = {}
    for m in p.d:
        for k, e in m:
            if k[0] == 'q' and e < 0:
                need[k] = max(need.get(k, 0), -e)
    if not need:
        return _expand_pos(p), Poly.const(1)
    den = Poly.const(1)
    for k, n in need.items():
        den = den * den_poly(k).pow(n)
    num = Poly()
    for m, c in p.d.items():
        md = dict(m)
        t = Poly({tuple((k, e) for k, e in m if k[0] != 'q'): c})
        for k in set(need) | {k for k in md if k[0] == 'q'}:
            e = need.get(k, 0) + md.get(k, 0)
            t = t * den_poly(k).pow(e)
        num = num + t
    return _expand_pos(num), den


def _expand_pos(p):
    if not any(k[0] == 'q' for m in p.d for k, _ in m):
        return p
    r = Poly()
    for m, c in p.d.items():
        t = Poly({tuple((k, e) for k, e in m if k[0] != 'q'): c})
        for k, e in m:
            if k[0] == 'q':
                t = t * den_poly(k).pow(e)
        r = r + t
    return r


def is_zero(p):
    n, _ = expand_den(p)
    if not n.d:
        return True
    # clear negative powers of plain atoms never changes zero-ness
    return False


_poly_cache = {}


def poly(t):
    """normal form of an Int/Real term"""
    if not is_z3(t):
        if isinstance(t, bool):
            return Poly.const(int(t))
        return Poly.const(Fraction(repr(t)) if isinstance(t, float) else Fraction(t))
    i = t.get_id()
    r = _poly_cache.get(i)
    if r is None:
        keep(t)
        r = _poly(t)
        _poly_cache[i] = r
    return r


def _atom(t):
    keep(t)
    return Poly.atom(('a', t.get_id()))


def _indicator(c):
    """0/1 polynomial of a Bool term"""
    c = canon_bool(c)
    if z3.is_true(c):
        return Poly.const(1)
    if z3.is_false(c):
        return Poly()
    if z3.is_not(c):
        return Poly.const(1) - _indicator(c.arg(0))
    if z3.is_and(c):
        r = Poly.const(1)
        for x in c.children():
            r = r * _indicator(x)
        return r
    if z3.is_or(c):
        r = Poly.const(1)
        for x in c.children():
            r = r * (Poly.const(1) - _indicator(x))
        return Poly.const(1) - r
    keep(c)
    return Poly.atom(('i', c.get_id()))


def _poly(t):
    k = t.decl().kind()
    if z3.is_int_value(t):
        return Poly.const(t.as_long())
    if z3.is_rational_value(t):
        return Poly.const(Fraction(t.numerator_as_long(), t.denominator_as_long()))
    ch = t.children()
    if k == z3.Z3_OP_ADD:
        r = Poly()
        for c in ch:
            r = r + poly(c)
        return r
    if k == z3.Z3_OP_SUB:
        r = poly(ch[0])
        for c in ch[1:]:
            r = r - poly(c)
        return r
    if k == z3.Z3_OP_UMINUS:
        return poly(ch[0]).scale(Fraction(-1))
    if k == z3.Z3_OP_MUL:
        r = Poly.const(1)
        for c in ch:
            r = r * poly(c)
        return r
    if k == z3.Z3_OP_DIV:
        d = poly(ch[1])
        if not is_zero(d):
            return poly(ch[0]) * d.inv()
        return _atom(t)
    if k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]) and 0 <= ch[1].as_long() <= 8:
        return poly(ch[0]).pow(ch[1].as_long())
    if k == z3.Z3_OP_TO_REAL:
        return _map_atoms_to_real(poly(ch[0]))
    if k == z3.Z3_OP_ITE:
        i = _indicator(ch[0])
        if i.is_const():
            return poly(ch[1]) if i.const_value() else poly(ch[2])
        return poly(ch[1]) * i + poly(ch[2]) * (Poly.const(1) - i)
    if k == z3.Z3_OP_UNINTERPRETED and ch:
        if PS_HOOK is not None:
            r = PS_HOOK(t)
            if r is not None:
                return r
        args = [rat_rep(canon(c)) for c in ch]
        return _atom(t.decl()(*args))
    return _atom(t)


_PRIME = (1 << 61) - 1
_fp = {}
_reps = {}


def _fprint(p):
    """value of p at a fixed pseudo-random point modulo a prime (None where a denominator vanishes)"""
    tot = 0
    for m, c in p.d.items():
        v = c.numerator % _PRIME * pow(c.denominator % _PRIME, -1, _PRIME) % _PRIME
        for k, e in m:
            if k not in _fp:
                if k[0] == 'q':
                    _fp[k] = _fprint(den_poly(k))
                else:
                    import hashlib
                    t = _keep[k[1]]
                    if k[0] == 'a' and z3.is_to_real(t):
                        t = t.arg(0)
                    h = hashlib.sha256((k[0] + t.sexpr()).encode()).digest()
                    _fp[k] = int.from_bytes(h[:8], 'big') % _PRIME or 1
            x = _fp[k]
            if x is None or (x == 0 and e < 0):
                return None
            v = v * pow(x, e, _PRIME) % _PRIME
        tot = (tot + v) % _PRIME
    return tot


def rat_rep(t):
    """one representative for all real terms equal to t as rational functions of their atoms"""
    if t.sort() != REAL:
        return t
    p = poly(t)
    f = _fprint(p)
    if f is None:
        return t
    for r in _reps.setdefault(f, []):
        if r.eq(t) or is_zero(p - poly(r)):
            return r
    _reps[f].append(keep(t))
    return t


def _map_atoms_to_real(p):
    d = {}
    for m, c in p.d.items():
        m2 = []
        for k, e in m:
            if k[0] == 'a':
                t = _keep[k[1]]
                if t.sort() == INT:
                    r = keep(z3.ToReal(t))
                    k = ('a', r.get_id())
            m2.append((k, e))
        m2 = tuple(sorted(m2, key=lambda ke: _okey(ke[0])))
        d[m2] = d.get(m2, 0) + c
    return Poly(d)


def term_of(p, sort):
    """z3 term of a polynomial"""
    num = (lambda c: z3.IntVal(int(c))) if sort == INT else (lambda c: z3.RealVal(str(c)))
    parts = []
    for m, c in p.sorted_items():
        top, bot, conds = [], [], []
        for k, e in m:
            if k[0] == 'i':
                conds.append(_keep[k[1]])
                continue
            a = _keep[k[1]] if k[0] == 'a' else term_of(den_poly(k), sort)
            (top if e > 0 else bot).extend([a] * abs(e))
        t = None
        for a in top:
            t = a if t is None else t * a
        if t is None:
            t = num(c)
        elif c != 1:
            t = num(c) * t
        if bot:
            b = bot[0]
            for a in bot[1:]:
                b = b * a
            t = t / b
        for cnd in reversed(conds):
            t = z3.If(cnd, t, num(0))
        parts.append(t)
    if not parts:
        return num(0)
    r = parts[0]
    for t in parts[1:]:
        r = r + t
    return r


_canon_cache = {}


def canon(t):
    if not is_z3(t):
        t = lift(t)
    i = t.get_id()
    r = _canon_cache.get(i)
    if r is None:
        keep(t)
        s = t.sort()
        if s == INT or s == REAL:
            r = term_of(poly(t), s)
        elif s == BOOL:
            r = canon_bool(t)
        elif t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r = t.decl()(*[canon(c) for c in t.children()])
        elif t.decl().kind() == z3.Z3_OP_ITE:
            c = canon_bool(t.arg(0))
            r = canon(t.arg(1)) if z3.is_true(c) else canon(t.arg(2)) if z3.is_false(c) else z3.If(c, canon(t.arg(1)), canon(t.arg(2)))
        else:
            r = t
        keep(r)
        _canon_cache[i] = r
        _canon_cache[r.get_id()] = r
    return r


def _cmp(a, b, op):
    """canonical a op b, op in eq, le, lt"""
    if a.sort() != b.sort():
        a, b = to_real(a), to_real(b)
    sort = a.sort()
    p = poly(a) - poly(b)
    if is_zero(p):
        return z3.BoolVal(op != 'lt')
    if p.is_const():
        c = p.const_value()
        return z3.BoolVal({'eq': c == 0, 'le': c <= 0, 'lt': c < 0}[op])
    if sort == INT and op == 'lt':
        p = p + Poly.const(1)
        op = 'le'
    items = p.sorted_items()
    lead = items[0][1] if items[0][0] != () else items[1][1]
    import math
    g = 0
    l = 1
    for m, c in items:
        if m == () and sort == INT and op == 'le':
            continue
        g = math.gcd(g, abs(c.numerator))
        l = l * c.denominator // math.gcd(l, c.denominator)
    f = Fraction(l, g) if sort == REAL or all(c.denominator == 1 for _, c in items) else Fraction(1)
    if sort == INT:
        f = Fraction(1)
    p = p.scale(f)
    if op == 'eq':
        if lead < 0:
            p = p.scale(Fraction(-1))
    # positive part <= negative part
    pos = Poly({m: c for m, c in p.d.items() if c > 0})
    neg = Poly({m: -c for m, c in p.d.items() if c < 0})
    l_, r_ = term_of(pos, sort), term_of(neg, sort)
    return l_ == r_ if op == 'eq' else l_ <= r_ if op == 'le' else l_ < r_


_cb_cache = {}


def canon_bool(t):
    if isinstance(t, bool):
        return z3.BoolVal(t)
    i = t.get_id()
    r = _cb_cache.get(i)
    if r is None:
        keep(t)
        r = keep(_canon_bool(t))
        _cb_cache[i] = r
        if not z3.is_quantifier(r):
            _cb_cache[r.get_id()] = r
    return r


def mk_not(c):
    if z3.is_true(c):
        return z3.BoolVal(False)
    if z3.is_false(c):
        return z3.BoolVal(True)
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def _canon_bool(t):
    k = t.decl().kind() if not z3.is_quantifier(t) else None
    if k is None:
        return t
    ch = t.children()
    num = ch and ch[0].sort() in (INT, REAL)
    if k == z3.Z3_OP_EQ and num:
        return _cmp(ch[0], ch[1], 'eq')
    if k == z3.Z3_OP_DISTINCT and num and len(ch) == 2:
        return mk_not(_cmp(ch[0], ch[1], 'eq'))
    if k == z3.Z3_OP_LE:
        return _cmp(ch[0], ch[1], 'le')
    if k == z3.Z3_OP_GE:
        return _cmp(ch[1], ch[0], 'le')
    if k == z3.Z3_OP_LT:
        return mk_not(_cmp(ch[1], ch[0], 'le'))
    if k == z3.Z3_OP_GT:
        return mk_not(_cmp(ch[0], ch[1], 'le'))
    if k == z3.Z3_OP_NOT:
        return mk_not(canon_bool(ch[0]))
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        unit, zero = (True, False) if k == z3.Z3_OP_AND else (False, True)
        out = {}
        for c in ch:
            c = canon_bool(c)
            if (z3.is_true(c) if zero else z3.is_false(c)):
                return z3.BoolVal(zero)
            if (z3.is_true(c) if unit else z3.is_false(c)):
                continue
            if c.decl().kind() == k if not z3.is_quantifier(c) else False:
                for x in c.children():
                    out[x.get_id()] = x
            else:
                out[c.get_id()] = c
        xs = sorted(out.values(), key=lambda x: x.sexpr())
        if not xs:
            return z3.BoolVal(unit)
        if len(xs) == 1:
            return xs[0]
        return z3.And(*xs) if k == z3.Z3_OP_AND else z3.Or(*xs)
    if k == z3.Z3_OP_IMPLIES:
        return canon_bool(z3.Or(z3.Not(ch[0]), ch[1]))
    if k == z3.Z3_OP_UNINTERPRETED and ch:
        return t.decl()(*[canon(c) for c in ch])
    if k == z3.Z3_OP_EQ:
        if ch[0].sort() == BOOL:
            a, b = canon_bool(ch[0]), canon_bool(ch[1])
            if z3.is_true(a):
                return b
            if z3.is_true(b):
                return a
            if z3.is_false(a):
                return mk_not(b)
            if z3.is_false(b):
                return mk_not(a)
            if a.eq(b):
                return z3.BoolVal(True)
            return a == b if a.sexpr() <= b.sexpr() else b == a
        a, b = canon(ch[0]), canon(ch[1])
        if a.eq(b):
            return z3.BoolVal(True)
        return a == b if a.sexpr() <= b.sexpr() else b == a
    if k == z3.Z3_OP_ITE:
        c = canon_bool(ch[0])
        a, b = canon_bool(ch[1]), canon_bool(ch[2])
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        return canon_bool(z3.Or(z3.And(c, a), z3.And(mk_not(c), b)))
    return t


def equal_canon(a, b):
    """decides a == b by normalization only (True = proved; False = not decided)"""
    a, b = lift(a), lift(b)
    sa, sb = a.sort(), b.sort()
    if sa in (INT, REAL) and sb in (INT, REAL):
        if sa != sb:
            a, b = to_real(a), to_real(b)
        try:
            return is_zero(poly(a) - poly(b))
        except (OverflowError, ZeroDivisionError):
            return False
    if sa == sb:
        return canon(a).eq(canon(b))
    return False


# ----------------------------------------------------------------------------------------------------------------
def subterms(t, seen=None):
    seen = {} if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen[i] = x
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return seen


_contains_cache = {}


def contains(t, v):
    key = (t.get_id(), v.get_id())
    r = _contains_cache.get(key)
    if r is None:
        keep(t)
        keep(v)
        if t.eq(v):
            r = True
        elif z3.is_quantifier(t):
            r = contains(t.body(), v)
        else:
            r = any(contains(c, v) for c in t.children())
        _contains_cache[key] = r
    return r


def subst(t, *pairs):
    return z3.substitute(t, *pairs)


class Skeletons:
    """Registry of second-order operations (sums, where, argsort, ...): an operation applied to the function
    `lambda v: body` is represented by an uninterpreted symbol named after the closed body, applied to the maximal
    subterms of the body that do not mention the bound variable(s)."""

    def __init__(self):
        self.reg = {}

    def abstract(self, body, bound):
        """-> (skeleton term over p!i placeholders and the bound placeholders, params)"""
        sk, params, ph = self._abstract(body, bound)
        if not params or sk.num_args() == 0:
            return sk, params, ph
        # the order of factors and summands must not depend on the parameters' own terms
        for _ in range(2):
            sk2 = canon(sk) if sk.sort() != BOOL else canon_bool(sk)
            if sk2.eq(sk):
                break
            keep(sk2)
            sk, pl, _ph = self._abstract(sk2, ph)
            names = {str(p): q for p, q in zip(self._placeholders(params), params)}
            if any(str(p) not in names for p in pl):
                return self._abstract(body, bound)
            params = [names[str(p)] for p in pl]
        return sk, params, ph

    @staticmethod
    def _placeholders(params):
        return [z3.Const('p!%d!%s' % (j, c.sort().name()), c.sort()) for j, c in enumerate(params)]

    def _abstract(self, body, bound):
        params, pidx = [], {}
        ph = [z3.Const('v!%d' % i, b.sort()) for i, b in enumerate(bound)]
        cache = {}

        def go(t):
            i = t.get_id()
            if i in cache:
                return cache[i]
            keep(t)
            r = None
            for b, p in zip(bound, ph):
                if t.eq(b):
                    r = p
            if r is None:
                if not any(contains(t, b) for b in bound):
                    if z3.is_int_value(t) or z3.is_rational_value(t) or z3.is_true(t) or z3.is_false(t):
                        r = t
                    else:
                        c = canon(t)
                        j = pidx.get(c.get_id())
                        if j is None:
                            keep(c)
                            j = pidx[c.get_id()] = len(params)
                            params.append(c)
                        r = z3.Const('p!%d!%s' % (j, c.sort().name()), c.sort())
                else:
                    if z3.is_quantifier(t):
                        raise NotImplementedError('quantifier in array expression')
                    r = t.decl()(*[go(c) for c in t.children()]) if t.num_args() else t
            cache[i] = r
            return r
        sk = go(body)
        return sk, params, ph

    def symbol(self, op, sks, params, extra_sorts, result):
        """function symbol for op<skeletons>"""
        key = (op,) + tuple(s.sexpr() + '|' + str(s.sort()) for s in sks)
        ent = self.reg.get(key)
        if ent is None:
            name = '%s<%d>' % (op, len(self.reg))
            f = z3.Function(name, *([p.sort() for p in params] + list(extra_sorts) + [result])) \
                if (params or extra_sorts) else z3.Const(name, result)
            ent = self.reg[key] = dict(f=f, name=name, key=key, op=op)
        return ent


SK = Skeletons()
