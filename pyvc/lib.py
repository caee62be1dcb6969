"""Library functions, methods and attributes (assumed contracts on numpy, scipy, pandas and Python builtins)."""
from .nplib import *

FUNS = {}
RS_METHODS = {}


def fun(*names):
    def d(f):
        for n in names:
            FUNS[n] = f
        return f
    return d


def val(eng, v):
    """value usable in array arithmetic: scalar or Arr"""
    v = deref(eng, v)
    if isinstance(v, Opt):
        if eng.choose(v.isnone):
            return None
        return val(eng, v.value)
    if isinstance(v, (ListObj, tuple, RangeV)):
        return as_arr(eng, v)
    return v


def ret(eng, v):
    """array results live on the heap"""
    return eng.alloc(v) if isinstance(v, Arr) else v


def numeric(eng, v, what):
    v = val(eng, v)
    if v is None:
        raise PyRaise('TypeError')
    if not (is_num(v) or isinstance(v, (Arr, Inf))):
        raise Unsupported('%s of %r' % (what, v))
    return v


UFUNCS = {'numpy.log': 'log', 'numpy.log1p': 'log1p', 'numpy.log2': 'log2', 'numpy.exp': 'exp', 'numpy.sqrt': 'sqrt', 'numpy.abs': 'abs', 'numpy.absolute': 'abs',
          'numpy.fabs': 'abs', 'numpy.cos': 'cos', 'numpy.sin': 'sin', 'numpy.arccos': 'arccos', 'numpy.negative': 'negative', 'numpy.square': 'square',
          'scipy.special.gammaln': 'gammaln', 'scipy.special.loggamma': 'gammaln', 'math.log': 'log', 'math.sqrt': 'sqrt',
          'math.lgamma': 'gammaln', 'math.exp': 'exp', 'math.cos': 'cos', 'math.sin': 'sin', 'math.fabs': 'abs', 'builtins.abs': 'abs'}


def ufunc(eng, name, x):
    x = numeric(eng, x, name)
    if name == 'abs':
        check = None
        if isinstance(x, Arr) and x.meta.get('dt') == 'any':
            check_narrow(eng, 'abs', (x,))
    elif isinstance(x, Arr) and x.meta.get('dt') == 'any':
        check_narrow(eng, name, (x,))
    if isinstance(x, Arr):
        if x.cont in SPARSE:
            raise Unsupported('ufunc on sparse matrix')
        if name in ('log', 'gammaln', 'arccos', 'log1p') and x.kind != 'O':
            with generic_elem(eng, x) as e:
                s_fun(eng, name, e)          # definedness obligations, once and for all elements
        keepk = name in ('abs', 'negative', 'square')
        return ret(eng, elementwise(eng, lambda v: s_fun(eng, name, v), x, kind=x.kind if keepk or x.kind == 'O' else 'f'))
    return s_fun(eng, name, x)


@fun('numpy.float64', 'builtins.float')
def f_float(eng, x=0):
    x = val(eng, x)
    if isinstance(x, str):
        if x.lower() in ('inf', '-inf', 'infinity', '+inf'):
            return Inf(-1 if x.startswith('-') else 1)
        raise Unsupported('float of a string')
    if isinstance(x, Inf):
        return x
    if is_num(x):
        x = norm_num(x)
        return Fraction(x) if not is_z3(x) else to_real(x)
    if isinstance(x, Arr) and all(same_dim(n, 1) for n in x.shape):
        return f_float(eng, x.fn(*[0] * x.ndim))
    raise Unsupported('float of %r' % (x,))


@fun('builtins.int', 'numpy.int64', 'numpy.intp')
def f_int(eng, x=0):
    x = val(eng, x)
    if isinstance(x, Arr) and all(same_dim(n, 1) for n in x.shape):
        x = x.fn(*[0] * x.ndim)
    if not is_num(x):
        raise Unsupported('int of %r' % (x,))
    x = norm_num(conc(x))
    if not is_z3(x):
        return int(x)
    if x.sort() == INT:
        return x
    k = conc(canon(z3.ToInt(x))) if False else None
    # truncation toward zero
    r = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
    key = ('trunc', canon(x).get_id())
    if key not in eng.ghost:
        keep(canon(x))
        eng.ghost[key] = eng.fresh('trunc', INT)
        t = eng.ghost[key]
        eng.assume(z3.Implies(x >= 0, z3.And(to_real(t) <= x, x < to_real(t) + 1)))
        eng.assume(z3.Implies(x <= 0, z3.And(to_real(t) >= x, x > to_real(t) - 1)))
    return eng.ghost[key]


@fun('builtins.bool')
def f_bool(eng, x=False):
    return eng.truth(x)


@fun('builtins.len')
def f_len(eng, x):
    return length(eng, x)


@fun('builtins.range')
def f_range(eng, a, b=None, c=1):
    vs = [norm_num(conc(val(eng, v))) for v in (a, b, c) if v is not None]
    for v in vs:
        if not is_num(v) or is_real(v):
            raise PyRaise('TypeError')
    if b is None:
        return RangeV(0, vs[0], 1)
    return RangeV(vs[0], vs[1], vs[2])


@fun('builtins.tuple')
def f_tuple(eng, x=()):
    x = deref(eng, x)
    if isinstance(x, Arr):
        n = conc(x.shape[0])
        if x.ndim == 1 and not is_z3(n):
            return Tup(x.fn(i) for i in range(n))
        # tuple of symbolic length: keeps the contents
        return eng.alloc(ListObj(None, x.shape[0], lambda i: x.fn(i))) if x.ndim != 1 else eng.alloc(x.with_(cont='tuple', base=None, origin='fresh'))
    if isinstance(x, tuple):
        return Tup(x)
    if isinstance(x, ListObj):
        if x.items is not None:
            return Tup(x.items)
        return eng.alloc(x.copy())
    if isinstance(x, RangeV):
        n = conc(range_len(eng, x))
        if not is_z3(n):
            return Tup(s_binop(eng, '+', x.lo, s_binop(eng, '*', i, x.step)) for i in range(n))
    raise Unsupported('tuple of %r' % (x,))


@fun('builtins.list')
def f_list(eng, x=()):
    x = deref(eng, x)
    if isinstance(x, IterV):
        return eng.alloc(ListObj(None, x.length, x.fn)) if is_z3(conc(x.length)) else eng.alloc(ListObj([x.fn(i) for i in range(conc(x.length))]))
    if isinstance(x, ListObj):
        return eng.alloc(ListObj(x.items, x.length, x.fn))
    if isinstance(x, tuple):
        return eng.alloc(ListObj(x))
    if isinstance(x, (Arr, RangeV)):
        it = iterate(eng, x)
        n = conc(it.length)
        if not is_z3(n):
            return eng.alloc(ListObj([it.fn(i) for i in range(n)]))
        return eng.alloc(ListObj(None, n, it.fn))
    if isinstance(x, DictObj):
        it = iterate(eng, x)
        return eng.alloc(ListObj(None, it.length, it.fn))
    raise Unsupported('list of %r' % (x,))


@fun('builtins.dict')
def f_dict(eng):
    return eng.alloc(DictObj({}))


@fun('builtins.set')
def f_set(eng, x=()):
    x = deref(eng, x)
    if isinstance(x, Arr) and x.ndim == 1:
        return eng.alloc(SetObj(None, x))
    if isinstance(x, tuple) and not x:
        return eng.alloc(SetObj([]))
    raise Unsupported('set of %r' % (x,))


def iterate(eng, v):
    """IterV over a python iterable"""
    v = deref(eng, v)
    if isinstance(v, Opt):
        if eng.choose(v.isnone):
            raise PyRaise('TypeError')
        return iterate(eng, v.value)
    if isinstance(v, IterV):
        return v
    if isinstance(v, Arr):
        if v.cont in SPARSE or v.shape[0] is None:
            raise Unsupported('iteration over %r' % (v,))
        if v.ndim == 0:
            raise PyRaise('TypeError')
        if v.ndim == 1:
            it = IterV(v.shape[0], lambda i: v.fn(i))
            it.listing = listing_of(v)
            return it
        return IterV(v.shape[0], lambda i: eng.alloc(Arr(v.shape[1:], lambda *j: v.fn(i, *j), v.kind)))
    if isinstance(v, RangeV):
        n = range_len(eng, v)
        it = IterV(n, lambda i: s_binop(eng, '+', v.lo, s_binop(eng, '*', i, v.step)))
        it.range = v
        return it
    if isinstance(v, ListObj):
        return IterV(v.length, lambda i: list_at(eng, v, i))
    if isinstance(v, tuple):
        return IterV(len(v), lambda i: pick(eng, i, list(v)))
    if isinstance(v, DictObj):
        if v.items is not None:
            ks = [k for k, _ in v.items.values()]
            return IterV(len(ks), lambda i: pick(eng, i, ks))
        return v.sym['iter'](eng)
    if isinstance(v, str):
        return IterV(len(v), lambda i: v[conc(i)])
    raise Unsupported('iteration over %r' % (v,))


@fun('builtins.enumerate')
def f_enumerate(eng, x, start=0):
    it = iterate(eng, x)
    return IterV(it.length, lambda i: Tup((s_binop(eng, '+', i, start), it.fn(i))))


@fun('builtins.zip')
def f_zip(eng, *xs):
    its = [iterate(eng, x) for x in xs]
    n = its[0].length
    for it in its[1:]:
        if not same_dim(n, it.length):
            if eng.entails(lift(n) <= lift(it.length)):
                continue
            if eng.entails(lift(it.length) <= lift(n)):
                n = it.length
                continue
            n = canon(z3.If(lift(n) <= lift(it.length), lift(n), lift(it.length)))
    return IterV(n, lambda i: Tup(it.fn(i) for it in its))


@fun('builtins.reversed')
def f_reversed(eng, x):
    it = iterate(eng, x)
    return IterV(it.length, lambda i: it.fn(s_binop(eng, '-', s_binop(eng, '-', it.length, 1), i)))


@fun('builtins.max', 'builtins.min')
def f_max(eng, *xs, _name=None):
    which = _name.split('.')[-1]
    if len(xs) == 1:
        it = iterate(eng, xs[0])
        n = conc(it.length)
        if is_z3(n):
            return extval(eng, n, it.fn, which)
        if n == 0:
            raise PyRaise('ValueError')
        xs = [it.fn(i) for i in range(n)]
    r = xs[0]
    for x in xs[1:]:
        r = s_minmax(eng, which, r, x)
    return r


def s_minmax(eng, which, a, b):
    c = s_cmp(eng, '>=' if which == 'max' else '<=', a, b)
    if isinstance(c, bool):
        return a if c else b
    if eng.entails(c):
        return a
    if eng.entails(z3.Not(c)):
        return b
    r = s_ite(c, a, b)
    if r is None:
        return a if eng.choose(c) else b
    return r


@fun('builtins.sum')
def f_sum_builtin(eng, x, start=0):
    it = iterate(eng, x)
    n = conc(it.length)
    if is_z3(n):
        return binop(eng, '+', start, sums.SUM(eng, 0, n, it.fn))
    r = start
    for i in range(n):
        r = binop(eng, '+', val(eng, r), val(eng, it.fn(i)))
    return ret(eng, r)


@fun('builtins.all', 'builtins.any')
def f_allany(eng, x, _name=None):
    it = iterate(eng, x)
    a = Arr((it.length,), lambda i: eng.truth_term(it.fn(i)), 'b')
    return all_any(eng, a, _name.split('.')[-1])


@fun('builtins.sorted')
def f_sorted(eng, x):
    x = deref(eng, x)
    if isinstance(x, DictObj):
        x = deref(eng, call_method(eng, x, 'keys', [], {}))
    it = iterate(eng, x)
    if hasattr(it, 'sorted'):
        return it.sorted(eng)
    n = conc(it.length)
    if isinstance(it.fn(0 if not is_z3(n) and n else eng.fresh_plain('k', INT)) if is_z3(n) or n else None, str):
        if not is_z3(n) and all(isinstance(it.fn(i), str) for i in range(n)):
            return eng.alloc(ListObj(sorted(it.fn(i) for i in range(n))))
        return eng.alloc(ListObj(None, n, lambda t: Opaque('text')))
    L = argsort_listing(eng, n, it.fn)
    return eng.alloc(ListObj(None, n, lambda t: it.fn(L.at(t))))


@fun('builtins.pow')
def f_pow(eng, a, b):
    return binop(eng, '**', numeric(eng, a, 'pow'), numeric(eng, b, 'pow'))


@fun('builtins.round', 'numpy.round', 'numpy.rint', 'numpy.around')
def f_round(eng, x, decimals=None):
    x = numeric(eng, x, 'round')
    if decimals is not None and conc(decimals) != 0:
        g2 = uf('roundf2', REAL, INT, REAL)
        return ret(eng, map1(eng, lambda v: g2(to_real(norm_num(v)), lift(decimals)), x, 'f'))
    g = uf('roundf', REAL, REAL)

    def rnd(v):
        v = canon(to_real(norm_num(v)))
        r = g(v)
        eng.assume(z3.Implies(v == z3.ToReal(z3.ToInt(v)), r == v))
        return r
    return ret(eng, map1(eng, rnd, x, 'f'))


@fun('builtins.print')
def f_print(eng, *a, **k):
    return None


@fun('builtins.hash', 'builtins.id')
def f_hash(eng, *a):
    eng.prove('no use of object identity or hash values (determinism)', False)
    return eng.fresh('hash', INT)


@fun('builtins.str', 'builtins.repr')
def f_str(eng, x=''):
    return to_str(eng, x)


SHOW = {}
ONE_LINE = Opaque('text without line break')


def one_line(s):
    """text without line break: literals, printed numbers, names"""
    if not isinstance(s, (str, SStr)):
        return False
    return all('\n' not in p if isinstance(p, str) else p is ONE_LINE or is_z3(p) for p in (s.parts if isinstance(s, SStr) else [s]))


def to_str(eng, v, spec=''):
    v = deref(eng, v)
    if isinstance(v, (str, SStr)):
        if spec and isinstance(v, str):
            return format(v, spec)
        return v if not spec else SStr([show_term(('spec', spec), [])] + [v])
    if isinstance(v, int) and not isinstance(v, bool):
        return format(v, spec)
    if v is None:
        return 'None'
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, Fraction) or is_z3(v):
        t = lift(v)
        spec = '' if spec == 'd' and t.sort() == INT else spec
        return SStr([show_term(('num', spec, str(t.sort())), [canon(t)])])
    if isinstance(v, Opt):
        if eng.choose(v.isnone):
            return 'None'
        return to_str(eng, v.value, spec)
    if isinstance(v, Arr):
        return SStr([Shown(v, spec)])
    return SStr([Opaque('text of %r' % (v,))])


class Shown:
    """text of an array value"""
    def __init__(self, v, spec):
        self.v, self.spec = v, spec


def show_term(key, args):
    f = SHOW.get(key)
    if f is None:
        name = 'show<%d>' % len(SHOW)
        f = SHOW[key] = z3.Function(name, *([a.sort() for a in args] + [StrSort])) if args else z3.Const(name, StrSort)
    return f(*args) if args else f


def str_format(eng, tmpl, args, kwargs):
    import string
    if isinstance(tmpl, SStr):
        raise Unsupported('format on a symbolic template')
    parts, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(tmpl):
        parts.append(lit)
        if field is None:
            continue
        if field == '':
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field in kwargs:
            v = kwargs[field]
        else:
            raise Unsupported('format field %s' % field)
        parts.append(to_str(eng, v, spec))
    r = SStr(parts)
    if not r.parts:
        return ''
    if len(r.parts) == 1 and isinstance(r.parts[0], str):
        return r.parts[0]
    return r


def str_eq(eng, a, b):
    """equality of symbolic strings: True / z3 Bool / None (unknown)"""
    pa = a.parts if isinstance(a, SStr) else ([a] if a != '' else [])
    pb = b.parts if isinstance(b, SStr) else ([b] if b != '' else [])
    if len(pa) != len(pb):
        return None
    cs = []
    for x, y in zip(pa, pb):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return None
        elif is_z3(x) and is_z3(y):
            cs.append(x == y)
        elif isinstance(x, Shown) and isinstance(y, Shown) and x.spec == y.spec:
            r = values_equal(eng, x.v, y.v)
            if r is not True:
                return None
        elif x is not y:
            return None
    return conc(canon_bool(z3.And(*cs))) if cs else True


def values_equal(eng, a, b):
    """provable equality of two array values"""
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.ndim != b.ndim:
            return False
        for x, y in zip(a.shape, b.shape):
            if not same_dim(x, y) and not eng.entails(lift(x) == lift(y)):
                return False
        with generic_elem(eng, Arr(a.shape, lambda *i: (a.fn(*i), b.fn(*i)), 'f')) as (x, y):
            if isinstance(x, Arr):
                return values_equal(eng, x, y)
            x, y = both(to_num(x), to_num(y))
            return eng.holds(x == y)
    return False


# ------------------------------------------------------------------------------------------------ numpy creation
def shape_of(eng, s):
    s = deref(eng, s)
    if isinstance(s, ListObj) and s.items is not None:
        s = Tup(s.items)
    if isinstance(s, Arr):
        s = Tup(s.fn(i) for i in range(conc(s.shape[0])))
    if isinstance(s, tuple):
        return [conc(x) for x in s]
    if is_num(s):
        return [conc(s)]
    raise Unsupported('shape %r' % (s,))


def dtype_kind(eng, d):
    """(kind, dt)"""
    if d is None:
        return 'f', None
    if isinstance(d, Ext):
        n = d.name.split('.')[-1]
    elif isinstance(d, str):
        n = d
    elif isinstance(d, DType):
        n = d.name
    else:
        raise Unsupported('dtype %r' % (d,))
    if n in ('float64', 'float', 'double', 'float_'):
        return 'f', None
    if n in ('int64', 'int', 'intp', 'int_'):
        return 'i', None
    if n in ('bool', 'bool_'):
        return 'b', None
    if n == 'object':
        return 'O', None
    m = {'uint8': 'u1', 'uint16': 'u2', 'uint32': 'u4', 'uint64': 'u8'}.get(n)
    if m:
        return 'i', m
    if n in WIDTH:
        return 'i', n
    raise Unsupported('dtype %s' % n)


def filled(eng, shape, v, dtype, default='f'):
    sh = shape_of(eng, shape)
    for n in sh:
        if is_z3(n):
            if not eng.entails(n >= 0):
                eng.prove('array extent is not negative', n >= 0)
        elif n < 0:
            raise PyRaise('ValueError')
    k, dt = dtype_kind(eng, dtype) if dtype is not None else (default, None)
    if k == 'O':
        v = None
    elif k == 'b':
        v = bool(v)
    elif k == 'f':
        v = Fraction(v)
    return eng.alloc(Arr(sh, lambda *i: v, k, meta={'dt': dt} if dt else {}))


@fun('numpy.zeros')
def np_zeros(eng, shape, dtype=None):
    return filled(eng, shape, 0, dtype)


@fun('numpy.ones')
def np_ones(eng, shape, dtype=None):
    return filled(eng, shape, 1, dtype)


@fun('numpy.empty')
def np_empty(eng, shape, dtype=None):
    sh = shape_of(eng, shape)
    k, dt = dtype_kind(eng, dtype)
    if k == 'O':
        return filled(eng, shape, 0, dtype)
    f = eng.fresh_fun('uninit', *([INT] * len(sh) + [REAL if k == 'f' else INT]))
    return eng.alloc(Arr(sh, lambda *i: f(*i), k, meta={'dt': dt} if dt else {}))


@fun('numpy.full')
def np_full(eng, shape, v, dtype=None):
    v = val(eng, v)
    sh = shape_of(eng, shape)
    r = Arr(sh, lambda *i: v, kind_of(v))
    if dtype is not None:
        return astype(eng, r, *dtype_kind(eng, dtype))
    return eng.alloc(r)


@fun('numpy.zeros_like', 'numpy.ones_like')
def np_like(eng, a, _name=None):
    a = as_arr(eng, a)
    x = 0 if 'zeros' in _name else 1
    if a.kind not in ('i', 'f') or a.meta.get('dt') == 'any' or a.cont != 'ndarray':
        raise Unsupported('zeros_like of this array')
    return eng.alloc(Arr(a.shape, lambda *i: x if a.kind == 'i' else Fraction(x), a.kind, meta={'dt': a.meta['dt']} if a.meta.get('dt') else {}))


@fun('numpy.arange')
def np_arange(eng, a, b=None, c=1, dtype=None):
    vs = [norm_num(conc(val(eng, v))) for v in (a, b, c) if v is not None]
    if b is None:
        lo, hi, st = 0, vs[0], 1
    else:
        lo, hi, st = vs[0], vs[1], vs[2]
    if not all(is_num(v) and not is_real(v) for v in (lo, hi, st)):
        raise Unsupported('arange of reals')
    n = range_len(eng, RangeV(lo, hi, st))
    fn = lambda i: s_binop(eng, '+', lo, s_binop(eng, '*', i, st))
    meta = {}
    kind, dt = dtype_kind(eng, dtype) if dtype is not None else ('i', None)
    if kind not in ('i', 'f'):
        raise Unsupported('arange of dtype %r' % (dtype,))
    if kind == 'f':
        return eng.alloc(Arr((n,), lambda i: to_real(norm_num(fn(i))), 'f'))
    if dt in WIDTH:
        # values beyond the range of the element type wrap around (unsigned)
        if st != 1 or is_z3(lo) or lo != 0:
            raise Unsupported('arange of narrow integers')
        meta['dt'] = dt
        if not eng.choose(canon_bool(lift(n) <= WIDTH[dt])):
            return eng.alloc(Arr((n,), lambda i: canon(lift(i) % WIDTH[dt]), 'i', meta=dict(meta, wrapped=True)))
    if st == 1:
        if not is_z3(lo) and lo == 0:
            meta['listing'] = range_listing(eng, n)
        else:
            L = Listing(n, fn, lambda k: canon_bool(z3.And(lift(k) >= lift(lo), lift(k) < lift(lo) + lift(n))),
                        lambda k: s_binop(eng, '-', k, lo), hi)
            meta['listing'] = L
    return eng.alloc(Arr((n,), fn, 'i', meta=meta))


@fun('numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray')
def np_array(eng, x, dtype=None, copy=None, _name=None):
    o = deref(eng, x)
    if isinstance(o, Arr) and o.cont == 'ndarray' and 'asarray' in _name and dtype is None:
        return x
    a = as_arr(eng, x)
    if a is None:
        v = val(eng, x)
        if is_num(v):
            return eng.alloc(Arr((), lambda: v, kind_of(v)))
        raise Unsupported('np.array of %r' % (v,))
    if a.cont in SPARSE:
        raise Unsupported('np.array of a sparse matrix')
    meta = dict(a.meta)
    if o is not a and isinstance(o, ListObj) and o.origin == 'param':
        meta['dt'] = 'any'
    if isinstance(o, ListObj) and getattr(o, 'region', None) == 'raw':
        meta['dt'] = 'any'
    r = Arr(a.shape, a.fn, a.kind, 'ndarray', meta=meta)
    if dtype is not None:
        k, dt = dtype_kind(eng, dtype)
        return astype(eng, r, k, dt)
    return eng.alloc(r)


def astype(eng, a, k, dt):
    meta = {q: w for q, w in a.meta.items() if q in ('rows', 'listing', 'gather', 'rowlisting')}
    if dt:
        meta['dt'] = dt
    if k == 'O' or a.kind == 'O':
        raise Unsupported('astype object')
    if k == 'f' and a.kind != 'f':
        meta.pop('gather', None)
        return eng.alloc(Arr(a.shape, lambda *i: to_real(norm_num(a.fn(*i))), 'f', a.cont, meta=meta))
    if k == 'i' and a.kind == 'f':
        meta = {}
        if dt in WIDTH:
            with generic_elem(eng, a) as e:
                v = lift(to_num(f_int(eng, e)))
                eng.prove('values fit into %s' % dt, z3.And(v >= 0, v < WIDTH[dt]))
            meta = {'dt': dt}
        return eng.alloc(Arr(a.shape, lambda *i: f_int(eng, a.fn(*i)), 'i', a.cont, meta=meta))
    if k == 'i' and dt in WIDTH:
        with generic_elem(eng, a) as e:
            eng.prove('values fit into %s' % dt, z3.And(lift(to_num(e)) >= 0, lift(to_num(e)) < WIDTH[dt]))
    if k == 'i' and a.kind == 'b':
        return eng.alloc(Arr(a.shape, lambda *i: to_num(a.fn(*i)), 'i', a.cont, meta=meta))
    if k == 'b' and a.kind != 'b':
        return eng.alloc(Arr(a.shape, lambda *i: s_cmp(eng, '!=', a.fn(*i), 0), 'b', a.cont))
    return eng.alloc(Arr(a.shape, a.fn, a.kind, a.cont, meta=meta))


# ------------------------------------------------------------------------------------------------ numpy functions
@fun('numpy.sum')
def np_sum(eng, x, axis=None, keepdims=False):
    o = deref(eng, x)
    if isinstance(o, (ListObj, tuple)):
        it = iterate(eng, o)
        n = conc(it.length)
        if not is_z3(n) and (axis == 0 or axis is None and all(is_num(it.fn(i)) for i in range(n))):
            return f_sum_builtin(eng, x)
        if is_z3(n) and axis == 0:
            return ret(eng, _sumfn2(eng, n, lambda i: val(eng, it.fn(i))))
    a = as_arr(eng, x)
    if a is None:
        return val(eng, x)
    check_narrow(eng, 'sum', (a,))
    if a.cont in SPARSE:
        raise Unsupported('sum of a sparse matrix')
    r = arr_sum(eng, a, conc(axis) if axis is not None else None)
    if keepdims:
        raise Unsupported('keepdims')
    return ret(eng, r)


def _sumfn2(eng, n, f):
    from .ops import _sumfn
    return _sumfn(eng, n, f)


@fun('numpy.mean')
def np_mean(eng, x, axis=None):
    a = as_arr(eng, x)
    s = np_sum(eng, x, axis)
    if axis is None:
        n = 1
        for d in a.shape:
            n = s_binop(eng, '*', n, d)
    else:
        n = a.shape[axis]
    return ret(eng, binop(eng, '/', val(eng, s), n))


@fun('numpy.prod')
def np_prod(eng, x):
    it = iterate(eng, x)
    n = conc(it.length)
    if is_z3(n):
        raise Unsupported('product of symbolic length')
    r = 1
    for i in range(n):
        r = binop(eng, '*', r, it.fn(i))
    return r


@fun('numpy.cumsum')
def np_cumsum(eng, x, axis=None):
    a = as_arr(eng, x)
    check_narrow(eng, 'cumsum', (a,))
    if a.ndim != 1:
        if a.ndim == 2 and axis in (1, -1):
            return eng.alloc(Arr(a.shape, lambda i, j: sums.SUM(eng, 0, s_binop(eng, '+', j, 1), lambda t: a.fn(i, t)), 'i' if a.kind == 'b' else a.kind))
        raise Unsupported('cumsum axis')
    return eng.alloc(Arr(a.shape, lambda j: sums.SUM(eng, 0, s_binop(eng, '+', j, 1), lambda t: a.fn(t)), 'i' if a.kind == 'b' else a.kind))


@fun('numpy.where', 'numpy.nonzero', 'numpy.flatnonzero')
def np_where(eng, m, a=None, b=None, _name=None):
    m = val(eng, m)
    if a is not None:
        return ret(eng, elementwise(eng, lambda c, x, y: ite(eng, lift(eng.truth_term(c)), x, y), m, val(eng, a), val(eng, b),
                                    kind=kind_join(kind_of(val(eng, a)), kind_of(val(eng, b)))))
    if not isinstance(m, Arr) or m.ndim != 1:
        raise Unsupported('where on this shape')
    mask = m.fn if m.kind == 'b' else (lambda i: s_cmp(eng, '!=', m.fn(i), 0))
    L = where_listing(eng, m.shape[0], lambda i: mask(i))
    r = eng.alloc(listing_arr(L))
    return r if 'flat' in _name else Tup((r,))


@fun('numpy.argwhere')
def np_argwhere(eng, m):
    r = np_where(eng, m, _name='numpy.where')[0]
    L = eng.deref(r)
    return eng.alloc(Arr((L.shape[0], 1), lambda i, j: L.fn(i), 'i'))


@fun('numpy.count_nonzero')
def np_count(eng, m):
    m = as_arr(eng, m)
    mm = m if m.kind == 'b' else elementwise(eng, lambda x: s_cmp(eng, '!=', x, 0), m, kind='b')
    return arr_sum(eng, mm)


@fun('numpy.diff')
def np_diff(eng, x):
    a = as_arr(eng, x)
    check_narrow(eng, 'diff', (a,))
    if a.ndim != 1 or a.meta.get('dt') in WIDTH:
        raise Unsupported('diff')
    n = s_binop(eng, '-', a.shape[0], 1)
    if is_z3(n) and not eng.entails(n >= 0):
        eng.prove('diff of a non-empty array', n >= 0)
    return eng.alloc(Arr((n,), lambda i: s_binop(eng, '-', a.fn(s_binop(eng, '+', i, 1)), a.fn(i)), a.kind))


@fun('numpy.argsort')
def np_argsort(eng, x, axis=-1, kind=None):
    a = as_arr(eng, x)
    if a.cont in SPARSE:
        raise Unsupported('argsort of a sparse matrix')
    if a.ndim == 1:
        return eng.alloc(listing_arr(argsort_listing(eng, a.shape[0], lambda i: a.fn(i))))
    if a.ndim == 2:
        ax = conc(axis)
        if ax in (1, -1):
            row = lambda d: argsort_listing(eng, a.shape[1], lambda i: a.fn(d, i))
            return eng.alloc(Arr(a.shape, lambda d, t: row(d).at(t), 'i', meta={'rowlisting': row}))
        row = lambda d: argsort_listing(eng, a.shape[0], lambda i: a.fn(i, d))
        r = eng.alloc(Arr((a.shape[1], a.shape[0]), lambda d, t: row(d).at(t), 'i', meta={'rowlisting': row}))
        return transpose(eng, eng.deref(r), r)
    raise Unsupported('argsort')


@fun('numpy.sort')
def np_sort(eng, x):
    a = as_arr(eng, x)
    if a.ndim != 1:
        raise Unsupported('sort')
    L = argsort_listing(eng, a.shape[0], lambda i: a.fn(i))
    return eng.alloc(Arr(a.shape, lambda t: a.fn(L.at(t)), a.kind, meta={'gather': (L, a.fn)}))


@fun('numpy.argmax', 'numpy.argmin')
def np_argmax(eng, x, axis=None, _name=None):
    a = as_arr(eng, x)
    if a.ndim != 1 or axis not in (None, 0, -1):
        raise Unsupported('argmax of this shape')
    return argext(eng, a, a.shape[0], lambda i: a.fn(i), 'max' if 'max' in _name else 'min')


@fun('numpy.max', 'numpy.min', 'numpy.amax', 'numpy.amin')
def np_max(eng, x, axis=None, _name=None):
    a = as_arr(eng, x)
    which = 'max' if 'max' in _name else 'min'
    if a.ndim == 1 and axis in (None, 0, -1):
        n = conc(a.shape[0])
        if not is_z3(n) and 0 < n <= 8:
            r = a.fn(0)
            for i in range(1, n):
                r = s_minmax(eng, which, r, a.fn(i))
            return r
        return extval(eng, a.shape[0], lambda i: a.fn(i), which)
    raise Unsupported('max of this shape')


@fun('numpy.isin', 'numpy.in1d')
def np_isin(eng, x, t, invert=False, assume_unique=False):
    a, b = as_arr(eng, x), as_arr(eng, t)
    L = listing_of(b)
    if L is None:
        raise Unsupported('isin in an array that is not a known listing')
    inv = conc(invert)
    f = (lambda v: eng_not(L.member(v))) if inv else (lambda v: L.member(v))
    r = elementwise(eng, f, a, kind='b')
    if not inv:
        r.meta['isin'] = L
    return eng.alloc(r)


@fun('numpy.setdiff1d')
def np_setdiff(eng, x, t, assume_unique=False):
    raise Unsupported('setdiff1d')


@fun('numpy.unique')
def np_unique(eng, x, return_counts=False, return_inverse=False):
    a = as_arr(eng, x)
    if a.ndim != 1 or conc(return_counts) or conc(return_inverse):
        raise Unsupported('unique')
    u = unique_info(eng, a.shape[0], a.fn)
    ent, params = content_symbol(eng, 'unique', [lambda v: lift(to_num(a.fn(v)))], [a.shape[0]], [INT], REAL if a.kind == 'f' else INT, [a.shape[0]])
    n, u_ = lift(a.shape[0]), lift(u)
    SRC = z3.Function(ent['name'] + '_src', *([p.sort() for p in params] + [INT, INT]))       # an entry with that value
    IDX = z3.Function(ent['name'] + '_idx', *([p.sort() for p in params] + [INT, INT]))       # index of an entry's value
    for p in params:
        keep(p)
    key = ('unique', ent['name'], tuple(p.get_id() for p in params))

    def at(i):
        w = canon(app(ent, params, i))
        old, new = eng.accessed(key, i)
        if new:
            i = lift(i)
            s = SRC(*(params + [i]))
            x, y = both(to_num(a.fn(s)), w)
            eng.assume(z3.Implies(z3.And(i >= 0, i < u_), z3.And(s >= 0, s < n, x == y)))
            for o in old:
                o = lift(o)
                wo = app(ent, params, o)
                eng.assume(z3.Implies(z3.And(o >= 0, o < i, i < u_), wo < w))
                eng.assume(z3.Implies(z3.And(i >= 0, i < o, o < u_), w < wo))
        return w

    def inst(j):
        j = lift(j)
        if j.sort() != INT:
            return
        old, new = eng.accessed(key + ('idx',), j)
        if new:
            t = IDX(*(params + [j]))
            x, y = both(to_num(a.fn(j)), at(t))
            eng.assume(z3.Implies(z3.And(j >= 0, j < n), z3.And(t >= 0, t < u_, x == y)))
    eng.insts.append(tagged('unique', inst))
    r = Arr((u,), at, a.kind, meta={'unique_of': a})
    eng.ghost['uniques'] = eng.ghost.get('uniques', []) + [(a, r)]
    return eng.alloc(r)


@fun('numpy.all', 'numpy.any')
def np_all(eng, x, axis=None, _name=None):
    a = val(eng, x)
    if axis is not None:
        raise Unsupported('all/any along an axis')
    return all_any(eng, a if isinstance(a, Arr) else a, _name.split('.')[-1])


@fun('numpy.array_equal')
def np_array_equal(eng, a, b):
    x, y = as_arr(eng, a), as_arr(eng, b)
    if x is None or y is None or x.cont in SPARSE or y.cont in SPARSE:
        raise Unsupported('array_equal')
    if x.ndim != y.ndim:
        return False
    same = canon_bool(eng.simp(z3.And(*[lift(p) == lift(q) for p, q in zip(x.shape, y.shape)])))
    if not z3.is_true(same):
        if not eng.choose(same):
            return False
    return all_any(eng, elementwise(eng, lambda p, q: s_cmp(eng, '==', p, q), x, y, kind='b'), 'all')


@fun('numpy.maximum', 'numpy.minimum', 'numpy.fmax', 'numpy.fmin')
def np_maximum(eng, a, b, _name=None):
    which = 'max' if 'max' in _name else 'min'
    x, y = numeric(eng, a, 'maximum'), numeric(eng, b, 'maximum')
    k = kind_join(kind_of(x), kind_of(y))
    r = elementwise(eng, lambda p, q: s_minmax(eng, which, p, q), x, y, kind=k)
    return ret(eng, r)


@fun('numpy.clip')
def np_clip(eng, a, lo, hi):
    x = numeric(eng, a, 'clip')
    lo, hi = numeric(eng, lo, 'clip'), numeric(eng, hi, 'clip')
    f = lambda v, l, h: s_minmax(eng, 'min', s_minmax(eng, 'max', v, l), h)
    return ret(eng, elementwise(eng, f, x, lo, hi, kind=kind_of(x)))


@fun('numpy.dot', 'numpy.inner', 'numpy.matmul', 'numpy.vdot')
def np_dot(eng, a, b):
    return matmul(eng, a, b)


def uniform(eng, n, fn):
    """the same function, evaluated once at an arbitrary index in range and instantiated afterwards"""
    i0 = eng.fresh_plain('any', INT)
    eng.generic.append(i0)
    eng.nofork += 1
    try:
        with eng.scope():
            eng.assume(z3.And(i0 >= 0, i0 < lift(n)))
            t = fn(i0)
    finally:
        eng.nofork -= 1
        eng.generic.pop()
    if not is_z3(t):
        return lambda i: t
    return lambda i: canon(z3.substitute(t, (i0, lift(i))))


def matmul(eng, a, b):
    x, y = as_arr(eng, a), as_arr(eng, b)
    if x is None or y is None:
        return ret(eng, binop(eng, '*', val(eng, a), val(eng, b)))
    check_narrow(eng, '@', (x, y))
    if y.cont in SPARSE:
        raise Unsupported('dense @ sparse')
    if x.ndim == 1 and y.ndim == 1:
        n = dim_eq(eng, x.shape[0], y.shape[0], 'dot')
        return sums.SUM(eng, 0, n, lambda i: s_binop(eng, '*', x.fn(i), y.fn(i)))
    if x.ndim == 2 and y.ndim == 1:
        n = dim_eq(eng, x.shape[1], y.shape[0], 'dot')
        return eng.alloc(Arr((x.shape[0],), uniform(eng, x.shape[0], lambda i: sums.SUM(eng, 0, n, lambda k: s_binop(eng, '*', x.fn(i, k), y.fn(k)))), 'f'))
    raise Unsupported('matrix product of this shape')


@fun('numpy.linalg.norm')
def np_norm(eng, x, axis=None, ord=None, keepdims=False):
    a = as_arr(eng, x)
    keepdims = conc(keepdims)
    if ord is not None and conc(ord) != 2 or not isinstance(keepdims, bool):
        raise Unsupported('norm order')
    sq = elementwise(eng, lambda v: s_binop(eng, '*', v, v), a, kind='f')
    s = arr_sum(eng, sq, conc(axis) if axis is not None else None)
    for w in [z3.IntVal(0)] + list(eng.ghost.get('wits', [])):
        sums.touch(eng, w)
    r = map1(eng, lambda v: s_sqrt(eng, v), s, 'f')
    if keepdims:
        ax = None if axis is None else conc(axis) % a.ndim
        if ax is None:
            r = Arr((1,) * a.ndim, lambda *i, r=r: r, 'f')
        elif a.ndim == 1:
            r = Arr((1,), lambda i, r=r: r, 'f')
        else:
            q = r
            r = Arr(tuple(1 if k == ax else d for k, d in enumerate(a.shape)), lambda *i: q.fn(*[x for k, x in enumerate(i) if k != ax]), 'f')
    return ret(eng, r)


@fun('numpy.nan_to_num')
def np_nan_to_num(eng, x, copy=True):
    a = val(eng, x)
    if isinstance(a, Arr):
        if conc(copy) is False:
            return x
        return copy_arr(eng, a)      # over the reals there is no NaN
    return a


@fun('numpy.broadcast_to')
def np_broadcast_to(eng, x, shape):
    a = as_arr(eng, x)
    sh = shape_of(eng, shape)
    off = len(sh) - a.ndim
    for k in range(a.ndim):
        if not same_dim(a.shape[k], 1):
            dim_eq(eng, a.shape[k], sh[off + k], 'broadcast_to')

    def sel(idx):
        return [0 if same_dim(a.shape[k], 1) and not same_dim(sh[off + k], 1) else idx[off + k] for k in range(a.ndim)]
    meta = {'dt': a.meta['dt']} if a.meta.get('dt') else {}
    g = a.meta.get('gather')
    if g is not None and a.ndim == 1:
        meta['gather'] = (g[0], lambda *i: g[1](i[-1]))
    return eng.alloc(Arr(sh, lambda *i: a.fn(*sel(i)), a.kind, meta=meta))


@fun('numpy.expand_dims')
def np_expand_dims(eng, x, axis):
    a = as_arr(eng, x)
    ax = conc(axis)
    if ax < 0:
        ax += a.ndim + 1
    sh = list(a.shape)
    sh.insert(ax, 1)
    drop = lambda i: [v for k, v in enumerate(i) if k != ax]
    ref = x if isinstance(x, Ref) and isinstance(eng.heap[x.addr], Arr) else None
    base = (ref.addr, lambda *i: drop(i), lambda *b: (z3.BoolVal(True), list(b[:ax]) + [0] + list(b[ax:])), None) if ref else None
    return eng.alloc(Arr(sh, lambda *i: a.fn(*drop(i)), a.kind, a.cont, base, origin=a.origin, meta={'dt': a.meta['dt']} if a.meta.get('dt') else {}))


@fun('numpy.atleast_2d')
def np_atleast2(eng, x):
    a = as_arr(eng, x)
    return x if a.ndim == 2 else np_expand_dims(eng, x, 0)


@fun('numpy.squeeze')
def np_squeeze(eng, x):
    return squeeze(eng, as_arr(eng, x), x if isinstance(x, Ref) else None)


@fun('numpy.vstack', 'numpy.stack', 'numpy.row_stack')
def np_vstack(eng, xs, axis=0, _name=None):
    items = deref(eng, xs)
    items = list(items) if isinstance(items, tuple) else items.items
    if items is None or conc(axis) not in (0, 1):
        raise Unsupported('vstack')
    els = [as_arr(eng, x) for x in items]
    if any(e.ndim != 1 for e in els):
        raise Unsupported('vstack of matrices')
    a = seq_arr(eng, els)
    if conc(axis) == 1:
        return eng.alloc(Arr((a.shape[1], a.shape[0]), lambda i, j: a.fn(j, i), a.kind))
    return eng.alloc(a)


@fun('numpy.column_stack')
def np_column_stack(eng, xs):
    return np_vstack(eng, xs, 1)


@fun('numpy.concatenate', 'numpy.hstack')
def np_concatenate(eng, xs, axis=0, _name=None):
    items = deref(eng, xs)
    items = list(items) if isinstance(items, tuple) else items.items
    els = [as_arr(eng, x) for x in items]
    if any(e.ndim != 1 for e in els):
        raise Unsupported('concatenate of matrices')
    r = els[0]
    for e in els[1:]:
        a, n = r, r.shape[0]
        r = Arr((s_binop(eng, '+', n, e.shape[0]),),
                lambda i, a=a, e=e, n=n: ite(eng, s_cmp(eng, '<', i, n), a.fn(i), e.fn(s_binop(eng, '-', i, n))) if is_z3(s_cmp(eng, '<', i, n))
                else (a.fn(i) if s_cmp(eng, '<', i, n) else e.fn(s_binop(eng, '-', i, n))), kind_join(a.kind, e.kind))
    return eng.alloc(r)


@fun('numpy.isscalar')
def np_isscalar(eng, x):
    return is_num(deref(eng, x)) or isinstance(x, str)


@fun('numpy.isfinite')
def np_isfinite(eng, x):
    a = val(eng, x)
    return ret(eng, map1(eng, lambda v: True, a, 'b'))


@fun('numpy.isnan', 'numpy.isinf')
def np_isnan(eng, x):
    a = val(eng, x)
    return ret(eng, map1(eng, lambda v: False, a, 'b'))


@fun('numpy.isclose')
def np_isclose(eng, a, b, rtol=Fraction(1, 10 ** 5), atol=Fraction(1, 10 ** 8), rel_tol=None, abs_tol=None, equal_nan=False):
    if rel_tol is not None or abs_tol is not None:
        raise Unsupported('math.isclose')
    return ret(eng, close(eng, a, b, rtol, atol))


def close(eng, a, b, rtol, atol):
    a, b = numeric(eng, a, 'isclose'), numeric(eng, b, 'isclose')
    if any(isinstance(x, Inf) or isinstance(x, Arr) and x.cont in SPARSE for x in (a, b)) or not all(is_num(x) for x in (rtol, atol)):
        raise Unsupported('isclose')
    f = lambda p, q: conc(canon_bool(lift(to_real(s_fun(eng, 'abs', s_binop(eng, '-', p, q)))) <= lift(to_real(s_binop(eng, '+', atol, s_binop(eng, '*', rtol, s_fun(eng, 'abs', q)))))))
    if not isinstance(a, Arr) and not isinstance(b, Arr):
        return f(a, b)
    check_narrow(eng, 'isclose', (a, b))
    return elementwise(eng, f, a, b, kind='b')


@fun('numpy.allclose')
def np_allclose(eng, a, b, rtol=Fraction(1, 10 ** 5), atol=Fraction(1, 10 ** 8)):
    return all_any(eng, close(eng, a, b, rtol, atol), 'all')


@fun('numpy.ndim')
def np_ndim(eng, x):
    a = as_arr(eng, x)
    return a.ndim if a is not None else 0


@fun('numpy.shape')
def np_shape(eng, x):
    return Tup(as_arr(eng, x).shape)


@fun('numpy.add', 'numpy.subtract', 'numpy.multiply', 'numpy.divide', 'numpy.true_divide', 'numpy.power', 'numpy.mod')
def np_arith(eng, a, b, _name=None):
    op = {'add': '+', 'subtract': '-', 'multiply': '*', 'divide': '/', 'true_divide': '/', 'power': '**', 'mod': '%'}[_name.split('.')[-1]]
    return ret(eng, binop(eng, op, numeric(eng, a, op), numeric(eng, b, op)))


@fun('numpy.logical_not', 'numpy.logical_and', 'numpy.logical_or')
def np_logical(eng, a, b=None, _name=None):
    n = _name.split('_')[-1]
    if n == 'not':
        return ret(eng, map1(eng, lambda v: eng_not(eng.truth_term(v)), val(eng, a), 'b'))
    f = z3.And if n == 'and' else z3.Or
    return ret(eng, elementwise(eng, lambda x, y: conc(canon_bool(f(lift(eng.truth_term(x)), lift(eng.truth_term(y))))), val(eng, a), val(eng, b), kind='b'))


@fun('scipy.special.betaln')
def sp_betaln(eng, a, b):
    x, y = numeric(eng, a, 'betaln'), numeric(eng, b, 'betaln')
    f = lambda p, q: s_binop(eng, '-', s_binop(eng, '+', s_fun(eng, 'gammaln', p), s_fun(eng, 'gammaln', q)),
                             s_fun(eng, 'gammaln', s_binop(eng, '+', p, q)))
    if isinstance(x, Arr) or isinstance(y, Arr):
        r = elementwise(eng, f, x, y, kind='f')
        with generic_elem(eng, r):
            pass
        return ret(eng, r)
    return f(x, y)


@fun('scipy.sparse.issparse', 'scipy.sparse.isspmatrix')
def sp_issparse(eng, x):
    a = deref(eng, x)
    return isinstance(a, Arr) and a.cont in SPARSE


@fun('scipy.sparse.csc_matrix', 'scipy.sparse.csr_matrix')
def sp_conv(eng, x, _name=None):
    a = deref(eng, x)
    if not isinstance(a, Arr) or a.ndim != 2:
        raise Unsupported('sparse conversion of %r' % (a,))
    meta = {k: v for k, v in a.meta.items() if k in ('rows', 'dt')}
    # conversions of the same format share the data with their source
    origin = a.origin if a.cont == _name.split('.')[-1][:3] else 'fresh'
    return eng.alloc(Arr(a.shape, a.fn, a.kind, _name.split('.')[-1][:3], origin=origin, meta=meta))


@fun('numpy.random.RandomState')
def np_randomstate(eng, seed=None):
    if seed is None:
        eng.prove('random generators are seeded (determinism)', False, 'RandomState() without a seed')
    st = Obj(ClassV('RandomState', None, None), {'seed': seed})
    eng.events.append(('rng', seed))
    return eng.alloc(st)


def rng_call(eng, recv, name, args, kw):
    """methods of a seeded RandomState: arbitrary values of the documented range and shape"""
    eng.stats.lib_used.add('numpy.random.RandomState.' + name)
    o = eng.deref(recv)
    size = kw.get('size')
    a = [val(eng, x) for x in args]
    if name == 'randint':
        lo, hi = (0, a[0]) if len(a) == 1 and 'high' not in kw else (a[0], kw.get('high', a[1] if len(a) > 1 else None))
        if len(a) > 2:
            size = a[2]
        if size is not None:
            raise Unsupported('randint with size')
        eng.prove('randint range is not empty', lift(lo) < lift(hi))
        r = eng.fresh('randint', INT)
        eng.assume(z3.And(r >= lift(lo), r < lift(hi)))
        return r
    if name in ('uniform', 'normal', 'standard_normal', 'rand', 'random_sample', 'random'):
        if name == 'uniform':
            lo, hi = (a + [0, 1][len(a):])[:2] if len(a) < 2 else a[:2]
            if len(a) > 2:
                size = a[2]
        elif name == 'normal':
            if len(a) > 2:
                size = a[2]
        elif a:
            size = a[0]
        if name in ('rand', 'random_sample', 'random'):
            lo, hi = 0, 1
        real = eng.fresh_fun('draw', INT, REAL) if size is not None else None

        def rng(v):
            if name in ('uniform', 'rand', 'random_sample', 'random'):
                eng.assume(z3.Implies(lift(to_real(norm_num(lo))) <= to_real(norm_num(hi)), z3.And(v >= to_real(norm_num(lo)), v <= to_real(norm_num(hi)))))
            return v
        if size is None:
            return rng(eng.fresh('draw', REAL))
        sh = shape_of(eng, size)
        if len(sh) != 1:
            raise Unsupported('random matrix')
        if is_z3(sh[0]) and not eng.entails(sh[0] >= 0):
            eng.prove('array extent is not negative', sh[0] >= 0)
        return eng.alloc(Arr(sh, lambda i: rng(real(i)), 'f'))
    raise Unsupported('RandomState.%s' % name)


# ------------------------------------------------------------------------------------------------ attributes and methods
def getattr_lib(eng, recv, name):
    o = deref(eng, recv)
    if isinstance(o, Arr):
        return arr_attr(eng, recv, o, name)
    if isinstance(o, (ListObj, DictObj, SetObj, str, SStr, tuple)):
        return ExtBound(recv, name)
    if isinstance(o, (Ext,)):
        return Ext(o.name + '.' + name)
    if isinstance(o, Opaque):
        return Opaque('%s.%s' % (o.what, name))
    if isinstance(o, DType):
        if name == 'kind':
            return o.name
    if is_num(o):
        if name in ('shape',):
            return Tup(())
        if name == 'ndim':
            return 0
        return ExtBound(recv, name)
    raise Unsupported('attribute %s of %r' % (name, o))


def arr_attr(eng, recv, a, name):
    ref = recv if isinstance(recv, Ref) else None
    if a.cont == 'tuple':
        raise PyRaise('AttributeError')
    if name == 'shape':
        return Tup(a.shape)
    if name == 'ndim':
        return a.ndim
    if name == 'size':
        n = 1
        for d in a.shape:
            n = s_binop(eng, '*', n, d)
        return n
    if name == 'T':
        return transpose(eng, a, ref)
    if name == 'dtype':
        if a.meta.get('dt') == 'any':
            return Opaque('dtype-any', a)
        return DType({'f': 'float64', 'i': a.meta.get('dt') or 'int64', 'b': 'bool', 'O': 'object'}[a.kind])
    if a.cont == 'df' or a.cont == 'series':
        if name == 'values':
            meta = dict(a.meta)
            return eng.alloc(Arr(a.shape, a.fn, a.kind, 'ndarray', base=(ref.addr, lambda *i: i, lambda *b: (z3.BoolVal(True), list(b)), None) if ref else None,
                                 origin=a.origin, meta=meta))
        if name == 'columns' and a.cont == 'df':
            return a.meta['columns']
        if name in ('index',):
            return Opaque('index')
        if name in ('iloc', 'loc'):
            raise Unsupported('DataFrame.%s' % name)
    if name == 'nnz' and a.cont in SPARSE:
        if a.meta.get('cmp') is not None:
            mm = a
            b = all_any(eng, elementwise(eng, eng_not, Arr(mm.shape, mm.fn, 'b'), kind='b'), 'all')
            if b is True:
                return 0
            n = eng.fresh('nnz', INT)
            eng.assume(z3.And(n >= 0, (n == 0) == lift(b)))
            return n
        raise Unsupported('nnz')
    if name in ('indices', 'indptr', 'data'):
        raise Unsupported('raw sparse storage')
    return ExtBound(recv, name)


ARR_METHODS = {'sum': 'numpy.sum', 'cumsum': 'numpy.cumsum', 'argmax': 'numpy.argmax', 'argmin': 'numpy.argmin', 'max': 'numpy.max', 'min': 'numpy.min',
               'mean': 'numpy.mean', 'dot': 'numpy.dot', 'argsort': 'numpy.argsort', 'all': 'numpy.all', 'any': 'numpy.any', 'clip': 'numpy.clip',
               'nonzero': 'numpy.nonzero', 'round': 'numpy.round', 'prod': 'numpy.prod'}


def call_method(eng, recv, name, args, kw):
    o = deref(eng, recv)
    if isinstance(o, Obj) and o.cls.name == 'RandomState':
        return rng_call(eng, recv, name, args, kw)
    if isinstance(o, Arr):
        ref = recv if isinstance(recv, Ref) else None
        if name == 'squeeze':
            if o.cont in SPARSE:
                raise PyRaise('AttributeError')
            return squeeze(eng, o, ref)
        if name == 'reshape':
            return reshape(eng, o, list(args), ref)
        if name == 'astype':
            if len(args) > 1 or set(kw) - {'dtype', 'copy'}:
                raise Unsupported('arguments of astype')
            k, dt = dtype_kind(eng, args[0] if args else kw['dtype'])
            if 'copy' in kw and conc(kw['copy']) is not True:
                if conc(kw['copy']) is not False:
                    raise Unsupported('arguments of astype')
                if o.meta.get('dt') != 'any' and k == o.kind and dt == o.meta.get('dt') and ref is not None:
                    return recv             # no conversion: the same array, not a copy of it
            return astype_any(eng, o, k, dt)
        if kw and name not in ARR_METHODS:
            if not (name == 'squeeze' and set(kw) == {'axis'} or name == 'reshape' and set(kw) == {'order'} and conc(kw['order']) == 'C'):
                raise Unsupported('arguments of array method %s' % name)
            if name == 'squeeze':
                raise Unsupported('squeeze along an axis')
        if name in ('sum_duplicates', 'eliminate_zeros', 'sort_indices') and o.cont in SPARSE and not args:
            # rewrites the stored entries of the matrix itself, not the values it represents
            eng.log.append(('set', recv.addr, (name,), None, o.origin))
            return None
        if name == 'copy':
            return copy_arr(eng, o)
        if name == 'toarray' or name == 'todense':
            if o.cont not in SPARSE:
                raise PyRaise('AttributeError')
            if name == 'todense':
                raise Unsupported('todense')
            return to_dense(eng, o)
        if name in ('tocsc', 'tocsr') and o.cont in SPARSE:
            return sp_conv(eng, recv, _name='x.' + name[2:] + '_matrix')
        if name in ('flatten', 'ravel'):
            if o.ndim == 1:
                return copy_arr(eng, o) if name == 'flatten' else (ref or eng.alloc(o))
            return reshape(eng, o, [-1], None if name == 'flatten' else ref)
        if name == 'tolist':
            return f_list(eng, recv)
        if name == 'item' and not args:
            return o.fn(*[0] * o.ndim)
        if name == 'transpose' and not args:
            return transpose(eng, o, ref)
        if name == 'getrow' and o.cont in SPARSE:
            return getitem(eng, recv, Tup((args[0], SliceV(None, None, None))))
        if name == 'getcol' and o.cont in SPARSE:
            return getitem(eng, recv, Tup((SliceV(None, None, None), args[0])))
        if name == 'to_numpy' and o.cont in ('df', 'series'):
            return arr_attr(eng, recv, o, 'values')
        if name == 'fill':
            a0 = val(eng, args[0])
            eng.log.append(('set', recv.addr, ('fill',), None, o.origin))
            write_arr(eng, recv, lambda *i: a0, o)
            return None
        if name == 'sort':
            L = argsort_listing(eng, o.shape[0], lambda i: o.fn(i))
            eng.log.append(('set', recv.addr, ('sort',), None, o.origin))
            write_arr(eng, recv, lambda t: o.fn(L.at(t)), o)
            return None
        if name in ARR_METHODS:
            if o.cont in SPARSE:
                if name == 'dot':
                    return matmul(eng, recv, args[0])
                raise Unsupported('sparse.%s' % name)
            return call_fun(eng, ARR_METHODS[name], [recv] + list(args), kw)
        if name == '__len__':
            return length(eng, o)
        raise Unsupported('array method %s' % name)
    if isinstance(o, ListObj):
        if name == 'append':
            return list_append(eng, recv, o, args[0])
        if name == 'copy':
            return eng.alloc(ListObj(o.items, o.length, o.fn))
        if name == 'extend':
            it = iterate(eng, args[0])
            n = conc(it.length)
            if is_z3(n):
                raise Unsupported('extend of symbolic length')
            for i in range(n):
                list_append(eng, recv, eng.deref(recv), it.fn(i))
            return None
        if name == 'index':
            raise Unsupported('list.index')
        if name == 'sort':
            raise Unsupported('list.sort')
        if name == 'pop':
            if o.items is not None and (not args or not is_z3(conc(args[0]))):
                n = o.copy()
                r = n.items.pop(*[conc(a) for a in args])
                n.length = len(n.items)
                eng.log.append(('pop', recv.addr, None, None, o.origin))
                eng.heap[recv.addr] = n
                return r
        raise Unsupported('list.%s' % name)
    if isinstance(o, DictObj):
        if name in ('keys', 'values', 'items'):
            if o.items is not None:
                kv = list(o.items.values())
                xs = [k for k, _ in kv] if name == 'keys' else [v for _, v in kv] if name == 'values' else [Tup(p) for p in kv]
                return IterV(len(xs), lambda i: pick(eng, i, xs))
            return o.sym[name](eng)
        if name == 'get' and o.items is not None:
            k = dict_key(eng, args[0])
            return o.items[k][1] if k in o.items else (args[1] if len(args) > 1 else None)
        raise Unsupported('dict.%s' % name)
    if isinstance(o, (str, SStr)):
        if name == 'format':
            return str_format(eng, o, args, kw)
        if name == 'join':
            it = iterate(eng, args[0])
            n = conc(it.length)
            if is_z3(n):
                # an arbitrary number of texts: only remembered to be without line break (an arbitrary element is evaluated)
                with eng.scope():
                    k = eng.fresh_plain('j', INT)
                    eng.assume(z3.And(k >= 0, k < n))
                    clean = one_line(it.fn(k)) and one_line(o)
                return SStr([ONE_LINE if clean else Opaque('join')])
            parts = []
            for i in range(n):
                if i and o:
                    parts.append(o)
                parts.append(it.fn(i))
            r = SStr(parts)
            return r if r.parts else ''
        if isinstance(o, str) and all(isinstance(a, str) for a in args):
            if name in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'replace'):
                return getattr(o, name)(*args)
        raise Unsupported('str.%s' % name)
    if isinstance(o, tuple) and name in ('index', 'count'):
        raise Unsupported('tuple.%s' % name)
    if is_num(o):
        if name == 'item':
            return o
        if name in ('sum', 'max', 'min', 'mean', 'copy', 'squeeze'):
            return o
        if name == 'astype' and len(args) == 1 and not kw:
            k, dt = dtype_kind(eng, args[0])
            if k == 'f':
                return to_real(norm_num(o))
            if k == 'i' and dt is None:
                return f_int(eng, o)
            raise Unsupported('astype of a scalar')
    raise Unsupported('method %s of %r' % (name, o))


def astype_any(eng, a, k, dt):
    """conversion of raw input data; the values are assumed to be representable"""
    if a.meta.get('dt') == 'any':
        meta = {q: w for q, w in a.meta.items() if q in ('rows', 'listing', 'gather')}
        if k != 'f' or dt:
            if k == 'i':
                # conversion to an integer type loses fractions
                return astype(eng, a.with_(meta=meta), k, dt)
            raise Unsupported('astype of raw data')
        return eng.alloc(Arr(a.shape, a.fn, 'f', a.cont if a.cont not in ('df', 'series') else a.cont, meta=meta))
    return astype(eng, a, k, dt)


def list_append(eng, recv, o, x):
    if o.items is not None:
        n = o.copy()
        n.items.append(x)
        n.length = len(n.items)
        eng.log.append(('append', recv.addr, None, x, o.origin))
        eng.heap[recv.addr] = n
        return None
    old, ln = o, o.length
    n = o.copy()
    n.length = s_binop(eng, '+', ln, 1)
    n.fn = lambda k: ite(eng, canon_bool(lift(k) == lift(ln)), x, old.fn(k))
    eng.log.append(('append', recv.addr, None, x, o.origin))
    eng.heap[recv.addr] = n
    return None


def call_fun(eng, name, args, kw):
    if name in UFUNCS and len(args) == 2 and name.startswith(('numpy', 'scipy')):
        args, kw = args[:1], dict(kw, out=args[1])
    if 'out' in kw and name.startswith('numpy.'):
        # the result is stored in an existing array
        out = kw['out']
        if isinstance(out, tuple) and len(out) == 1:
            out = out[0]
        kw = {k: v for k, v in kw.items() if k != 'out'}
        r = call_fun(eng, name, args, kw)
        if out is None:
            return r
        o = deref(eng, out)
        if not (isinstance(out, Ref) and isinstance(o, Arr) and o.cont == 'ndarray'):
            raise Unsupported('out=%r' % (out,))
        a = as_arr(eng, r)
        if a is None or len(a.shape) != len(o.shape):
            raise Unsupported('shape of out=')
        for p, q in zip(a.shape, o.shape):
            eng.prove('out= has the shape of the result', canon_bool(lift(p) == lift(q)))
        setitem(eng, out, SliceV(None, None, None), r)
        return out
    if name in UFUNCS:
        if len(args) != 1 or kw:
            raise Unsupported('arguments of %s' % name)
        eng.stats.lib_used.add(name)
        return ufunc(eng, UFUNCS[name], args[0])
    f = FUNS.get(name)
    if f is None:
        if name.startswith('numpy.random.') or name.startswith('random.') or name.startswith('time.') or name.startswith('os.'):
            eng.prove('no use of global randomness or environment (determinism)', False, name)
        raise Unsupported('library function %s' % name)
    eng.stats.lib_used.add(name)
    kw = dict(kw)
    if '_name' in f.__code__.co_varnames[:f.__code__.co_argcount + f.__code__.co_kwonlyargcount]:
        kw['_name'] = name
    import inspect
    try:
        inspect.signature(f).bind(eng, *args, **kw)
    except TypeError as e:
        raise Unsupported('arguments of %s: %s' % (name, e))
    return f(eng, *args, **kw)
