"""numpy / scipy / pandas / builtin calls as contracts on symbolic values."""
from fractions import Fraction
import z3
from . import terms, sums
from .terms import *
from .values import *
from .engine import PathEnd, short
from .ops import *

SPARSE = ('csr', 'csc')


def is_newaxis(c):
    return isinstance(c, Ext) and c.name == 'newaxis'


# ------------------------------------------------------------------------------------------------ conversions
def deref(eng, v):
    return eng.deref(v) if isinstance(v, Ref) else v


def as_arr(eng, v):
    """array view of a python / array value (None if it is a scalar)"""
    v = deref(eng, v)
    if isinstance(v, Arr):
        return v
    if isinstance(v, Opt):
        if eng.choose(v.isnone):
            return None
        return as_arr(eng, v.value)
    if isinstance(v, ListObj):
        if v.items is not None:
            return seq_arr(eng, v.items)
        return sym_seq_arr(eng, v.length, v.fn)
    if isinstance(v, tuple):
        return seq_arr(eng, list(v))
    if isinstance(v, RangeV):
        n = range_len(eng, v)
        return Arr((n,), lambda i: s_binop(eng, '+', v.lo, s_binop(eng, '*', i, v.step)), 'i')
    if isinstance(v, SetObj) or isinstance(v, DictObj):
        raise Unsupported('array of a set/dict')
    return None


def seq_arr(eng, items):
    els = [as_arr(eng, x) if not is_num(x) else x for x in items]
    els = [x if e is None else e for x, e in zip(items, els)]
    n = len(els)
    if not n:
        return Arr((0,), lambda i: 0, 'f')
    if all(isinstance(e, Arr) for e in els):
        sh = els[0].shape
        for e in els[1:]:
            if e.ndim != len(sh):
                raise Unsupported('ragged sequence as array')
            for a, b in zip(sh, e.shape):
                dim_eq(eng, a, b, 'stacking')
        k = els[0].kind
        for e in els[1:]:
            k = kind_join(k, e.kind)

        def fn(i, *j):
            c = conc(i)
            if not is_z3(c):
                return els[c].fn(*j)
            r = els[-1].fn(*j)
            for q in range(n - 2, -1, -1):
                r = ite(eng, canon_bool(lift(i) == q), els[q].fn(*j), r)
            return r
        return Arr((n,) + sh, fn, k)
    if not all(is_num(e) for e in els):
        raise Unsupported('array of %r' % (els,))
    k = 'b'
    for e in els:
        k = kind_join(k, kind_of(e))

    def fn1(i):
        c = conc(i)
        if not is_z3(c):
            return els[c]
        r = els[-1]
        for q in range(n - 2, -1, -1):
            r = ite(eng, canon_bool(lift(i) == q), els[q], r)
        return r
    return Arr((n,), fn1, k)


def sym_seq_arr(eng, n, fn):
    with eng.scope():
        v = z3.Int('bv!%d' % sums._depth[0])
        sums._depth[0] += 1
        eng.generic.append(v)
        eng.nofork += 1
        try:
            eng.assume(z3.And(v >= 0, v < lift(n)))
            e = fn(v)
            a = as_arr(eng, e) if not is_num(e) else None
        finally:
            eng.nofork -= 1
            eng.generic.pop()
            sums._depth[0] -= 1
    if a is None:
        if not is_num(e):
            raise Unsupported('array of %r' % (e,))
        return Arr((n,), fn, kind_of(e))
    return Arr((n,) + a.shape, lambda i, *j: as_arr(eng, fn(i)).fn(*j), a.kind)


def range_len(eng, r):
    lo, hi, st = r.lo, r.hi, r.step
    if conc(st) != 1:
        cl, ch = conc(lo), conc(hi)
        if not is_z3(cl) and not is_z3(ch) and not is_z3(conc(st)):
            return len(range(cl, ch, conc(st)))
        raise Unsupported('range step')
    d = s_binop(eng, '-', hi, lo)
    if not is_z3(d):
        return max(0, d)
    if eng.entails(d >= 0):
        return d
    if eng.entails(d <= 0):
        return 0
    return canon(z3.If(d >= 0, d, z3.IntVal(0)))


# ------------------------------------------------------------------------------------------------ indexing
def norm_index(eng, i, n, what):
    """index into an axis of extent n (negative indices count from the end); bounds obligation"""
    i = norm_num(conc(i))
    if isinstance(i, Fraction):
        raise Unsupported('fractional index')
    n_ = lift(n)
    if not is_z3(i):
        if i < 0:
            r = s_binop(eng, '+', n, i)
            if not is_z3(r):
                if r < 0:
                    raise PyRaise('IndexError')
                return r
            if not eng.entails(r >= 0):
                eng.prove('index in bounds: ' + what, r >= 0)
            return r
        if not is_z3(conc(n)):
            if i >= conc(n):
                raise PyRaise('IndexError')
            return i
        if not eng.entails(n_ > i):
            eng.prove('index in bounds: ' + what, n_ > i)
        return i
    if eng.entails(z3.And(i >= 0, i < n_)):
        return i
    if eng.entails(z3.And(i < 0, i >= -n_)):
        return canon(i + n_)
    eng.prove('index in bounds: ' + what, z3.And(i >= 0, i < n_), 'index %s extent %s' % (short(i), short(n_)))
    return i


def slice_bounds(eng, s, n):
    """(lo, length) of a slice with step 1"""
    st = conc(s.step) if s.step is not None else 1
    if st != 1:
        raise Unsupported('slice step')

    def b(x, default):
        if x is None:
            return default
        x = norm_num(conc(x))
        if not is_z3(x):
            if x < 0:
                x = s_binop(eng, '+', n, x)
                if not is_z3(x):
                    return max(0, x)
                if eng.entails(x >= 0):
                    return x
                return canon(z3.If(x >= 0, x, z3.IntVal(0)))
            if not is_z3(conc(n)):
                return min(x, conc(n))
            if eng.entails(lift(n) >= x):
                return x
            return canon(z3.If(lift(n) >= x, z3.IntVal(x), lift(n)))
        if eng.entails(z3.And(x >= 0, x <= lift(n))):
            return x
        neg = canon(x + lift(n))
        t = z3.If(x < 0, z3.If(neg < 0, z3.IntVal(0), neg), z3.If(x > lift(n), lift(n), x))
        return canon(t)
    lo, hi = b(s.lo, 0), b(s.hi, n)
    d = s_binop(eng, '-', hi, lo)
    if not is_z3(d):
        d = max(0, d)
    elif not eng.entails(d >= 0):
        d = canon(z3.If(d >= 0, d, z3.IntVal(0)))
    return lo, d


def full_slice(s):
    return isinstance(s, SliceV) and s.lo is None and s.hi is None and s.step is None


def getitem(eng, recv, idx):
    r = deref(eng, recv)
    if isinstance(r, Opt):
        if eng.choose(r.isnone):
            raise PyRaise('TypeError')
        return getitem(eng, r.value, idx)
    if isinstance(r, Arr):
        return arr_getitem(eng, r, idx, recv if isinstance(recv, Ref) else None)
    if isinstance(r, tuple):
        if isinstance(idx, SliceV):
            lo, n = slice_bounds(eng, idx, len(r)) if not (idx.step is not None) else (None, None)
            if lo is None:
                return Tup(tuple(r)[slice(conc(idx.lo) if idx.lo is not None else None, conc(idx.hi) if idx.hi is not None else None, conc(idx.step))])
            return Tup(r[lo:lo + n])
        i = conc(deref(eng, idx))
        if not is_z3(i):
            if not -len(r) <= i < len(r):
                raise PyRaise('IndexError')
            return r[i]
        i = norm_index(eng, i, len(r), 'tuple')
        return pick(eng, i, list(r))
    if isinstance(r, ListObj):
        if isinstance(idx, SliceV):
            if r.items is not None and not any(is_z3(conc(x)) for x in (idx.lo, idx.hi, idx.step) if x is not None):
                return eng.alloc(ListObj(r.items[slice(*(conc(x) if x is not None else None for x in (idx.lo, idx.hi, idx.step)))]))
            lo, n = slice_bounds(eng, idx, r.length)
            base = r
            return eng.alloc(ListObj(None, n, lambda k: list_at(eng, base, s_binop(eng, '+', k, lo))))
        i = idx
        if not is_num(i):
            raise Unsupported('list index %r' % (i,))
        i = norm_index(eng, i, r.length, 'list')
        return list_at(eng, r, i)
    if isinstance(r, DictObj):
        if r.items is not None:
            k = dict_key(eng, idx)
            if k in r.items:
                return r.items[k][1]
            raise Unsupported('dict lookup with symbolic key')
        return r.sym['get'](eng, idx)
    if isinstance(r, SStr) or isinstance(r, str):
        raise Unsupported('string indexing')
    raise Unsupported('indexing of %r' % (r,))


def dict_key(eng, k):
    k = conc(k)
    if is_z3(k):
        return ('z3', canon(k).get_id())
    return k


def pick(eng, i, items):
    if not is_z3(conc(i)):
        return items[conc(i)]
    r = items[-1]
    for q in range(len(items) - 2, -1, -1):
        r = ite(eng, canon_bool(lift(i) == q), items[q], r)
    return r


def list_at(eng, r, i):
    if r.items is not None:
        return pick(eng, i, r.items)
    return r.fn(i)


def is_mask(a):
    return isinstance(a, Arr) and a.kind == 'b'


def arr_getitem(eng, a, idx, ref):
    comps = list(idx) if isinstance(idx, tuple) else [idx]
    comps = [deref(eng, c) for c in comps]
    comps = [as_arr(eng, c) if isinstance(c, ListObj) else c for c in comps]
    comps = [Ext('newaxis') if c is None else c for c in comps]
    if any(isinstance(c, Opaque) and c.what == 'Ellipsis' for c in comps):
        k = [isinstance(c, Opaque) for c in comps].index(True)
        missing = a.ndim - (len([c for c in comps if not is_newaxis(c)]) - 1)
        comps[k:k + 1] = [SliceV(None, None, None)] * missing
    # 2-d boolean mask of a 2-d array
    if len(comps) == 1 and is_mask(comps[0]) and comps[0].ndim == 2 and a.ndim == 2:
        m = comps[0]
        for x, y in zip(a.shape, m.shape):
            dim_eq(eng, x, y, 'boolean mask')
        return eng.alloc(Arr((None,), None, a.kind, meta={'mask2d': (a, m), 'dt': a.meta.get('dt')}))
    comps2 = []
    for ax, c in enumerate(comps):
        if is_mask(c):
            if c.ndim != 1:
                raise Unsupported('boolean mask of this shape')
            n = a.shape[len([x for x in comps2 if not is_newaxis(x)])]
            dim_eq(eng, c.shape[0], n, 'boolean mask')
            mm = c
            L = where_listing(eng, n, lambda v, mm=mm: mm.fn(v))
            comps2.append(listing_arr(L))
        else:
            comps2.append(c)
    comps = comps2
    comps = comps + [SliceV(None, None, None)] * (a.ndim - len([c for c in comps if not is_newaxis(c)]))
    if len([c for c in comps if not is_newaxis(c)]) > a.ndim:
        raise PyRaise('IndexError')
    arrs = [c for c in comps if isinstance(c, Arr)]
    sparse = a.cont in SPARSE
    if sparse:
        return sparse_getitem(eng, a, comps)
    if a.cont == 'df':
        raise Unsupported('indexing of a DataFrame')
    # description per base axis
    if not arrs:
        return basic_view(eng, a, comps, ref)
    if any(is_newaxis(c) for c in comps):
        raise Unsupported('newaxis with array index')
    return adv_getitem(eng, a, comps)


def adv_getitem(eng, a, comps):
    arrs = [(k, c) for k, c in enumerate(comps) if isinstance(c, Arr)]
    nd = max(c.ndim for _, c in arrs)
    if nd != 1 or (len(arrs) > 1):
        raise Unsupported('fancy indexing of this form')
    k, ia = arrs[0]
    if ia.ndim == 0:
        raise Unsupported('0-d index array')
    if ia.kind not in 'i':
        if conc(ia.shape[0]) == 0:
            pass
        else:
            raise Unsupported('index array of kind ' + ia.kind)
    n = a.shape[k]
    # bounds obligation
    if not (listing_of(ia) and listing_of(ia).universe is not None and same_dim(listing_of(ia).universe, n)):
        with generic_elem(eng, ia) as e:
            e_ = lift(e)
            g = z3.And(e_ >= 0, e_ < lift(n))
            if not eng.entails(g) and not eng.entails(z3.And(e_ < 0, e_ >= -lift(n))):
                eng.prove('index in bounds: fancy index', g, 'extent %s' % short(n))
    neg = False
    if not listing_of(ia):
        with generic_elem(eng, ia) as e:
            neg = not eng.entails(lift(e) >= 0)
    at = (lambda t: ia.fn(t)) if not neg else (lambda t: ite(None, canon_bool(lift(ia.fn(t)) < 0), s_binop(eng, '+', ia.fn(t), n), ia.fn(t)))
    fixed = {}
    out_axes = []          # per result axis: ('arr',) or ('sl', base axis, lo)
    shape = []
    ints = [q for q, c in enumerate(comps) if is_num(c)]
    seen = False
    for q, c in enumerate(comps):
        if isinstance(c, Arr):
            if not seen:
                out_axes.append(('arr', q))
                shape.append(ia.shape[0])
                seen = True
        elif isinstance(c, SliceV):
            lo, ln = slice_bounds(eng, c, a.shape[q])
            out_axes.append(('sl', q, lo))
            shape.append(ln)
        elif is_num(c):
            fixed[q] = norm_index(eng, c, a.shape[q], 'integer index')
        else:
            raise Unsupported('index component %r' % (c,))
    if ints and any(isinstance(c, SliceV) for c in comps):
        raise Unsupported('mixed integer/array/slice index')

    def tobase(res, pos_fn):
        b = [None] * a.ndim
        for q, v in fixed.items():
            b[q] = v
        for o, v in zip(out_axes, res):
            if o[0] == 'arr':
                b[o[1]] = pos_fn(v)
            else:
                b[o[1]] = s_binop(eng, '+', v, o[2])
        return b
    fn = lambda *res: a.fn(*tobase(res, at))
    meta = {}
    if a.meta.get('dt'):
        meta['dt'] = a.meta['dt']
    L = listing_of(ia)
    if L is not None:
        if len(shape) == 1:
            meta['gather'] = (L, lambda k: a.fn(*tobase((k,), lambda x: x)))
            if listing_of(a) is not None:
                meta['listing'] = compose_listing(eng, listing_of(a), L)
            A2 = a.meta.get('gather')
            if A2 is not None and a.ndim == 1:
                meta['gather'] = (compose_listing(eng, A2[0], L), A2[1])
        if out_axes[0][0] == 'arr' and a.meta.get('rows'):
            meta['rows'] = lambda t: a.meta['rows'](at(t))
    if a.meta.get('rows') and out_axes[0][0] == 'arr' and len(shape) == 2:
        meta['rows'] = lambda t: a.meta['rows'](at(t))
    return eng.alloc(Arr(shape, fn, a.kind, meta=meta))


def basic_view(eng, a, comps, ref):
    fixed, axes, shape = {}, [], []
    q = 0
    for c in comps:
        if is_newaxis(c):
            axes.append(None)
            shape.append(1)
            continue
        if isinstance(c, SliceV):
            if c.step is not None and conc(c.step) == -1 and c.lo is None and c.hi is None:
                axes.append((q, ('rev', a.shape[q])))
                shape.append(a.shape[q])
            else:
                lo, ln = slice_bounds(eng, c, a.shape[q])
                axes.append((q, lo))
                shape.append(ln)
        elif is_num(c):
            fixed[q] = norm_index(eng, c, a.shape[q], 'integer index')
        else:
            raise Unsupported('index %r' % (c,))
        q += 1
    if not axes:
        e = a.fn(*[fixed[k] for k in range(a.ndim)])
        return e

    def to_base(*res):
        b = [fixed.get(k) for k in range(a.ndim)]
        for o, v in zip(axes, res):
            if o is not None:
                b[o[0]] = s_binop(eng, '-', s_binop(eng, '-', o[1][1], 1), v) if isinstance(o[1], tuple) else s_binop(eng, '+', v, o[1])
        return b

    def from_base(*b):
        cs = []
        for k, v in fixed.items():
            cs.append(lift(b[k]) == lift(v))
        res = []
        for o, n in zip(axes, shape):
            if o is None:
                res.append(0)
                continue
            v = s_binop(eng, '-', s_binop(eng, '-', o[1][1], 1), b[o[0]]) if isinstance(o[1], tuple) else s_binop(eng, '-', b[o[0]], o[1])
            cs.append(lift(v) >= 0)
            cs.append(lift(v) < lift(n))
            res.append(v)
        return (canon_bool(z3.And(*cs)) if cs else z3.BoolVal(True)), res
    meta = {}
    if a.meta.get('dt'):
        meta['dt'] = a.meta['dt']
    real_axes = [o for o in axes if o is not None]
    last_plain = real_axes and real_axes[-1][0] == a.ndim - 1 and len(axes) == len(real_axes) and not isinstance(real_axes[-1][1], tuple)
    if len(shape) == 1 and last_plain:
        L = None
        if a.ndim == 1:
            L = listing_of(a)
        elif a.meta.get('rowlisting'):
            L = a.meta['rowlisting'](fixed[0])
        if L is not None:
            lo, ln = axes[0][1], shape[0]
            meta['listing'] = L if same_dim(lo, 0) and same_dim(ln, a.shape[-1]) else slice_listing(eng, L, lo, ln)
    if a.meta.get('rows') and a.ndim == 2:
        if 0 in fixed:
            meta['row'] = a.meta['rows'](fixed[0])
        elif axes[0] and not isinstance(axes[0][1], tuple):
            lo0 = axes[0][1]
            if len(shape) == 2 and same_dim(axes[1][1], 0) and same_dim(shape[1], a.shape[1]):
                meta['rows'] = lambda t: a.meta['rows'](s_binop(eng, '+', t, lo0))
    if a.meta.get('gather') and last_plain and same_dim(real_axes[-1][1], 0) and same_dim(shape[-1], a.shape[-1]):
        L, gfn = a.meta['gather']
        meta['gather'] = (L, lambda *res: gfn(*to_base(*res)))
    base = (ref.addr, to_base, from_base, None) if ref is not None else None
    fn = lambda *res: a.fn(*to_base(*res))
    return eng.alloc(Arr(shape, fn, a.kind, base=base, origin=a.origin, meta=meta))


def sparse_getitem(eng, a, comps):
    """scipy.sparse indexing: always two-dimensional results (scalars for two integers)"""
    if a.ndim != 2 or len(comps) != 2:
        raise Unsupported('sparse index')
    eng.stats.lib_used.add('scipy.sparse indexing')
    sel, shape, scalar = [], [], 0
    rows = None
    for q, c in enumerate(comps):
        n = a.shape[q]
        if isinstance(c, SliceV):
            lo, ln = slice_bounds(eng, c, n)
            sel.append(lambda t, lo=lo: s_binop(eng, '+', t, lo))
            shape.append(ln)
        elif isinstance(c, Arr):
            L = listing_of(c)
            if c.kind != 'i':
                raise Unsupported('sparse index array kind')
            if not (L and L.universe is not None and same_dim(L.universe, n)):
                with generic_elem(eng, c) as e:
                    eng.prove('index in bounds: fancy index', z3.And(lift(e) >= 0, lift(e) < lift(n)))
            sel.append(lambda t, c=c: c.fn(t))
            shape.append(c.shape[0])
        elif is_num(c):
            i = norm_index(eng, c, n, 'integer index')
            sel.append(lambda t, i=i: i)
            shape.append(1)
            scalar += 1
        else:
            raise Unsupported('sparse index %r' % (c,))
    if scalar == 2:
        return a.fn(sel[0](0), sel[1](0))
    if sum(isinstance(c, Arr) for c in comps) == 2:
        raise Unsupported('sparse double fancy index')
    meta = {}
    ia = [(q, c) for q, c in enumerate(comps) if isinstance(c, Arr)]
    fn = lambda i, j: a.fn(sel[0](i), sel[1](j))
    if a.meta.get('rows'):
        meta['rows'] = lambda t: a.meta['rows'](sel[0](t))
    if ia and listing_of(ia[0][1]):
        meta['sgather'] = (ia[0][0], listing_of(ia[0][1]), lambda i, j: a.fn(i if ia[0][0] == 0 else sel[0](i), j if ia[0][0] == 1 else sel[1](j)))
    return eng.alloc(Arr(shape, fn, a.kind, cont=a.cont, meta=meta))


def setitem(eng, recv, idx, val):
    r = deref(eng, recv)
    if isinstance(r, Arr):
        if not isinstance(recv, Ref):
            raise Unsupported('assignment into a temporary')
        return arr_setitem(eng, recv, r, idx, val)
    if isinstance(r, ListObj):
        if isinstance(idx, SliceV):
            raise Unsupported('list slice assignment')
        i = norm_index(eng, idx, r.length, 'list')
        new = r.copy()
        if r.items is not None and not is_z3(conc(i)):
            new.items[conc(i)] = val
            eng.log.append(('set', recv.addr, (i,), val, r.origin))
            eng.heap[recv.addr] = new
            return
        old = r
        new.items = None
        ii = lift(i)
        new.fn = lambda k: ite(eng, canon_bool(lift(k) == ii), val, list_at(eng, old, k))
        eng.log.append(('set', recv.addr, (i,), val, r.origin))
        eng.heap[recv.addr] = new
        return
    if isinstance(r, DictObj):
        if r.items is not None:
            k = dict_key(eng, idx)
            new = r.copy()
            new.items[k] = (idx, val)
            eng.log.append(('dictset', recv.addr, idx, val, r.origin))
            eng.heap[recv.addr] = new
            return
        eng.log.append(('dictset', recv.addr, idx, val, r.origin))
        eng.heap[recv.addr] = r.sym['set'](eng, r, idx, val)
        return
    raise Unsupported('item assignment to %r' % (r,))


def arr_setitem(eng, ref, a, idx, val):
    val = deref(eng, val)
    if isinstance(val, (ListObj, tuple)):
        va = as_arr(eng, val)
        val = va if va is not None and a.kind != 'O' or not isinstance(val, tuple) else val
    if a.cont != 'ndarray':
        raise Unsupported('assignment into %s' % a.cont)
    comps = list(idx) if isinstance(idx, tuple) else [idx]
    comps = [deref(eng, c) for c in comps]
    comps = [as_arr(eng, c) if isinstance(c, ListObj) else c for c in comps]
    comps = comps + [SliceV(None, None, None)] * (a.ndim - len(comps))
    if a.meta.get('dt') in WIDTH:
        _check_store(eng, a.meta['dt'], val)
    axes, shape, conds_at = [], [], []
    listing = None
    for q, c in enumerate(comps):
        if isinstance(c, SliceV):
            lo, ln = slice_bounds(eng, c, a.shape[q])
            axes.append(('sl', lo, ln))
            shape.append(ln)
        elif isinstance(c, Arr):
            if is_mask(c):
                mm = c
                if c.ndim != 1:
                    raise Unsupported('mask assignment')
                axes.append(('mask', mm, a.shape[q]))
                shape.append(None)
                continue
            L = listing_of(c)
            if L is None:
                raise Unsupported('assignment through an index array that is not known to be injective')
            if not (L.universe is not None and same_dim(L.universe, a.shape[q])):
                with generic_elem(eng, c) as e:
                    eng.prove('index in bounds: fancy assignment', z3.And(lift(e) >= 0, lift(e) < lift(a.shape[q])))
            axes.append(('list', L))
            shape.append(c.shape[0])
        elif is_num(c):
            axes.append(('int', norm_index(eng, c, a.shape[q], 'integer index')))
        else:
            raise Unsupported('assignment index %r' % (c,))
    oneint = len(axes) == 1 and axes[0][0] == 'int'
    eng.log.append(('set', ref.addr, tuple(comps), val, a.origin))
    if isinstance(val, Arr) and a.kind != 'O':
        vs = [n for n in shape]
        off = len(vs) - val.ndim
        if off < 0:
            lead = -off
            for k in range(lead):
                dim_eq(eng, val.shape[k], 1, 'assignment')
            va = val
            val = Arr(va.shape[lead:], lambda *i: va.fn(*([0] * lead + list(i))), va.kind)
            off = 0
        for k in range(val.ndim):
            if shape[off + k] is None:
                raise Unsupported('masked array assignment')
            if not same_dim(val.shape[k], 1):
                if not same_dim(val.shape[k], shape[off + k]) and not eng.entails(lift(val.shape[k]) == lift(shape[off + k])):
                    eng.prove('shapes agree in assignment', lift(val.shape[k]) == lift(shape[off + k]),
                              '%s vs %s' % (short(val.shape[k]), short(shape[off + k])))

        def value(*res):
            ii = [0 if same_dim(val.shape[k], 1) and not same_dim(shape[off + k], 1) else res[off + k] for k in range(val.ndim)]
            return val.fn(*ii)
    else:
        value = lambda *res: val
    old = a

    def fn(*b):
        cs, res = [], []
        for ax, i in zip(axes, b):
            if ax[0] == 'sl':
                v = s_binop(eng, '-', i, ax[1])
                cs += [lift(v) >= 0, lift(v) < lift(ax[2])]
                res.append(v)
            elif ax[0] == 'list':
                cs.append(lift(ax[1].member(i)))
                res.append(ax[1].pos(i))
            elif ax[0] == 'mask':
                cs.append(lift(ax[1].fn(i)))
                res.append(i)
            else:
                cs.append(lift(i) == lift(ax[1]))
        c = eng.simp(z3.And(*cs)) if cs else True
        c = conc(c)
        if c is True:
            return value(*res)
        if c is False:
            return old.fn(*b)
        if eng.entails(c):
            return value(*res)
        if eng.entails(z3.Not(c)):
            return old.fn(*b)
        return ite(eng, c, value(*res), old.fn(*b))
    kind = a.kind
    write_arr(eng, ref, fn, a)


def _check_store(eng, dt, val):
    lim = WIDTH[dt]
    if isinstance(val, Arr):
        with generic_elem(eng, val) as e:
            eng.prove('values fit into %s' % dt, z3.And(lift(to_num(e)) >= 0, lift(to_num(e)) < lim))
    else:
        eng.prove('values fit into %s' % dt, z3.And(lift(to_num(val)) >= 0, lift(to_num(val)) < lim))


def write_arr(eng, ref, fn, a):
    """replaces the contents of the array at ref (through views)"""
    o = eng.heap[ref.addr]
    meta = {k: v for k, v in a.meta.items() if k in ('dt',)}
    _invalidate(eng, ref.addr)
    if o.base is None:
        eng.heap[ref.addr] = Arr(o.shape, fn, o.kind, o.cont, None, o.tag, o.origin, meta)
        return
    baddr, to_base, from_base, _ = o.base
    b = eng.deref(Ref(baddr))

    def bfn(*i):
        c, res = from_base(*i)
        c = conc(eng.simp(c)) if is_z3(c) else c
        if c is True:
            return fn(*res)
        if c is False:
            return b.fn(*i)
        if eng.entails(c):
            return fn(*res)
        return ite(eng, c, fn(*res), b.fn(*i))
    eng.log.append(('set', baddr, ('view',), None, b.origin))
    write_arr(eng, Ref(baddr), bfn, b)


def _invalidate(eng, addr):
    """views of a written array lose what was known about their contents"""
    for k, v in list(eng.heap.items()):
        if isinstance(v, Arr) and v.base is not None and v.base[0] == addr:
            eng.heap[k] = v.with_(meta={q: w for q, w in v.meta.items() if q == 'dt'})
            _invalidate(eng, k)


def inplace(eng, ref, op, val):
    """a op= val on an array object"""
    a = eng.deref(ref)
    v = deref(eng, val)
    v2 = as_arr(eng, v) if not is_num(v) else v
    if a.kind == 'i' and (op == '/' or kind_of(v2) == 'f'):
        raise PyRaise('UFuncTypeError')
    r = binop(eng, op, a, v2)
    if isinstance(r, Arr):
        for x, y in zip(r.shape, a.shape):
            if not same_dim(x, y):
                eng.prove('in-place operation keeps the shape', lift(x) == lift(y))
    if a.origin != 'fresh' or True:
        eng.log.append(('set', ref.addr, ('inplace',), None, a.origin))
    write_arr(eng, ref, r.fn if isinstance(r, Arr) else (lambda *i: r), a)


# ------------------------------------------------------------------------------------------------ shape operations
def new(eng, a):
    return eng.alloc(a)


def transpose(eng, a, ref):
    if a.ndim < 2:
        return ref if ref is not None else new(eng, a)
    nd = a.ndim
    rev = lambda *i: tuple(reversed(i))
    base = (ref.addr, rev, lambda *b: (z3.BoolVal(True), list(reversed(b))), None) if ref is not None else None
    cont = {'csr': 'csc', 'csc': 'csr'}.get(a.cont, a.cont)
    return new(eng, Arr(tuple(reversed(a.shape)), lambda *i: a.fn(*rev(*i)), a.kind, cont, base, origin=a.origin,
                        meta={'dt': a.meta['dt']} if a.meta.get('dt') else {}))


def squeeze(eng, a, ref):
    keep_ = []
    for n in a.shape:
        n = eng.simp(lift(n)) if is_z3(n) else n
        c = conc(n)
        if not is_z3(c):
            keep_.append(c != 1)
        else:
            keep_.append(not eng.choose(canon_bool(lift(n) == 1)))
    ks = [i for i, k in enumerate(keep_) if k]
    if len(ks) == a.ndim:
        return ref if ref is not None else new(eng, a)

    def to_base(*i):
        b = [0] * a.ndim
        for k, v in zip(ks, i):
            b[k] = v
        return b
    meta = {'dt': a.meta['dt']} if a.meta.get('dt') else {}
    g = a.meta.get('gather')
    if g is not None and ks and ks[-1] == a.ndim - 1:
        meta['gather'] = (g[0], lambda *i: g[1](*to_base(*i)))
    if a.meta.get('colgather') and len(ks) == 1:
        ax, L, gf = a.meta['colgather']
        if ks[0] == ax:
            meta['gather'] = (L, lambda k: gf(*to_base(k)))
    base = (ref.addr, to_base, lambda *b: (z3.BoolVal(True), [b[k] for k in ks]), None) if ref is not None else None
    return new(eng, Arr([a.shape[k] for k in ks], lambda *i: a.fn(*to_base(*i)), a.kind, a.cont, base, origin=a.origin, meta=meta))


def reshape(eng, a, shape, ref):
    if len(shape) == 1 and not is_num(shape[0]):
        s = deref(eng, shape[0])
        shape = list(s) if isinstance(s, tuple) else list(s.items)
    shape = [conc(x) for x in shape]
    if 'mask2d' in a.meta:
        return mask2d_reshape(eng, a, shape)
    total = 1
    for n in a.shape:
        total = s_binop(eng, '*', total, n)
    if any((not is_z3(x)) and x == -1 for x in shape):
        rest = 1
        for x in shape:
            if is_z3(x) or x != -1:
                rest = s_binop(eng, '*', rest, x)
        if same_dim(rest, 1):
            m = total
        elif not is_z3(rest) and not is_z3(total):
            m = total // rest
        else:
            q = canon(lift(total))
            # total = rest * m must divide
            p = poly(q) * poly(lift(rest)).inv()
            m = term_of(p, INT)
            if any(e < 0 for mm in p.d for _, e in mm) or any(c.denominator != 1 for c in p.d.values()):
                raise Unsupported('reshape with unknown extent')
        shape = [m if (not is_z3(x)) and x == -1 else x for x in shape]
    nt = 1
    for x in shape:
        nt = s_binop(eng, '*', nt, x)
    if not same_dim(nt, total):
        eng.prove('reshape keeps the number of elements', lift(nt) == lift(total))
    big_a = [k for k, n in enumerate(a.shape) if not same_dim(n, 1)]
    big_s = [k for k, n in enumerate(shape) if not same_dim(n, 1)]
    meta = {'dt': a.meta['dt']} if a.meta.get('dt') else {}
    if len(big_a) == len(big_s) and all(same_dim(a.shape[i], shape[j]) or eng.entails(lift(a.shape[i]) == lift(shape[j])) for i, j in zip(big_a, big_s)):
        def to_base(*i):
            b = [0] * a.ndim
            for x, y in zip(big_a, big_s):
                b[x] = i[y]
            return b

        def from_base(*b):
            r = [0] * len(shape)
            for x, y in zip(big_a, big_s):
                r[y] = b[x]
            return z3.BoolVal(True), r
        g = a.meta.get('gather')
        if g is not None and big_s and big_s[-1] == len(shape) - 1 and big_a[-1] == a.ndim - 1:
            meta['gather'] = (g[0], lambda *i: g[1](*to_base(*i)))
        base = (ref.addr, to_base, from_base, None) if ref is not None else None
        return new(eng, Arr(shape, lambda *i: a.fn(*to_base(*i)), a.kind, a.cont, base, origin=a.origin, meta=meta))
    raise Unsupported('general reshape')


def mask2d_reshape(eng, a, shape):
    """S[mask].reshape(n, -1): row d of the result is row d of S filtered by its mask, provided all rows keep the same
    number of elements"""
    src, m = a.meta['mask2d']
    if len(shape) != 2 or is_z3(shape[1]) or shape[1] != -1 or not (same_dim(shape[0], src.shape[0])):
        raise Unsupported('reshape of a masked selection')
    n = src.shape[1]
    rl = src.meta.get('rowlisting')
    cache = {}

    def row(d):
        c = canon(lift(d))
        k = c.get_id()
        if k not in cache:
            L = where_listing(eng, n, lambda j: m.fn(d, j))
            keep(c)
            cache[k] = L
        return cache[k]

    def rowcount(d):
        """number of selected elements of row d, in canonical form"""
        if rl is not None:
            R = rl(d)
            if R.universe is not None:
                L = filt(d)
                card(eng, L)
                return sums.SUM(eng, 0, R.universe, lambda k: ite(None, L.member(k), 1, 0))
        return row(d).length

    def filt(d):
        R = rl(d)
        L = compose_listing(eng, R, row(d))
        L.id = ('filt', canon(lift(d)).get_id(), row(d).id)
        return L
    # all rows select the same number of elements
    T = m.meta.get('isin')
    width = None
    if T is not None and rl is not None:
        # exactly the elements of T, in every row
        with eng.scope():
            d, k = eng.fresh_plain('row', INT), eng.fresh_plain('el', INT)
            eng.assume(z3.And(d >= 0, d < lift(src.shape[0])))
            if rl(d).universe is not None:
                eng.assume(z3.And(k >= 0, k < lift(rl(d).universe)))
                if eng.holds(lift(filt(d).member(k)) == lift(T.member(k))):
                    width = T.length
                    eng.stats.lemmas.add('permutation lemma: injective listings of the same set have the same length')
    if width is None and not same_dim(src.shape[0], 1):
        with eng.scope():
            d = eng.fresh_plain('row', INT)
            eng.assume(z3.And(d >= 0, d < lift(src.shape[0])))
            c0, cd = rowcount(0), rowcount(d)
            if rl is not None and rl(d).universe is not None:
                # the same set of elements in every row
                with eng.scope():
                    k = eng.fresh_plain('el', INT)
                    eng.assume(z3.And(k >= 0, k < lift(rl(d).universe)))
                    same = eng.holds(lift(filt(0).member(k)) == lift(filt(d).member(k)))
                if same:
                    eng.assume(lift(c0) == lift(cd))
            eng.prove('every row of the masked selection keeps the same number of elements', lift(c0) == lift(cd))
    if width is None:
        width = rowcount(0)
    if rl is not None:
        eng.assume(lift(row(0).length) == lift(width))
    eng.assume(lift(width) >= 0)

    def fn(d, t):
        L = row(d)
        # the length of row d is the common width
        key = ('roww', L.id)
        if key not in eng.ghost:
            eng.ghost[key] = True
            eng.assume(z3.Implies(z3.And(lift(d) >= 0, lift(d) < lift(src.shape[0])), lift(L.length) == lift(width)))
        return src.fn(d, L.at(t))
    meta = {'dt': a.meta.get('dt')}
    if rl is not None:
        def rowlisting(d):
            L0 = filt(d)
            fn(d, z3.IntVal(0))
            return Listing(width, lambda t: fn(d, t), L0.member, L0.pos, L0.universe)
        meta['rowlisting'] = rowlisting
    return new(eng, Arr((src.shape[0], width), fn, src.kind, meta=meta))


def copy_arr(eng, a, keepmeta=True, **kw):
    meta = dict(a.meta)
    d = dict(base=None, origin='fresh', meta=meta)
    d.update(kw)
    return new(eng, a.with_(**d))


def to_dense(eng, a):
    meta = {}
    if a.meta.get('rows'):
        meta['rows'] = a.meta['rows']
    if a.meta.get('sgather'):
        meta['colgather'] = a.meta['sgather']
        ax, L, gf = a.meta['sgather']
        if ax == 1:
            meta['gather'] = (L, lambda i, j: gf(i, j))
    return new(eng, Arr(a.shape, a.fn, a.kind, 'ndarray', meta=meta))


def length(eng, v):
    v = deref(eng, v)
    if isinstance(v, Opt):
        if eng.choose(v.isnone):
            raise PyRaise('TypeError')
        v = deref(eng, v.value)
    if isinstance(v, Arr):
        if v.ndim == 0:
            raise PyRaise('TypeError')
        if v.cont in SPARSE:
            raise PyRaise('TypeError')
        if v.shape[0] is None:
            raise Unsupported('length of masked selection')
        return v.shape[0]
    if isinstance(v, ListObj):
        return v.length
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, DictObj):
        if v.items is not None:
            return len(v.items)
        return v.sym['len']
    if isinstance(v, SetObj):
        if v.items is not None:
            return len(v.items)
        return unique_info(eng, v.arr.shape[0], v.arr.fn)
    if isinstance(v, RangeV):
        return range_len(eng, v)
    raise Unsupported('len of %r' % (v,))


def all_any(eng, a, which):
    """np.all / np.any as a forking truth value"""
    if not isinstance(a, Arr):
        return eng.truth(a)
    if a.ndim == 0:
        return eng.truth(a.fn())
    if a.meta.get('never'):
        return which != 'all'
    if a.kind != 'b':
        a = elementwise(eng, lambda x: x if isinstance(x, bool) or is_z3(x) and x.sort() == BOOL else s_cmp(eng, '!=', x, 0), a, kind='b')
    if which == 'any':
        neg = elementwise(eng, lambda x: eng_not(x), a, kind='b')
        r = all_any(eng, neg, 'all')
        return eng_not(r)
    # concrete small arrays
    ns = [conc(n) for n in a.shape]
    if all(not is_z3(n) and n <= 8 for n in ns):
        import itertools
        cs = [lift(a.fn(*i)) for i in itertools.product(*[range(n) for n in ns])]
        return conc(canon_bool(z3.And(*cs))) if cs else True
    # decide generically, else fork with a witness
    with generic_elem(eng, a) as e:
        e = lift(e)
        if eng.entails(e):
            return True
    ent = None
    b = eng.fresh('all', BOOL)
    a2 = a
    # determined by content: use a content symbol when one-dimensional
    if a.ndim == 1:
        ent, params = content_symbol(eng, 'all', [lambda v: lift(a2.fn(v))], [a.shape[0]], [], BOOL)
        b = app(ent, params)
    wit = [eng.fresh('wit', INT) for _ in a.shape]
    key = ('all', str(b))

    def inst(*j):
        if len(j) != a2.ndim:
            return
        rng = z3.And(*[z3.And(lift(x) >= 0, lift(x) < lift(n)) for x, n in zip(j, a2.shape)])
        eng.assume(z3.Implies(z3.And(b, rng), lift(a2.fn(*j))))
    if a.ndim == 1:
        eng.insts.append(tagged('all', inst))
    else:
        eng.insts.append(lambda j: None)
    eng.assume(z3.Implies(z3.Not(b), z3.And(*[z3.And(w >= 0, w < lift(n)) for w, n in zip(wit, a.shape)])))
    eng.assume(z3.Implies(z3.Not(b), z3.Not(lift(a2.fn(*wit)))))
    if a.ndim == 1:
        sums.touch(eng, wit[0])
        eng.ghost.setdefault('wits', [])
        eng.ghost['wits'] = eng.ghost['wits'] + [wit[0]]
    eng.ghost['allinst'] = eng.ghost.get('allinst', []) + [(b, inst, a.ndim)]
    return b


def eng_not(x):
    if isinstance(x, bool):
        return not x
    return conc(canon_bool(z3.Not(lift(x))))
