"""Loop rules.  A loop over a symbolic range is executed once for an arbitrary iteration i0 with all loop-carried locals
replaced by unknowns; the loop rules then derive the state after the loop for every number of iterations:
  scatter   - every iteration writes only its own element / row / list of a container   (forall-quantified frame)
  append    - every iteration appends one element to a list
  sum       - a local is increased by a term that does not depend on the carried state
  extremum  - a group of locals is replaced exactly when a candidate exceeds the best value so far
  last      - a local is overwritten with a term that does not depend on the carried state
Everything else is rejected as unsupported (an undischarged obligation)."""
import ast
import z3
from . import sums
from .terms import *
from .values import *
from .engine import PathEnd, short
from .ops import *
from .nplib import *
from .lib import iterate


from .engine import symbols


class Outcome:
    __slots__ = ('kind', 'conds', 'facts', 'env', 'log', 'events', 'heap', 'insts', 'val', 'naddr0')


class CarriedUnknown:
    def __init__(self, name):
        self.name = name


def assigned_names(st):
    """names (re)bound in the loop body"""
    out = set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                tgt(x)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def go(s):
        for x in ast.walk(s):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    tgt(t)
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
                tgt(x.target)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                for a in x.names:
                    out.add(a.asname or a.name.split('.')[0])
            elif isinstance(x, ast.FunctionDef):
                out.add(x.name)
            elif isinstance(x, ast.Delete):
                for t in x.targets:
                    tgt(t)
            elif isinstance(x, ast.withitem) and x.optional_vars is not None:
                tgt(x.optional_vars)
    for s in st.body:
        go(s)
    return out


def exec_for(I, st, fr):
    from .interp import BreakEx, ContinueEx, UNROLL
    eng = I.eng
    src = I.eval(st.iter, fr)
    it = iterate(eng, src)
    n = conc(eng.simp(lift(it.length)) if is_z3(it.length) else it.length)
    if is_z3(n):
        # a length fixed by the facts
        pass
    if not is_z3(n):
        if n > 64:
            raise Unsupported('loop with %d iterations' % n)
        broke = False
        for i in range(n):
            I.assign(st.target, it.fn(i), fr)
            try:
                I.block(st.body, fr)
            except ContinueEx:
                continue
            except BreakEx:
                broke = True
                break
        if not broke:
            I.block(st.orelse, fr)
        return
    for rule in I.loop_rules:
        if rule(I, st, fr, it, n):
            I.block(st.orelse, fr)
            return
    w = symbolic_for(I, st, fr, it, n)
    if w is not None:
        # iterations before w have ended normally, iteration w leaves the loop: it is executed as it stands
        try:
            I.assign(st.target, it.fn(w), fr)
            I.block(st.body, fr)
        except ContinueEx:
            pass
        except BreakEx:
            return
        raise PathEnd()
    I.block(st.orelse, fr)


def run_iteration(I, st, fr, it, n, i0, env, guards):
    """one arbitrary iteration; returns an Outcome"""
    from .interp import BreakEx, ContinueEx, ReturnEx
    eng = I.eng
    o = Outcome()
    saved = fr.env
    fr.env = dict(env)
    f0, p0, l0, e0, s0 = len(eng.facts), len(eng.pathfacts), len(eng.log), len(eng.events), len(eng.insts)
    o.naddr0 = eng.naddr
    eng.generic.append(i0)
    nf = eng.nofork
    try:
        for addr, g in guards.items():
            eng.heap[addr] = g(eng.heap[addr])
        eng.assume(z3.And(i0 >= 0, i0 < lift(n)))
        p0 = len(eng.pathfacts)
        o.kind, o.val = 'normal', None
        try:
            I.assign(st.target, it.fn(i0), fr)
            I.block(st.body, fr)
        except ContinueEx:
            pass
        except BreakEx:
            o.kind = 'break'
        except ReturnEx as r:
            o.kind, o.val = 'return', r.v
        except PyRaise as r:
            o.kind, o.val = 'raise', r
        o.facts = eng.facts[f0:]
        o.conds = eng.pathfacts[p0:]
        o.env = fr.env
        o.log, o.events, o.insts = eng.log[l0:], eng.events[e0:], eng.insts[s0:]
        o.heap = dict(eng.heap)
        return o
    finally:
        fr.env = saved
        eng.generic.pop()
        eng.nofork = nf


def placeholder(eng, name, v):
    if isinstance(v, bool) or is_z3(v) and v.sort() == BOOL:
        return eng.fresh_plain('ph_' + name, BOOL)
    if is_real(v):
        return eng.fresh_plain('ph_' + name, REAL)
    return eng.fresh_plain('ph_' + name, INT)


class UnknownCarried:
    pass


def symbolic_for(I, st, fr, it, n):
    eng = I.eng
    if eng.nofork:
        raise Unsupported('loop inside a generic expression')
    if not eng.entails(lift(n) >= 0):
        eng.assume(lift(n) >= 0)          # lengths are never negative
    names = assigned_names(st)
    i0 = eng.fresh_plain('it', INT)
    live = {v: fr.env[v] for v in names if v in fr.env}
    scal = {v: x for v, x in live.items() if is_num(x) and not isinstance(x, Inf)}
    key = ('for', id(st), i0.decl().name())
    kinds = {}

    def attempt(guards, phs, tag):
        env = dict(fr.env)
        for v in live:
            env[v] = phs[v] if v in phs else Undefined('carried through a loop')
        for t in target_names(st.target):
            env.setdefault(t, None)
        return eng.explore_nested(lambda: run_iteration(I, st, fr, it, n, i0, env, guards), key=(key, tag))
    phs = {v: placeholder(eng, v, x) for v, x in sorted(scal.items())}
    known = frozenset().union(*(symbols(f) for f in eng.facts))
    outs = attempt({}, phs, 1)
    # case distinctions that do not depend on the iteration are made once, before the loop
    for k in range(4):
        c = next((c for o in outs for c in o.conds if len(outs) > 1 and symbols(c) and symbols(c) <= known), None)
        if c is None:
            break
        eng.choose(canon_bool(c))
        outs = attempt({}, phs, ('hoisted', k))
    # element sort of carried locals: real if some iteration makes it real
    changed = False
    for v in list(phs):
        if phs[v].sort() == INT and any(v in o.env and is_num(o.env[v]) and is_real(o.env[v]) for o in outs):
            phs[v] = eng.fresh_plain('ph_' + v, REAL)
            changed = True
    written = {}
    for o in outs:
        for ev in o.log:
            if ev[1] < o.naddr0:
                written.setdefault(ev[1], []).append((o, ev))
    guards, scat = {}, {}
    for addr, evs in written.items():
        obj = eng.heap[addr]
        scat[addr] = classify(I, it, i0, n, addr, obj, evs, outs)
        if scat[addr][0] == 'scatter':
            guards[addr] = make_guard(eng, scat[addr], i0)
        elif scat[addr][0] == 'append':
            guards[addr] = lambda o_: o_
    # objects that are views of written ones are covered by the write to their base
    if changed or guards:
        outs = attempt(guards, phs, 2)
    if not outs:
        return                  # no iteration is possible
    # ---- exceptional outcomes
    bad = [o for o in outs if o.kind in ('break', 'return')]
    rs = [o for o in outs if o.kind == 'raise']
    outs = [o for o in outs if o.kind == 'normal']
    phset = [p for p in phs.values()]

    def has_ph(t):
        return any(contains(t, p) for p in phset)
    left = None
    if bad:
        # either no iteration leaves the loop early, or iteration `left` is the first that does (an exception counts as leaving)
        early = bad + rs
        if eng.generic:
            raise Unsupported('break/return inside a nested loop of symbolic length')
        if eng.fork(2, 'loop left early'):
            left = eng.fresh_plain('left', INT)
            eng.assume(z3.And(left >= 0, left < lift(n)), path=True)
            n = left
        for o in early:
            if any(has_ph(c) for c in o.conds):
                eng.ghost['weak'] = 'the condition under which the loop is left depends on the state of the loop'
                continue
            if not o.conds:
                eng.assume(lift(n) <= 0, path=True)
                continue
            cond = z3.And(*o.conds)
            eng.insts.append(lambda j, cond=cond, n=n: eng.assume(z3.Implies(z3.And(lift(j) >= 0, lift(j) < lift(n)), z3.Not(z3.substitute(cond, (i0, lift(j)))))))
        rs = []
    if rs:
        k = eng.fork(1 + len(rs), 'exception in loop')
        if k:
            o = rs[k - 1]
            if any(has_ph(c) for c in o.conds):
                raise Unsupported('exception depending on carried state')
            w = eng.fresh_plain('raised', INT)
            eng.assume(z3.And(w >= 0, w < lift(n)), path=True)
            for c in o.conds + o.facts:
                eng.assume(z3.substitute(c, (i0, w)), path=True)
            raise o.val
        for o in rs:
            if any(has_ph(c) for c in o.conds):
                raise Unsupported('exception depending on carried state')
            cond = z3.And(*o.conds) if o.conds else z3.BoolVal(True)
            if not o.conds:
                eng.assume(lift(n) <= 0)
            eng.insts.append(lambda j, cond=cond: eng.assume(z3.Implies(z3.And(lift(j) >= 0, lift(j) < lift(n)), z3.Not(z3.substitute(cond, (i0, lift(j)))))))
    if not outs:
        eng.assume(lift(n) <= 0)
        return left
    # ---- carried locals
    new_env = {}
    pending = []
    for v in sorted(names):
        vals = [o.env.get(v) for o in outs]
        if v not in live:
            new_env[v] = Undefined('assigned inside a loop')
            continue
        if v not in phs:
            if all(isinstance(x, Undefined) for x in vals):
                continue
            new_env[v] = Undefined('assigned inside a loop')
            continue
        if all(is_num(x) and same_term(x, phs[v]) for x in vals):
            continue
        pending.append(v)
    if pending:
        done = extremum(I, fr, it, n, i0, outs, phs, pending, live, has_ph, new_env)
        for v in [x for x in pending if x not in done]:
            accumulate(I, n, i0, outs, phs, v, live, has_ph, new_env)
    else:
        for o in outs:
            for f in o.insts:
                register_inst2(I, o, i0, n, f, has_ph)
    # ---- heap
    for addr, sc in scat.items():
        apply_heap(I, it, i0, n, addr, sc, outs, has_ph)
    ev = [(o.conds, o.events) for o in outs]
    if any(e for _, e in ev):
        eng.events.append(('loop', i0, n, ev))
    fr.env.update(new_env)
    for t in target_names(st.target):
        fr.env[t] = Undefined('loop variable after the loop')
    return left


def target_names(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)):
        return [x for e in t.elts for x in target_names(e)]
    return []


def same_term(a, b):
    a, b = lift(norm_num(a) if not isinstance(a, bool) else a), lift(b)
    if a.sort() != b.sort():
        return False
    return a.eq(b) or equal_canon(a, b) if a.sort() in (INT, REAL) else a.eq(b)


# ---------------------------------------------------------------------------------------------------------------- heap
def classify(I, it, i0, n, addr, obj, evs, outs):
    eng = I.eng
    kinds = {ev[0] for _, ev in evs}
    if kinds == {'append'}:
        per = [sum(1 for ev in o.log if ev[1] == addr) for o in outs if o.kind == 'normal']
        if any(p != 1 for p in per):
            raise Unsupported('a loop appends a varying number of elements')
        return ('append',)
    if kinds <= {'set', 'symappend'}:
        elem = None
        axis = None
        for o, ev in evs:
            comps = ev[2]
            if comps and comps[0] == 'view':
                comps = view_index(eng, o, addr, ev)
            if comps and isinstance(comps[0], str):
                raise Unsupported('whole-array update inside a loop')
            found = None
            for a, c in enumerate(comps):
                if is_num(c) and is_z3(lift(c)) and contains(lift(c), i0):
                    found = (a, canon(lift(c)))
                    break
            if found is None:
                raise Unsupported('a loop writes the same location repeatedly')
            if elem is not None and not (elem.eq(found[1]) and axis == found[0]):
                raise Unsupported('a loop writes several locations per iteration')
            axis, elem = found
        inv = inverse(I, it, i0, n, elem)
        if inv is None:
            raise Unsupported('a loop writes at index %s' % short(elem))
        return ('scatter', axis, elem, inv)
    raise Unsupported('heap update inside a loop: %s' % sorted(kinds))


def view_index(eng, o, addr, ev):
    # the write through a view follows the event of the view itself
    k = [i for i, e in enumerate(o.log) if e is ev][0]
    for e in reversed(o.log[:k]):
        v = o.heap.get(e[1])
        if isinstance(v, Arr) and v.base is not None and v.base[0] == addr and e[1] >= o.naddr0:
            base = eng.heap[addr]
            idx = [z3.Int('vi!%d' % q) for q in range(len(v.shape))]
            b = v.base[1](*idx)
            return [x if is_num(x) and not (is_z3(x) and any(contains(x, q) for q in idx)) else SliceV(None, None, None) for x in b]
    raise Unsupported('write through a view inside a loop')


def inverse(I, it, i0, n, elem):
    """(member(j), index(j)) for the map i -> elem(i) if it is injective"""
    eng = I.eng
    d = poly(elem) - poly(i0)
    if not any(contains(terms_keep(k), i0) for m in d.d for k, _ in m):
        off = term_of(d, INT)
        return (lambda j: canon_bool(z3.And(lift(j) - off >= 0, lift(j) - off < lift(n))), lambda j: canon(lift(j) - off))
    # a constant stride and anything else is rejected; listings are injective
    L = getattr(it, 'listing', None)
    if L is not None and canon(lift(L.at(i0))).eq(elem):
        return (lambda j: canon_bool(lift(L.member(j))), lambda j: L.pos(j))
    L = find_listing(I, it, i0, elem)
    if L is not None:
        return (lambda j: canon_bool(lift(L.member(j))), lambda j: L.pos(j))
    arrs = [getattr(it, 'listing', None)] + [o.meta['listing'] for o in eng.heap.values() if isinstance(o, Arr) and o.ndim == 1 and o.meta.get('listing') is not None]
    for A in eng.ghost.get('listings', []):
        if same_dim(A.length, it.length) and canon(lift(A.at(i0))).eq(elem):
            return (lambda j: canon_bool(lift(A.member(j))), lambda j: A.pos(j))
        for B in arrs:
            if B is not None and same_dim(B.length, it.length) and canon(lift(A.at(B.at(i0)))).eq(elem):
                C = compose_listing(eng, A, B)
                return (lambda j: canon_bool(lift(C.member(j))), lambda j: C.pos(j))
    return None


def find_listing(I, it, i0, elem):
    """an index array of the frame whose i0-th element is elem"""
    eng = I.eng
    for a, o in list(eng.heap.items()):
        if isinstance(o, Arr) and o.ndim == 1 and o.meta.get('listing') is not None:
            L = o.meta['listing']
            try:
                if same_dim(L.length, it.length) and canon(lift(L.at(i0))).eq(elem):
                    return L
            except Unsupported:
                pass
    return None


def terms_keep(k):
    from . import terms
    return terms._keep[k[1]] if k[0] in ('a', 'i') else term_of(den_poly(k), REAL)


def make_guard(eng, sc, i0):
    _, axis, elem, inv = sc

    def guard(o):
        from .interp import Region
        if isinstance(o, Arr):
            old = o.fn

            def fn(*idx):
                x = idx[axis]
                if same_dim(x, elem):
                    return old(*idx)
                raise Unsupported('a loop reads elements written by other iterations')
            return Arr(o.shape, fn, o.kind, o.cont, o.base, o.tag, o.origin, {k: v for k, v in o.meta.items() if k == 'dt'})
        if isinstance(o, ListObj):
            old = o

            def fn2(k):
                if same_dim(k, elem):
                    return list_at(eng, old, k)
                raise Unsupported('a loop reads elements written by other iterations')
            return ListObj(None, o.length, fn2, o.origin, o.region)
        if isinstance(o, Region):
            oldr = o

            def fn3(k):
                if same_dim(k, elem):
                    return oldr.fn(k)
                raise Unsupported('a loop reads elements written by other iterations')
            return Region(fn3, o.length, o.origin)
        raise Unsupported('loop update of %r' % (o,))
    return guard


class Lifter:
    """value of an outcome's expression at iteration k, with the facts it depends on"""

    def __init__(self, I, o, i0, n):
        self.I, self.o, self.i0, self.n = I, o, i0, n
        self.base = [f for f in o.facts if contains(f, i0)]
        self.done = set()

    def facts_at(self, k, cond=True):
        eng, i0 = self.I.eng, self.i0
        c = canon(lift(k))
        kk = (c.get_id(), cond)
        if ('lifted', id(self)) + kk in eng.access:
            return
        keep(c)
        eng.access[('lifted', id(self)) + kk] = []
        pre = [z3.And(c >= 0, c < lift(self.n))]
        if cond:
            pre += [z3.substitute(x, (i0, c)) for x in self.o.conds]
        pre = z3.And(*pre)
        for f in self.base:
            eng.assume(z3.Implies(pre, z3.substitute(f, (i0, c))))

    def at(self, f, k, *idx, cond=True):
        """f(*idx) evaluated in the iteration k"""
        eng, i0 = self.I.eng, self.i0
        c = canon(lift(k))
        self.facts_at(c, cond)
        eng.generic.append(i0)
        eng.nofork += 1
        try:
            with eng.scope():
                # inside, i0 stands for k
                for x in self.o.facts:
                    eng.assume(x)
                eng.assume(z3.And(i0 >= 0, i0 < lift(self.n)))
                # elements accessed by earlier calls for this iteration
                seen = eng.access.get(('laccess', id(self), c.get_id()), [])
                for key, t in seen:
                    l = eng.access.setdefault(key, [])
                    if not any(x.eq(t) for x in l):
                        l.append(t)
                before = {key: len(l) for key, l in eng.access.items()}
                n1 = len(eng.facts)
                r = f(*idx)
                nf = [x for x in eng.facts[n1:]]
                new = [(key, t) for key, l in eng.access.items() if key[0] not in ('laccess', 'lifted') for t in l[before.get(key, 0):]]
        finally:
            eng.nofork -= 1
            eng.generic.pop()
        eng.access[('laccess', id(self), c.get_id())] = seen + new
        pre = [z3.And(c >= 0, c < lift(self.n))]
        if cond:
            pre += [z3.substitute(x, (i0, c)) for x in self.o.conds]
        pre = canon_bool(eng.simp(z3.And(*pre)))
        for x in nf:
            y = z3.substitute(x, (i0, c))
            eng.assume(y if eng.entails(pre) else z3.Implies(pre, y))
        return self.sub(r, c)

    def sub(self, r, c):
        i0 = self.i0
        if is_z3(r):
            return conc(canon(z3.substitute(r, (i0, c))))
        if isinstance(r, Ref):
            r = self.o.heap.get(r.addr, None) or self.I.eng.heap.get(r.addr)
            if isinstance(r, Arr) and r.base is not None:
                raise Unsupported('view stored by a loop')
        if isinstance(r, Arr):
            return Arr([conc(canon(z3.substitute(lift(x), (i0, c)))) if is_z3(x) else x for x in r.shape],
                       lambda *j: self.at(r.fn, c, *j), r.kind, r.cont, meta=self.submeta(r, c))
        if isinstance(r, tuple):
            return Tup(self.sub(x, c) for x in r)
        if isinstance(r, Opt):
            return Opt(z3.substitute(r.isnone, (i0, c)), self.sub(r.value, c))
        if isinstance(r, (int, Fraction, bool, str)) or r is None:
            return r
        raise Unsupported('loop value %r' % (r,))

    def sub_listing(self, L, c):
        return Listing(self.sub(L.length, c) if is_z3(L.length) else L.length, lambda t: self.at(L.at, c, t), lambda k: self.at(lambda q: lift(L.member(q)), c, k),
                       lambda k: self.at(L.pos, c, k), self.sub(L.universe, c) if is_z3(L.universe) else L.universe)

    def submeta(self, r, c):
        m = {}
        if r.meta.get('listing') is not None:
            m['listing'] = self.sub_listing(r.meta['listing'], c)
        if r.meta.get('dt'):
            m['dt'] = r.meta['dt']
        if r.meta.get('gather') is not None and r.ndim == 1:
            L, g = r.meta['gather']
            m['gather'] = (self.sub_listing(L, c), lambda k: self.at(g, c, k))
        return m


def _lifter(I, o, i0, n):
    d = I.eng.ghost.setdefault('lifters', {})
    if id(o) not in d:
        d = dict(d)
        d[id(o)] = Lifter(I, o, i0, n)
        I.eng.ghost['lifters'] = d
    return d[id(o)]


def merged(I, outs, i0, n, k, getters, *idx):
    """value at iteration k: case distinction over the outcomes"""
    eng = I.eng
    r = None
    first = True
    for o, g in reversed(list(zip(outs, getters))):
        lf = _lifter(I, o, i0, n)
        cond = canon_bool(eng.simp(z3.And(*[z3.substitute(x, (i0, lift(k))) for x in o.conds]))) if o.conds else z3.BoolVal(True)
        if len(outs) > 1 and eng.entails(z3.Not(cond)):
            continue
        v = lf.at(g, k, *idx)
        if first:
            r, first = v, False
        else:
            r = ite(eng, cond, v, r) if not z3.is_true(cond) else v
    if first:
        raise Unsupported('no outcome')
    return r


def apply_heap(I, it, i0, n, addr, sc, outs, has_ph):
    from .interp import Region
    eng = I.eng
    old = eng.heap[addr]
    for o in outs:
        if any(has_ph(c) for c in o.conds):
            # conditions on the carried state are only allowed if they do not influence the written values
            if not all(same_write(o, q, addr) for q in outs):
                raise Unsupported('heap update depending on carried state')
            outs = [o]
            break
    eng.log.append(('loopset', addr, None, None, getattr(old, 'origin', 'fresh')))
    if sc[0] == 'append':
        if not isinstance(old, ListObj):
            raise Unsupported('append')
        ln = old.length

        def item(o):
            for ev in o.log:
                if ev[1] == addr:
                    return ev[3]
        its = [(lambda o=o: item(o)) for o in outs]
        new = ListObj(None, s_binop(eng, '+', ln, n), None, old.origin)

        def fn(k):
            if same_dim(ln, 0) and not is_z3(conc(ln)):
                return merged(I, outs, i0, n, k, its)
            kk = s_binop(eng, '-', k, ln)
            return ite(eng, s_cmp(eng, '<', k, ln), list_at(eng, old, k), merged(I, outs, i0, n, kk, its))
        new.fn = fn
        eng.heap[addr] = new
        return
    _, axis, elem, (member, index) = sc
    outs2 = outs
    if isinstance(old, Region):
        def rfn(j):
            m = conc(eng.simp(lift(member(j))))
            if m is False:
                return old.fn(j)
            v = merged(I, outs2, i0, n, index(j), [(lambda o=o: o.heap[addr].fn(elem)) for o in outs2])
            return v if m is True else z3.If(m, v, old.fn(j))
        eng.heap[addr] = Region(rfn, old.length, old.origin)
        return
    if isinstance(old, ListObj):
        def lfn(j):
            m = conc(eng.simp(lift(member(j))))
            if m is False:
                return list_at(eng, old, j)
            v = merged(I, outs2, i0, n, index(j), [(lambda o=o: list_at(eng, o.heap[addr], elem)) for o in outs2])
            return v if m is True else ite(eng, m, v, list_at(eng, old, j))
        eng.heap[addr] = ListObj(None, old.length, lfn, old.origin, old.region)
        return
    if not isinstance(old, Arr):
        raise Unsupported('loop update of %r' % (old,))
    basearr = old

    def afn(*idx):
        j = idx[axis]
        m = conc(eng.simp(lift(member(j))))
        if m is False:
            return basearr.fn(*idx)
        if is_z3(m) and eng.entails(m):
            m = True
        rest = [x for a, x in enumerate(idx) if a != axis]

        def get(o):
            def f(*rs):
                rs = list(rs)
                full = rs[:axis] + [elem] + rs[axis:]
                return o.heap[addr].fn(*full)
            return f
        v = merged(I, outs2, i0, n, index(j), [get(o) for o in outs2], *rest)
        return v if m is True else ite(eng, m, v, basearr.fn(*idx))
    meta = {k: v for k, v in old.meta.items() if k == 'dt'}
    if axis == 0 and old.ndim == 2:
        ls = [row_listing_of_write(I, o, addr) for o in outs2]
        if len(outs2) == 1 and ls[0] is not None and eng.entails(lift(old.shape[0]) == lift(n)) and same_dim(elem, i0):
            lf0 = outs2[0]
            L0 = ls[0]
            meta['rowlisting'] = lambda d: _lifter(I, lf0, i0, n).sub_listing(L0, canon(lift(d)))
    if old.base is not None:
        raise Unsupported('loop update of a view')
    eng.heap[addr] = Arr(old.shape, afn, old.kind, old.cont, None, old.tag, old.origin, meta)


def row_listing_of_write(I, o, addr):
    for ev in o.log:
        if ev[1] == addr and ev[0] == 'set' and isinstance(ev[3], Arr):
            return ev[3].meta.get('listing')
    return None


def same_write(o, q, addr):
    a = [ev[2:4] for ev in o.log if ev[1] == addr]
    b = [ev[2:4] for ev in q.log if ev[1] == addr]
    return not a and not b


# ---------------------------------------------------------------------------------------------------------------- locals
def accumulate(I, n, i0, outs, phs, v, live, has_ph, new_env):
    eng = I.eng
    ph = phs[v]
    vals = [lift(norm_num(o.env[v])) if not is_z3(o.env[v]) else o.env[v] for o in outs]
    if any(has_ph(c) for o in outs for c in o.conds):
        raise Unsupported('loop-carried variable %s (update depends on carried state)' % v)
    if ph.sort() == BOOL:
        raise Unsupported('loop-carried boolean %s' % v)
    deltas = []
    for x in vals:
        x, p = both(x, ph)
        d = canon(x - p)
        if has_ph(d):
            deltas = None
            break
        deltas.append(d)
    if deltas is not None:
        getters = [(lambda d=d: d) for d in deltas]
        tot = sums.SUM(eng, 0, n, lambda k: merged(I, outs, i0, n, k, getters))
        new_env[v] = s_binop(eng, '+', live[v], tot)
        return
    if all(not has_ph(x) for x in vals):
        # last value
        if eng.choose(canon_bool(lift(n) > 0)):
            k = s_binop(eng, '-', n, 1)
            new_env[v] = merged(I, outs, i0, n, k, [(lambda x=x: x) for x in vals])
        else:
            new_env[v] = live[v]
        return
    raise Unsupported('loop-carried variable %s' % v)


def literals(c):
    return list(c.children()) if z3.is_and(c) else [c]


def split_cond(cs, has_ph):
    free, dep = [], []
    for c in cs:
        for l in literals(c):
            (dep if has_ph(l) else free).append(l)
    return free, dep


def extremum(I, fr, it, n, i0, outs, phs, pending, live, has_ph, new_env):
    eng = I.eng
    upd, keep_ = [], []
    for o in outs:
        ch = [v for v in pending if not same_term(o.env[v], phs[v])]
        (upd if ch else keep_).append(o)
    if not any(has_ph(c) for o in outs for c in o.conds):
        return []
    rule = None
    cands = []
    best = None
    for o in upd:
        free, dep = split_cond(o.conds, has_ph)
        if len(dep) != 1:
            raise Unsupported('update condition of a running best is not a single comparison')
        m = match_cmp(dep[0], phs, o, pending)
        if m is None:
            raise Unsupported('update condition %s of a running best' % short(dep[0]))
        b, v, strict, up = m
        if rule is None:
            rule = (b, strict, up)
        if rule != (b, strict, up):
            raise Unsupported('running best with mixed comparisons')
        x, y = both(norm_num(o.env[b]), v)
        if not equal_canon(x, y):
            raise Unsupported('running best: %s is compared with one value and replaced by another' % b)
        for w in pending:
            if is_z3(o.env[w]) and has_ph(o.env[w]):
                raise Unsupported('running best: new value of %s depends on carried state' % w)
        cands.append((o, free, v))
    if rule is None:
        raise Unsupported('loop-carried state')
    b, strict, up = rule
    for o in keep_:
        free, dep = split_cond(o.conds, has_ph)
        for d in dep:
            m = match_cmp(canon_bool(z3.Not(d)), phs, o, pending)
            if m is None or m[0] != b:
                raise Unsupported('running best: condition %s' % short(d))
    init = live[b]

    def better(x, y, st):
        """x better than y"""
        x, y = both(norm_num(x), norm_num(y))
        if up:
            return x > y if st else x >= y
        return x < y if st else x <= y

    def sub(t, k):
        return z3.substitute(lift(t), (i0, lift(k)))
    k = eng.fork(1 + len(cands), 'running best')
    if k == 0:
        for (o, free, v) in cands:
            lf = _lifter(I, o, i0, n)

            def inst(j, o=o, free=free, v=v, lf=lf):
                key = ('ext0', id(o), canon(lift(j)).get_id())
                if key in eng.ghost:
                    return
                keep(canon(lift(j)))
                eng.ghost[key] = True
                lf_facts(I, lf, free, i0, n, j)
                pre = z3.And(lift(j) >= 0, lift(j) < lift(n), *[sub(c, j) for c in free])
                eng.assume(z3.Implies(pre, z3.Not(better(sub(v, j), init, strict))))
            eng.insts.append(tagged('ext', inst))
        for v in pending:
            new_env[v] = live[v]
        eng.ghost['ext_updated'] = False
    else:
        o, free, v = cands[k - 1]
        w = eng.fresh_plain('best', INT)
        eng.assume(z3.And(w >= 0, w < lift(n)), path=True)
        for c in free:
            eng.assume(sub(c, w), path=True)
        for f in o.facts:
            if not has_ph(f):
                eng.assume(sub(f, w))
        if not eng._consistent():
            raise PathEnd()
        eng.assume(better(sub(v, w), init, strict), path=True)
        lfo = _lifter(I, o, i0, n)
        for x in pending:
            new_env[x] = lfo.sub(o.env[x], canon(w)) if is_z3(o.env[x]) else o.env[x]
        vw = sub(v, w)
        for (o2, free2, v2) in cands:
            lf2 = _lifter(I, o2, i0, n)

            def inst(j, o2=o2, free2=free2, v2=v2, lf2=lf2):
                key = ('ext1', id(o2), canon(lift(j)).get_id())
                if key in eng.ghost:
                    return
                keep(canon(lift(j)))
                eng.ghost[key] = True
                lf_facts(I, lf2, free2, i0, n, j)
                jj = lift(j)
                pre = z3.And(jj >= 0, jj < lift(n), *[sub(c, j) for c in free2])
                x = sub(v2, j)
                eng.assume(z3.Implies(pre, z3.Not(better(x, vw, True))))
                if strict:
                    eng.assume(z3.Implies(z3.And(pre, jj < w), better(vw, x, True)))
                else:
                    eng.assume(z3.Implies(z3.And(pre, jj > w), better(vw, x, True)))
            eng.insts.append(tagged('ext', inst))
        eng.ghost['ext_updated'] = True
    for (o, free, v) in cands:
        for f in o.insts:
            register_inst2(I, o, i0, n, f, has_ph, free)
    return list(pending)


def lf_facts(I, lf, free, i0, n, j):
    eng = I.eng
    c = lift(j)
    pre = z3.And(c >= 0, c < lift(n), *[z3.substitute(x, (i0, c)) for x in free])
    ids = {x.get_id() for x in lf.o.conds}
    for f in lf.base:
        if f.get_id() in ids:
            continue
        eng.assume(z3.Implies(pre, z3.substitute(f, (i0, c))))


def register_inst2(I, o, i0, n, f, has_ph, free=None):
    """facts quantified inside the iteration, available for every (iteration, index)"""
    eng = I.eng
    l = eng.ghost.get('insts2', [])

    def inst2(k, j):
        c = canon(lift(k))
        conds = [x for x in (free if free is not None else o.conds)]
        if any(has_ph(x) for x in conds):
            return
        pre = z3.And(c >= 0, c < lift(n), *[z3.substitute(x, (i0, c)) for x in conds])
        eng.generic.append(i0)
        try:
            with eng.scope():
                for x in o.facts:
                    eng.assume(x)
                n1 = len(eng.facts)
                jj = canon(lift(j))
                f(jj)
                nf = eng.facts[n1:]
        finally:
            eng.generic.pop()
        ids = {x.get_id() for x in o.conds}
        for x in [y for y in o.facts if contains(y, i0) and y.get_id() not in ids and not has_ph(y)] + [y for y in nf if not has_ph(y)]:
            eng.assume(z3.Implies(pre, z3.substitute(x, (i0, c))))
    eng.ghost['insts2'] = l + [inst2]


def instantiate2(eng, k, j):
    for f in list(eng.ghost.get('insts2', [])):
        f(k, j)


def match_cmp(c, phs, o, pending):
    """c as comparison  v > best / v >= best / v < best / v <= best -> (name, v, strict, up)"""
    neg = False
    x = c
    if z3.is_not(x):
        neg, x = True, x.arg(0)
    if not z3.is_le(x):
        if z3.is_lt(x):
            neg, x = (not neg), (x.arg(1) <= x.arg(0))
        else:
            return None
    a, b = x.arg(0), x.arg(1)          # a <= b
    p = poly(b) - poly(a)              # >= 0
    for name in pending:
        ph = phs[name]
        key = ((('a', ph.get_id()), 1),)
        cf = p.d.get(key)
        if cf is None:
            continue
        rest = Poly({m: q for m, q in p.d.items() if m != key})
        rest = rest.scale(1 / cf if cf else 0)
        # cf*(ph + rest) >= 0
        v = term_of(rest.scale(-1), REAL if ph.sort() == REAL else INT)
        if any(contains(v, q) for q in phs.values()):
            continue
        # cf > 0: ph >= v ; negated: v > ph
        if cf > 0:
            return (name, v, True, True) if neg else (name, v, False, False)
        return (name, v, True, False) if neg else (name, v, False, True)
    return None


# ---------------------------------------------------------------------------------------------------------------- while
def exec_while(I, st, fr):
    from .interp import BreakEx, ContinueEx
    eng = I.eng
    for rule in getattr(I, 'while_rules', []):
        if rule(I, st, fr):
            return
    for _ in range(66):
        c = I.truth_term(I.eval(st.test, fr))
        if is_z3(c):
            if eng.entails(c):
                c = True
            elif eng.entails(z3.Not(c)):
                c = False
            else:
                raise Unsupported('while loop with a symbolic condition')
        if not c:
            I.block(st.orelse, fr)
            return
        try:
            I.block(st.body, fr)
        except ContinueEx:
            continue
        except BreakEx:
            return
    raise Unsupported('while loop does not finish')
