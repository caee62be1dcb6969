"""Loops whose inductive invariant is found by elimination (Houdini): every local carried through the loop, every object written in
it and every ghost counter gets the conjunction of the candidate predicates of its kind; a candidate that does not hold before the
loop or after an arbitrary iteration is dropped and the whole task is verified again with the weaker invariant, until every
remaining candidate is inductive.  Obligations count only in the last run."""
import ast
import z3
from .terms import *
from .values import *
from .engine import PathEnd
from .loops import assigned_names, target_names
from .ops import *
from .nplib import *
from .task import Task

P10 = uf('negative_power_of_ten', REAL, BOOL)


class Restart(Exception):
    pass


def p10(eng, t, depth=2):
    """x = 10^-k for some k >= 1; closed under division by ten, and under multiplication by ten as long as the result is below one"""
    x = canon(to_real(norm_num(t)))
    c = conc(x)
    if not is_z3(c):
        c = Fraction(c)
        return c.numerator == 1 and c.denominator >= 10 and set(str(c.denominator)[1:]) == {'0'} and str(c.denominator)[0] == '1'
    r = P10(x)
    eng.assume(z3.Implies(r, z3.And(x > 0, 10 * x <= 1)))
    for y in [s.arg(0) for f in eng.facts for s in subterms(f).values() if z3.is_app(s) and s.decl().eq(P10)]:
        for k in (10, 100):
            if equal_canon(canon(y), canon(x * k)):
                eng.assume(z3.Implies(P10(y), r))
            if equal_canon(canon(y * k), canon(x)):
                eng.assume(z3.Implies(z3.And(P10(y), x < 1), r))
    return r


class Vec:
    """one-dimensional arrays with a property: n coordinates, all between lo and hi"""
    def __init__(self, n, lo=0, hi=1):
        self.n, self.lo, self.hi = n, lo, hi

    def is_vec(self, eng, v):
        a = deref(eng, v)
        return isinstance(a, Arr) and a.ndim == 1 and a.cont == 'ndarray' and a.kind in ('f', 'i')

    def goal(self, eng, v):
        """(shape, coordinates) as formulas, to be evaluated in a scope"""
        a = deref(eng, v)
        i = eng.fresh_plain('coord', INT)
        eng.assume(z3.And(i >= 0, i < lift(self.n)))
        x = lift(to_real(a.fn(i)))
        return lift(a.shape[0]) == lift(self.n), z3.And(x >= self.lo, x <= self.hi)

    def holds(self, eng, v):
        if not self.is_vec(eng, v):
            return False
        with eng.scope():
            s, c = self.goal(eng, v)
            return eng.holds(s) and eng.holds(c)

    def make(self, eng, origin='fresh'):
        f = eng.fresh_fun('vec', INT, REAL)

        def fn(i):
            x = f(lift(i))
            eng.assume(z3.And(x >= self.lo, x <= self.hi))
            return x
        return eng.alloc(Arr((self.n,), fn, 'f', origin=origin))


def bag(eng, vec, length=None, least=0):
    """dict with numbers as keys and vectors with a property as values"""
    n = eng.fresh('entries', INT) if length is None else length
    eng.assume(lift(n) >= least)
    key = eng.fresh_fun('key', INT, REAL)

    def set_(eng, r, k, v):
        if not vec.holds(eng, v):
            raise Unsupported('a value of another kind is put into a dict')
        freeze(eng, v)
        return deref(eng, bag(eng, vec, None, 1))
    sym = {'len': n, 'get': lambda eng, k: vec.make(eng, 'frozen'), 'set': set_, 'vec': vec,
           'keys': lambda eng: IterV(n, lambda k: key(lift(k))), 'values': lambda eng: IterV(n, lambda k: vec.make(eng, 'frozen')),
           'items': lambda eng: IterV(n, lambda k: Tup((key(lift(k)), vec.make(eng, 'frozen'))))}
    sym['iter'] = sym['keys']
    return eng.alloc(DictObj(None, sym))


def freeze(eng, v):
    if isinstance(v, Ref):
        eng.ghost['frozen'] = eng.ghost.get('frozen', frozenset()) | {v.addr}


def check_frozen(eng):
    """vectors stored in a dict are shared: writing them is outside the model"""
    fz = eng.ghost.get('frozen', ())
    for ev in eng.log:
        if isinstance(ev[1], int) and ev[0] != 'dictset' and (ev[1] in fz or len(ev) > 4 and ev[4] == 'frozen'):
            raise Unsupported('a vector stored in a dict is modified in place')


def is_dict_ok(eng, v, vec):
    d = deref(eng, v)
    if not isinstance(d, DictObj):
        return False
    if d.items is not None:
        for _, x in d.items.values():
            if not vec.holds(eng, x):
                return False
            freeze(eng, x)
        return True
    if 'vec' in d.sym:
        return d.sym['vec'] is vec
    if 'elem' in d.sym:
        with eng.scope():
            k = eng.fresh_plain('entry', INT)
            eng.assume(z3.And(k >= 0, k < lift(d.sym['range'])))
            return vec.holds(eng, d.sym['elem'](k))
    return False


class Houdini:
    """candidate predicates dropped so far; vec: the property of vectors; counters: names of ghost counters"""
    def __init__(self, vec=None, counters=(), numpreds=()):
        self.vec, self.counters, self.numpreds = vec, counters, dict(numpreds)
        self.weak = set()
        self.restarts = 0

    def drop(self, *key, outer=()):
        self.weak.add(key)
        # alternatives of enclosing loops were judged under an assumption that turned out wrong
        self.weak -= {k for k in self.weak if k[0] in outer and k[1] in self.counters}
        self.restarts += 1
        if self.restarts > 400:
            raise Unsupported('no inductive invariant found')
        raise Restart()

    def on(self, *key):
        return key not in self.weak

    # ------------------------------------------------------------ rules
    def for_rule(self, I, st, fr, it, n):
        run(self, I, st, fr, it, n)
        return True

    def while_rule(self, I, st, fr):
        run(self, I, st, fr)
        return True

    def install(self, I):
        I.loop_rules = [self.for_rule]
        I.while_rules = [lambda I, st, fr: memoryless(self, I, st, fr), self.while_rule]


FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.NotEq: ast.NotEq}


class Inv:
    def __init__(self, H, I, st, fr):
        self.H, self.I, self.st, self.fr = H, I, st, fr
        eng = I.eng
        self.id = (fr.func.qual if fr.func is not None else '', st.lineno - (fr.func.node.lineno if fr.func is not None else 0))
        self.outer = eng.ghost.get('loops', ())
        self.names = sorted(v for v in assigned_names(st) if v in fr.env)
        self.entry = {v: fr.env[v] for v in self.names}
        self.ghost = {g: eng.ghost[g] for g in H.counters}
        self.heap = dict(eng.heap)
        self.vars = {}
        for v, x in fr.env.items():
            if isinstance(x, Ref):
                self.vars.setdefault(x.addr, []).append(v)
        self.bounds = {}
        if isinstance(st, ast.While):
            for t in (st.test.values if isinstance(st.test, ast.BoolOp) and isinstance(st.test.op, ast.And) else [st.test]):
                if isinstance(t, ast.Compare) and len(t.ops) == 1:
                    for x, op, y in ((t.left, t.ops[0], t.comparators[0]), (t.comparators[0], FLIP.get(type(t.ops[0]), ast.Eq)(), t.left)):
                        if isinstance(x, ast.Name) and isinstance(y, (ast.Name, ast.Attribute, ast.Constant)) and isinstance(op, (ast.Lt, ast.Gt, ast.LtE, ast.GtE, ast.NotEq)):
                            self.bounds[x.id] = (op, y)

    def key(self, addr):
        """an object is known by the locals that refer to it, so that candidates of different paths are not mixed up"""
        return tuple(sorted(self.vars.get(addr, ()))) or addr

    def preds(self, v):
        """names of the candidate predicates of a numeric local"""
        r = ['int', 'counter', 'down'] + sorted(self.H.numpreds)
        if v in self.bounds:
            r += ['upper', 'lower']
        return [p for p in r if self.H.on(self.id, v, p)]

    def formula(self, p, v, x, k):
        eng = self.I.eng
        e = self.entry[v]
        if p == 'counter':
            return s_cmp(eng, '==', x, s_binop(eng, '+', e, k))
        if p == 'down':
            return s_cmp(eng, '==', x, s_binop(eng, '-', e, k))
        if p in ('upper', 'lower'):
            op, b = self.bounds[v]
            b = self.I.eval(b, self.fr)
            if isinstance(op, (ast.LtE, ast.GtE)):
                b = s_binop(eng, '+' if p == 'upper' else '-', b, 1)
            c = '<=' if p == 'upper' else '>='
            return canon_bool(z3.Or(lift(s_cmp(eng, c, x, b)), lift(s_cmp(eng, c, x, e))))
        return self.H.numpreds[p](eng, x)

    def is_num(self, v):
        x = self.entry[v]
        return isinstance(x, Inf) or is_num(x) and not isinstance(x, bool) and not (is_z3(x) and x.sort() == BOOL)

    def is_bool(self, v):
        x = self.entry[v]
        return isinstance(x, bool) or is_z3(x) and x.sort() == BOOL

    def check(self, k, when):
        eng, H = self.I.eng, self.H
        check_frozen(eng)
        dirty = False
        for f, xs in ((self.check_local, self.names), (self.check_counter, H.counters), (self.check_object, list(self.heap))):
            for x in xs:
                try:
                    f(x, k)
                except Restart:
                    dirty = True
        if dirty:
            raise Restart()

    def check_local(self, v, k):
        eng, H = self.I.eng, self.H
        x = self.fr.env.get(v)
        if not H.on(self.id, v, 'defined'):
            return
        if isinstance(x, Undefined):
            H.drop(self.id, v, 'defined')
        if self.is_num(v):
            if not isinstance(x, Inf) and not is_num(x) or isinstance(x, bool) or is_z3(x) and x.sort() == BOOL:
                H.drop(self.id, v, 'defined')
            bad = []
            ps = self.preds(v)
            for p in ps:
                if p == 'down' and 'counter' in ps:
                    continue
                if isinstance(x, Inf) or isinstance(self.entry[v], Inf):
                    ok = False
                elif p == 'int':
                    ok = not is_real(x)
                else:
                    ok = self.formula(p, v, x, k)
                    ok = ok if isinstance(ok, bool) else eng.holds(ok)
                if not ok:
                    bad.append(p)
            for p in bad[1:]:
                H.weak.add((self.id, v, p))
            if bad:
                H.drop(self.id, v, bad[0])
        elif self.is_bool(v):
            if not (isinstance(x, bool) or is_z3(x) and x.sort() == BOOL):
                H.drop(self.id, v, 'defined')
        elif H.vec is not None and isinstance(deref(eng, self.entry[v]), DictObj):
            if not is_dict_ok(eng, x, H.vec):
                H.drop(self.id, v, 'defined')
        elif H.vec is not None and H.vec.is_vec(eng, self.entry[v]):
            if not (H.vec.is_vec(eng, x) and H.vec.holds(eng, x)):
                H.drop(self.id, v, 'defined')
            freeze(eng, x)
        else:
            H.drop(self.id, v, 'defined')

    def check_counter(self, g, k):
        eng, H = self.I.eng, self.H
        for p in ('counter', 'same'):
            if H.on(self.id, g, p):
                if not eng.holds(lift(eng.ghost[g]) == lift(self.ghost[g]) + (lift(k) if p == 'counter' else 0)):
                    H.drop(self.id, g, p, outer=self.outer)
                break

    def check_object(self, addr, k):
        """objects that existed before the loop"""
        eng, H = self.I.eng, self.H
        o, now = self.heap[addr], eng.heap.get(addr)
        changed = not (now is o or same_content(o, now))
        if changed:
            if H.on(self.id, self.key(addr), 'unchanged'):
                H.drop(self.id, self.key(addr), 'unchanged')
            if isinstance(o, DictObj) and not (H.vec is not None and is_dict_ok(eng, Ref(addr), H.vec)):
                raise Unsupported('a dict is changed in a loop')
        if H.vec is not None and isinstance(o, Arr) and not H.on(self.id, self.key(addr), 'unchanged') and H.on(self.id, self.key(addr), 'vec'):
            if not H.vec.holds(eng, Ref(addr)):
                H.drop(self.id, self.key(addr), 'vec')

    def havoc(self, k):
        eng, H, fr = self.I.eng, self.H, self.fr
        for v in self.names:
            if not H.on(self.id, v, 'defined'):
                fr.env[v] = Undefined('carried through a loop')
            elif self.is_num(v):
                ps = self.preds(v)
                x = eng.fresh_plain('c_' + v, INT if 'int' in ps else REAL)
                fr.env[v] = x
                for p, op in (('counter', '+'), ('down', '-')):
                    if p in ps:
                        fr.env[v] = x = s_binop(eng, op, self.entry[v], k)
                        break
                for p in ps:
                    if p not in ('int', 'counter', 'down'):
                        eng.assume(self.formula(p, v, x, k))
            elif self.is_bool(v):
                fr.env[v] = eng.fresh_plain('c_' + v, BOOL)
            elif isinstance(deref(eng, self.entry[v]), DictObj):
                fr.env[v] = bag(eng, H.vec)
            else:
                fr.env[v] = H.vec.make(eng, 'frozen')
        for g in H.counters:
            e = self.ghost[g]
            if H.on(self.id, g, 'counter'):
                eng.ghost[g] = canon(lift(e) + lift(k))
            elif not H.on(self.id, g, 'same'):
                x = eng.fresh_plain('count', INT)
                eng.assume(x >= lift(e))
                eng.ghost[g] = x
        for addr, o in self.heap.items():
            if H.on(self.id, self.key(addr), 'unchanged'):
                continue
            if isinstance(o, Arr) and o.base is None and H.vec is not None and H.on(self.id, self.key(addr), 'vec') and H.vec.is_vec(eng, o):
                eng.heap[addr] = eng.heap[H.vec.make(eng, o.origin).addr]
            elif isinstance(o, Arr) and o.base is None and o.kind == 'f':
                f = eng.fresh_fun('content', *([INT] * o.ndim + [REAL]))
                eng.heap[addr] = Arr(o.shape, lambda *i, f=f: f(*[lift(j) for j in i]), 'f', o.cont, None, o.tag, o.origin, {})
            elif isinstance(o, DictObj):
                eng.heap[addr] = eng.heap[bag(eng, H.vec).addr]
            else:
                raise Unsupported('an object of this kind is changed in a loop')


def same_content(o, now):
    if isinstance(o, Obj) and isinstance(now, Obj):
        return o.fields.keys() == now.fields.keys() and all(o.fields[f] is now.fields[f] or o.fields[f] == now.fields[f] and not is_z3(o.fields[f]) for f in o.fields)
    return False


def run(H, I, st, fr, it=None, n=None):
    """both kinds of loops; k counts the iterations made so far"""
    from .interp import BreakEx, ContinueEx
    eng = I.eng
    if eng.nofork:
        raise Unsupported('loop inside a generic expression')
    if n is not None and not eng.entails(lift(n) >= 0):
        eng.assume(lift(n) >= 0)
    inv = Inv(H, I, st, fr)
    inv.check(z3.IntVal(0), 'before the loop')
    tn = target_names(st.target) if it is not None else []
    for v in assigned_names(st):
        if v not in inv.names:
            fr.env[v] = Undefined('assigned inside a loop')
    if it is not None:
        body = eng.fork(2, 'loop') == 0
        if not body:
            inv.havoc(lift(n))
            for t in tn:
                fr.env[t] = Undefined('loop variable after the loop')
            return
        k = eng.fresh_plain('it', INT)
        eng.assume(z3.And(k >= 0, k < lift(n)), path=True)
    else:
        k = eng.fresh_plain('it', INT)
        eng.assume(k >= 0)
    inv.havoc(k)
    if not eng.feasible(z3.BoolVal(True)) or not eng._consistent():
        raise PathEnd()
    eng.ghost['loops'] = inv.outer + (inv.id,)
    if it is not None:
        I.assign(st.target, it.fn(k), fr)
    elif not I.truth(I.eval(st.test, fr)):
        eng.ghost['loops'] = inv.outer
        I.block(st.orelse, fr)
        return
    try:
        I.block(st.body, fr)
    except ContinueEx:
        pass
    except BreakEx:
        eng.ghost['loops'] = inv.outer
        if st.orelse:
            raise Unsupported('break in a loop with an else branch')
        for t in tn:
            fr.env[t] = Undefined('loop variable after the loop')
        return
    if not eng._consistent():
        raise PathEnd()
    # this path ends here: what it wrote must be accounted for now
    if any(len(ev) > 4 and ev[4] == 'param' for ev in eng.log):
        eng.prove('frame: an iteration does not modify the inputs of the function (%s)' % [ev[0] for ev in eng.log if len(ev) > 4 and ev[4] == 'param'][0], False)
        raise PathEnd()
    inv.check(canon(k + 1), 'after an iteration')
    raise PathEnd()


# ---------------------------------------------------------------------------------------------------------------- memoryless loops
def reads_before_writes(body, names):
    """names of `names` that may be read before they are assigned in the straight-line body"""
    bad = set()

    def expr(e, done):
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in names and x.id not in done:
                bad.add(x.id)

    def go(stmts, done):
        for s in stmts:
            if isinstance(s, ast.Assign):
                expr(s.value, done)
                for t in s.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            done.add(x.id)
                        elif isinstance(x, (ast.Attribute, ast.Subscript)):
                            bad.add('*')
            elif isinstance(s, ast.While):
                expr(s.test, done)
                d2 = set(done)
                go(s.body, d2)
            elif isinstance(s, ast.If):
                expr(s.test, done)
                d1, d2 = set(done), set(done)
                go(s.body, d1)
                go(s.orelse, d2)
                done |= d1 & d2
            elif isinstance(s, (ast.Pass, ast.Assert)):
                pass
            elif isinstance(s, ast.Expr):
                expr(s.value, done)
            else:
                bad.add('*')
    go(body, set())
    return bad


def memoryless(H, I, st, fr):
    """while loop whose body does not depend on earlier iterations and changes nothing but its own locals: afterwards either no
    iteration was made, or the locals are those of an arbitrary iteration after which the condition was false"""
    from .interp import BreakEx, ContinueEx
    eng = I.eng
    names = assigned_names(st)
    if st.orelse or reads_before_writes(st.body, names) or isinstance(st.test, ast.Constant):
        return False
    if not I.truth(I.eval(st.test, fr)):
        return True
    for v in names:
        fr.env[v] = Undefined('earlier iteration')
    l0, a0, g0 = len(eng.log), eng.naddr, dict(eng.ghost)
    I.block(st.body, fr)
    for ev in eng.log[l0:]:
        if isinstance(ev[1], int) and ev[1] < a0:
            raise Unsupported('a loop writes an object (%s)' % (ev[0],))
    if any(eng.ghost[g] is not g0[g] for g in H.counters):
        raise Unsupported('evaluations in a loop')
    if I.truth(I.eval(st.test, fr)):
        raise PathEnd()
    return True


# ---------------------------------------------------------------------------------------------------------------- tasks
def houdini_task(name, make, H):
    """make(): task whose loops use the candidates of H (a Houdini object); verified again whenever a candidate is dropped"""
    t = make()

    def fn(prog, eng):
        eng.nested += 1                 # candidates are shared between paths: no forked processes
        try:
            while True:
                n0, r0 = len(eng.stats.obl), eng.reach
                try:
                    t.fn(prog, eng)
                    return
                except Restart:
                    del eng.stats.obl[n0:]
                    eng.reach = r0
                    eng.loop_cache = {}
        finally:
            eng.nested -= 1
    return Task(name, fn)
