"""Path state, facts, solver access and obligations."""
import os
import pickle
import tempfile
import time
import z3
from .terms import *
from .values import *
from . import sums

z3.set_param('smt.random_seed', 7)


class PathEnd(Exception):
    """the current path needs no further execution (infeasible, or finished early)"""


SLOTS = None          # semaphore: processes that may run beside the task processes (None: no process forking)


class Stats:
    def merge(self, o):
        self.obl += o['obl']
        self.solver_time += o['solver_time']
        self.queries += o['queries']
        self.paths += o['paths']
        for a in ('lib_used', 'contracts_used', 'inlined', 'lemmas'):
            getattr(self, a).update(o[a])

    def __init__(self):
        self.obl = []            # dicts
        self.solver_time = 0.0
        self.queries = 0
        self.lib_used = set()
        self.contracts_used = set()
        self.inlined = set()
        self.lemmas = set()
        self.paths = 0


class Engine:
    select = None
    owned = None
    linear = False          # feasibility queries ignore non-linear arithmetic (they are only used to simplify and to prune)
    def __init__(self, prog, name='?', timeout_ms=6000):
        self.prog, self.name = prog, name
        self.timeout = timeout_ms
        self.stats = Stats()
        self.trail, self.pos, self.pending = [], 0, []
        self.nested = 0
        self.kids, self.out = [], None
        self.reach = 0
        self.exploring = False
        self.cache_proved = {}
        self.cache_feas = {}
        self.loop_cache = {}
        self.reset()

    # ---------------------------------------------------------------- path state
    def reset(self):
        self.heap = {}
        self.naddr = 0
        self.facts, self.factids = [], {}
        self.pathfacts = []
        self.ctr = {}
        self.log = []                # write log
        self.events = []             # ghost events (calls through contracts)
        self.generic = []            # generic index variables (z3 Int consts)
        self.nofork = 0
        self.pinned = {}
        self.insts = []              # instantiators of loop summaries: fn(index term)
        self.access = {}             # (symbol name, params) -> list of accessed indices
        self.prefix = ''
        self.solver = None
        self.solver_n = 0
        self.ghost = {}
        self.depth = 0

    def snapshot(self):
        return dict(heap=dict((a, o.copy() if hasattr(o, 'copy') else o) for a, o in self.heap.items()),
                    facts=list(self.facts), factids=dict(self.factids), pathfacts=list(self.pathfacts),
                    log=list(self.log), events=list(self.events), generic=list(self.generic), nofork=self.nofork,
                    pinned=dict(self.pinned), insts=list(self.insts),
                    access={k: list(v) for k, v in self.access.items()}, ghost=dict(self.ghost), depth=self.depth)

    def restore(self, s):
        s = dict(s)
        self.heap = {a: (o.copy() if hasattr(o, 'copy') else o) for a, o in s['heap'].items()}
        self.facts, self.factids, self.pathfacts = list(s['facts']), dict(s['factids']), list(s['pathfacts'])
        self.log, self.events, self.generic = list(s['log']), list(s['events']), list(s['generic'])
        self.nofork, self.pinned, self.insts = s['nofork'], dict(s['pinned']), list(s['insts'])
        self.access = {k: list(v) for k, v in s['access'].items()}
        self.ghost, self.depth = dict(s['ghost']), s['depth']
        self.solver = None

    # ---------------------------------------------------------------- names
    def fresh_name(self, base):
        n = self.ctr.get(base, 0)
        self.ctr[base] = n + 1
        return '%s%s!%d' % (self.prefix, base, n)

    def fresh(self, base, sort):
        nm = self.fresh_name(base)
        if self.generic:
            f = z3.Function(nm, *([g.sort() for g in self.generic] + [sort]))
            return f(*self.generic)
        return z3.Const(nm, sort)

    def fresh_plain(self, base, sort):
        return z3.Const(self.fresh_name(base), sort)

    def fresh_fun(self, base, *sorts):
        """fresh function (closed over the generic variables)"""
        nm = self.fresh_name(base)
        f = z3.Function(nm, *([g.sort() for g in self.generic] + list(sorts)))
        g = list(self.generic)
        return lambda *a: f(*(g + [lift_to(x, s) for x, s in zip(a, sorts)]))

    # ---------------------------------------------------------------- heap
    def alloc(self, o):
        a = self.naddr
        self.naddr += 1
        self.heap[a] = o
        return Ref(a)

    def deref(self, r):
        o = self.heap[r.addr]
        if isinstance(o, Arr) and o.base is not None:
            return self._view(o)
        return o

    def _view(self, o):
        baddr, to_base, from_base, shape_of = o.base
        b = self.deref(Ref(baddr))
        fn = lambda *i: b.fn(*to_base(*i))
        meta = dict(o.meta)
        return Arr(o.shape, fn, b.kind, o.cont, o.base, o.tag, o.origin, meta)

    # ---------------------------------------------------------------- facts
    def simp(self, t):
        if not is_z3(t):
            return t
        if self.pinned:
            t = z3.substitute(t, *[(k, v) for k, v in self.pinned.values()])
        return canon(t)

    def assume(self, f, path=False):
        if isinstance(f, bool):
            if not f:
                raise PathEnd()
            return
        if z3.is_and(f):
            for c in f.children():
                self.assume(c, path)
            return
        c = canon_bool(f)
        if z3.is_true(c):
            return
        if z3.is_and(c) and not z3.is_and(f):
            for x in c.children():
                self.assume(x, path)
            return
        i = c.get_id()
        if path:
            self.pathfacts.append(c)
        if i in self.factids:
            return
        self.factids[i] = c
        self.facts.append(c)
        if z3.is_eq(c):
            self._pin(c)

    def _pin(self, c):
        a, b = c.children()
        for x, y in ((a, b), (b, a)):
            if (z3.is_int_value(y) or z3.is_rational_value(y)) and x.num_args() == 0 and not z3.is_int_value(x) \
                    and not z3.is_rational_value(x):
                self.pinned[x.get_id()] = (x, y)

    def _solver(self):
        if self.solver is None:
            self.solver = z3.SimpleSolver() if self.linear else z3.Solver()
            self.solver.set('timeout', 1500)
            if self.linear:
                self.solver.set('smt.arith.solver', 2)
                self.solver.set('smt.arith.nl', False)
            self.solver_n = 0
        for f in self.facts[self.solver_n:]:
            self.solver.add(f)
        self.solver_n = len(self.facts)
        return self.solver

    def scope(self):
        return _Scope(self)

    def feasible(self, c):
        """False only if the facts refute c"""
        c = canon_bool(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if c.get_id() in self.factids:
            return True
        n = mk_not(c)
        if n.get_id() in self.factids or canon_bool(n).get_id() in self.factids:
            return False
        s = self._solver()
        t = time.time()
        s.push()
        s.add(c)
        r = s.check()
        s.pop()
        self.stats.solver_time += time.time() - t
        self.stats.queries += 1
        return r != z3.unsat

    def entails(self, c):
        if isinstance(c, bool):
            return c
        c = canon_bool(self.simp(c) if self.pinned else c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if c.get_id() in self.factids:
            return True
        return not self.feasible(z3.Not(c))

    # ---------------------------------------------------------------- forking
    def choose(self, c, why=''):
        if isinstance(c, bool):
            return c
        c0 = c
        c = canon_bool(self.simp(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.nofork:
            if self.entails(c):
                return True
            if self.entails(z3.Not(c)):
                return False
            raise Unsupported('branch on an element-dependent condition in a generic expression: %s' % short(c))
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
        else:
            t, f = self.feasible(c), self.feasible(z3.Not(c))
            if t and f:
                if self.may_fork():
                    d = self._split(2) == 0
                else:
                    self.pending.append(self.trail[:self.pos] + [False])
                    d = True
            elif t:
                d = True
            elif f:
                d = False
            else:
                raise PathEnd()
            self.trail.append(d)
        self.pos += 1
        self.assume(c if d else z3.Not(c), path=True)
        return d

    def fork(self, n, why=''):
        """n-way nondeterministic choice"""
        if n == 1:
            return 0
        if self.nofork:
            raise Unsupported('case split inside a generic expression')
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
        elif self.may_fork():
            d = self._split(n)
            self.trail.append(d)
        else:
            for k in range(n - 1, 0, -1):
                self.pending.append(self.trail[:self.pos] + [k])
            d = 0
            self.trail.append(0)
        self.pos += 1
        return d

    # ---- the alternatives of a branch are explored by forked processes, so that no path is executed twice
    def may_fork(self):
        return SLOTS is not None and self.exploring and not self.nested

    def _split(self, n):
        for k in range(n - 1):
            free = SLOTS.acquire(block=False)
            fd, path = tempfile.mkstemp(prefix='pyvc')
            os.close(fd)
            pid = os.fork()
            if pid == 0:
                self.kids, self.out, self.slot = [], path, free
                self.stats = Stats()
                self.reach = 0
                return k
            kid = (pid, path)
            self.kids.append(kid)
            if not free:
                os.waitpid(pid, 0)
                self.kids[-1] = (None, path)
        return n - 1

    def _join(self):
        """results of the forked processes; the error of the first failing one"""
        err = None
        for pid, path in self.kids:
            if pid is not None:
                os.waitpid(pid, 0)
            try:
                with open(path, 'rb') as f:
                    r = pickle.load(f)
            except Exception as e:
                r = None
            os.unlink(path)
            if r is None:
                err = err or RuntimeError('a verifier process ended without a result')
                continue
            self.stats.merge(r['stats'])
            self.reach += r['reach']
            if r['error'] and err is None:
                if r['error'][0] == 'unsupported':
                    err = Unsupported(r['error'][1])
                    if r['error'][2]:
                        err.where = r['error'][2]
                else:
                    err = RuntimeError(r['error'][1])
        self.kids = []
        return err

    def _finish_child(self, error):
        e2 = self._join()
        if error is None and e2 is not None:
            error = e2
        if error is not None:
            if isinstance(error, Unsupported):
                error = ('unsupported', str(error), getattr(error, 'where', None))
            else:
                import traceback
                error = ('error', str(error) if isinstance(error, RuntimeError) else ''.join(traceback.format_exception(error))[-1800:], None)
        s = self.stats
        with open(self.out, 'wb') as f:
            pickle.dump(dict(stats=dict(obl=s.obl, solver_time=s.solver_time, queries=s.queries, paths=s.paths, lib_used=s.lib_used,
                                        contracts_used=s.contracts_used, inlined=s.inlined, lemmas=s.lemmas), reach=self.reach, error=error), f)
        if self.slot:
            SLOTS.release()
        os._exit(0)

    def explore(self, run, max_paths=4000):
        """run() on every path, from the initial state"""
        work = [[]]
        n = 0
        mine = os.getpid()
        self.exploring = True
        try:
            while work:
                self.trail, self.pos, self.pending = work.pop(), 0, []
                self.reset()
                n += 1
                if n > max_paths:
                    raise Unsupported('too many paths')
                try:
                    run()
                except PathEnd:
                    pass
                self.stats.paths += 1
                if os.getpid() != mine:
                    self._finish_child(None)
                work.extend(self.pending)
        except BaseException as e:
            if os.getpid() != mine:
                self._finish_child(e)
            self._join()
            raise
        finally:
            self.exploring = False
        err = self._join()
        if err is not None:
            raise err
        return n

    def explore_nested(self, run, key=None, max_paths=400):
        """all paths of run() from the current state; returns list of results of run (None for dead paths).
        The state is restored afterwards."""
        if key is not None:
            key = (key, tuple(self.trail[:self.pos]))
            hit = self.loop_cache.get(key)
            if hit is not None:
                self.ctr, self.naddr = dict(hit[1]), hit[2]
                return hit[0]
        saved = (self.trail, self.pos, self.pending)
        snap = self.snapshot()
        work, out, n = [[]], [], 0
        self.nested += 1
        try:
            while work:
                self.trail, self.pos, self.pending = work.pop(), 0, []
                self.restore(snap)
                n += 1
                if n > max_paths:
                    raise Unsupported('too many paths in loop body')
                try:
                    r = run()
                except PathEnd:
                    r = None
                if r is not None:
                    out.append(r)
                work.extend(self.pending)
        finally:
            self.trail, self.pos, self.pending = saved
            self.restore(snap)
            self.nested -= 1
        if key is not None:
            self.loop_cache[key] = (out, dict(self.ctr), self.naddr)
        return out

    # ---------------------------------------------------------------- obligations
    def record(self, name, ok, how, detail='', dt=0.0):
        if not ok and self.ghost.get('weak'):
            raise Unsupported('%s (obligation: %s)' % (self.ghost['weak'], name))
        self.stats.obl.append(dict(task=self.name, name=name, ok=ok, how=how, detail=detail, time=round(dt, 4)))
        return ok

    def prove(self, name, goal, detail=''):
        """obligation: facts |= goal"""
        t0 = time.time()
        if self.select is not None and not self.select(name) or self.owned is not None and not self.owned(name):
            return True                 # belongs to another property's check
        if isinstance(goal, bool):
            if not goal and not self._consistent():
                raise PathEnd()
            return self.record(name, goal, 'evaluation', detail)
        g = canon_bool(self.simp(goal))
        if z3.is_true(g):
            return self.record(name, True, 'normalizer', dt=time.time() - t0)
        ok, how, info = self._discharge(g)
        r = self.record(name, ok, how, detail + ('' if ok else ' | goal: %s | %s' % (short(g, 600), info)), time.time() - t0)
        if ok:
            self.assume(g)
        return r

    def holds(self, goal):
        """like prove, but only asks (used for extensionality and template invariants)"""
        if isinstance(goal, bool):
            return goal
        g = canon_bool(self.simp(goal))
        if z3.is_true(g):
            return True
        return self._discharge(g, quick=True)[0]

    def _consistent(self):
        s = self._solver()
        return s.check() != z3.unsat

    def _discharge(self, g, quick=False):
        if z3.is_and(g):
            how = set()
            for c in g.children():
                ok, h, i = self._discharge(c, quick)
                if not ok:
                    return ok, h, i
                how.add(h)
            return True, '+'.join(sorted(how)), ''
        if g.get_id() in self.factids:
            return True, 'normalizer', ''
        facts = [self.simp(f) for f in self.facts] if self.pinned else list(self.facts)
        if self.pinned:
            facts += [k == v for k, v in self.pinned.values()]
        if not z3.is_eq(g):
            fs = relevant(g, [f for f in facts if not z3.is_true(f)])
            s = z3.Solver()
            s.set('timeout', 600)
            s.add(*fs)
            s.add(z3.Not(g))
            t = time.time()
            r = s.check()
            self.stats.queries += 1
            self.stats.solver_time += time.time() - t
            if r == z3.unsat:
                return True, 'z3', ''
        for _ in range(3):
            if not sums.extensionality(self, g, facts):
                break
            facts = [self.simp(f) for f in self.facts]
            if self.pinned:
                facts += [k == v for k, v in self.pinned.values()]
        goal = canon_bool(self.simp(g))
        if z3.is_true(goal):
            return True, 'normalizer', ''
        key = (goal.get_id(), tuple(sorted(f.get_id() for f in facts)))
        if key in self.cache_proved:
            return self.cache_proved[key]
        for f in facts:
            keep(f)
        keep(goal)
        facts = [f for f in facts if not z3.is_true(f)]
        rel = relevant(goal, facts)
        res = None
        t = time.time()
        for fs, to in ((rel, self.timeout // 3), (facts, self.timeout)) if len(rel) < len(facts) else ((facts, self.timeout),):
            s = z3.Solver()
            s.set('timeout', to if not quick else min(to, 1500))
            s.add(*fs)
            s.add(z3.Not(goal))
            r = s.check()
            self.stats.queries += 1
            if r == z3.unsat:
                res = (True, 'z3', '')
                break
            if r == z3.sat:
                m = s.model()
                res = (False, 'z3', 'z3 counter-model: ' + short_model(m))
            else:
                res = (False, 'z3', 'z3: unknown (%s)' % s.reason_unknown())
        if not res[0] and not quick:
            r2 = cvc5_check(facts, goal, self.timeout)
            if r2:
                res = (True, 'cvc5', '')
        self.stats.solver_time += time.time() - t
        self.cache_proved[key] = res
        return res

    # ---------------------------------------------------------------- index accesses
    def accessed(self, key, idx):
        """remembers that element idx of the object `key` is mentioned; returns the earlier indices"""
        l = self.access.setdefault(key, [])
        c = canon(lift(idx))
        for x in l:
            if x.eq(c):
                return [], False
        old = list(l)
        l.append(c)
        return old, True


class _Scope:
    def __init__(self, eng):
        self.eng = eng

    def __enter__(self):
        e = self.eng
        self.s = (list(e.facts), dict(e.factids), list(e.pathfacts), dict(e.pinned), {k: list(v) for k, v in e.access.items()})
        self.solver = e._solver()
        self.solver.push()
        return self

    def __exit__(self, *a):
        e = self.eng
        e.facts, e.factids, e.pathfacts, e.pinned, e.access = self.s
        if e.solver is self.solver:
            e.solver.pop()
            e.solver_n = len(e.facts)
        else:
            e.solver = None
        return False


def lift_to(x, sort):
    t = lift(x)
    if sort == REAL and t.sort() != REAL:
        return to_real(t)
    return t


def short(t, n=200):
    s = str(t).replace('\n', ' ')
    while '  ' in s:
        s = s.replace('  ', ' ')
    return s if len(s) <= n else s[:n] + '...'


def short_model(m, n=700):
    try:
        items = ['%s=%s' % (d.name(), short(m[d], 60)) for d in m.decls() if d.arity() == 0]
        return short(', '.join(sorted(items)), n)
    except Exception as e:      # model printing must never matter
        return repr(e)


_symcache = {}


def symbols(t):
    r = _symcache.get(t.get_id())
    if r is None:
        keep(t)
        r = frozenset(x.decl().name() for x in subterms(t).values()
                      if not z3.is_quantifier(x) and not z3.is_var(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED)
        _symcache[t.get_id()] = r
    return r


def relevant(goal, facts, rounds=3):
    """facts connected with the goal through shared uninterpreted symbols"""
    from collections import Counter
    cnt = Counter()
    for f in facts:
        cnt.update(symbols(f))
    common = {s for s, n in cnt.items() if n > max(12, len(facts) // 3)}
    seen = set(symbols(goal))
    chosen = [False] * len(facts)
    for _ in range(rounds):
        new = set()
        for i, f in enumerate(facts):
            if not chosen[i]:
                sy = symbols(f)
                if not sy or (sy - common) & seen or sy <= seen:
                    chosen[i] = True
                    new |= sy
        if not new - seen:
            break
        seen |= new
    return [f for i, f in enumerate(facts) if chosen[i]]


def cvc5_check(facts, goal, timeout):
    try:
        import cvc5
        s = z3.Solver()
        s.add(*facts)
        s.add(z3.Not(goal))
        txt = s.to_smt2()
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption('tlimit-per', str(timeout))
        slv.setLogic('ALL')
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt.replace('(check-sat)', ''), 'x')
        sm = p.getSymbolManager()
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            c.invoke(slv, sm)
        return slv.checkSat().isUnsat()
    except Exception:
        return False
