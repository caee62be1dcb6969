"""Loops with an inductive invariant supplied by the specification.  An invariant object has
  addrs          heap objects the loop may write
  check(k, when) proves the invariant after k iterations
  havoc(k)       installs an arbitrary state satisfying the invariant after k iterations
The loop body is verified once, for an arbitrary iteration; every other object that existed before the loop must not be written
and every other local assigned in the loop is unusable afterwards."""
import z3
from .terms import *
from .values import *
from .engine import PathEnd
from .loops import assigned_names, target_names


def for_rule(make):
    def rule(I, st, fr, it, n):
        inv = make(I, st, fr, it, n)
        if inv is None:
            return False
        run_for(I, st, fr, it, n, inv)
        return True
    return rule


def run_for(I, st, fr, it, n, inv):
    from .interp import BreakEx, ContinueEx
    eng = I.eng
    if eng.nofork:
        raise Unsupported('loop inside a generic expression')
    if not eng.entails(lift(n) >= 0):
        eng.assume(lift(n) >= 0)
    inv.check(z3.IntVal(0), 'before the loop')
    names = assigned_names(st)
    body = eng.fork(2, 'loop') == 0
    for v in names:
        if v not in getattr(inv, 'names', ()):
            fr.env[v] = Undefined('carried through a loop')
    if not body:
        inv.havoc(lift(n))
        for t in target_names(st.target):
            fr.env[t] = Undefined('loop variable after the loop')
        return
    i0 = eng.fresh_plain('it', INT)
    eng.assume(z3.And(i0 >= 0, i0 < lift(n)), path=True)
    inv.havoc(i0)
    if not eng.feasible(z3.BoolVal(True)) or not eng._consistent():
        raise PathEnd()
    l0, a0 = len(eng.log), eng.naddr
    I.assign(st.target, it.fn(i0), fr)
    try:
        I.block(st.body, fr)
    except ContinueEx:
        pass
    except BreakEx:
        raise Unsupported('break in a loop with an invariant')
    writes(eng, l0, a0, inv)
    inv.check(canon(i0 + 1), 'after an iteration')
    raise PathEnd()


def while_rule(make):
    def rule(I, st, fr):
        inv = make(I, st, fr)
        if inv is None:
            return False
        run_while(I, st, fr, inv)
        return True
    return rule


def run_while(I, st, fr, inv):
    """k counts the iterations made so far (unknown)"""
    from .interp import BreakEx, ContinueEx
    eng = I.eng
    if eng.nofork:
        raise Unsupported('loop inside a generic expression')
    inv.check(z3.IntVal(0), 'before the loop')
    names = assigned_names(st)
    for v in names:
        if v not in getattr(inv, 'names', ()):
            fr.env[v] = Undefined('carried through a loop')
    k = eng.fresh_plain('it', INT)
    eng.assume(k >= 0)
    inv.havoc(k)
    l0, a0 = len(eng.log), eng.naddr
    if not I.truth(I.eval(st.test, fr)):
        I.block(st.orelse, fr)
        return
    try:
        I.block(st.body, fr)
    except ContinueEx:
        pass
    except BreakEx:
        writes(eng, l0, a0, inv)
        return
    writes(eng, l0, a0, inv)
    inv.check(canon(k + 1), 'after an iteration')
    raise PathEnd()


def writes(eng, l0, a0, inv):
    for ev in eng.log[l0:]:
        if isinstance(ev[1], int) and ev[1] < a0 and ev[1] not in inv.addrs:
            raise Unsupported('a loop writes an object its invariant does not cover (%s)' % (ev[0],))
