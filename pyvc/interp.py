"""Symbolic executor for the functions under /repo (the working tree's source, parsed on every run)."""
import ast
from fractions import Fraction
import z3
from . import terms, sums, lib
from .terms import *
from .values import *
from .engine import PathEnd, short
from .ops import *
from .nplib import *
from .lib import call_fun, call_method, getattr_lib, iterate, to_str, str_format, str_eq, FUNS, UFUNCS, show_term


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class YieldEx(Exception):
    def __init__(self, v):
        self.v = v


class SuperV:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class SymListRef:
    """reference to the list number idx of a region of lists created together"""
    __slots__ = ('region', 'idx')

    def __init__(self, region, idx):
        self.region, self.idx = region, idx


class Region:
    """a family of python lists; fn: index -> content (opaque sequence term)"""
    __slots__ = ('fn', 'length', 'origin')

    def __init__(self, fn, length, origin='fresh'):
        self.fn, self.length, self.origin = fn, length, origin

    def copy(self):
        return Region(self.fn, self.length, self.origin)


SeqSort = z3.DeclareSort('Seq')
EMPTYSEQ = z3.Const('emptyseq', SeqSort)


class GenV:
    """generator object: function paused before its first statement, plus number of values taken"""
    def __init__(self, func, frame):
        self.func, self.frame = func, frame


class Frame:
    def __init__(self, func, module, cls, env, parent=None):
        self.func, self.module, self.cls, self.env, self.parent = func, module, cls, env, parent
        self.globals = set()
        self.nonlocals = set()
        self.self_ = None


OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**', ast.FloorDiv: '//', ast.Mod: '%', ast.MatMult: '@'}
CMPS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}
BUILTINS = {'len', 'range', 'enumerate', 'zip', 'max', 'min', 'sum', 'abs', 'sorted', 'list', 'tuple', 'dict', 'set', 'int', 'float',
            'bool', 'str', 'repr', 'print', 'pow', 'round', 'all', 'any', 'reversed', 'isinstance', 'hasattr', 'getattr', 'setattr',
            'type', 'super', 'next', 'iter', 'map', 'hash', 'id', 'callable', 'delattr', 'issubclass', 'object',
            'ValueError', 'TypeError', 'NotImplementedError', 'RuntimeError', 'IndexError', 'KeyError', 'AttributeError',
            'AssertionError', 'StopIteration', 'Exception', 'ZeroDivisionError'}
MAX_DEPTH = 24
UNROLL = 16


class Interp:
    def __init__(self, prog, eng, contracts=None, attr=None):
        self.prog, self.eng = prog, eng
        self.contracts = dict(contracts or {})
        self.attr_hook = attr
        eng.truth = self.truth
        eng.truth_term = self.truth_term
        eng.interp = self
        self.loop_rules = []

    # ============================================================================================ truth
    def truth(self, v):
        t = self.truth_term(v)
        if isinstance(t, bool):
            return t
        return self.eng.choose(t)

    def truth_term(self, v):
        """truth value as bool or z3 Bool (may fork on None-ness)"""
        eng = self.eng
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, Fraction, float)):
            return v != 0
        if is_z3(v):
            if v.sort() == BOOL:
                return conc(canon_bool(eng.simp(v)))
            if v.sort() in (INT, REAL):
                return conc(canon_bool(eng.simp(v != 0)))
            raise Unsupported('truth of %s' % v)
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, SStr):
            return True
        if isinstance(v, Opt):
            if eng.choose(v.isnone):
                return False
            return self.truth_term(v.value)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, Ref):
            o = eng.deref(v)
            if isinstance(o, Arr):
                return self.truth_arr(o)
            if isinstance(o, (ListObj,)):
                return s_cmp(eng, '!=', o.length, 0)
            if isinstance(o, (DictObj, SetObj)):
                return s_cmp(eng, '!=', length(eng, v), 0)
            if isinstance(o, Obj):
                return True
        if isinstance(v, Arr):
            return self.truth_arr(v)
        if isinstance(v, (FuncV, ClassV, Bound, Ext)):
            return True
        raise Unsupported('truth of %r' % (v,))

    def truth_arr(self, a):
        if all(same_dim(n, 1) or self.eng.entails(lift(n) == 1) for n in a.shape):
            return self.truth_term(a.fn(*[0] * a.ndim))
        if any(not same_dim(n, 1) and (not is_z3(conc(n)) or self.eng.entails(lift(n) > 1)) for n in a.shape) \
                and not any(same_dim(n, 0) for n in a.shape):
            raise PyRaise('ValueError')
        raise Unsupported('truth of an array')

    # ============================================================================================ names
    def lookup(self, fr, name):
        f = fr
        while f is not None:
            if name in f.env:
                v = f.env[name]
                if isinstance(v, Undefined):
                    raise Unsupported('value of %s is not known here: %s' % (name, v.why))
                return v
            f = f.parent
        v = fr.module.ns.get(name)
        if v is not None:
            if isinstance(v, tuple) and v and v[0] == 'const':
                return self.eval(v[1], Frame(None, v[2], None, {}))
            return v
        if name in BUILTINS:
            return Ext('builtins.' + name)
        if name == '__name__':
            return fr.module.name
        raise PyRaise('NameError', name)

    # ============================================================================================ expressions
    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__, e)
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if v is Ellipsis:
            return Opaque('Ellipsis')
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                return INF if v > 0 else Inf(-1)
            return Fraction(repr(v))
        if isinstance(v, (complex, bytes)):
            raise Unsupported('constant %r' % (v,))
        return v

    def e_Name(self, e, fr):
        return self.lookup(fr, e.id)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Tuple(self, e, fr):
        return Tup(self.items(e.elts, fr))

    def items(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                it = iterate(self.eng, self.eval(x.value, fr))
                n = conc(it.length)
                if is_z3(n):
                    raise Unsupported('star expansion of symbolic length')
                out += [it.fn(i) for i in range(n)]
            else:
                out.append(self.eval(x, fr))
        return out

    def e_List(self, e, fr):
        return self.eng.alloc(ListObj(self.items(e.elts, fr)))

    def e_Set(self, e, fr):
        return self.eng.alloc(SetObj(self.items(e.elts, fr)))

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eng.deref(self.eval(v, fr))
                d.update(o.items)
                continue
            kk = self.eval(k, fr)
            d[dict_key(self.eng, kk)] = (kk, self.eval(v, fr))
        return self.eng.alloc(DictObj(d))

    def e_Starred(self, e, fr):
        raise Unsupported('starred expression')

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                spec = ''
                if v.format_spec is not None:
                    s = self.eval(v.format_spec, fr)
                    if not isinstance(s, str):
                        raise Unsupported('format spec')
                    spec = s
                parts.append(to_str(self.eng, self.eval(v.value, fr), spec))
        return self.mkstr(parts)

    def mkstr(self, parts):
        r = SStr(parts)
        if not r.parts:
            return ''
        if len(r.parts) == 1 and isinstance(r.parts[0], str):
            return r.parts[0]
        return r

    def e_FormattedValue(self, e, fr):
        return to_str(self.eng, self.eval(e.value, fr), '')

    def e_Lambda(self, e, fr):
        f = FuncV(e, fr.module, cls=None, closure=fr, qual='<lambda>')
        f.kind = 'lambda'
        return f

    def e_IfExp(self, e, fr):
        c = self.truth_term(self.eval(e.test, fr))
        if isinstance(c, bool):
            return self.eval(e.body if c else e.orelse, fr)
        eng = self.eng
        if eng.nofork and not eng.entails(c) and not eng.entails(z3.Not(c)):
            with eng.scope():
                eng.assume(c)
                a = self.eval(e.body, fr)
            with eng.scope():
                eng.assume(z3.Not(c))
                b = self.eval(e.orelse, fr)
            return ite(eng, c, self.plain(a), self.plain(b))
        if plain_names(e.body) and plain_names(e.orelse) and not eng.entails(c) and not eng.entails(z3.Not(c)):
            # choice between element types: no case distinction
            dts = []
            for x in (e.body, e.orelse):
                v = self.eval(x, fr)
                try:
                    k, dt = lib.dtype_kind(eng, v) if isinstance(v, (Ext, DType)) else (None, None)
                except Unsupported:
                    dt = None
                dts.append(dt)
            if all(d in WIDTH for d in dts):
                return DType(choice_dtype(c, *dts))
        return self.eval(e.body if eng.choose(c) else e.orelse, fr)

    def plain(self, v):
        o = deref(self.eng, v)
        return o if isinstance(o, Arr) else v

    def e_BoolOp(self, e, fr, test=False):
        isand = isinstance(e.op, ast.And)
        if self.eng.nofork:
            ts = []
            for x in e.values:
                t = self.truth_term(self.eval(x, fr))
                if isinstance(t, bool):
                    if t != isand:
                        return t if not ts else (False if isand else True)
                    continue
                ts.append(t)
            if not ts:
                return isand
            return conc(canon_bool(z3.And(*ts) if isand else z3.Or(*ts)))
        for i, x in enumerate(e.values[:-1]):
            v = self.eval(x, fr)
            if test:
                c = self.joint(v, e.values[i + 1:], isand, fr)
                if c is not None:
                    return c
            if self.truth(v) != isand:
                return v if not isinstance(v, z3.ExprRef) or v.sort() != BOOL else (not isand)
        return self.eval(e.values[-1], fr)

    def joint(self, v, rest, isand, fr):
        """v and rest... (v or rest...) as one condition, if the remaining operands can be evaluated without a case distinction
        and without effects"""
        eng = self.eng
        try:
            c = self.truth_term(v)
        except Unsupported:
            return None
        if isinstance(c, bool):
            return None
        g = canon_bool(c if isand else z3.Not(c))
        if not eng.feasible(g) or not eng.feasible(z3.Not(g)):
            return None
        n = (len(eng.log), len(eng.events), len(eng.stats.obl), len(eng.insts))
        eng.nofork += 1
        try:
            with eng.scope():
                eng.assume(g)
                n1 = len(eng.facts)
                ts = []
                for x in rest:
                    if any(isinstance(y, (ast.NamedExpr, ast.Lambda, ast.ListComp, ast.GeneratorExp)) for y in ast.walk(x)):
                        raise Unsupported('operand')
                    t = self.truth_term(self.eval(x, fr))
                    if isinstance(t, bool):
                        raise Unsupported('operand')
                    ts.append(t)
                nf = eng.facts[n1:]
        except (Unsupported, PyRaise):
            del eng.stats.obl[n[2]:]
            del eng.insts[n[3]:]
            return None
        finally:
            eng.nofork -= 1
        if (len(eng.log), len(eng.events)) != n[:2]:
            return None
        for f in nf:
            eng.assume(z3.Implies(g, f))
        return canon_bool(z3.And(c, *ts) if isand else z3.Or(c, *ts))

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        eng = self.eng
        if isinstance(e.op, ast.Not):
            return eng_not(self.truth_term(v))
        v = lib.val(eng, v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, Arr):
                check_narrow(eng, 'negation', (v,))
                return eng.alloc(elementwise(eng, lambda x: s_neg(eng, x), v, kind=v.kind))
            if not (is_num(v) or isinstance(v, Inf)):
                raise PyRaise('TypeError')
            return s_neg(eng, v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert) and isinstance(v, Arr) and v.kind == 'b':
            return eng.alloc(elementwise(eng, eng_not, v, kind='b'))
        raise Unsupported('unary operator')

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binary(OPS.get(type(e.op)) or self.bitop(e.op), a, b)

    def bitop(self, op):
        for k, s in ((ast.BitAnd, '&'), (ast.BitOr, '|'), (ast.LShift, '<<'), (ast.RShift, '>>'), (ast.BitXor, '^')):
            if isinstance(op, k):
                return s
        raise Unsupported('operator')

    def binary(self, op, a, b):
        eng = self.eng
        if op == '@':
            return lib.matmul(eng, a, b)
        oa, ob = deref(eng, a), deref(eng, b)
        if isinstance(oa, (str, SStr)) or isinstance(ob, (str, SStr)):
            if op == '+' and isinstance(oa, (str, SStr)) and isinstance(ob, (str, SStr)):
                return self.mkstr([oa, ob])
            if op == '*' and isinstance(oa, str) and isinstance(conc(ob), int):
                return oa * conc(ob)
            if op == '%' and isinstance(oa, str):
                raise Unsupported('percent formatting')
            raise PyRaise('TypeError')
        if isinstance(oa, ListObj) or isinstance(ob, ListObj):
            if isinstance(oa, Arr) or isinstance(ob, Arr):
                pass
            elif op == '+' and isinstance(oa, ListObj) and isinstance(ob, ListObj):
                if oa.items is not None and ob.items is not None:
                    return eng.alloc(ListObj(oa.items + ob.items))
                if any(q.items is None and q.region is not None for q in (oa, ob)):
                    raise Unsupported('concatenation of symbolic lists')
                na = lift(oa.length)
                item = lambda q, k: pick(eng, k, q.items) if q.items is not None else q.fn(k)

                def both(k):
                    if eng.choose(canon_bool(lift(k) < na)):
                        return item(oa, k)
                    return item(ob, canon(lift(k) - na))
                return eng.alloc(ListObj(None, canon(na + lift(ob.length)), both))
            elif op == '*':
                l, n = (oa, ob) if isinstance(oa, ListObj) else (ob, oa)
                n = conc(n)
                if l.items is not None and not is_z3(n):
                    return eng.alloc(ListObj(l.items * n))
                if l.items is not None and len(l.items) == 1:
                    x = l.items[0]
                    return eng.alloc(ListObj(None, n, lambda k: x))
                raise Unsupported('list repetition')
            else:
                raise PyRaise('TypeError')
        if isinstance(oa, tuple) and isinstance(ob, tuple) and op == '+':
            return Tup(tuple(oa) + tuple(ob))
        x, y = lib.val(eng, a), lib.val(eng, b)
        if x is None or y is None or isinstance(x, Obj) or isinstance(y, Obj):
            raise PyRaise('TypeError')
        if op in ('&', '|', '^', '<<', '>>'):
            if not is_z3(conc(x)) and not is_z3(conc(y)) and not isinstance(x, Arr) and not isinstance(y, Arr):
                p, q = conc(x), conc(y)
                return {'&': lambda: p & q, '|': lambda: p | q, '<<': lambda: p << q, '>>': lambda: p >> q, '^': lambda: p ^ q}[op]()
            if op in '&|':
                f = z3.And if op == '&' else z3.Or
                return lib.ret(eng, elementwise(eng, lambda p, q: conc(canon_bool(f(lift(self.truth_term(p)), lift(self.truth_term(q))))), x, y, kind='b'))
            raise Unsupported('bit operation')
        if not (is_num(x) or isinstance(x, (Arr, Inf))) or not (is_num(y) or isinstance(y, (Arr, Inf))):
            raise Unsupported('operator %s on %r and %r' % (op, x, y))
        for z in (x, y):
            if isinstance(z, Arr) and z.cont in SPARSE:
                raise Unsupported('operator on a sparse matrix')
        return lib.ret(eng, binop(eng, op, x, y))

    def e_Compare(self, e, fr):
        l = self.eval(e.left, fr)
        res = None
        for op, rx in zip(e.ops, e.comparators):
            r = self.eval(rx, fr)
            c = self.compare1(op, l, r)
            if res is None:
                res = c
            else:
                if isinstance(res, Ref):
                    raise Unsupported('chained array comparison')
                res = conc(canon_bool(z3.And(lift(self.truth_term(res)), lift(self.truth_term(c)))))
            l = r
            if res is False:
                return False
        return res

    def compare1(self, op, a, b):
        eng = self.eng
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b)
            return r if isinstance(op, ast.Is) else eng_not(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b)
            return r if isinstance(op, ast.In) else eng_not(r)
        o = CMPS[type(op)]
        return self.cmp(o, a, b)

    def is_(self, a, b):
        if isinstance(a, Opt) and b is None:
            return conc(canon_bool(self.eng.simp(a.isnone)))
        if isinstance(b, Opt) and a is None:
            return self.is_(b, a)
        if a is None or b is None:
            return a is b
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return True
            oa, ob = self.eng.heap[a.addr], self.eng.heap[b.addr]
            if isinstance(oa, Obj) and isinstance(ob, Obj) and (oa.origin == 'fresh' or ob.origin == 'fresh'):
                return False
        if isinstance(a, (ClassV, Ext, FuncV)) or isinstance(b, (ClassV, Ext, FuncV)):
            return a == b
        if is_z3(a) and is_z3(b) and a.sort() == b.sort() and a.sort() == BOOL:
            return conc(canon_bool(a == b))
        if isinstance(a, bool) and is_z3(b):
            return self.is_(b, a)
        if is_z3(a) and a.sort() == BOOL and isinstance(b, bool):
            return conc(a if b else canon_bool(z3.Not(a)))
        if isinstance(b, bool) or isinstance(a, bool):
            return False
        raise Unsupported('identity of %r and %r' % (a, b))

    def contains(self, a, b):
        eng = self.eng
        o = deref(eng, b)
        if isinstance(o, (tuple, ListObj)) and (not isinstance(o, ListObj) or o.items is not None):
            xs = list(o) if isinstance(o, tuple) else o.items
            rs = []
            for x in xs:
                r = self.cmp('==', a, x)
                r = self.truth_term(r)
                if r is True:
                    return True
                if r is not False:
                    rs.append(r)
            return conc(canon_bool(z3.Or(*rs))) if rs else False
        if isinstance(o, Arr):
            L = listing_of(o)
            if L is not None and is_num(a):
                return conc(canon_bool(lift(L.member(a))))
        if isinstance(o, Arr) and o.cont not in SPARSE and is_num(a):
            from .lib import all_any
            return all_any(eng, elementwise(eng, lambda v: s_cmp(eng, '==', v, lift(a) if isinstance(a, bool) else a), o, kind='b'), 'any')
        if isinstance(o, DictObj) and o.items is not None:
            k = dict_key(eng, a)
            if k in o.items:
                return True
            if not o.items or isinstance(k, str) and all(isinstance(q, str) for q in o.items):
                return False
        if isinstance(o, str) and isinstance(a, str):
            return a in o
        raise Unsupported('membership in %r' % (o,))

    def cmp(self, op, a, b):
        eng = self.eng
        if isinstance(a, Opt):
            if a.isnone is not None and eng.choose(a.isnone):
                a = None
            else:
                a = a.value
        if isinstance(b, Opt):
            b = None if eng.choose(b.isnone) else b.value
        oa, ob = deref(eng, a), deref(eng, b)
        eqop = op in ('==', '!=')
        neg = (lambda r: eng_not(r)) if op == '!=' else (lambda r: r)
        if oa is None or ob is None:
            if isinstance(oa, Arr) or isinstance(ob, Arr):
                raise Unsupported('array compared with None')
            if not eqop:
                raise PyRaise('TypeError')
            return neg(oa is ob)
        if isinstance(oa, (str, SStr)) or isinstance(ob, (str, SStr)):
            if not eqop:
                raise Unsupported('ordering of strings')
            if not (isinstance(oa, (str, SStr)) and isinstance(ob, (str, SStr))):
                if is_z3(oa) or is_z3(ob):
                    raise Unsupported('comparison of a string with an unknown value')
                if isinstance(oa, DType) or isinstance(ob, DType):
                    d, s = (oa, ob) if isinstance(oa, DType) else (ob, oa)
                    return neg(d.name == s or d.name == {'float': 'float64', 'int': 'int64'}.get(s, s))
                return neg(False)
            if isinstance(oa, str) and isinstance(ob, str):
                return neg(oa == ob)
            r = str_eq(eng, oa, ob)
            if r is None:
                raise Unsupported('comparison of symbolic strings')
            return neg(r)
        if isinstance(oa, (DType, Opaque)) or isinstance(ob, (DType, Opaque)):
            return neg(self.dtype_eq(oa, ob))
        if isinstance(oa, (ClassV, FuncV, Ext)) or isinstance(ob, (ClassV, FuncV, Ext)):
            if eqop:
                return neg(oa == ob)
        if isinstance(oa, tuple) and isinstance(ob, tuple):
            if not eqop:
                if len(oa) and len(ob):
                    raise Unsupported('ordering of tuples')
            if len(oa) != len(ob):
                return neg(False)
            rs = [self.truth_term(self.cmp('==', x, y)) for x, y in zip(oa, ob)]
            return neg(conc(canon_bool(z3.And(*[lift(r) for r in rs]))) if rs else True)
        if isinstance(oa, tuple) or isinstance(ob, tuple) or isinstance(oa, ListObj) or isinstance(ob, ListObj):
            if isinstance(oa, Arr) or isinstance(ob, Arr):
                oa, ob = lib.val(eng, a), lib.val(eng, b)
            elif eqop and (is_num(oa) or is_num(ob)):
                return neg(False)
            else:
                raise Unsupported('comparison of sequences')
        if isinstance(oa, Obj) or isinstance(ob, Obj):
            if eqop and isinstance(oa, Obj) and isinstance(ob, Obj):
                return neg(self.is_(a, b))
            return neg(False)
        if (isinstance(oa, Arr) and oa.cont in SPARSE) or (isinstance(ob, Arr) and ob.cont in SPARSE):
            if op == '!=' and isinstance(oa, Arr) and isinstance(ob, Arr):
                if oa.meta.get('dt') == 'any' or ob.meta.get('dt') == 'any':
                    pass
                return eng.alloc(Arr(oa.shape, lambda *i: s_cmp(eng, '!=', oa.fn(*i), ob.fn(*i)), 'b', oa.cont, meta={'cmp': True}))
            raise Unsupported('comparison of sparse matrices')
        if not all(is_num(x) or isinstance(x, (Arr, Inf)) for x in (oa, ob)):
            if is_z3(oa) and is_z3(ob) and oa.sort() == ob.sort() and eqop:
                return neg(conc(canon_bool(oa == ob)))
            raise Unsupported('comparison of %r and %r' % (oa, ob))
        u = None
        for p, q in ((oa, ob), (ob, oa)):
            if isinstance(p, Arr) and p.meta.get('unique_of') is not None and isinstance(q, Arr) and eqop:
                return self.unique_cmp(op, p, q)
        return lib.ret(eng, compare(eng, op, oa, ob))

    def unique_cmp(self, op, u, q):
        """np.unique(y) == arr: shapes that do not match make numpy raise or compare unequal"""
        eng = self.eng
        n, m = u.shape[0], q.shape[0]
        if not same_dim(n, m):
            if not eng.choose(canon_bool(lift(n) == lift(m))):
                one_n, one_m = eng.choose(canon_bool(lift(n) == 1)), eng.choose(canon_bool(lift(m) == 1))
                if not one_n and not one_m:
                    raise PyRaise('ValueError')          # operands could not be broadcast together
                x, y = (lambda i: u.fn(0) if one_n else u.fn(i)), (lambda i: q.fn(0) if one_m else q.fn(i))
                return eng.alloc(Arr((m if one_n else n,), lambda i: s_cmp(eng, op, x(i), y(i)), 'b'))
        r = compare(eng, op, u, q)
        return eng.alloc(r)

    def dtype_eq(self, a, b):
        for p, q in ((a, b), (b, a)):
            if isinstance(p, Opaque):
                if p.what == 'dtype-any':
                    n = q.name.split('.')[-1] if isinstance(q, (Ext, DType)) else None
                    if n in ('float64', 'float', 'double'):
                        return False            # raw input data is of any type other than float64
                    if n is not None:
                        # the unknown type of this array is the given one, or not: one unknown per array and type
                        eng = self.eng
                        known = dict(eng.ghost.get('dtypes', {}))
                        mine = dict(known.get(id(p.term.fn), (p.term.fn, {}))[1])
                        if n not in mine:
                            mine[n] = eng.fresh_plain('dtype_is_' + n, BOOL)
                            for m in list(mine)[:-1]:
                                eng.assume(z3.Not(z3.And(mine[m], mine[n])))
                            known[id(p.term.fn)] = (p.term.fn, mine)
                            eng.ghost['dtypes'] = known
                        return mine[n]
                raise Unsupported('comparison of %r' % (p,))
        na = a.name.split('.')[-1] if isinstance(a, (Ext, DType)) else a
        nb = b.name.split('.')[-1] if isinstance(b, (Ext, DType)) else b
        al = {'float': 'float64', 'double': 'float64', 'int': 'int64', 'bool_': 'bool'}
        return al.get(na, na) == al.get(nb, nb)

    def e_Subscript(self, e, fr):
        r = self.eval(e.value, fr)
        i = self.index(e.slice, fr)
        o = deref(self.eng, r)
        if isinstance(o, Obj):
            raise PyRaise('TypeError')
        return self.lift_listitem(getitem(self.eng, r, i))

    def lift_listitem(self, v):
        return v

    def index(self, s, fr):
        if isinstance(s, ast.Slice):
            return SliceV(self.eval(s.lower, fr) if s.lower else None, self.eval(s.upper, fr) if s.upper else None,
                          self.eval(s.step, fr) if s.step else None)
        if isinstance(s, ast.Tuple):
            return Tup(self.index(x, fr) for x in s.elts)
        return self.eval(s, fr)

    def e_Slice(self, e, fr):
        return self.index(e, fr)

    def e_ListComp(self, e, fr):
        return self.comp(e, fr, 'list')

    def e_GeneratorExp(self, e, fr):
        return self.comp(e, fr, 'gen')

    def e_SetComp(self, e, fr):
        raise Unsupported('set comprehension')

    def comp(self, e, fr, kind):
        eng = self.eng
        if len(e.generators) != 1:
            raise Unsupported('nested comprehension')
        g = e.generators[0]
        it = iterate(eng, self.eval(g.iter, fr))
        n = conc(it.length)
        if isinstance(e.elt, ast.List) and not e.elt.elts and not g.ifs and kind == 'list':
            reg = eng.alloc(Region(lambda k: EMPTYSEQ, n))
            return eng.alloc(ListObj(None, n, lambda k: SymListRef(reg, k)))
        if not is_z3(n) and n <= 64:
            out = []
            for i in range(n):
                f2 = Frame(fr.func, fr.module, fr.cls, {}, fr)
                f2.self_ = fr.self_
                self.assign(g.target, it.fn(i), f2)
                if all(self.truth(self.eval(c, f2)) for c in g.ifs):
                    out.append(self.eval(e.elt, f2))
            return eng.alloc(ListObj(out)) if kind == 'list' else IterV(len(out), lambda i: pick(eng, i, out))
        if g.ifs:
            raise Unsupported('filtered comprehension of symbolic length')
        env = dict(fr.env)
        heap = dict(eng.heap)

        def fn(k):
            f1 = Frame(fr.func, fr.module, fr.cls, dict(env), fr.parent)
            f2 = Frame(fr.func, fr.module, fr.cls, {}, f1)
            f2.self_ = f1.self_ = fr.self_
            saved, a0, l0 = eng.heap, eng.naddr, len(eng.log)
            eng.heap = dict(heap)
            for q, o in saved.items():
                if q not in eng.heap:
                    eng.heap[q] = o
            eng.nofork += 1
            try:
                self.assign(g.target, it.fn(k), f2)
                r = self.eval(e.elt, f2)
                r2 = deref(eng, r)
                if isinstance(r2, Arr):
                    r = r2
            finally:
                eng.nofork -= 1
                new = {q: o for q, o in eng.heap.items() if q >= a0}
                eng.heap = saved
                eng.heap.update(new)
            if any(ev[1] in heap for ev in eng.log[l0:]):
                raise Unsupported('comprehension with side effects')
            return r
        if kind == 'list':
            # evaluation of one arbitrary element, so that errors and obligations are not lost
            with eng.scope():
                v = eng.fresh_plain('g', INT)
                eng.assume(z3.And(v >= 0, v < lift(n)))
                fn(v)
            return eng.alloc(ListObj(None, n, fn))
        return IterV(n, fn)

    def e_DictComp(self, e, fr):
        eng = self.eng
        g = e.generators[0]
        it = iterate(eng, self.eval(g.iter, fr))
        n = conc(it.length)
        if hasattr(it, 'dictcomp'):
            return it.dictcomp(self, e, fr)
        if len(e.generators) == 1 and is_z3(n) and not g.ifs:
            # number of entries: at most one per element
            val = self.comp(ast.copy_location(ast.ListComp(elt=e.value, generators=e.generators), e), fr, 'gen')
            m = eng.fresh('entries', INT)
            eng.assume(z3.And(m >= 0, m <= lift(n), z3.Implies(lift(n) >= 1, m >= 1)))
            with eng.scope():
                k = eng.fresh_plain('g', INT)
                eng.assume(z3.And(k >= 0, k < lift(n)))
                val.fn(k)
            return eng.alloc(DictObj(None, {'len': m, 'elem': val.fn, 'range': n}))
        if len(e.generators) != 1 or is_z3(n):
            raise Unsupported('dict comprehension of symbolic length')
        d = {}
        for i in range(n):
            f2 = Frame(fr.func, fr.module, fr.cls, {}, fr)
            f2.self_ = fr.self_
            self.assign(g.target, it.fn(i), f2)
            if all(self.truth(self.eval(c, f2)) for c in g.ifs):
                k = self.eval(e.key, f2)
                d[dict_key(eng, k)] = (k, self.eval(e.value, f2))
        return eng.alloc(DictObj(d))

    # ============================================================================================ attributes
    def e_Attribute(self, e, fr):
        v = self.eval(e.value, fr)
        return self.getattr(v, e.attr)

    def getattr(self, v, name):
        eng = self.eng
        if isinstance(v, Opt):
            if eng.choose(v.isnone):
                raise PyRaise('AttributeError')
            return self.getattr(v.value, name)
        if v is None:
            raise PyRaise('AttributeError')
        if isinstance(v, Ref):
            o = eng.deref(v)
            if isinstance(o, Obj):
                return self.obj_attr(v, o, name)
        if isinstance(v, SymListRef):
            return ExtBound(v, name)
        if isinstance(v, SuperV):
            mro = self.eng.deref(v.self_).cls.mro
            k = mro.index(v.cls) + 1
            for c in mro[k:]:
                if isinstance(c, ClassV) and name in c.methods:
                    return self.bind(v.self_, c.methods[name])
                if isinstance(c, Ext):
                    continue
            if name == '__init__':
                return Ext('object.__init__')
            raise PyRaise('AttributeError')
        if isinstance(v, ClassV):
            if name == '__name__':
                return v.name
            m = self.prog.method(v, name)
            if m is not None:
                return m
            a = self.prog.class_attr(v, name)
            if a is not None:
                return self.eval(a[0], Frame(None, a[1], v, {}))
            raise PyRaise('AttributeError')
        if isinstance(v, ModuleV):
            m = self.prog.modules[v.name].ns.get(name)
            if m is None:
                raise PyRaise('AttributeError')
            return m
        if isinstance(v, FuncV) and name == '__name__':
            return v.qual.split('.')[-1]
        if isinstance(v, Ext):
            if v.name in ('numpy', 'math', 'np'):
                if name == 'pi':
                    return PI
                if name in ('inf', 'infty', 'Inf'):
                    return INF
                if name == 'newaxis':
                    return None
                if name == 'nan':
                    raise Unsupported('nan')
            return Ext(v.name + '.' + name)
        return getattr_lib(eng, v, name)

    def bind(self, self_, m):
        if 'staticmethod' in getattr(m, 'decos', []):
            return m
        if 'classmethod' in getattr(m, 'decos', []):
            raise Unsupported('classmethod')
        return Bound(self_, m)

    def obj_attr(self, ref, o, name):
        eng = self.eng
        if name in o.fields:
            v = o.fields[name]
            if isinstance(v, Stale):
                eng.prove('reads no attribute left over from an earlier fit: %s' % name, False)
                raise Unsupported('left-over attribute %s' % name)
            return v
        if name == '__class__':
            return o.cls
        if name == '__dict__':
            if o.node is not None or o.stale:
                raise Unsupported('__dict__')
            return eng.alloc(DictObj({k: (k, v) for k, v in o.fields.items()}))
        if o.cls.node is None:
            return ExtBound(ref, name)
        m = self.prog.method(o.cls, name)
        if m is not None:
            if 'property' in getattr(m, 'decos', []):
                return self.call_func(m, [ref], {})
            return self.bind(ref, m)
        a = self.prog.class_attr(o.cls, name)
        if a is not None and o.node is None:
            return self.eval(a[0], Frame(None, a[1], o.cls, {}))
        if self.attr_hook is not None:
            r = self.attr_hook(self, ref, o, name)
            if r is not NotImplemented:
                return r
        if name in o.stale:
            eng.prove('reads no attribute left over from an earlier fit: %s' % name, False)
            raise Unsupported('left-over attribute %s' % name)
        if o.node is not None:
            raise Unsupported('attribute %s of a tree node is not part of the data model' % name)
        raise PyRaise('AttributeError', name)

    def has_attr(self, ref, name):
        o = deref(self.eng, ref)
        if isinstance(o, Obj):
            if name in o.fields:
                return True
            if o.cls.node is not None and (self.prog.method(o.cls, name) or self.prog.class_attr(o.cls, name)):
                return True
            if self.attr_hook is not None:
                r = self.attr_hook(self, ref, o, name, has=True)
                if r is not NotImplemented:
                    return r
            if name in o.stale:
                # left-over attributes may or may not exist
                return self.eng.fresh('hasattr_' + name, BOOL)
            if o.node is None:
                return False
        if isinstance(o, Arr):
            return name in ('shape', 'ndim', 'dtype', 'T', 'sum') or name == 'toarray' and o.cont in SPARSE or name == 'values' and o.cont in ('df', 'series') \
                or name == 'columns' and o.cont == 'df'
        raise Unsupported('hasattr(%r, %s)' % (o, name))

    def setattr(self, ref, name, val):
        eng = self.eng
        if isinstance(ref, Opt):
            if eng.choose(ref.isnone):
                raise PyRaise('AttributeError')
            ref = ref.value
        o = deref(eng, ref)
        if not isinstance(o, Obj):
            raise Unsupported('attribute assignment on %r' % (o,))
        n = o.copy()
        n.fields[name] = val
        n.stale = n.stale - {name}
        eng.log.append(('setattr', ref.addr, name, val, o.origin))
        eng.heap[ref.addr] = n

    # ============================================================================================ calls
    def e_Call(self, e, fr):
        eng = self.eng
        # super().method(...)
        f = self.eval(e.func, fr) if not (isinstance(e.func, ast.Name) and e.func.id == 'super') else None
        if f is None:
            if e.args:
                c = self.eval(e.args[0], fr)
                return SuperV(c, self.eval(e.args[1], fr))
            fx = fr
            while fx is not None and fx.self_ is None:
                fx = fx.parent
            if fx is None:
                raise Unsupported('super() outside a method')
            return SuperV(fx.cls, fx.self_)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                it = iterate(eng, v)
                n = conc(it.length)
                if is_z3(n):
                    raise Unsupported('star argument of symbolic length')
                args += [it.fn(i) for i in range(n)]
            else:
                args.append(self.eval(a, fr))
        for k in e.keywords:
            if k.arg is None:
                d = deref(eng, self.eval(k.value, fr))
                if isinstance(d, DictObj) and d.items is not None:
                    for kk, vv in d.items.values():
                        kw[kk] = vv
                else:
                    kw['**'] = d
            else:
                kw[k.arg] = self.eval(k.value, fr)
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        eng = self.eng
        if isinstance(f, Opt):
            if eng.choose(f.isnone):
                raise PyRaise('TypeError')
            f = f.value
        if isinstance(f, Bound):
            return self.call_func(f.func, [f.self_] + list(args), kw)
        if isinstance(f, FuncV):
            return self.call_func(f, list(args), kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, ExtBound):
            if '**' in kw:
                raise Unsupported('unknown keyword arguments')
            if isinstance(f.recv, SymListRef):
                return self.symlist_method(f.recv, f.name, args)
            return call_method(eng, f.recv, f.name, args, kw)
        if isinstance(f, Ext):
            return self.call_ext(f.name, args, kw)
        if callable(f):
            return f(self, args, kw)
        if isinstance(f, Ref) and isinstance(eng.deref(f), Obj):
            return self.call(self.getattr(f, '__call__'), args, kw)
        raise Unsupported('call of %r' % (f,))

    def symlist_method(self, r, name, args):
        eng = self.eng
        reg = eng.heap[r.region.addr]
        if name == 'append':
            app_ = self.seq_append(args[0])
            old, idx = reg, lift(r.idx)
            new = reg.copy()
            new.fn = lambda k: z3.If(canon_bool(lift(k) == idx), app_(old.fn(idx)), old.fn(k)) if not same_dim(k, idx) else app_(old.fn(idx))
            eng.log.append(('symappend', r.region.addr, (r.idx,), app_, reg.origin))
            eng.heap[r.region.addr] = new
            return None
        raise Unsupported('list.%s on a list of a family' % name)

    def seq_append(self, item):
        """content update by an appended tuple of scalars, as function Seq -> Seq"""
        key, params = self.flatten(item)
        params = [canon(p) for p in params]
        f = z3.Function('append%s' % (key,), *([SeqSort] + [p.sort() for p in params] + [SeqSort]))
        return lambda s: f(s, *params)

    def flatten(self, v):
        eng = self.eng
        if isinstance(v, Opt):
            if not eng.entails(z3.Not(v.isnone)):
                if eng.choose(v.isnone):
                    return 'none', []
            return self.flatten(v.value)
        if v is None:
            return 'none', []
        if isinstance(v, bool):
            return 'bool', [z3.BoolVal(v)]
        if isinstance(v, str):
            return 'str%s' % (v,), []
        if is_num(v):
            t = lift(norm_num(v)) if not is_z3(v) else v
            return t.sort().name(), [t]
        if is_z3(v):
            return v.sort().name(), [v]
        if isinstance(v, tuple):
            ks, ps = [], []
            for x in v:
                k, p = self.flatten(x)
                ks.append(k)
                ps += p
            return '(' + ','.join(ks) + ')', ps
        raise Unsupported('appending %r' % (v,))

    def instantiate(self, c, args, kw):
        eng = self.eng
        if c.node is None:
            raise Unsupported('class ' + c.name)
        abstract = set()
        for k in reversed(c.mro):
            if isinstance(k, ClassV):
                for n, m in k.methods.items():
                    if 'abstractmethod' in getattr(m, 'decos', []):
                        abstract.add(n)
                    else:
                        abstract.discard(n)
        if abstract:
            raise PyRaise('TypeError')
        r = eng.alloc(Obj(c))
        m = self.prog.method(c, '__init__')
        if m is not None:
            self.call_func(m, [r] + list(args), kw)
        elif args or kw:
            raise PyRaise('TypeError')
        eng.events.append(('new', r, c))
        return r

    def bind_args(self, f, args, kw, fr=None):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(names) and a.vararg is None:
            raise PyRaise('TypeError', 'arguments')
        for n, v in zip(names, args):
            env[n] = v
        extra = {}
        kw = dict(kw)
        if '**' in kw:
            if a.kwarg is None:
                raise Unsupported('unknown keyword arguments')
            extra['**'] = kw.pop('**')
        allnames = set(names) | {x.arg for x in a.kwonlyargs}
        for k, v in kw.items():
            if k in allnames:
                if k in env:
                    raise PyRaise('TypeError', 'multiple values')
                env[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyRaise('TypeError', 'unexpected keyword ' + k)
        fd = Frame(f, f.module, f.cls, {}, f.closure if getattr(f, 'closure', None) else None)
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in env:
                env[n] = self.eval(d, fd)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env:
                if d is None:
                    raise PyRaise('TypeError')
                env[x.arg] = self.eval(d, fd)
        for n in names:
            if n not in env:
                raise PyRaise('TypeError', 'missing argument ' + n)
        if a.vararg is not None:
            env[a.vararg.arg] = Tup(args[len(names):])
        if a.kwarg is not None:
            if '**' in extra:
                env[a.kwarg.arg] = self.eng.alloc(extra['**']) if len(extra) == 1 else None
                if env[a.kwarg.arg] is None:
                    raise Unsupported('merged keyword arguments')
            else:
                env[a.kwarg.arg] = self.eng.alloc(DictObj({k: (k, v) for k, v in extra.items()}))
        return env, names + [x.arg for x in a.kwonlyargs]

    def call_func(self, f, args, kw, entry=False):
        eng = self.eng
        if getattr(f, 'bad_deco', None):
            raise Unsupported('decorator %s on %s' % (f.bad_deco, f.qual))
        env, order = self.bind_args(f, args, kw)
        name = f.node.name if isinstance(f.node, ast.FunctionDef) else '<lambda>'
        if not entry:
            c = self.contracts.get(name)
            if c is not None:
                r = c(self, f, [env[n] for n in order])
                if r is not NotImplemented:
                    eng.stats.contracts_used.add(f.qual)
                    return r
        eng.depth += 1
        if eng.depth > MAX_DEPTH:
            raise Unsupported('call depth exceeded at %s (recursion without a contract?)' % f.qual)
        eng.stats.inlined.add(f.qual)
        fr = Frame(f, f.module, f.cls, env, getattr(f, 'closure', None))
        if f.cls is not None and 'staticmethod' not in getattr(f, 'decos', []) and args:
            fr.self_ = args[0]
        try:
            if f.kind == 'lambda':
                return self.eval(f.node.body, fr)
            if 'yield' not in self.contracts and any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(f.node)):
                return eng.alloc(GenObj(f, fr))
            self.block(f.node.body, fr)
            return None
        except ReturnEx as r:
            return r.v
        finally:
            eng.depth -= 1

    def call_ext(self, name, args, kw):
        eng = self.eng
        short_ = name.split('.')[-1]
        if name.startswith('builtins.'):
            m = getattr(self, 'b_' + short_, None)
            if m is not None:
                return m(*args, **kw)
        if name in ('object.__init__',):
            return None
        if name.endswith('.__init__'):
            return None
        if '**' in kw:
            raise Unsupported('unknown keyword arguments')
        h = self.contracts.get('ext:' + name)
        if h is not None:
            return h(self, args, kw)
        return call_fun(eng, name, args, kw)

    def b_isinstance(self, v, t):
        eng = self.eng
        if isinstance(t, tuple):
            rs = [self.b_isinstance(v, x) for x in t]
            if any(r is True for r in rs):
                return True
            zs = [r for r in rs if is_z3(r)]
            return conc(canon_bool(z3.Or(*zs))) if zs else False
        o = deref(eng, v)
        if isinstance(o, Opt):
            if eng.choose(o.isnone):
                return False
            o = deref(eng, o.value)
        if isinstance(t, ClassV):
            return isinstance(o, Obj) and o.cls.node is not None and t in o.cls.mro
        n = t.name.split('.')[-1] if isinstance(t, Ext) else None
        if n == 'ndarray':
            return isinstance(o, Arr) and o.cont == 'ndarray'
        if n in ('csr_matrix', 'csc_matrix'):
            return isinstance(o, Arr) and o.cont == n[:3]
        if n in ('spmatrix', 'sparray'):
            return isinstance(o, Arr) and o.cont in SPARSE
        if n == 'DataFrame':
            return isinstance(o, Arr) and o.cont == 'df'
        if n == 'Series':
            return isinstance(o, Arr) and o.cont == 'series'
        if n == 'list':
            return isinstance(o, ListObj)
        if n == 'tuple':
            return isinstance(o, tuple) or isinstance(o, Arr) and o.cont == 'tuple'
        if n == 'dict':
            return isinstance(o, DictObj)
        if n == 'str':
            return isinstance(o, (str, SStr))
        if n == 'bool':
            return isinstance(o, bool) or is_z3(o) and o.sort() == BOOL
        if n in ('int', 'float') and (is_num(o) or isinstance(o, (Obj, Arr, ListObj, tuple, str)) or o is None):
            if not is_num(o):
                return False
            if isinstance(o, int) or is_z3(o) and o.sort() == INT:
                return n == 'int'
            raise Unsupported('isinstance of a real number')
        raise Unsupported('isinstance(%r, %r)' % (o, t))

    def b_hasattr(self, v, name):
        return self.has_attr(v, name)

    def b_getattr(self, v, name, *d):
        if d:
            h = self.has_attr(v, name)
            if not self.truth(h):
                return d[0]
        return self.getattr(v, name)

    def b_setattr(self, v, name, x):
        if not isinstance(name, str):
            raise Unsupported('setattr with a computed name')
        self.setattr(v, name, x)

    def b_type(self, v):
        o = deref(self.eng, v)
        if isinstance(o, Obj):
            return o.cls
        raise Unsupported('type of %r' % (o,))

    def b_callable(self, v):
        return isinstance(v, (FuncV, Bound, ClassV, Ext, ExtBound))

    def b_iter(self, v):
        return v

    def b_next(self, g):
        o = deref(self.eng, g)
        if isinstance(o, GenObj):
            h = self.contracts.get('next')
            if h is not None:
                return h(self, g, o)
        raise Unsupported('next')

    def b_map(self, f, x):
        it = iterate(self.eng, x)
        return IterV(it.length, lambda i: self.call(f, [it.fn(i)], {}))

    def b_object(self):
        return self.eng.alloc(Obj(ClassV('object', None, None)))

    # ============================================================================================ statements
    def block(self, body, fr):
        for st in body:
            self.stmt(st, fr)

    def stmt(self, st, fr):
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(st).__name__, st)
        try:
            m(st, fr)
        except Unsupported as u:
            if u.node is None:
                u.node = st
                u.where = '%s:%d' % (fr.module.name.split('.')[-1], st.lineno)
            raise

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, ast.Yield):
            h = self.contracts.get('yield')
            if h is not None:
                h(self, self.eval(st.value.value, fr))
                return
            raise YieldEx(self.eval(st.value.value, fr))
        self.eval(st.value, fr)

    def s_Pass(self, st, fr):
        pass

    def s_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def s_AugAssign(self, st, fr):
        eng = self.eng
        op = OPS.get(type(st.op)) or self.bitop(st.op)
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(fr, t.id)
            v = self.eval(st.value, fr)
            r = self.aug(cur, op, v)
            self.assign(t, r, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            r = self.aug(cur, op, self.eval(st.value, fr))
            self.setattr(o, t.attr, r)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            i = self.index(t.slice, fr)
            cur = getitem(eng, o, i)
            r = self.aug(cur, op, self.eval(st.value, fr))
            od = deref(eng, cur)
            if isinstance(od, Arr) and od.base is not None and isinstance(cur, Ref) and r == cur:
                return             # in place through the view
            setitem(eng, o, i, r)
        else:
            raise Unsupported('augmented assignment')

    def aug(self, cur, op, v):
        eng = self.eng
        o = deref(eng, cur)
        if isinstance(o, Arr) and isinstance(cur, Ref) and o.cont == 'ndarray' and op != '@':
            inplace(eng, cur, op, v)
            return cur
        if isinstance(o, ListObj) and op == '+':
            call_method(eng, cur, 'extend', [v], {})
            return cur
        return self.binary(op, cur, v)

    def assign(self, t, v, fr):
        eng = self.eng
        if isinstance(t, ast.Name):
            if t.id in fr.globals:
                raise Unsupported('assignment to a global')
            if t.id in fr.nonlocals:
                f = fr.parent
                while f is not None and t.id not in f.env:
                    f = f.parent
                f.env[t.id] = v
                return
            fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if isinstance(v, Opt):
                if eng.choose(v.isnone):
                    raise PyRaise('TypeError')
                v = v.value
            it = iterate(eng, v)
            ln = conc(it.length)
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if stars:
                if is_z3(ln):
                    raise Unsupported('star assignment')
                k = stars[0]
                xs = [it.fn(i) for i in range(ln)]
                after = n - k - 1
                for x, y in zip(t.elts[:k], xs[:k]):
                    self.assign(x, y, fr)
                self.assign(t.elts[k].value, eng.alloc(ListObj(xs[k:len(xs) - after])), fr)
                for x, y in zip(t.elts[k + 1:], xs[len(xs) - after:]):
                    self.assign(x, y, fr)
                return
            if is_z3(ln):
                if not eng.choose(canon_bool(lift(ln) == n)):
                    raise PyRaise('ValueError')
            elif ln != n:
                raise PyRaise('ValueError')
            vals = [it.fn(i) for i in range(n)]
            for x, y in zip(t.elts, vals):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            setitem(eng, self.eval(t.value, fr), self.index(t.slice, fr), v)
        else:
            raise Unsupported('assignment target')

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                ref = self.eval(t.value, fr)
                o = deref(self.eng, ref)
                if not isinstance(o, Obj) or o.node is not None:
                    raise Unsupported('del of an attribute')
                n = o.copy()
                if t.attr not in n.fields:
                    raise PyRaise('AttributeError')
                n.fields.pop(t.attr)
                self.eng.log.append(('setattr', ref.addr, t.attr, None, o.origin))
                self.eng.heap[ref.addr] = n
            else:
                raise Unsupported('del')

    def s_Global(self, st, fr):
        fr.globals |= set(st.names)

    def s_Nonlocal(self, st, fr):
        fr.nonlocals |= set(st.names)

    def s_Import(self, st, fr):
        for a in st.names:
            fr.env[a.asname or a.name.split('.')[0]] = Ext(a.name if a.asname else a.name.split('.')[0])

    def s_ImportFrom(self, st, fr):
        for a in st.names:
            fr.env[a.asname or a.name] = self.prog._resolve(st.module or '', a.name)

    def s_FunctionDef(self, st, fr):
        f = FuncV(st, fr.module, cls=None, closure=fr, qual=(fr.func.qual + '.' if fr.func else '') + st.name)
        f.decos = []
        if st.decorator_list:
            raise Unsupported('decorated local function')
        fr.env[st.name] = f

    def s_Return(self, st, fr):
        raise ReturnEx(self.eval(st.value, fr) if st.value is not None else None)

    def s_Break(self, st, fr):
        raise BreakEx()

    def s_Continue(self, st, fr):
        raise ContinueEx()

    def s_Raise(self, st, fr):
        if st.exc is None:
            raise Unsupported('re-raise')
        e = st.exc
        f = e.func if isinstance(e, ast.Call) else e
        v = self.eval(f, fr)
        if isinstance(e, ast.Call):
            for a in e.args:
                self.eval(a, fr)
        n = v.name.split('.')[-1] if isinstance(v, (Ext, ClassV)) else '?'
        raise PyRaise(n)

    def s_Assert(self, st, fr):
        if not self.truth(self.eval(st.test, fr)):
            raise PyRaise('AssertionError')

    def s_If(self, st, fr):
        c = self.truth_term(self.e_BoolOp(st.test, fr, True) if isinstance(st.test, ast.BoolOp) else self.eval(st.test, fr))
        if not isinstance(c, bool):
            if self.no_effect(st, c, fr):
                return
            c = self.eng.choose(c)
        self.block(st.body if c else st.orelse, fr)

    def no_effect(self, st, c, fr):
        """the guarded statements only print and set variables that nothing else reads, and every execution of them ends
        normally without a write: both branches continue in the same state"""
        eng = self.eng
        if st.orelse or eng.nofork or fr.func is None or not isinstance(getattr(fr.func, 'node', None), ast.FunctionDef):
            return False
        names = set()
        for s in st.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                names.add(s.targets[0].id)
            elif not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == 'print'):
                return False
        inside = {id(n) for s in st.body for n in ast.walk(s)}
        for n in ast.walk(fr.func.node):
            if isinstance(n, ast.Name) and n.id in names and id(n) not in inside:
                return False
        c = canon_bool(eng.simp(c))
        if z3.is_true(c) or z3.is_false(c) or not eng.feasible(c) or not eng.feasible(z3.Not(c)):
            return False
        env = dict(fr.env)

        def run():
            n = (len(eng.log), len(eng.events))
            eng.assume(c, path=True)
            try:
                self.block(st.body, fr)
            except PyRaise:
                return 'raise'
            return 'ok' if (len(eng.log), len(eng.events)) == n else 'write'
        try:
            res = eng.explore_nested(run)
        finally:
            fr.env.clear()
            fr.env.update(env)
        return bool(res) and all(x == 'ok' for x in res)

    def s_With(self, st, fr):
        for it in st.items:
            v = it.context_expr
            if isinstance(v, ast.Call):
                f = self.eval(v.func, fr)
                if isinstance(f, Ext) and f.name in ('numpy.errstate', 'warnings.catch_warnings'):
                    continue
            raise Unsupported('with statement')
        self.block(st.body, fr)

    def s_Try(self, st, fr):
        eng = self.eng
        try:
            try:
                self.block(st.body, fr)
            except PyRaise as ex:
                for h in st.handlers:
                    names = []
                    if h.type is not None:
                        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                        for t in ts:
                            v = self.eval(t, fr)
                            names.append(v.name.split('.')[-1] if isinstance(v, (Ext, ClassV)) else '?')
                    if h.type is None or 'Exception' in names or ex.exc in names or 'BaseException' in names:
                        if h.name:
                            fr.env[h.name] = Opaque('exception')
                        self.block(h.body, fr)
                        break
                else:
                    raise
            else:
                self.block(st.orelse, fr)
        finally:
            if st.finalbody:
                self.block(st.finalbody, fr)

    # ============================================================================================ loops
    def s_For(self, st, fr):
        from .loops import exec_for
        exec_for(self, st, fr)

    def s_While(self, st, fr):
        from .loops import exec_while
        exec_while(self, st, fr)


class GenObj:
    def __init__(self, func, frame):
        self.func, self.frame = func, frame


def plain_names(e):
    """expression without effects: dotted names and choices between them"""
    if isinstance(e, ast.IfExp):
        return plain_names(e.body) and plain_names(e.orelse)
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, ast.Name)


def walk_own(node):
    """ast.walk without nested functions"""
    st = list(ast.iter_child_nodes(node))
    while st:
        x = st.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.Lambda)):
            st.extend(ast.iter_child_nodes(x))
