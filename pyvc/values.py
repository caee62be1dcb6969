"""Symbolic values of the executor."""
import z3
from .terms import *


class Unsupported(Exception):
    """the construct is outside the verifier's subset"""
    def __init__(self, msg, node=None):
        super().__init__(msg)
        self.node = node


class PyRaise(Exception):
    """a Python exception raised by the program under verification"""
    def __init__(self, exc, msg=None):
        super().__init__(exc)
        self.exc, self.msg = exc, msg


class Ref:
    """pointer into the symbolic heap"""
    __slots__ = ('addr',)

    def __init__(self, addr):
        self.addr = addr

    def __eq__(self, o):
        return isinstance(o, Ref) and o.addr == self.addr

    def __hash__(self):
        return hash(self.addr)

    def __repr__(self):
        return 'Ref(%s)' % (self.addr,)


class Tup(tuple):
    """python tuple"""


class Arr:
    """numpy array / scipy matrix / data frame snapshot.  shape: tuple of int|z3 Int; fn: idx tuple -> element
    (number, z3 term, or nested Arr/Ref for object arrays); kind: 'f','i','b','o','s'; cont: container"""
    __slots__ = ('shape', 'fn', 'kind', 'cont', 'base', 'tag', 'origin', 'meta')

    def __init__(self, shape, fn, kind='f', cont='ndarray', base=None, tag=None, origin='fresh', meta=None):
        self.shape, self.fn, self.kind, self.cont = tuple(shape), fn, kind, cont
        self.base = base        # (addr, to_base, from_base) when this is a view
        self.tag, self.origin, self.meta = tag, origin, meta or {}

    @property
    def ndim(self):
        return len(self.shape)

    def at(self, *idx):
        return self.fn(*idx)

    def with_(self, **kw):
        d = dict(shape=self.shape, fn=self.fn, kind=self.kind, cont=self.cont, base=self.base, tag=self.tag,
                 origin=self.origin, meta=self.meta)
        d.update(kw)
        return Arr(**d)

    def __repr__(self):
        return '<Arr %s %s %s>' % (self.cont, self.shape, self.kind)


class ListObj:
    """python list: concrete items, or symbolic (length, fn)"""
    __slots__ = ('items', 'length', 'fn', 'origin', 'region')

    def __init__(self, items=None, length=None, fn=None, origin='fresh', region=None):
        self.items = list(items) if items is not None else None
        self.length = len(self.items) if items is not None else length
        self.fn, self.origin, self.region = fn, origin, region

    def copy(self):
        return ListObj(self.items, self.length, self.fn, self.origin, self.region)


class DictObj:
    __slots__ = ('items', 'sym', 'origin')

    def __init__(self, items=None, sym=None, origin='fresh'):
        self.items = dict(items) if items is not None else None
        self.sym, self.origin = sym, origin

    def copy(self):
        return DictObj(self.items, self.sym, self.origin)


class SetObj:
    __slots__ = ('items', 'arr', 'origin')

    def __init__(self, items=None, arr=None, origin='fresh'):
        self.items, self.arr, self.origin = items, arr, origin


class Obj:
    """instance of a class of the program; node: z3 term of sort Node for symbolic tree nodes"""
    __slots__ = ('cls', 'fields', 'node', 'origin', 'stale', 'ghost')

    def __init__(self, cls, fields=None, node=None, origin='fresh', stale=(), ghost=None):
        self.cls, self.fields, self.node, self.origin = cls, dict(fields or {}), node, origin
        self.stale = frozenset(stale)
        self.ghost = dict(ghost or {})

    def copy(self):
        return Obj(self.cls, self.fields, self.node, self.origin, self.stale, self.ghost)

    def __repr__(self):
        return '<%s %s>' % (self.cls.name, self.node)


class Opt:
    """value that is None iff `isnone`"""
    __slots__ = ('isnone', 'value')

    def __init__(self, isnone, value):
        self.isnone, self.value = isnone, value


class Stale:
    """attribute left over from an earlier fit"""
    def __init__(self, name):
        self.name = name


class Opaque:
    """value whose content does not matter (strings built by format, dtypes, ...)"""
    __slots__ = ('what', 'term')

    def __init__(self, what, term=None):
        self.what, self.term = what, term

    def __repr__(self):
        return 'Opaque(%s)' % (self.what,)


class Undefined:
    """local variable whose value after a loop is unknown"""
    def __init__(self, why):
        self.why = why


class FuncV:
    def __init__(self, node, module, cls=None, closure=None, qual=None):
        self.node, self.module, self.cls, self.closure, self.qual = node, module, cls, closure, qual
        self.kind = 'def'

    def __repr__(self):
        return 'Func(%s)' % self.qual


class Bound:
    def __init__(self, self_, func):
        self.self_, self.func = self_, func


class ExtBound:
    """method of a library value"""
    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class ClassV:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.bases, self.methods, self.mro, self.attrs = [], {}, [], {}
        self.static = set()

    def __repr__(self):
        return 'Class(%s)' % self.name


class ModuleV:
    def __init__(self, name):
        self.name = name


class Ext:
    """external name, e.g. numpy.sum"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'Ext(%s)' % self.name


class DType:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, DType) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class SliceV:
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class RangeV:
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class IterV:
    """finite iteration space: length and element function"""

    def __init__(self, length, fn):
        self.length, self.fn = length, fn


NodeSort = z3.DeclareSort('Node')
ObjSort = z3.DeclareSort('Obj')      # opaque python objects (names, optimizers)
