"""Text of a tree (C14): _str appends the entry of its node and the texts of the two children, first child first."""
from .predict import *
from pyvc.lib import ONE_LINE, one_line, to_str, Shown
from pyvc.ops import SStr
from pyvc.values import Bound
from pyvc.interp import iterate

ANCHOR = uf('anchor', INT, StrSort)


class NodeText:
    """the text of a sub-tree"""
    def __init__(self, cls, node):
        self.cls, self.node = cls, node


def parts_of(s):
    return s.parts if isinstance(s, SStr) else [s] if s else []


def one_line_value(eng, v):
    """printed as text without line break"""
    v = deref(eng, v)
    return v is None or is_num(v) or one_line(v)


def str_contract(I, f, args):
    """text of the sub-tree, for a prefix and texts without line breaks"""
    eng = I.eng
    o = deref(eng, args[0])
    for v in args[1:]:
        a = deref(eng, v)
        if isinstance(a, ListObj):
            it = iterate(eng, v)
            n = lift(it.length)
            k = eng.fresh_plain('k', INT)
            with eng.scope():
                eng.assume(z3.And(k >= 0, k < n))
                if eng._consistent():
                    eng.prove('text: the prefix of a line contains no line break', one_line_value(eng, it.fn(k)))
        else:
            if not (v is None or isinstance(v, bool) or is_num(v) or isinstance(v, (str, SStr)) or isinstance(a, Opt)):
                raise Unsupported('argument of _str')
            eng.prove('text: passed on without line break', isinstance(a, Opt) or one_line_value(eng, v))
    return SStr([NodeText(o.cls, o.node)])


CONTRACTS = dict(LEAF_CONTRACTS, _str=str_contract)


def lines_of(s):
    """lines (lists of parts), split at literal line breaks"""
    out = [[]]
    for p in parts_of(s):
        if isinstance(p, str):
            pieces = p.split('\n')
            out[-1].append(pieces[0])
            for q in pieces[1:]:
                out.append([q])
        else:
            out[-1].append(p)
    return [[p for p in l if not (isinstance(p, str) and not p)] for l in out]


def shows(eng, line, v):
    want = parts_of(to_str(eng, v))
    n = len(want)
    return any(all((a is b) if not (isinstance(a, str) or is_z3(a)) else type(a) is type(b) and (a == b if isinstance(a, str) else eng.entails(a == b))
                   for a, b in zip(line[i:i + n], want)) for i in range(len(line) - n + 1))


def post_str(I, r, c):
    eng, n = I.eng, c.n
    eng.prove('text: a string', isinstance(r, (str, SStr)))
    lines = lines_of(r)
    for l in lines:
        for p in l:
            if isinstance(p, Opaque) and p is not ONE_LINE:
                raise Unsupported('text of unknown content')
    leaf = eng.choose(LEAFP(n))
    entry, rest = lines[0], lines[1:]
    eng.prove('text: the entry of the node comes first', not any(isinstance(p, NodeText) for p in entry))
    if leaf:
        eng.prove('text: a leaf has one entry', not rest)
        eng.prove('text: a leaf shows its prediction', shows(eng, entry, out_value(eng, c.cls, n, n, True)))
        eng.prove('text: a leaf shows its sample count', shows(eng, entry, NDATA(n)))
    else:
        if c.cls.name.startswith('Perp'):
            eng.prove('text: a split shows its feature name', shows(eng, entry, I.getattr(c.self_, 'split_feature_name_')))
            eng.prove('text: a split shows its split value', shows(eng, entry, SVAL(n)))
        eng.prove('text: two more entries, each on a new line', len(rest) == 2)
        if len(rest) == 2:
            for l, child, name in zip(rest, (C1(n), C2(n)), ('first', 'second')):
                texts = [p for p in l if isinstance(p, NodeText)]
                eng.prove('text: the %s child follows' % name, len(texts) == 1)
                if len(texts) == 1:
                    eng.prove('text: the %s child follows' % name, texts[0].node == child)
                    eng.prove('text: nothing follows the text of a child', l[-1] is texts[0])
    frame_ok(eng, what='_str')


class Ctx:
    pass


def str_task(c, side):
    def setup(I, cls):
        eng = I.eng
        s = self_node(eng, cls, root=side is None)
        k = Ctx()
        k.self_, k.cls, k.n = s, cls, deref(eng, s).node
        m = eng.fresh_plain('anchors', INT)
        eng.assume(m >= 0)
        anchor = eng.alloc(ListObj(None, m, lambda i: SStr([ANCHOR(lift(i))]), origin='param'))
        marks = [SStr([z3.Const('mark_' + x, StrSort)]) for x in ('vert', 'down', 'bar', 'geq')]
        args = [s, anchor]
        if c.startswith('Perp'):
            args.append(z3.Real('parent_split') if side is not None else None)
        return args + marks + [side], {}, k
    return body_task('%s._str (%s)' % (c, {None: 'root', True: 'first child', False: 'second child'}[side]), c, '_str', setup, post_str, CONTRACTS)


def dunder_task(c, fitted):
    def setup(I, cls):
        eng = I.eng
        k = Ctx()
        k.cls = cls
        s = self_node(eng, cls, root=True) 
        k.self_ = s
        return [s], {}, k

    def post(I, r, k):
        eng = I.eng
        n = deref(eng, k.self_).node
        eng.prove('__str__: the text of the root', len(parts_of(r)) == 1 and isinstance(parts_of(r)[0], NodeText) and
                  eng.entails(parts_of(r)[0].node == n))
        frame_ok(eng, what='__str__')
    return body_task('%s.__str__' % c, c, '__str__', setup, post, CONTRACTS)


def str_tasks():
    out = []
    for c in CLASSES:
        out += [str_task(c, side) for side in (None, True, False)]
        out.append(dunder_task(c, True))
    return out
