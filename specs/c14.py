from pyvc.model import *
from .c14str import str_tasks


def depth_contract(I, f, args):
    eng = I.eng
    o = eng.deref(args[0])
    d = lift(args[1])
    t = LEVEL(o.node) + DEPTH(o.node)
    return z3.If(d >= t, d, t)


def leaves_contract(I, f, args):
    o = I.eng.deref(args[0])
    return lift(args[1]) + NLEAVES(o.node)


CONTRACTS = {'_update_depth': depth_contract, '_update_n_leaves': leaves_contract}


def tasks():
    out = []
    for c in CLASSES:
        def setup_acc(I, cls):
            d = I.eng.fresh_plain('acc', INT)
            r = self_node(I.eng, cls)
            return [r, d], {}, (r, d)

        def post_depth(I, res, ctx):
            r, d = ctx
            n = I.eng.deref(r).node
            t = LEVEL(n) + DEPTH(n)
            I.eng.prove('_update_depth: max(accumulator, level + depth of the subtree)', lift(res) == z3.If(d >= t, d, t))
            frame_ok(I.eng, what='_update_depth')

        def post_leaves(I, res, ctx):
            r, d = ctx
            I.eng.prove('_update_n_leaves: accumulator + leaves of the subtree', lift(res) == d + NLEAVES(I.eng.deref(r).node))
            frame_ok(I.eng, what='_update_n_leaves')

        def setup_root(I, cls):
            r = self_node(I.eng, cls, root=True)
            I.eng.assume(LEVEL(I.eng.deref(r).node) == 0)
            return [r], {}, r

        def post_gd(I, res, r):
            I.eng.prove('get_depth: largest number of splits on a path', lift(res) == DEPTH(I.eng.deref(r).node))
            frame_ok(I.eng, what='get_depth')

        def post_gl(I, res, r):
            I.eng.prove('get_n_leaves: number of leaves', lift(res) == NLEAVES(I.eng.deref(r).node))
            frame_ok(I.eng, what='get_n_leaves')
        out += [body_task('%s._update_depth' % c, c, '_update_depth', setup_acc, post_depth, CONTRACTS),
                body_task('%s._update_n_leaves' % c, c, '_update_n_leaves', setup_acc, post_leaves, CONTRACTS),
                body_task('%s.get_depth' % c, c, 'get_depth', setup_root, post_gd, CONTRACTS),
                body_task('%s.get_n_leaves' % c, c, 'get_n_leaves', setup_root, post_gl, CONTRACTS)]
    return out + str_tasks()
