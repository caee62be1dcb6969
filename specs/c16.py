from pyvc.model import *

SIG = ['partition_prior', 'prior', 'delta', 'prune', 'split_precision', 'level']
SIGH = ['partition_prior', 'prior', 'delta', 'prune', 'optimizer', 'split_precision', 'level']


def ctor_values(eng, variant):
    v = {'partition_prior': z3.Real('a_pp'), 'delta': z3.Real('a_delta'), 'prune': z3.Bool('a_prune'), 'split_precision': z3.Real('a_sp'),
         'level': z3.Int('a_level'), 'optimizer': eng.alloc(Obj(ClassV('Optimizer', None, None), origin='param')),
         'prior': eng.alloc(Arr((z3.Int('a_k'),), lambda i: z3.Function('a_prior', INT, REAL)(lift(i)), 'f', origin='param'))}
    if variant == 'none':
        for k in ('prior', 'delta', 'optimizer'):
            v[k] = None
    if variant == 'list':
        v['prior'] = eng.alloc(ListObj([z3.Real('a_p%d' % i) for i in range(4)], origin='param'))
    return v


def same_value(I, a, b):
    """a is the very value b (or an equal number)"""
    if a is None or b is None:
        return a is b
    if isinstance(a, Ref) or isinstance(b, Ref):
        return a == b
    if isinstance(a, bool) or isinstance(b, bool) or is_num(a) and is_num(b):
        if not (is_num(a) and is_num(b)):
            return False
        x, y = lift(a), lift(b)
        if x.sort() != y.sort():
            return False
        return x == y
    return a is b


def tasks():
    out = []
    for c in CLASSES:
        for variant in ('array', 'list', 'none'):
            for mode in ('positional', 'keyword'):
                def fn(prog, eng, c=c, variant=variant, mode=mode):
                    def path():
                        I = Interp(prog, eng, {}, None)
                        cls = prog.cls(c)
                        m = prog.method(cls, '__init__')
                        sig = [a.arg for a in m.node.args.args][1:]
                        want = SIG if is_perp(cls) else SIGH
                        eng.prove('the constructor takes exactly the documented parameters', sorted(sig) == sorted(want), str(sig))
                        if mode == 'positional':
                            eng.prove('the documented parameter order is kept', sig == want, str(sig))
                        vals = ctor_values(eng, variant)
                        vs = {k: vals[k] for k in sig if k in vals}
                        try:
                            r = I.call(cls, list(vs.values()) if mode == 'positional' else [], {} if mode == 'positional' else vs)
                        except PyRaise as ex:
                            eng.prove('the constructor raises no %s' % ex.exc, False)
                            return
                        eng.reach += 1
                        f = eng.deref(r).fields
                        for k, v in vs.items():
                            eng.prove('attribute %s is the argument %s' % (k, k), k in f and same_value(I, f[k], v), repr(f.get(k)))
                        eng.prove('child_type is the class of the tree', f.get('child_type') is cls)
                        eng.prove('is_regression tells the kind of the tree', f.get('is_regression') is is_reg(cls))
                        frame_ok(eng, what='the constructor')
                    eng.explore(path)
                out.append(Task('%s.__init__ (%s, %s)' % (c, mode, variant), fn))

        def fn_default(prog, eng, c=c):
            def path():
                I = Interp(prog, eng, {}, None)
                cls = prog.cls(c)
                m = prog.method(cls, '__init__')
                r = I.call(cls, [], {})
                eng.reach += 1
                f = eng.deref(r).fields
                a = m.node.args
                ds = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults))
                for k, d in ds.items():
                    from pyvc.interp import Frame
                    v = I.eval(d, Frame(m, m.module, None, {}))
                    eng.prove('attribute %s is the default of the signature' % k, k in f and same_value(I, f[k], v))
            eng.explore(path)
        out.append(Task('%s.__init__ (defaults)' % c, fn_default))
    from .fitspec import fit_task, post_c16
    out += [fit_task('C16', c, cont, root, post_c16) for c in CLASSES[:2] for cont, root in (('ndarray', True), ('ndarray', False), ('csr', True))]
    from .hyperfit import hyper_fit_tasks, post_h16
    return out + hyper_fit_tasks('C16', post_h16)
