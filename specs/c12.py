"""C12: inputs are never modified, queries never change the model."""
from .hyperfit import *
from . import c01, c02, c05, c06, c07, c10, c13, c14, c16, c18, fitbody, hyper


def frame(name):
    return name.startswith('frame:')


def tasks():
    out = [fit_task('C12', c, cont, root, post_c12) for c in CLASSES[:2] for cont, root in (('ndarray', True), ('ndarray', False), ('csr', True))]
    out += hyper_fit_tasks('C12', post_h12)
    out += [selected(t, frame) for t in hyper.compute_tasks(CLASSES[2:3]) + c18.solve_tasks()]
    out += [fitbody.fit_body(c, x, y, n, fitbody.post_c12_fit, quiet=True) for c in CLASSES for x, y, n in
            [(x, 'array', x == 'list') for x in fitbody.X_KINDS if x not in ('3-d', 'one row')] + [('ndarray', y, False) for y in fitbody.Y_KINDS if y not in ('array', 'matrix')]]
    for m in (c01, c02, c05, c06, c07, c10, c13, c14, c16):
        out += [selected(t, frame) for t in m.tasks() if not t.name.startswith('lemma') and '._fit (' not in t.name and not t.name.endswith('(defaults)')]
    return out
