"""C17: training depends on the values of the data only."""
from .fitspec import *
from . import fitbody


def tasks():
    out = [fit_task('C17', c, cont, root, post_c17) for c in CLASSES[:2] for cont, root in (('ndarray', True), ('ndarray', False), ('csr', True))]
    out += [fitbody.fit_body(c, x, y, n, fitbody.post_call, fitbody.exc_validation(False), quiet=True) for c in CLASSES for x, y, n in
            [(x, 'array', n) for x in fitbody.X_KINDS if x not in ('3-d', 'one row') for n in (False, True)] + [('ndarray', y, False) for y in fitbody.Y_KINDS if y not in ('array', 'matrix')]]
    return out
