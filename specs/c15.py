"""C15: refitting is fitting afresh; no hidden state."""
from .hyperfit import *
from .hyper import compute_tasks
from . import fitbody, c18


def tasks():
    out = [fit_task('C15', c, cont, root, post_c15) for c in CLASSES[:2] for cont, root in (('ndarray', True), ('ndarray', False), ('csr', True))]
    out += hyper_fit_tasks('C15', post_h15)
    out += [fitbody.fit_body(c, x, y, False, fitbody.post_c15_fit, quiet=DET) for c in CLASSES for x, y in (('ndarray', 'array'), ('csr', 'list'), ('df', 'series'))]
    out += [determinism(t) for t in compute_tasks(CLASSES[2:3])] + [selected(t, lambda n: DET(n) or n.startswith('frame')) for t in c18.solve_tasks()]
    return out
