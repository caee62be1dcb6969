"""C03: splits partition the training rows."""
from .hyperfit import *


def tasks():
    return [fit_task('C03', c, cont, root, post_c03) for c in CLASSES[:2] for cont in ('ndarray', 'csr', 'csc') for root in (False, True)] + \
        hyper_fit_tasks('C03', post_h03)
