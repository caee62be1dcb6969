"""C04: perpendicular trees take the most probable split if it beats not splitting."""
from .fitspec import *


def tasks():
    return [fit_task('C04', c, cont, root, post_c04) for c in CLASSES[:2] for cont in ('ndarray', 'csr', 'csc') for root in (False, True)]
