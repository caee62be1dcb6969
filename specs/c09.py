"""C09: hyperplane trees take the best hyperplane evaluated."""
from .hyper import *
from .hyperfit import hyper_fit_tasks, post_c09


def tasks():
    return compute_tasks(CLASSES[2:]) + hyper_fit_tasks('C09', post_c09)
