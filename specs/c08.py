"""C08: pruning."""
from .prune import *
from . import fitbody


def tasks():
    out = []
    for c in CLASSES:
        out.append(prune_body(c))
        out.append(fitbody.fit_body(c, 'ndarray', 'array', False, fitbody.post_c08, quiet=True))
    for c in CLASSES[:2]:
        out += lemmas(c)
    return out
