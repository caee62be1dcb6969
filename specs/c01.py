"""C01: predictions."""
from .predict import *
from . import c07


def tasks():
    out = []
    for c in CLASSES:
        cl = 'Classification' in c
        for cont in CONTAINERS:
            for mode in ((True, False, None) if cl else (True, None)):
                out.append(predict_body(c, cont, mode))
        for cont in ALL_CONTAINERS:
            out.append(query_body(c, 'predict', cont, True))
            if cl:
                out.append(query_body(c, 'predict_proba', cont, False))
            out.append(query_body(c, '_get_raw_leaf_data', cont, None))
        out += [c07.mean_task(c), c07.leaf_task(c), c07.raw_task(c)]
    return out
