"""A verification task: one function body of /repo checked against its contract on every path."""
import time
import traceback
import z3
from .terms import *
from .values import *
from .engine import Engine, PathEnd, short
from .interp import Interp
from .front import Program
from . import sums, loops, nplib, lib, ops


class Task:
    def __init__(self, name, fn, group=''):
        self.name, self.fn, self.group = name, fn, group


def run_task(task, repo, timeout_ms=6000):
    """verdict of one task: proved / failed / unsupported / error"""
    t0 = time.time()
    eng = None
    out = dict(task=task.name, status='error', detail='', obligations=[], time=0)
    try:
        prog = Program(repo)
        eng = Engine(prog, task.name, timeout_ms)
        eng.reach = 0
        task.fn(prog, eng)
        bad = [o for o in eng.stats.obl if not o['ok']]
        if bad:
            out['status'] = 'failed'
            out['detail'] = bad[0]['name'] + ' | ' + bad[0]['detail']
        elif not eng.stats.obl:
            out['status'] = 'unsupported'
            out['detail'] = 'no obligation was generated'
        elif eng.reach == 0:
            out['status'] = 'unsupported'
            out['detail'] = 'no path reached the end of the function (vacuous)'
        else:
            out['status'] = 'proved'
    except Unsupported as u:
        out['status'] = 'unsupported'
        out['detail'] = '%s%s' % (u, (' at ' + u.where) if hasattr(u, 'where') else '')
        if eng is not None and any(not o['ok'] for o in eng.stats.obl):
            b = [o for o in eng.stats.obl if not o['ok']][0]
            out['status'] = 'failed'
            out['detail'] = b['name'] + ' | ' + b['detail'] + ' | then: ' + out['detail']
    except SyntaxError as e:
        out['status'], out['detail'] = 'unsupported', 'syntax error: %s' % e
    except RecursionError as e:
        out['status'], out['detail'] = 'unsupported', 'recursion limit of the verifier'
    except Exception as e:
        out['status'], out['detail'] = 'error', traceback.format_exc()[-1800:]
    if eng is not None:
        s = eng.stats
        out.update(obligations=s.obl, solver_time=round(s.solver_time, 2), queries=s.queries, paths=s.paths, lib=sorted(s.lib_used),
                   contracts=sorted(s.contracts_used), bodies=sorted(s.inlined), lemmas=sorted(s.lemmas))
    out['time'] = round(time.time() - t0, 2)
    return out
