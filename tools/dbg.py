"""dbg.py PROP INDEX|SUBSTR: one task in-process with full traceback"""
import os, sys, threading
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
threading.stack_size(512*1024*1024)
import traceback

def go():
    import specs
    from pyvc.front import Program
    from pyvc.engine import Engine
    from pyvc.values import Unsupported
    ts = [t for t in specs.tasks(sys.argv[1]) if sys.argv[2] in t.name]
    t = ts[0]
    prog = Program(os.environ.get('VP_REPO', '/repo'))
    eng = Engine(prog, t.name, 6000)
    eng.reach = 0
    try:
        t.fn(prog, eng)
    except Unsupported as u:
        tb = traceback.format_exc().splitlines()
        print('\n'.join(tb[-int(sys.argv[3]) if len(sys.argv) > 3 else -24:]))
        print('UNSUPPORTED', u, getattr(u, 'where', ''))
    except Exception:
        tb = traceback.format_exc().splitlines()
        print('\n'.join(tb[-int(sys.argv[3]) if len(sys.argv) > 3 else -40:]))
    for o in eng.stats.obl:
        print('OK ' if o['ok'] else 'BAD', o['name'], o['how'], o['time'], '' if o['ok'] else o['detail'][:1800])
    print('reach', eng.reach)

th = threading.Thread(target=go); th.start(); th.join()
