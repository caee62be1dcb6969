"""prof.py PROP SUBSTR: cProfile of one task"""
import os, sys, threading, cProfile, pstats
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
threading.stack_size(512*1024*1024)
def go():
    import specs
    from pyvc.front import Program
    from pyvc.engine import Engine
    t = [t for t in specs.tasks(sys.argv[1]) if sys.argv[2] in t.name][0]
    prog = Program(os.environ.get('VP_REPO', '/repo'))
    eng = Engine(prog, t.name, 6000)
    eng.reach = 0
    pr = cProfile.Profile()
    pr.enable()
    try:
        t.fn(prog, eng)
    except BaseException as e:
        print('EXC', type(e), e)
    pr.disable()
    print('paths', eng.stats.paths, 'reach', eng.reach, 'queries', eng.stats.queries, 'solver', eng.stats.solver_time, 'obl', len(eng.stats.obl), sum(o['time'] for o in eng.stats.obl))
    pstats.Stats(pr).sort_stats('cumtime').print_stats(45)
th = threading.Thread(target=go); th.start(); th.join()
