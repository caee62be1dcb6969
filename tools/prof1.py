"""prof1.py PROP SUBSTR OBL: profiles the obligations with OBL in the name on the first path (queries by caller)"""
import os, sys, threading, cProfile, pstats, collections, time, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
threading.stack_size(512*1024*1024)
def go():
    import specs
    from pyvc.front import Program
    from pyvc import engine
    from pyvc.engine import Engine
    t = [t for t in specs.tasks(sys.argv[1]) if sys.argv[2] in t.name][0]
    prog = Program(os.environ.get('VP_REPO', '/repo'))
    eng = Engine(prog, t.name, 6000)
    eng.reach = 0
    orig = Engine.prove
    state = {'n': 0}
    of, od = Engine.feasible, Engine._discharge
    calls = collections.Counter(); tm = collections.Counter()
    def wrap(f, nm):
        def g(self, *a, **k):
            t0 = time.time()
            try:
                return f(self, *a, **k)
            finally:
                if state.get('on'):
                    st = traceback.extract_stack(limit=7)
                    key = nm + ' ' + ' < '.join('%s:%d' % (x.name, x.lineno) for x in reversed(st[:-1]))
                    calls[key] += 1; tm[key] += time.time() - t0
        return g
    Engine.feasible = wrap(of, 'feas'); Engine._discharge = wrap(od, 'disch')
    def prove(self, name, goal, detail=''):
        if sys.argv[3] in name:
            state['n'] += 1
            state['on'] = True
            t0 = time.time()
            r = orig(self, name, goal, detail)
            state['on'] = False
            print(name, time.time() - t0, 'facts', len(self.facts))
            for k, v in tm.most_common(14): print(round(v, 2), calls[k], k)
            os._exit(0)
        return orig(self, name, goal, detail)
    Engine.prove = prove
    t.fn(prog, eng)
th = threading.Thread(target=go); th.start(); th.join()
