"""first.py PROP SUBSTR [N]: prints the first N failing obligations with their facts count, then stops"""
import sys, os, threading, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
import specs
from pyvc import engine
from pyvc.task import run_task
prop, sub = sys.argv[1:3]
N = int(sys.argv[3]) if len(sys.argv) > 3 else 1
sys.path.insert(0,'/tmp/w')
try:
    from ab import ab, defs
except ImportError:
    ab = None
old = engine.Engine.prove
n = [0]
t00 = time.time()
def prove(self, name, goal, detail=''):
    t0 = time.time()
    k = len(self.stats.obl)
    r = old(self, name, goal, detail)
    dt = time.time() - t0
    bad = [o for o in self.stats.obl[k:] if not o['ok']]
    if bad or dt > 2:
        print('%.1f' % (time.time() - t00), 'FAIL' if bad else 'slow', '%.1fs' % dt, name, '| goal', str(goal)[:int(os.environ.get("GOAL","400"))].replace('\n', ' '), '| facts', len(self.facts), flush=True)
        if bad:
            n[0] += 1
            if os.environ.get('FACTS'):
                for f in self.facts: print('   ', str(f)[:int(os.environ['FACTS'])].replace('\n', ' '))
            if os.environ.get('AB') and ab:
                g = ab(goal)
                fs = [ab(f) for f in self.facts]
                print('GOAL', g)
                from pyvc import sums
                for k, e in sums.PSREG.items(): print('  PS', k, str(e['sk'])[:300].replace('\n', ' '))
                for f in fs: print('  F', f)
                for f in defs: print('  D', f)
            if n[0] >= N: os._exit(0)
    return r
engine.Engine.prove = prove
t = [t for t in specs.tasks(prop) if sub in t.name][0]
def go():
    r = run_task(t, os.environ.get('VP_REPO', '/repo'), 6000)
    print(r['status'], r.get('paths'), r['detail'][:600], len(r['obligations']), '%.1f' % (time.time() - t00), flush=True)
    os._exit(0)
threading.stack_size(512*1024*1024)
th = threading.Thread(target=go, daemon=True); th.start(); th.join()
