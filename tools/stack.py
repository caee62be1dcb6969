"""where a task is after some seconds: stack.py PROP SUBSTR SECONDS [N]"""
import sys, os, threading, faulthandler
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
import specs
from pyvc.task import run_task
prop, sub, secs = sys.argv[1], sys.argv[2], float(sys.argv[3])
t = [t for t in specs.tasks(prop) if sub in t.name][0]
def go():
    run_task(t, os.environ.get('VP_REPO', '/repo'), 6000)
    os._exit(0)
threading.stack_size(512*1024*1024)
faulthandler.dump_traceback_later(secs, repeat=True)
th = threading.Thread(target=go, daemon=True); th.start(); th.join()
