"""Proof part of a check.  usage: prove.py PROPERTY [--jobs N] [--timeout S] [--only SUBSTR] [-v]   -> JSON on stdout"""
import argparse
import json
import multiprocessing
import os
import queue
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get('VP_REPO', '/repo')


def child(prop, i, repo, timeout_ms, q):
    import threading
    os.setsid()
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    threading.stack_size(512 * 1024 * 1024)

    def go():
        import specs
        from pyvc.task import run_task
        q.put((i, run_task(specs.tasks(prop)[i], repo, timeout_ms)))
    t = threading.Thread(target=go)
    t.start()
    t.join()
    q.close()
    q.join_thread()
    os._exit(0)


def run(prop, jobs=6, timeout=200, only=None, timeout_ms=6000, extra=2, among=None):
    import specs
    ts = specs.tasks(prop)
    idx = [i for i, t in enumerate(ts) if (not only or only in t.name) and (among is None or t.name in among)]
    ctx = multiprocessing.get_context('fork')
    from pyvc import engine
    engine.SLOTS = ctx.Semaphore(extra)
    q = ctx.Queue()
    running, res, todo, dead = {}, {}, list(idx), {}

    def stop(*a):
        for p, _ in running.values():
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
        os._exit(3)
    signal.signal(signal.SIGTERM, stop)
    while todo or running:
        while todo and len(running) < jobs:
            i = todo.pop(0)
            p = ctx.Process(target=child, args=(prop, i, REPO, timeout_ms, q))
            p.start()
            running[i] = (p, time.time())
        try:
            i, r = q.get(timeout=0.2)
            res[i] = r
            running.pop(i, None)
            dead.pop(i, None)
            continue
        except queue.Empty:
            pass
        for i, (p, t0) in list(running.items()):
            why = None
            if not p.is_alive():
                if time.time() - dead.setdefault(i, time.time()) > 1:
                    why = 'verifier process ended (exit %s)' % p.exitcode
            elif time.time() - t0 > timeout:
                os.killpg(p.pid, 9)
                why = 'verifier time limit (%d s)' % timeout
            if why:
                res[i] = dict(task=ts[i].name, status='timeout', detail=why, obligations=[], time=round(time.time() - t0, 1))
                del running[i]
    return [res[i] for i in idx]


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--jobs', type=int, default=6)
    ap.add_argument('--timeout', type=float, default=200)
    ap.add_argument('--only')
    ap.add_argument('--among', help='JSON file with a list of task names')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    rs = run(a.property, a.jobs, a.timeout, a.only, among=a.among and json.load(open(a.among)))
    if a.v:
        seen = {}
        for r in rs:
            ok = sum(o['ok'] for o in r['obligations'])
            print('%-9s %3d/%3d %6.1fs paths %-4s %s' % (r['status'], ok, len(r['obligations']), r['time'], r.get('paths'), r['task']))
            if r['status'] != 'proved':
                d = r['detail'][-700:] if r['status'] == 'error' else r['detail'][:700]
                if d not in seen:
                    seen[d] = 1
                    print('      ', d)
                    for o in [o for o in r['obligations'] if not o['ok']][:4]:
                        print('       - ', o['name'], o['detail'][:300])
    else:
        json.dump(rs, sys.stdout)
