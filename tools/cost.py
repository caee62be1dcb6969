"""cost.py PROP SUBSTR [jobs]: time per obligation name"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.setrecursionlimit(20000)
import prove, collections
rs=prove.run(sys.argv[1],jobs=4,timeout=600,only=sys.argv[2])
for r in rs:
    c=collections.Counter(); n=collections.Counter(); bad=collections.Counter()
    for o in r['obligations']:
        c[o['name']]+=o['time']; n[o['name']]+=1; bad[o['name']]+=not o['ok']
    print(r['status'],r['task'],r['time'],'solver',r.get('solver_time'),r.get('queries'),'paths',r.get('paths'),r['detail'][:int(sys.argv[3]) if len(sys.argv)>3 else 300])
    for k,v in c.most_common(14):
        if v>.3 or bad[k]: print('   ',round(v,1),n[k],'BAD%d'%bad[k] if bad[k] else '',k[:140])
