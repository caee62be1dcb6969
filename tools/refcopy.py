"""refcopy.py ID: the package with behaviour-preserving edit ID in /tmp/w/rfcopy"""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refactor_list import REF
d = '/tmp/w/rfcopy'
subprocess.run(['rm', '-rf', d])
subprocess.run(['cp', '-a', '/repo', d])
for f, a, b in dict(REF)[sys.argv[1]]:
    p = d + '/bayesian_decision_tree/' + f
    s = open(p).read()
    open(p, 'w').write(s.replace(a, b, 1))
