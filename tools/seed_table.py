"""Writes the table of planted changes (last sweep: tools/seed_results.json) into DESIGN.md after the marker <!-- seeds -->."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = json.load(open(HERE + '/tools/seed_results.json'))
rows = ['| change | what it breaks | needs | verdict of the proof | concrete contract check |', '|---|---|---|---|---|']
c = lambda s: ' '.join(str(s).split()).replace('|', '/')
for k in sorted(os.listdir(HERE + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (HERE, k)))
    v = r.get(k, {})
    p = v.get('proof', 'not run')
    if p.startswith(('failed: ', 'open: ')):
        w, _, rest = p.partition(': ')
        p = ('**failed**: ' if w == 'failed' else 'open: ') + c(rest)[:130]
    n = v.get('concrete')
    rows.append('| %s | %s | %s | %s | %s |' % (k, c(m['what_it_breaks'])[:150], c(m['needs'])[:120], p, 'not needed' if n is None else 'found' if n else 'not found'))
d = open(HERE + '/DESIGN.md').read()
i = d.index('<!-- seeds -->')
open(HERE + '/DESIGN.md', 'w').write(d[:i] + '<!-- seeds -->\n' + '\n'.join(rows) + '\n')
