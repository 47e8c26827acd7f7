"""Writes BOUNDS.md: every instance of every property with its bound (python3 tools/design_tail.py)."""
import sys, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.environ.setdefault('SYMX_REPO', '/repo')
from symx.run import load_property
import json
out = ['# Instances and bounds', '', 'Generated by tools/design_tail.py. Instances marked (thorough) run only in the thorough tier.', '']
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    m, insts = load_property(p['id'])
    out += ['## %s %s' % (p['id'], p['title']), '']
    for a in getattr(m, 'ASSUMPTIONS', []):
        out.append('Assumed: %s.  ' % a)
    out.append('')
    for i in insts:
        out.append('- `%s`%s %s' % (i.name, ' (thorough)' if i.tier == 'thorough' else '', i.bounds))
    out.append('')
open(os.path.join(HERE, 'BOUNDS.md'), 'w').write('\n'.join(out))
