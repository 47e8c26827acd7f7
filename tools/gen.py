"""Regenerates properties.jsonl and MANIFEST.json:  python3 tools/gen.py"""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  note=level_note, na=na, observe=observe))


exec(open(os.path.join(HERE, 'tools', 'proplist.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                         'hook_needed': None}}
        if p['observe']:
            d['anchors']['observe_at'] = p['observe']
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for p in P:
    have = os.path.exists(os.path.join(HERE, 'props', p['id'] + '.py'))
    if p['na'] or not have:
        na.append({'property': p['id'], 'reason': p['na'] or 'check not built yet'})
        continue
    checks.append({'property': p['id'], 'quick_cmd': './check %s' % p['id'],
                   'thorough_cmd': './check %s --tier thorough' % p['id'],
                   'technique': 'symbolic execution of the real code with z3 deciding branches and obligations (bounded)',
                   'level': 'model_checking',
                   'level_note': (p['note'] + ' ' if p['note'] else '') +
                   'Every input within the bounds of the instances listed in the evidence is covered: labels, weights, '
                   'thresholds and random outcomes are z3 variables, z3 decides which paths are feasible and discharges the '
                   'obligations on each; nothing is claimed beyond those bounds. Trusted: the symx proxies, the environment '
                   'stubs, z3, exact arithmetic standing for floats, insertion order for hash order of symbolic labels. '
                   'Counterexamples are replayed on plain values before being reported.'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Solver-based: real pymnet code runs on z3-backed proxies (symx/), harnesses in props/. See DESIGN.md.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
