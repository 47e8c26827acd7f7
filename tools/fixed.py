"""Records fix: commits of /repo in known_findings.json:  python3 tools/fixed.py COMMIT=PROPERTY ..."""
import json, os, subprocess, sys
F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
kf = json.load(open(F))
for a in sys.argv[1:]:
    c, p = a.split('=')
    msg = subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%s', c], text=True).strip()
    assert msg.startswith('fix: ')
    kf = [k for k in kf if k.get('commit') != c]
    kf.append({'property': p, 'status': 'fixed', 'commit': c, 'what': msg[5:], 'line': 'fixed: property=%s %s %s' % (p, c, msg[5:])})
json.dump(kf, open(F, 'w'), indent=1)
