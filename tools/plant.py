"""Makes planted bugs from a list:  python3 tools/plant.py LIST.py [ID ...]
LIST.py defines BUGS = [dict(id, property, subs=[(file, old, new)], needs, breaks, demo)]."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
SEED = '/verif/seeded'
BASE = json.load(open('/opt/vp/BASELINE.json'))
ENV = dict(os.environ, MPLBACKEND='Agg', MPLCONFIGDIR='/opt/venv/mplconfig', PYTHONDONTWRITEBYTECODE='1',
           PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONPATH='/opt/vp')
ROOT = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).strip()
SH = '#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def stable(d):
    import xml.etree.ElementTree as ET
    x = d + '/junit.xml'
    os.makedirs(d + '/pymnet/tests/figs', exist_ok=True)
    r = sh('/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'pymnet_select', '-n', '4', '--timeout=180',
           '--continue-on-collection-errors', '--tb=short', '-W', 'ignore', '-o', 'junit_family=xunit2', '-o',
           'python_files=*_test.py test_*.py', '--rootdir=' + d, '--junitxml=' + x, 'pymnet/tests', cwd=d, env=ENV)
    out = d + '/out.json'
    q = sh('/usr/bin/python3', '/opt/vp/results.py', out, 'junit:' + x)
    if not os.path.exists(out):
        return None, r.stdout[-1000:] + q.stdout
    o = json.load(open(out))
    return o, ''


def one(b):
    d = '/tmp/plant-' + b['id']
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', d])
    try:
        for f, old, new in b['subs']:
            s = open(d + '/' + f).read()
            if s.count(old) != 1:
                return b['id'], 'text occurs %d times: %s' % (s.count(old), old[:80]), None
            open(d + '/' + f, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', d, 'diff'], text=True)
        t = SEED + '/' + b['id']
        os.makedirs(t, exist_ok=True)
        open(t + '/patch.diff', 'w').write(diff)
        open(t + '/demo.sh', 'w').write(SH)
        os.chmod(t + '/demo.sh', 0o755)
        open(t + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(t + '/meta.json', 'w'), indent=1)
        # changed lines are original ones
        warn = ''
        for f in set(x[0] for x in b['subs']):
            fd = subprocess.check_output(['git', '-C', d, 'diff', '-U0', f], text=True)
            import re
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', fd, re.M):
                n = int(m.group(2) or 1)
                if n:
                    bl = subprocess.check_output(['git', '-C', '/repo', 'blame', '-l', '-s', '--root', '-L', '%s,+%d' % (m.group(1), n), 'HEAD', '--', f], text=True)
                    if not any(l.lstrip('^').startswith(ROOT[:38]) for l in bl.splitlines()):
                        warn += ' not-original'
        a = sh('bash', t + '/demo.sh', cwd='/repo', timeout=300)
        c = sh('bash', t + '/demo.sh', cwd=d, timeout=300)
        if a.returncode or not c.returncode:
            return b['id'], 'demo: clean %d planted %d %s %s' % (a.returncode, c.returncode, a.stdout[-800:], warn), None
        o, err = stable(d)
        if o is None:
            return b['id'], 'tests: ' + err, None
        bad = compare(o)
        if bad:
            return b['id'], 'breaks tests %s %s' % (bad[:4], warn), None
        e = dict(ENV, SYMX_REPO=d, VERIF_SEED='1', SYMX_EVIDENCE='0')
        k = sh('/verif/check', b['property'], env=e, timeout=1000)
        return b['id'], ('CAUGHT' if k.returncode == 1 and 'VIOLATION property=' + b['property'] in k.stdout else 'MISSED rc=%d' % k.returncode) + warn, k.stdout[-1500:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def compare(o):
    ok = lambda z: set(z.get('passed', []))
    return sorted(set(STABLE) - ok(o))


STABLE = BASE.get('stable_pass') or BASE.get('passed') or BASE.get('stable')


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    bugs = [b for b in g['BUGS'] if len(sys.argv) < 3 or b['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(2) as p:
        for i, r, out in p.map(one, bugs):
            print(i, r, flush=True)
            if out and 'CAUGHT' not in r:
                print(out, flush=True)


main()
