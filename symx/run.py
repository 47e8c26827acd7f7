"""Runs the harnesses of one property:  python -m symx.run C01 [--tier quick|thorough]"""
import argparse, importlib, json, os, sys, time, collections, concurrent.futures as cf, multiprocessing as mp, hashlib, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from . import env, core, explore as ex

BUDGET = {'quick': 240.0, 'thorough': 840.0}
SLICE = 1.0

REG = {}


LOOSE = {'C08': ['matrix'], 'C09': ['agg'], 'C10': ['overlay'], 'C11': ['sub'], 'C13': ['thr'], 'C14': ['rnd'], 'C15': ['subs', 'under'],
         'C16': ['degrees', 'mplex', 'dens', 'overlap'], 'C17': ['dij'], 'C21': ['write'], 'C22': ['js', 'pick'], 'C33': ['run']}


class Instance(object):
    def __init__(self, name, fn, cfg, tier='quick', bounds=''):
        self.name, self.fn, self.cfg, self.tier, self.bounds = name, fn, cfg, tier, bounds

# checks made again for the same network after it changed ('again': False in an instance's configuration: not)
AGAIN = {p: 'all' for p in 'C02 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C21 C22 C23 C24 C25 C26 C27 C28 C29 C31 C33'.split()}
GROWN = 'C02 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C21 C22 C23 C24 C25 C26 C27 C28 C29 C33'.split()
NOEDGE = 'C08 C09 C10 C11 C12 C13 C14 C15 C16 C02 C17 C22 C27 C28 C29 C31'.split()      # networks in which -1, not 0, means that there is no edge
# networks whose names of nodes and layers are not all numbers
NAMED = {p: 'mixed' for p in 'C09 C10 C11 C12 C13 C14 C15 C16 C17 C23 C24 C33 C32'.split()}
NAMED.update({p: 'strings' for p in 'C01 C02 C03 C04 C05 C06 C07 C08 C22 C25 C26 C27 C28 C29 C31'.split()})      # names that can be ordered (or written) where the code or the check needs them to be
UNNAMED = {'C02': ('time-ml', 'time-mx', 'time-nf', 'big-5', 'big-3x2x3'), 'C28': ('custom',)}         # instances whose checks need numbers
AGAIN['C32'] = ('get', 'fr')


def load_property(pid):
    m = importlib.import_module('props.' + pid)
    insts = []

    def add(name, fn, cfg=None, tier='quick', bounds=''):
        insts.append(Instance(name, fn, dict(cfg or {}), tier, bounds))
    m.instances(add)
    if pid in LOOSE:
        # networks that are not fully interconnected, with nodes that are on no layer
        for i in list(insts):
            if i.cfg.get('full', True) is False and i.tier == 'quick' and 'loose' not in i.cfg and i.fn.__name__ in LOOSE[pid]:
                cfg = dict(i.cfg, loose=2)
                if 'maxedges' in cfg:
                    cfg['maxedges'] = min(2, cfg['maxedges'])
                insts.append(Instance(i.name + '-loose', i.fn, cfg, i.tier, ', '.join(x for x in (i.bounds, 'nodes on no layer') if x)))
    from props.common import Again
    with open(os.path.join(HERE, 'props', 'twice.json')) as f:      # small instances made twice: nothing of the first may be left behind
        twice = set(json.load(f).get(pid, ()))
    for i in list(insts):
        if i.name in twice:
            insts.append(Instance(i.name + '-twice', Again(i.fn, other=True), dict(i.cfg), i.tier, ', '.join(x for x in (i.bounds, 'two in a row') if x)))
    if pid in AGAIN:
        done = set()
        for i in list(insts):
            c = i.cfg
            k = (i.fn, c.get('kind'), c.get('full', True), c.get('directed', False), len(c.get('L', [])))
            if i.tier != 'quick' or isinstance(i.fn, Again) or not c.get('again', True) or i.fn.__name__ not in AGAIN[pid] and AGAIN[pid] != 'all' or 'n' not in c or 'L' in c and not isinstance(c['L'], list) or 'some' in c or 'loose' in c or k in done:
                continue
            done.add(k)
            insts.append(Instance(i.name + '-again', Again(i.fn), dict(c, maxedges=min(3, c.get('maxedges', 3)), grow=True), i.tier, ', '.join(x for x in (i.bounds, 'the same network before and after it changes') if x)))
            if i.cfg.get('L') and pid in GROWN:
                insts.append(Instance(i.name + '-grown', Again(i.fn), dict(c, maxedges=min(2, c.get('maxedges', 2)), grow='layer'), i.tier, ', '.join(x for x in (i.bounds, 'the same network before and after a layer is added') if x)))
    if pid in NOEDGE:
        done = set()
        for i in list(insts):
            c = i.cfg
            k = (i.fn, c.get('kind'), c.get('full', True), c.get('directed', False), len(c.get('L', [])))
            if i.tier == 'quick' and 'n' in c and isinstance(c.get('L', []), list) and not isinstance(i.fn, Again) and 'loose' not in c and i.fn.__name__ != 'norm' and (pid != 'C02' or len(c.get('L', [])) < 2) and k not in done:
                done.add(k)
                c = dict(c, noEdge=-1, maxedges=min(4, c.get('maxedges', 4)))
                if 'values' in c:
                    c['values'] = [-1, 1]
                insts.append(Instance(i.name + '-noedge', i.fn, c, i.tier, ', '.join(x for x in (i.bounds, 'noEdge is -1') if x)))
    for kind in NAMED.get(pid, '').split():
        done = set()
        for i in list(insts):
            c = i.cfg
            k = (i.fn, c.get('kind'), c.get('full', True), c.get('directed', False), str(c.get('L', [])) if not isinstance(c.get('L', []), list) else len(c.get('L', [])))
            if i.tier == 'quick' and 'n' in c and isinstance(c.get('L', []), list) and not isinstance(i.fn, Again) and not any(x in c for x in ('loose', 'noEdge', 'named', 'overlap')) and c.get('named', True) and k not in done and not i.name.startswith(UNNAMED.get(pid, ('-',))):
                done.add(k)
                insts.append(Instance('%s-named-%s' % (i.name, kind), i.fn, dict(c, named=kind, maxedges=min(3, c.get('maxedges', 3))), i.tier, ', '.join(x for x in (i.bounds, 'names of several types' if kind == 'mixed' else 'names are strings') if x)))
    names = [i.name for i in insts]
    assert len(set(names)) == len(names), names
    return m, insts


_funcs = None
_INST = None


def _init():
    global _funcs
    try:
        import ctypes, signal
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # die with the parent
    except Exception:
        pass
    _funcs = ex.Functions()


def _task(idx, prefix, seconds, deadline, sample):
    inst = _INST[idx]
    try:
        r = ex.explore(inst.fn, inst.cfg, prefix, seconds, deadline, sample=sample)
    except BaseException as e:
        r = {'crash': ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-2000:]}
    r['functions'] = sorted(_funcs.take()) if _funcs else []
    return idx, r


def jsonable(v):
    from fractions import Fraction
    if isinstance(v, Fraction):
        return '%d/%d' % (v.numerator, v.denominator)
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    return v


def unjson(v):
    from fractions import Fraction
    if isinstance(v, str) and '/' in v:
        return Fraction(v)
    return v


def known_findings(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k['property'] == pid and k.get('status') == 'known']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('SYMX_JOBS', '0')) or min(8, os.cpu_count() or 1))
    ap.add_argument('--budget', type=float)
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    pid = a.property
    env.load()
    sys.path.insert(0, HERE)
    mod, insts = load_property(pid)
    if a.replay:
        d = json.load(open(a.replay))
        inst = [i for i in insts if i.name == d['instance']][0]
        s, detail = ex.replay(inst.fn, inst.cfg, {k: unjson(v) for k, v in d['values'].items()})
        print('%s: instance %s: %s %s' % (pid, inst.name, s, detail))
        sys.exit(1 if s in ('violated', 'hang') else 0)
    if a.only:
        import fnmatch
        insts = [i for i in insts if fnmatch.fnmatch(i.name, a.only)]
    elif a.tier == 'quick':
        insts = [i for i in insts if i.tier == 'quick']
    global _INST
    _INST = insts
    kf = known_findings(pid)
    kf_by_inst = collections.defaultdict(list)
    for k in kf:
        kf_by_inst[k['instance']].append(k)
    deadline = t0 + (a.budget or BUDGET[a.tier])
    seed = int(os.environ.get('VERIF_SEED', '1'))
    agg = [collections.Counter() for _ in insts]
    sol = [0.0] * len(insts)
    viol, errors, incon, left = [], [], collections.Counter(), collections.Counter()
    samples, funcs = [], set()
    finished = collections.Counter()
    crash = None
    queue = collections.deque((i, []) for i in range(len(insts)))
    stopped = set()
    first = set()
    pool = cf.ProcessPoolExecutor(a.jobs, mp_context=mp.get_context('fork'), initializer=_init)
    pending = set()
    busy = collections.Counter()
    try:
        while queue or pending:
            while queue and len(pending) < a.jobs:
                i, p = queue.popleft()
                if i in stopped:
                    continue
                if time.time() > deadline:
                    left[insts[i].name] += 1
                    continue
                sm = i not in first
                first.add(i)
                # short slices while there is not enough work for everybody
                sec = 0.15 if len(queue) < a.jobs else SLICE
                pending.add(pool.submit(_task, i, p, sec, deadline, sm))
            if not pending:
                break
            done, pending = cf.wait(pending, return_when=cf.FIRST_COMPLETED)
            for f in done:
                i, r = f.result()
                funcs.update(r.get('functions', []))
                if 'crash' in r:
                    crash = (insts[i].name, r['crash'])
                    errors.append({'instance': insts[i].name, 'label': 'engine error', 'detail': r['crash']})
                    stopped.add(i)
                    continue
                s = dict(r['stats'])
                sol[i] += s.pop('solver_s')
                agg[i].update(s)
                finished[i] += r['finished_paths']
                for v in r['violations']:
                    v['instance'] = insts[i].name
                    viol.append(v)
                for e in r['errors']:
                    e['instance'] = insts[i].name
                    errors.append(e)
                for w in r['inconclusive']:
                    incon[(insts[i].name, w)] += 1
                for w in r['samples']:
                    if len(samples) < 12:
                        samples.append({'instance': insts[i].name, 'values': jsonable(w)})
                if r.get('stopped'):
                    stopped.add(i)
                for p in r['left']:
                    queue.append((i, p))
            unknown_v = [v for v in viol if not _is_known(v, kf_by_inst)]
            if len(unknown_v) >= 3:
                break
    finally:
        procs = list((pool._processes or {}).values())
        pool.shutdown(wait=False, cancel_futures=True)
        for p in procs:
            try:
                p.kill()
            except Exception:
                pass
    wall = time.time() - t0
    known_hit, new = {}, []
    for v in viol:
        k = _is_known(v, kf_by_inst)
        if k:
            known_hit[k['id']] = k
        else:
            new.append(v)
    for k in kf:
        if k['id'] in known_hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    tot = collections.Counter()
    for c in agg:
        tot.update(c)
    vac = [insts[i].name for i in range(len(insts)) if finished[i] == 0 and agg[i]['obligations'] == 0
           and insts[i].name not in left and not kf_by_inst.get(insts[i].name)]
    code = 0
    if new:
        code = 1
    elif errors:
        code = 2
    elif vac and not any(i for i, w in incon):
        code = 2
    cov = {
        'explanation': 'Bounded symbolic execution of the real code; each path condition and each obligation decided by z3.',
        'states': tot['paths'],
        'transitions': tot['branches'],
        'traces_validated_against_impl': tot['replays'],
        'samples': samples or [{'note': 'no sample'}],
        'exhaustive': not left and not incon and tot['cut'] == 0,
        'obligations_checked': tot['obligations'],
        'obligations_discharged_by_solver': tot['solver_obligations'],
        'obligations_constant_on_path': tot['trivial_obligations'],
        'solver_queries': tot['queries'],
        'solver_seconds': round(sum(sol), 3),
        'solver_unknown': tot['unknown'],
        'forks': tot['forks'],
        'paths_infeasible': tot['infeasible'],
        'paths_cut_at_bound': tot['cut'],
        'paths_inconclusive': tot['inconclusive'],
        'inconclusive_reasons': ['%s: %s (%d)' % (k[0], k[1], n) for k, n in incon.most_common(20)],
        'unexplored_prefixes': dict(left),
        'functions_encoded': sorted(funcs),
        'instances': [{'name': insts[i].name, 'bounds': insts[i].bounds, 'paths': agg[i]['paths'],
                       'obligations': agg[i]['obligations'], 'queries': agg[i]['queries'],
                       'paths_reaching_an_obligation': finished[i], 'solver_s': round(sol[i], 2)}
                      for i in range(len(insts))],
        'known_findings_seen': sorted(known_hit),
        'solver': 'z3 ' + core.z3.get_version_string(),
    }
    ev = {'property': pid, 'tier': a.tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON_ASSUMPTIONS,
          'wall_s': round(wall, 2), 'violations': len(new)}
    if not a.only and env.REPO == '/repo':
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s tier=%s instances=%d paths=%d obligations=%d (solver %d) queries=%d solver=%.1fs inconclusive=%d cut=%d unexplored=%d wall=%.1fs'
          % (pid, a.tier, len(insts), tot['paths'], tot['obligations'], tot['solver_obligations'], tot['queries'],
             sum(sol), tot['inconclusive'], tot['cut'], sum(left.values()), wall))
    if a.v:
        for c in cov['instances']:
            print('   ', c['name'], 'paths', c['paths'], 'obl', c['obligations'], 'q', c['queries'], 'solver', c['solver_s'])
    for w in cov['inconclusive_reasons']:
        print('  inconclusive:', w)
    for n, c in left.items():
        print('  not exhausted: %s (%d open prefixes)' % (n, c))
    if vac:
        print('  vacuous instances:', vac)
    for e in errors[:5]:
        print('  ENGINE-ERROR', json.dumps(jsonable(e))[:1500])
    if new:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        shown = set()
        for v in new:
            if (v['instance'], v['label']) in shown:
                continue
            shown.add((v['instance'], v['label']))
            d = {'property': pid, 'instance': v['instance'], 'label': v['label'], 'symbolic_label': v['symbolic_label'],
                 'values': jsonable(v['values']),
                 'how': 'run: /verif/check %s --replay <this file>' % pid}
            h = hashlib.sha1(json.dumps(d, sort_keys=True).encode()).hexdigest()[:8]
            path = os.path.join(HERE, 'replays', '%s-%s.json' % (pid, h))
            json.dump(d, open(path, 'w'), indent=1)
            print('  %s: %s   values=%s' % (v['instance'], v['label'], json.dumps(jsonable(v['values']))[:600]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
    sys.stdout.flush()
    os._exit(code)


def _is_known(v, kf_by_inst):
    for k in kf_by_inst.get(v['instance'], ()):
        if v['label'].startswith(k['label']):
            return k
    return None


COMMON_ASSUMPTIONS = [
    'numbers are exact (reals/unbounded integers); native float rounding is outside the claim',
    'iteration order of sets of symbolic labels is insertion order; other hash orders are outside the claim',
    'nothing is claimed outside the stated bounds of each instance',
]

if __name__ == '__main__':
    main()
