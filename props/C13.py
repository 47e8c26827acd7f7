"""C13 thresholding."""
from .common import *
ASSUMPTIONS = ['noEdge is 0 or -1']
OPS = {'>=': lambda w, t: w >= t, '<=': lambda w, t: w <= t, '>': lambda w, t: w > t, '<': lambda w, t: w < t}


def thr(S, c):
    net, m = anynet(S, c)
    t = S.real('t')
    meth = c.get('method')
    if meth is None:
        got = transforms.threshold(net, t)
        meth = '>='
    else:
        got = transforms.threshold(net, t, method=meth)
    nocoup = m.kind == 'multiplex' and all(k == 'none' for k, w in m.rules)
    S.check(type(got) is (pymnet.MultiplexNetwork if nocoup else pymnet.MultilayerNetwork), 'type of the thresholded network')
    r = Model(m.a, m.directed, m.full, 'multilayer', m.noEdge)
    r.nodes, r.layers, r.nls = list(m.nodes), [list(l) for l in m.layers], list(m.nls)
    for x, y in m.pairs():
        w = m.get(x, y)
        # written with not/or so that it is independent of the order of comparisons
        keep = {'>=': Not(w < t), '<=': Not(w > t), '>': And(Not(w < t), Not(eqt(w, t))), '<': And(Not(w > t), Not(eqt(w, t)))}[meth]
        r.put(x, y, Ite(keep, w, m.noEdge))
    if nocoup:
        r.rules = m.rules
        r.kind = 'multiplex'
    same_as(S, got, r, ' of the thresholded network')
    if c.get('recheck', True):
        same_as(S, net, m, ' of the original network')


def bad(S, c):
    net = pymnet.MultilayerNetwork(aspects=c['a'])
    net[tuple([0, 1] + [2, 2] * c['a'])] = S.weight('w', nonzero=True)
    S.raises(Exception, lambda: transforms.threshold(net, S.real('t'), method='=='), 'an unknown method is rejected')


def instances(add):
    for i, meth in enumerate(['>=', '<=', '>', '<', None]):
        nm = {'>=': 'ge', '<=': 'le', '>': 'gt', '<': 'lt', None: 'default'}[meth]
        for d in (False, True):
            s = '%s-%s' % (nm, 'dir' if d else 'undir')
            add('a0-' + s, thr, dict(n=3, directed=d, method=meth, maxedges=4, flip=True, recheck=False), bounds='3 nodes, any threshold')
            add('ml-' + s, thr, dict(n=2, L=[2], directed=d, method=meth, self=False, maxedges=4, recheck=i == 0), bounds='2 nodes, 2 layers, any threshold')
            add('mplex-none-' + s, thr, dict(kind='multiplex', couplings=['none'], n=3 if not d else 2, L=[2], directed=d, method=meth, maxedges=4, recheck=i == 0), bounds='3 nodes, 2 layers')
            add('mplex-' + s, thr, dict(kind='multiplex', couplings=['categorical'], n=2, L=[2], directed=d, method=meth, recheck=i == 0), bounds='2 nodes, 2 layers, coupling edges thresholded too')
            add('nonfull-' + s, thr, dict(n=2, L=[2], full=False, directed=d, method=meth, self=False, maxedges=2, recheck=False), bounds='any membership')
            add('mplex-nonfull-' + s, thr, dict(kind='multiplex', couplings=['none'], n=2, L=[2], full=False, directed=d, method=meth, recheck=False), bounds='any membership')
    add('ml2', thr, dict(n=2, L=[2, 2], method='>=', self=False, maxedges=4, recheck=False))
    add('mplex2', thr, dict(kind='multiplex', couplings=['none', 'none'], n=2, L=[2, 2], method='<'))
    add('mplex2-half', thr, dict(kind='multiplex', couplings=['none', 'categorical'], n=2, L=[2, 2], maxedges=2, method='>'))
    for i, (cp, L) in enumerate(((['categorical', 'none'], [2, 1]), (['none', 'ordinal'], [1, 2]), (['none', 'none'], [1, 2]), (['ordinal', 'categorical'], [2, 2]))):
        for meth in ('>=', '<'):
            for d in (False, True):
                add('mplex2-%s-%d-%s' % ('ge' if meth == '>=' else 'lt', i, d), thr, dict(kind='multiplex', couplings=cp, n=2, L=L, maxedges=2, method=meth, directed=d, recheck=False))
    for d in (False, True):
        for i, (t, b) in enumerate(shapes(d, k=3)):
            add(t, thr, dict(b, method=['>=', '<', '<=', '>'][(i + d) % 4], recheck=i % 3 == 0), bounds='larger networks, arbitrary weights on 3 pairs, any threshold')
            if 'mx' in t:
                add(t + '-none', thr, dict(b, couplings=['none'] * len(b['L']), method=['>', '>=', '<', '<='][(i + d) % 4], recheck=i % 3 == 1), bounds='larger networks, arbitrary weights on 3 pairs, any threshold')
    for a in (0, 1):
        add('unknown-method-%d' % a, bad, dict(a=a))
    add('a0-big', thr, dict(n=4, method='>=', self=True, maxedges=9, recheck=False), tier='thorough')
    add('ml-big', thr, dict(n=2, L=[2], method='<=', maxedges=10, recheck=False), tier='thorough')
