"""C11 induced subnetworks."""
from .common import *
ASSUMPTIONS = ['noEdge is 0 or -1']


def pick(S, c, pool, hint):
    """A selection of k elementary layers (which may be equal or unknown to the network), or None for all."""
    if c is None:
        return None, list(pool)
    if c == 'even':             # every other one, in reverse order, or all but the first, or an unknown one too
        opts = [pool[::2][::-1], pool[1:] + [77], list(pool)]
        sel = opts[S.choice(list(range(len(opts))), hint)]
        return list(sel), [v for v in pool if v in sel]
    sel = [S.choice(list(pool) + [77], '%s%d' % (hint, i)) for i in range(c)]
    return sel, [v for v in pool if v in sel]


def sub(S, c):
    net, m = anynet(S, c)
    picks = c['pick']           # per aspect: number of labels selected, or None
    sels, keeps = [], []
    for a, k in enumerate(picks):
        pool = m.nodes if a == 0 else m.layers[a - 1]
        s, kp = pick(S, k, pool, 's%d_' % a)
        sels.append(s)
        keeps.append(kp)
    kw = {}
    if c.get('nolinks'):
        kw['nolinks'] = True
    how = c.get('newNet')
    if how == 'same':
        kw['newNet'] = pymnet.MultilayerNetwork(aspects=m.a, directed=m.directed, noEdge=m.noEdge, fullyInterconnected=m.full)
    elif how == 'mlayer':       # a multiplex network into a multilayer one
        kw['newNet'] = pymnet.MultilayerNetwork(aspects=m.a, directed=m.directed, noEdge=m.noEdge, fullyInterconnected=m.full)
    arg = c.get('arg', list)
    args = [None if s is None else arg(s) for s in sels]
    got = pymnet.subnet(net, *args, **kw)
    if 'newNet' in kw:
        S.check(got is kw['newNet'], 'the given network is filled and returned')
    kind = 'multilayer' if how == 'mlayer' else m.kind
    S.check(type(got) is (pymnet.MultiplexNetwork if kind == 'multiplex' else pymnet.MultilayerNetwork), 'type of the subnetwork')
    r = Model(m.a, m.directed, m.full, kind, m.noEdge)
    r.nodes = list(keeps[0])
    r.layers = [list(k) for k in keeps[1:]]
    r.nls = [x for x in m.nls if all(x[a] in keeps[a] for a in range(m.a + 1))]
    if not m.full and m.a:
        r.nodes = [v for v in r.nodes if any(x[0] == v for x in r.nls)]
    if not c.get('nolinks'):
        r.w = {(x, y): w for (x, y), w in m.w.items() if x in r.nls and y in r.nls}
    if kind == 'multiplex':
        r.rules = m.rules
        S.check(len(got.couplings) == len(net.couplings) and all(And(g[0] == h[0], eqt(tuple(g[1:]), tuple(h[1:]))) for g, h in zip(got.couplings, net.couplings)), 'couplings of the subnetwork')
    elif m.rules is not None and not c.get('nolinks'):
        for x, y in m.pairs():
            if x in r.nls and y in r.nls:
                r.put(x, y, m.get(x, y))
    same_as(S, got, r, ' of the subnetwork')
    if c.get('recheck', True):
        same_as(S, net, m, ' of the original network')
    # the subnetwork is independent of the original
    if c.get('mutate') and r.nls:
        x = r.nls[0]
        y = r.nls[-1] if kind != 'multiplex' else [z for z in r.nls if z[1:] == x[1:]][-1]
        if x != y:
            w = S.real('new')
            got[link(x, y)] = w
            S.check(eqt(net[link(x, y)], m.get(x, y)), 'writing to the subnetwork does not change the original')


def to_full(S, c):
    """A non-fully-interconnected network cannot be copied to a fully interconnected one."""
    net = pymnet.MultilayerNetwork(aspects=1, fullyInterconnected=False)
    net[0, 1, 2, 2] = S.weight('w', nonzero=True)
    S.raises(TypeError, lambda: pymnet.subnet(net, [0], [2], newNet=pymnet.MultilayerNetwork(aspects=1)), 'copying to a fully interconnected network is rejected')
    mp = pymnet.MultiplexNetwork('none')
    S.raises(TypeError, lambda: pymnet.subnet(pymnet.MultilayerNetwork(aspects=1), [0], [2], newNet=mp), 'copying a multilayer network to a multiplex one is rejected')
    S.raises(AssertionError, lambda: pymnet.subnet(net, [0]), 'layers must be given for every aspect')


def instances(add):
    for d in (False, True):
        s = 'dir' if d else 'undir'
        add('a0-' + s, sub, dict(n=3, directed=d, pick=[2], maxedges=6), bounds='3 nodes, selections of 2 labels, possibly unknown')
        add('a0-all-' + s, sub, dict(n=3, directed=d, pick=[None], self=False), bounds='3 nodes, all selected')
        add('a0-3-' + s, sub, dict(n=3, directed=d, pick=[3], self=False, maxedges=4, mutate=True), bounds='3 nodes, selections of 3 labels, possibly unknown')
        add('ml-%s' % s, sub, dict(n=2, L=[2], directed=d, pick=[2, 1], maxedges=5, recheck=False), bounds='2 nodes, 2 layers, 2+1 labels, possibly unknown')
        add('ml-none-%s' % s, sub, dict(n=2, L=[2], directed=d, pick=[None, 1], maxedges=6, recheck=False), bounds='2 nodes, 2 layers')
        add('ml-none2-%s' % s, sub, dict(n=2, L=[2], directed=d, pick=[1, None], self=False, maxedges=6), bounds='2 nodes, 2 layers')
        add('ml-nonfull-%s' % s, sub, dict(n=2, L=[2], directed=d, full=False, pick=[1, None], maxedges=4, recheck=False), bounds='any membership')
        add('ml-nonfull2-%s' % s, sub, dict(n=2, L=[2], directed=d, full=False, always=2, pick=[2, 1], self=False, maxedges=3, recheck=False), bounds='any membership')
        add('ml2-%s' % s, sub, dict(n=2, L=[2, 2], directed=d, pick=[None, 1, 1], self=False, maxedges=5, allowed=lambda x, y: x[1:] == y[1:] or x[0] == y[0] == 0, recheck=False), bounds='2 nodes, 2x2 layers')
        add('mplex-%s' % s, sub, dict(kind='multiplex', couplings=['categorical'], n=3, L=[2], directed=d, maxedges=4, pick=[2, 1]), bounds='3 nodes, 2 layers')
        add('mplex-all-%s' % s, sub, dict(kind='multiplex', couplings=['ordinal'], n=2, L=[3], directed=d, pick=[2, None], mutate=True), bounds='2 nodes, 3 layers')
        add('mplex-nonfull-%s' % s, sub, dict(kind='multiplex', couplings=['categorical'], n=2, L=[2], full=False, directed=d, pick=[2, None]), bounds='any membership')
        add('mplex2-%s' % s, sub, dict(kind='multiplex', couplings=['categorical', 'none'], n=2, L=[2, 2], directed=d, maxedges=4, pick=[None, 1, 1]), bounds='2 nodes, 2x2 layers')
        add('mplex2ml-%s' % s, sub, dict(kind='multiplex', couplings=['categorical'], n=2, L=[2], directed=d, pick=[None, 2], newNet='mlayer', recheck=False), bounds='2 nodes, 2 layers, copied to a multilayer network')
        add('mplex2ml-nonfull-%s' % s, sub, dict(kind='multiplex', couplings=['categorical'], n=2, L=[2], directed=d, full=False, pick=[2, None], newNet='mlayer', recheck=False), bounds='any membership, copied to a multilayer network')
        add('newnet-%s' % s, sub, dict(n=2, L=[2], directed=d, pick=[1, 2], newNet='same', self=False, maxedges=4, recheck=False))
        add('nolinks-%s' % s, sub, dict(n=2, L=[2], directed=d, pick=[2, None], nolinks=True, self=False, maxedges=4, recheck=False))
        add('nolinks-mplex-%s' % s, sub, dict(kind='multiplex', couplings=['categorical'], n=2, L=[2], directed=d, pick=[None, 2], nolinks=True, recheck=False))
    for d in (False, True):
        for i, (t, b) in enumerate(shapes(d, k=4)):
            na = len(b['L'])
            for P in {1: (['even', 'even'],), 2: (['even', None, 'even'], [None, 'even', None]), 3: ([None, 'even', None, 'even'], ['even', None, 'even', None])}[na]:
                add('%s-%s' % (t, ''.join('x' if q is None else 'e' for q in P)), sub, dict(b, pick=P, recheck=i % 2 == 0, mutate=i % 2 == 0), bounds='larger networks, arbitrary weights on 4 pairs')
        for i, (t, b) in enumerate(shapes(d, k=4, kinds='mx mxnf', aspects=(1, 2))):
            add(t + '-to-ml', sub, dict(b, pick=['even', 'even'] + [None] * (len(b['L']) - 1), newNet='mlayer', recheck=False), bounds='larger networks copied to multilayer networks')
    add('tuple', sub, dict(n=3, pick=[2], arg=tuple, self=False, maxedges=3))
    add('rejected', to_full, {})
    add('a0-4', sub, dict(n=4, pick=[3], maxedges=10), tier='thorough', bounds='4 nodes')
    add('ml-3', sub, dict(n=3, L=[2], pick=[2, 1], self=False, maxedges=9, recheck=False), tier='thorough', bounds='3 nodes, 2 layers')
    add('mplex-3', sub, dict(kind='multiplex', couplings=['categorical'], n=3, L=[2], pick=[2, 2], recheck=False), tier='thorough', bounds='3 nodes, 2 layers')
