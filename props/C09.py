"""C09 aggregation over aspects."""
from .common import *
ASSUMPTIONS = ['noEdge is 0 or -1']


def agg(S, c):
    net, m = anynet(S, c)
    asp = c['over']
    tup = asp if isinstance(asp, tuple) else (asp,)
    keep = [k for k in range(m.a + 1) if k not in tup]
    proj = lambda x: tuple(x[k] for k in keep)
    se = c.get('selfEdges', False)
    kw = {'selfEdges': se} if 'selfEdges' in c else {}
    if c.get('newNet'):
        target = pymnet.MultilayerNetwork(aspects=len(keep) - 1, directed=m.directed, noEdge=m.noEdge, fullyInterconnected=m.full)
        got = pymnet.aggregate(net, asp, newNet=target, **kw)
        S.check(got is target, 'the given network is filled and returned')
    else:
        got = pymnet.aggregate(net, asp, **kw)
    r = Model(len(keep) - 1, m.directed, m.full, 'multilayer', m.noEdge)
    r.nodes = list(m.nodes)
    r.layers = [list(m.layers[k - 1]) for k in keep[1:]]
    r.nls = []
    for x in m.nls:
        if proj(x) not in r.nls:
            r.nls.append(proj(x))
    some = {}
    for x, y in m.pairs():
        p, q = proj(x), proj(y)
        if p == q and not se:
            continue
        r.put(p, q, r.w.get((p, q), 0) + m.val(x, y))
        some[p, q] = Or(some.get((p, q), False), m.has(x, y))
        if not m.directed:
            some[q, p] = some[p, q]
    if m.noEdge != 0:       # without edges to sum there is none
        for e in list(r.w):
            r.w[e] = Ite(some[e], r.w[e], m.noEdge)
    same_as(S, got, r, ' of the aggregated network')
    same_as(S, net, m, ' of the original network', edges=c.get('recheck', True))


def instances(add):
    for d in (False, True):
        s = 'dir' if d else 'undir'
        for se in (False, True):
            t = s + ('-self' if se else '')
            add('ml-' + t, agg, dict(n=2, L=[2], directed=d, over=1, selfEdges=se, self=not d, maxedges=10 if not d else 7, recheck=False),
                bounds='2 nodes, 2 layers, any intra- and inter-layer edges')
            add('ml3-' + t, agg, dict(n=3, L=[2], directed=d, over=1, selfEdges=se, self=False, allowed='intra', maxedges=7, recheck=False), bounds='3 nodes, 2 layers, intra-layer edges')
            add('mlL3-' + t, agg, dict(n=2, L=[3], directed=d, over=1, selfEdges=se, self=False, allowed='inter1', maxedges=7, recheck=False), bounds='2 nodes, 3 layers')
            add('mplex-' + t, agg, dict(kind='multiplex', couplings=['categorical'], n=3 if not d else 2, L=[2], directed=d, over=1, selfEdges=se), bounds='3 nodes, 2 layers')
        for over in (1, 2, (1, 2), (2, 1)):
            add('ml2-%s-%s' % (str(over).replace(' ', ''), s), agg, dict(n=2, L=[2, 2], directed=d, over=over, self=False, allowed=lambda x, y: x[0] != y[0], maxedges=6, recheck=False), bounds='2 nodes, 2x2 layers, 6 edges')
            add('mplex2-%s-%s' % (str(over).replace(' ', ''), s), agg, dict(kind='multiplex', couplings=['categorical', 'ordinal'], n=2, L=[2, 2], directed=d, over=over, maxedges=4), bounds='2 nodes, 2x2 layers')
        add('ml2-inter-' + s, agg, dict(n=2, L=[2, 2], directed=d, over=1, selfEdges=True, self=False, allowed=lambda x, y: x[0] == y[0] == 0, maxedges=6, recheck=False), bounds='coupling-like edges of one node, 2x2 layers')
        add('ml-nonfull-' + s, agg, dict(n=2, L=[2], directed=d, full=False, over=1, self=False, maxedges=4), bounds='any membership')
        add('ml2-nonfull-' + s, agg, dict(n=2, L=[2, 2], directed=d, full=False, always=5, over=2, self=False, maxedges=3), bounds='2 nodes, 2x2 layers')
        for i, (t, b) in enumerate(shapes(d, k=5)):
            for over in {1: [1], 2: [2, (1, 2)], 3: [(1, 3), 2, (3, 1, 2)]}[len(b['L'])]:
                add('%s-%s' % (t, str(over).replace(' ', '')), agg, dict(b, over=over, self=False, recheck=False, selfEdges=i % 2 == 0), bounds='larger networks, arbitrary weights on 5 pairs')
        add('newnet-' + s, agg, dict(n=2, L=[2], directed=d, over=1, newNet=True, self=False, maxedges=4))
        add('default-' + s, agg, dict(n=2, L=[2, 1], directed=d, over=2, self=False, maxedges=4))
    add('ml3-inter', agg, dict(n=3, L=[2], over=1, self=False, maxedges=12, recheck=False), tier='thorough')
    add('ml-L3', agg, dict(n=2, L=[3], over=1, self=False, maxedges=12, recheck=False), tier='thorough')
