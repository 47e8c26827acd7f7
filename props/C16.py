"""C16 degree distributions, densities and overlap degrees."""
from .common import *
from pymnet import diagnostics
ASSUMPTIONS = ['noEdge is 0 or -1', 'densities: no self-edges', 'overlap degrees: unweighted networks (every edge has weight 1)']


def deg_of(m, x, pool):
    return Sum([B2I(Or(m.has(x, y), m.has(y, x)) if m.directed else m.has(x, y)) for y in pool])


def degrees(S, c):
    net, m = anynet(S, c)
    nm = lambda x: x if m.a else x[0]
    nd = pymnet.degs(net, degstype='nodes')
    S.same_set(list(nd), [(nm(x), True) for x in m.nls], 'degs gives a degree to each node-layer')
    for x in m.nls:
        S.check(eqt(nd[nm(x)], deg_of(m, x, m.nls)), 'degree of a node-layer')
    hist(S, pymnet.degs(net), [deg_of(m, x, m.nls) for x in m.nls], 'degree distribution')
    S.raises(Exception, lambda: pymnet.degs(net, degstype='other'), 'an unknown degstype is rejected')


def hist(S, got, degs, tag):
    S.check(eqt(Sum(list(got.values())), len(degs)), 'total of the ' + tag)
    for k, v in got.items():
        S.check(And(eqt(v, Sum([B2I(eqt(d, k)) for d in degs])), v > 0), tag)


def mplex(S, c):
    net, m = anynet(S, c)
    nd, dd, den = pymnet.multiplex_degs(net, degstype='nodes'), pymnet.multiplex_degs(net), pymnet.multiplex_density(net)
    combos = [key(l) for l in m.combos()]
    for what, r in (('node degrees', nd), ('degree distributions', dd), ('densities', den)):
        S.same_set(list(r), [(l, True) for l in combos], 'one entry per layer in ' + what)
    for l in m.combos():
        pool = [x for x in m.nls if x[1:] == l]
        S.same_set(list(nd[key(l)]), [(x[0], True) for x in pool], 'nodes of a layer in the degrees')
        for x in pool:
            S.check(eqt(nd[key(l)][x[0]], deg_of(m, x, pool)), 'intra-layer degree')
        hist(S, dd[key(l)], [deg_of(m, x, pool) for x in pool], 'intra-layer degree distribution')
        E = Sum([B2I(m.has(x, y)) for x, y in m.pairs() if x in pool and y in pool])
        S.check(eqt(den[key(l)] * possible(m, len(pool)), E), 'intra-layer density is edges over possible edges')


def possible(m, n):
    return n * (n - 1) if m.directed else n * (n - 1) // 2


def dens(S, c):
    net, m = anynet(S, c)
    d = pymnet.density(net)
    E = Sum([B2I(m.has(x, y)) for x, y in m.pairs()])
    S.check(And(d >= 0, d <= 1), 'density is between 0 and 1')
    if possible(m, len(m.nls)):
        S.check(eqt(d * possible(m, len(m.nls)), E), 'density is edges over possible edges')


def overlap(S, c):
    net, m = anynet(S, c)
    got = diagnostics.overlap_degs(net)
    L = m.layers[0]
    combos = [frozenset(x) for k in range(1, len(L) + 1) for x in itertools.combinations(L, k)]
    S.check(len(got) == len(combos) and set(frozenset(k) for k in got) == set(combos), 'one entry for each combination of layers')
    for k, d in got.items():
        V = [v for v in m.nodes if any((v, l) in m.nls for l in k)]
        S.same_set(list(d), [(v, True) for v in V], 'nodes of a layer combination')
        shared = lambda i, j: And([Iff(m.has((i, l), (j, l)), l in k) for l in L])
        for i in V:
            want = Sum([B2I(Or(shared(i, j), shared(j, i)) if m.directed else shared(i, j)) for j in m.nodes if j != i])
            S.check(eqt(d[i], want), 'overlap degree counts the links in exactly these layers')
    same_as(S, net, m, ' of the original network')


def instances(add):
    for d in (False, True):
        s = 'dir' if d else 'undir'
        add('degs-a0-' + s, degrees, dict(n=3, directed=d, maxedges=6, flip=True), bounds='3 nodes, self-edges')
        add('degs-ml-' + s, degrees, dict(n=2, L=[2], directed=d, self=False, maxedges=6), bounds='2 nodes, 2 layers')
        add('degs-nonfull-' + s, degrees, dict(n=2, L=[2], directed=d, full=False, maxedges=3), bounds='any membership')
        add('degs-mplex-' + s, degrees, dict(kind='multiplex', couplings=['categorical'], n=3 if not d else 2, L=[2], directed=d), bounds='3 nodes, 2 layers')
        add('degs-mplex-nonfull-' + s, degrees, dict(kind='multiplex', couplings=['categorical'], n=2, L=[2], directed=d, full=False), bounds='any membership')
        add('mplex-' + s, mplex, dict(kind='multiplex', couplings=['categorical'], n=3 if not d else 2, L=[2], directed=d), bounds='3 nodes, 2 layers')
        add('mplex-n3-' + s, mplex, dict(kind='multiplex', couplings=['none'], n=3, L=[1], directed=d), bounds='3 nodes, 1 layer')
        add('mplex-nonfull-' + s, mplex, dict(kind='multiplex', couplings=['ordinal'], n=2, L=[2], directed=d, full=False), bounds='any membership')
        add('mplex-nonfull3-' + s, mplex, dict(kind='multiplex', couplings=['ordinal'], n=3, L=[1], directed=d, full=False), bounds='any membership')
        add('mplex12-' + s, mplex, dict(kind='multiplex', couplings=['categorical', 'none'], n=2, L=[1, 3], directed=d, maxedges=3))
        add('mplex2-' + s, mplex, dict(kind='multiplex', couplings=['categorical', 'none'], n=2, L=[2, 2], directed=d, maxedges=4))
        add('density-a0-' + s, dens, dict(n=3, directed=d, self=False, flip=True), bounds='3 nodes')
        add('density-ml-' + s, dens, dict(n=2, L=[2], directed=d, self=False, maxedges=7), bounds='2 nodes, 2 layers')
        add('density-ml2-' + s, dens, dict(n=1, L=[2, 2], directed=d, self=False, maxedges=6), bounds='1 node, 2x2 layers')
        add('density-ml12-' + s, dens, dict(n=2, L=[1, 2], directed=d, self=False, maxedges=3), bounds='2 nodes, 1x2 layers')
        add('density-ml31-' + s, dens, dict(n=1, L=[3, 1], directed=d, self=False, maxedges=3), bounds='1 node, 3x1 layers')
        add('density-nonfull2-' + s, dens, dict(n=1, L=[1, 3], directed=d, full=False, self=False, maxedges=3), bounds='any membership')
        add('density-nonfull-' + s, dens, dict(n=2, L=[2], directed=d, full=False, self=False, maxedges=4), bounds='any membership')
        add('density-mplex-' + s, dens, dict(kind='multiplex', couplings=['categorical'], n=2, L=[2], directed=d))
        for n in (0, 1):
            add('density-n%d-%s' % (n, s), dens, dict(n=n, directed=d, self=False))
        add('overlap-' + s, overlap, dict(kind='multiplex', couplings=['categorical'], n=2, L=[3], directed=d, values=[0, 1]), bounds='2 nodes, 3 layers, unweighted')
        add('overlap-n3-' + s, overlap, dict(kind='multiplex', couplings=['none'], n=3, L=[2], directed=d, maxedges=6, values=[0, 1]), bounds='3 nodes, 2 layers, unweighted')
        for i, (t, b) in enumerate(shapes(d, k=6)):
            add('degs-' + t, degrees, b, bounds='larger networks, arbitrary weights on 6 pairs')
            if 'mx' in t:
                add('mplex-' + t, mplex, b, bounds='larger networks, arbitrary weights on 6 pairs')
            add('density-' + t, dens, dict(b, self=False), bounds='larger networks, arbitrary weights on 6 pairs')
        for i, (t, b) in enumerate(shapes(d, k=6, kinds='mx mxnf', aspects=(1,))):
            add('overlap-' + t, overlap, dict(b, values=[0, 1]), bounds='larger networks, unweighted, 6 pairs')
    add('overlap-nonfull', overlap, dict(kind='multiplex', couplings=['none'], n=2, L=[2], full=False, values=[0, 1]), bounds='any membership')
    add('degs-a0-n4', degrees, dict(n=4, self=False), tier='thorough')
    add('overlap-big', overlap, dict(kind='multiplex', couplings=['categorical'], n=3, L=[3], values=[0, 1]), tier='thorough', bounds='3 nodes, 3 layers, unweighted')
