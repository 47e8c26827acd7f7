"""C08 supra-adjacency matrix."""
from .common import *
ASSUMPTIONS = ['numpy.zeros is given dtype object under symbolic weights']


def matrix(S, c):
    net, m = anynet(S, c)
    for fn in (lambda **k: net.get_supra_adjacency_matrix(**k), lambda **k: pymnet.supra_adjacency_matrix(net, **k)):
        for inc in (True, False):
            M, order = fn(includeCouplings=inc)
            tup = [(o,) for o in order] if m.a == 0 else [tuple(o) for o in order]
            S.check(len(set(tup)) == len(tup), 'each node-layer is listed once')
            if m.full:
                S.check(set(tup) == set(m.nls), 'exactly the node-layers are listed')
            else:
                S.check(set(tup) >= set(m.nls), 'all node-layers are listed')
            S.check(tuple(M.shape) == (len(tup), len(tup)), 'the matrix is square over the listed node-layers')
            for i, x in enumerate(tup):
                for j, y in enumerate(tup):
                    w = m.val(x, y) if inc or x[1:] == y[1:] else 0
                    S.check(eqt(M[i, j], w), 'entry (i,j) is the weight of the edge from the ith to the jth node-layer')
        M1, o1 = fn()
        S.check([tuple(o) if m.a else o for o in o1] == [tuple(o) if m.a else o for o in order], 'couplings are included by default, in the same order')
        M, order = fn(includeCouplings=True)
        S.check(And([eqt(M[i, j], M1[i, j]) for i in range(len(order)) for j in range(len(order))]), 'couplings are included by default')
    same_as(S, net, m, ' (network unchanged)', edges=False)


def labels(S, c):
    """arbitrary labels: the order of the list is the order of rows and columns"""
    a = c['a']
    net = pymnet.MultilayerNetwork(aspects=a, directed=True)
    ref = EdgeHist(0, True)
    for k in range(c['k']):
        x, y = nl(S, a, 'x%d' % k), nl(S, a, 'y%d' % k)
        w = S.real('w%d' % k)
        S.assume(Not(eqt(w, 0)))
        net[link(x, y)] = w
        ref.set(x, y, w)
    M, order = net.get_supra_adjacency_matrix()
    tup = [(o,) for o in order] if a == 0 else [tuple(o) for o in order]
    S.check(Distinct(tup) if a == 0 else And([Not(eqt(tup[i], tup[j])) for i in range(len(tup)) for j in range(i)]), 'each node-layer is listed once')
    for e in ref.endpoints():
        S.check(In(e, tup), 'all node-layers are listed')
    for i, x in enumerate(tup):
        for j, y in enumerate(tup):
            S.check(eqt(M[i, j], ref.get(x, y)), 'entry (i,j) is the weight of the edge from the ith to the jth node-layer')


def instances(add):
    for d in (False, True):
        s = 'dir' if d else 'undir'
        add('mono-' + s, matrix, dict(n=3 if not d else 2, directed=d), bounds='3 nodes (2 directed), self-edges')
        add('mono3-' + s, matrix, dict(n=3, directed=d, self=False), bounds='3 nodes')
        add('ml-' + s, matrix, dict(n=2, L=[2], directed=d, self=not d, maxedges=10 if not d else 9), bounds='2 nodes, 2 layers, inter-layer edges')
        add('ml-nonfull-' + s, matrix, dict(n=2, L=[2], directed=d, full=False, self=False, maxedges=4), bounds='2 nodes, 2 layers, any membership')
        add('ml2-' + s, matrix, dict(n=2, L=[2, 2], directed=d, self=False, allowed=lambda x, y: x[0] != y[0], maxedges=5), bounds='2 nodes, 2x2 layers')
        add('mplex-' + s, matrix, dict(kind='multiplex', couplings=['categorical'], n=3 if not d else 2, L=[2], directed=d), bounds='3 nodes (2 directed), 2 layers')
        add('mplex-ord-' + s, matrix, dict(kind='multiplex', couplings=['ordinal'], n=2, L=[3], directed=d), bounds='2 nodes, 3 layers')
        add('mplex2-' + s, matrix, dict(kind='multiplex', couplings=['categorical', 'ordinal'], n=2, L=[2, 2], directed=d, maxedges=4), bounds='2 nodes, 2x2 layers')
        add('mplex-nonfull-' + s, matrix, dict(kind='multiplex', couplings=['categorical'], n=2, L=[2], directed=d, full=False), bounds='2 nodes, 2 layers, any membership')
        for t, b in shapes(d, k=6):
            add(t, matrix, b, bounds='larger networks, arbitrary weights on 6 pairs')
    add('labels-a0', labels, dict(a=0, k=2), bounds='any 2 edges with any labels')
    add('labels-a1', labels, dict(a=1, k=1), bounds='any edge with any labels')
    add('labels-a1-k2', labels, dict(a=1, k=2), tier='thorough')
    add('ml-3-undir', matrix, dict(n=3, L=[2], self=False, maxedges=12), tier='thorough')
