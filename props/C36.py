"""C36 multiplex networks of Watts-Strogatz and soft random geometric graphs."""
import math
import networkx
from .common import *
from pymnet import models
ASSUMPTIONS = ['random.* give any outcome (stubs); runs needing more draws than max_draws are cut',
               'networkx.soft_random_geometric_graph is taken at its documentation (stub: any edges, positions as given or new ones)']


def layers(S, c, net, m, V):
    """the parts that all models share; returns the edge sets of the layers"""
    S.check(type(net) is pymnet.MultiplexNetwork and net.fullyInterconnected and not net.directed, 'a multiplex network')
    S.same_set(list(net), [(v, True) for v in V], 'nodes of the network')
    S.same_set(list(net.get_layers(1)), [(l, True) for l in range(len(m))], 'layers of the network')
    cp = c.get('couplings', 'none')
    S.check(net.couplings[0] == (cp if isinstance(cp, tuple) else (cp, 1.0) if cp != 'none' else ('none',)) or net.couplings[0][0] == cp, 'couplings')
    if cp != 'none' and len(m) > 1 and cp == 'categorical':
        S.check(all(net[v, v, 0, 1] == 1 for v in V), 'copies of a node are coupled')
    out = []
    for l in range(len(m)):
        E = set()
        for i in V:
            S.check(eqt(net[i, i, l], 0), 'no self-edges')
            for j in V:
                if i < j:
                    w = net[i, j, l]
                    S.check(w in (0, 1), 'edges have weight 1')
                    if w:
                        E.add((i, j))
        S.check(len(net.A[l].edges) == len(E) and len(list(net.A[l])) == len(V), 'edges and nodes of the intra-layer network')
        out.append(E)
    return out


def ws(S, c):
    n, m = c['n'], c['edges']
    V = list(range(n))
    p = S.real('p') if c.get('p') is None else c['p']
    if c.get('p') is None:
        S.assume(And(p >= 0, p <= 1))
    kw = {'couplings': c['couplings']} if 'couplings' in c else {}
    net = models.ws(n, list(m), p, **kw)
    for e, E in zip(m, layers(S, c, net, m, V)):
        if e % n == 0:
            S.check(len(E) == e, 'number of edges of a layer')
        if c.get('p') == 0 and e % n == 0:
            ring = set(tuple(sorted((v, (v + d) % n))) for v in V for d in range(1, e // n + 1))
            S.check(E == ring, 'the ring lattice')


def geo(S, c):
    n, L = c['n'], c['L']
    V = list(range(n))
    m = [S.int('m%d' % l) for l in range(L)]
    for x in m:
        S.assume(And(x >= 0, x <= n * (n - 1) // 2))
    calls = []

    def model(n, radius, dim=2, pos=None, p=2, p_dist=None, seed=None):
        G = networkx.Graph()
        G.add_nodes_from(range(n))
        new = pos is None
        pos = {v: [len(calls), v] for v in range(n)} if new else pos
        networkx.set_node_attributes(G, pos, 'pos')
        E = set((i, j) for i in range(n) for j in range(i) if S.bool('e%d_%d_%d' % (len(calls), i, j)))
        G.add_edges_from(E)
        calls.append((n, radius, dim, dict(pos), p, p_dist, set((j, i) for i, j in E)))
        return G
    real = networkx.soft_random_geometric_graph
    networkx.soft_random_geometric_graph = model
    try:
        kw = {'couplings': c['couplings']} if 'couplings' in c else {}
        net = models.geo(n, list(m), **kw)
    finally:
        networkx.soft_random_geometric_graph = real
    S.check(len(calls) == L, 'one geometric graph for each layer')
    for x, E, k in zip(m, layers(S, c, net, m, V), calls):
        S.check(E == k[6], 'edges of a layer')
        S.check(k[0] == n and k[3] == calls[0][3] and k[2] == 2 and k[4] == 2 and k[5] is None, 'the positions of the nodes are those of the first layer')
        pairs = math.pi * (k[1] * k[1]) * n * (n - 1) / 2
        S.check(And(k[1] >= 0, 10 * pairs >= 8 * x, 10 * pairs <= 12 * x), 'expected number of pairs within the radius')


def instances(add):
    for n, m, d in ((3, [3], 8), (4, [4], 8), (5, [5], 8), (4, [0], 4), (4, [4, 0], 7), (3, [2], 7)):
        add('ws-%d-%s' % (n, '+'.join(map(str, m))), ws, dict(n=n, edges=m, max_draws=d), bounds='%d nodes, %s edges, any probability, at most %d draws' % (n, m, d))
    add('ws-couple', ws, dict(n=3, edges=[3, 3], couplings='categorical', max_draws=8), bounds='3 nodes, two layers, at most 8 draws')
    add('ws-rewire', ws, dict(n=4, edges=[4], p=1, max_draws=9), bounds='4 nodes, 4 edges, every edge rewired, at most 9 draws')
    add('ws-rewire-5', ws, dict(n=5, edges=[5], p=1, max_draws=11), tier='thorough', bounds='5 nodes, 5 edges, every edge rewired, at most 11 draws')
    for n, m in ((5, [5, 10]), (6, [6, 12]), (7, [7, 14, 21]), (6, [7, 5, 3, 0]), (9, [18, 9, 27])):
        add('ws-ring-%d' % n + '-%d' % m[0], ws, dict(n=n, edges=m, p=0, couplings='categorical', max_draws=60), bounds='%d nodes, %s edges, no rewiring' % (n, m))
    add('geo-3x1', geo, dict(n=3, L=1), bounds='3 nodes, any number of edges')
    add('geo-3x2', geo, dict(n=3, L=2, couplings='categorical'), bounds='3 nodes, 2 layers, any numbers of edges')
    add('geo-2x3', geo, dict(n=2, L=3), bounds='2 nodes, 3 layers, any numbers of edges')
    add('geo-4x1', geo, dict(n=4, L=1), bounds='4 nodes, any number of edges')
    add('geo-4x2', geo, dict(n=4, L=2), tier='thorough', bounds='4 nodes, 2 layers, any numbers of edges')
