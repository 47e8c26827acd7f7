"""C17 shortest paths."""
from .common import *
from pymnet import diagnostics
ASSUMPTIONS = ['edge weights are positive', 'noEdge is 0 or -1']


def certified(S, m, d, srcs, tag):
    """d is the table of shortest distances from srcs over the positive edge weights of m."""
    for s in srcs:
        S.check(s in d and eqt(d[s], 0), 'distance of a source is 0' + tag)
    for v in d:
        S.check(v in m.nls, 'only node-layers of the network get a distance' + tag)
    for u in d:
        for v in m.nls:
            if u != v:
                e, w = m.has(u, v), m.get(u, v)
                S.check(Implies(e, And(v in d, (d[v] <= d[u] + w) if v in d else False)), 'no path is shorter than the distance' + tag)
    for v in d:
        if v not in srcs:
            S.check(Or([And(m.has(u, v), eqt(d[v], d[u] + m.get(u, v))) for u in d if u != v]), 'the distance is that of a path' + tag)


def tight(m, d, u, v):
    return And(m.has(u, v), eqt(d[v], d[u] + m.get(u, v)))


def dij(S, c):
    net, m = anynet(S, c)
    nm = (lambda x: x) if m.a else (lambda x: x[0])
    srcs = [m.nls[i] for i in c['src']]
    arg = [nm(s) for s in srcs]
    if c.get('gen'):
        arg = (x for x in list(arg))
    d, forest = diagnostics.dijkstra(net, arg)
    d = {(x if m.a else (x,)): v for x, v in d.items()}
    certified(S, m, d, srcs, '')
    S.check(forest.aspects == m.a and forest.directed, 'the forest is a directed network with the same aspects')
    check_forest(S, m, d, srcs, forest, lambda u, v: True, '')
    same_as(S, net, m, ' of the original network')


def check_forest(S, m, d, srcs, forest, inside, tag):
    rd = lambda u, v: forest[link(u, v)]
    for u in d:
        for v in d:
            if u == v:
                continue
            t = And(tight(m, d, u, v), inside(u, v))
            S.check(Implies(t, eqt(rd(u, v), m.get(u, v))), 'each shortest-path edge is in the forest with its weight' + tag)
            S.check(Implies(Not(t), eqt(rd(u, v), -1)), 'the forest has no other edges' + tag)
    for e in forest.edges:
        x, y = tuple(e[0:-1:2]), tuple(e[1:-1:2])
        S.check(x in d and y in d and (x != y or x in srcs), 'forest edges are between reached node-layers' + tag)


def prune(S, c):
    net, m = anynet(S, c)
    asp = c['aspects']
    pools = [m.nodes] + m.layers
    src = []
    for s in c['src']:
        s = tuple(None if a in asp else pools[a][s] for a in range(m.a + 1))
        src.append(s)
    nd, nf = diagnostics.dijkstra_mlayer_prune(net, list(src), list(asp))
    d, forest = None, None
    real = [x for x in m.nls if any(all(s[a] is None or s[a] == x[a] for a in range(m.a + 1)) for s in src)]
    # sources without any edge are left out
    srcs = [x for x in real if bool(Or([Or(m.has(x, y), m.has(y, x)) for y in m.nls]))]
    proj = lambda x: tuple(v for a, v in enumerate(x) if a not in asp)
    # reference distances by relaxation over all node-layers
    INF = 10 ** 6
    D = {x: (0 if x in srcs else None) for x in m.nls}
    for _ in range(len(m.nls)):
        for u in m.nls:
            for v in m.nls:
                if u != v and D[u] is not None and bool(m.has(u, v)):
                    nv = D[u] + m.get(u, v)
                    if D[v] is None or bool(nv < D[v]):
                        D[v] = nv
    reach = {x: v for x, v in D.items() if v is not None}
    want = {}
    for x, v in reach.items():
        want.setdefault(proj(x), []).append(v)
    S.check(set(nd) == set(want), 'every reachable projected node gets a distance')
    for k, vs in want.items():
        S.check(And([nd[k] <= v for v in vs] + [Or([eqt(nd[k], v) for v in vs])]), 'pruned distance is the smallest over the pruned aspects')
    # edges on shortest paths to the best node-layers
    keep = set(x for x, v in reach.items() if bool(eqt(v, nd[proj(x)])))
    grow = True
    while grow:
        grow = False
        for u in reach:
            for v in list(keep):
                if u not in keep and u != v and bool(tight(m, reach, u, v)):
                    keep.add(u)
                    grow = True
    check_forest(S, m, reach, srcs, nf, lambda u, v: v in keep, ' after pruning')


def instances(add):
    P = dict(positive=True)
    for d in (False, True):
        s = 'dir' if d else 'undir'
        add('a0-' + s, dij, dict(P, n=3, directed=d, self=False, src=[0]), bounds='3 nodes, any positive weights')
        add('a0-two-' + s, dij, dict(P, n=3, directed=d, self=False, src=[0, 1], maxedges=5), bounds='3 nodes, 2 sources')
        add('a0-self-' + s, dij, dict(P, n=2, directed=d, src=[0]), bounds='2 nodes with self-edges')
        add('a0-gen-' + s, dij, dict(P, n=2, directed=d, self=False, src=[0], gen=True), bounds='sources given as an iterator')
        add('ml-' + s, dij, dict(P, n=2, L=[2], directed=d, self=False, src=[0], maxedges=5), bounds='2 nodes, 2 layers')
        add('nonfull-' + s, dij, dict(P, n=2, L=[2], directed=d, full=False, always=1, self=False, src=[0], maxedges=3), bounds='any membership')
        add('prune-' + s, prune, dict(P, n=2, L=[2], directed=d, self=False, src=[0], aspects=[1], maxedges=4), bounds='2 nodes, 2 layers, pruned over layers')
        add('prune-node-' + s, prune, dict(P, n=2, L=[2], directed=d, self=False, src=[0], aspects=[0], maxedges=3), bounds='2 nodes, 2 layers, pruned over nodes')
        add('prune-two-' + s, prune, dict(P, n=3, L=[2], directed=d, self=False, src=[0, 1], aspects=[1], allowed='intra', maxedges=4), bounds='3 nodes, 2 layers, 2 sources')
        for i, (t, b) in enumerate(shapes(d, k=5, kinds='ml nf mx')):
            na = len(b['L'])
            cp = {} if 'mx' not in t else dict(couplings=['none'] * (na - 1) + ['ordinal'], n=2, L=[2] * (na > 1) * (na - 1) + [2], some=(3, 7 + i))
            add('dij-' + t, dij, dict(P, **dict(b, self=False, src=[0, 1][:1 + i % 2], **{})) if not cp else dict(P, **dict(b, src=[0], **cp)), bounds='larger networks, any positive weights on 5 pairs')
            if not cp:
                add('prune-' + t, prune, dict(P, **dict(b, self=False, some=(4, 3 + i), src=[0], aspects=[[1], [0], [na]][i % 3])), bounds='larger networks, any positive weights on 4 pairs')
    add('a0-4', dij, dict(P, n=4, self=False, src=[0], maxedges=5), bounds='4 nodes, 5 edges')
    add('mplex', dij, dict(P, kind='multiplex', couplings=['none'], n=3, L=[1], src=[0]))
    add('a0-4-full', dij, dict(P, n=4, self=False, src=[0]), tier='thorough', bounds='4 nodes, any positive weights')
    add('ml-full', dij, dict(P, n=2, L=[2], self=False, src=[1]), tier='thorough', bounds='2 nodes, 2 layers, any positive weights')
    add('prune-full', prune, dict(P, n=2, L=[2], self=False, src=[0], aspects=[1]), tier='thorough', bounds='2 nodes, 2 layers')
