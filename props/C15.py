"""C15 subnetwork enumeration and the underlying graph."""
from .common import *
ASSUMPTIONS = ['noEdge is 0 or -1', 'edges of subnet_iter networks: which exist is decided per path, weights are arbitrary and nonzero']


def subsets(seq, nonempty):
    seq = list(seq)
    for k in range(1 if nonempty else 0, len(seq) + 1):
        for x in itertools.combinations(seq, k):
            yield x


def subs(S, c):
    net, m = anynet(S, c)
    rem, redges = c.get('remove', []), c.get('edges', True)
    kw = {}
    if rem or c.get('explicit'):
        kw['remove_elayers'] = rem
    if not redges or c.get('explicit'):
        kw['remove_edges'] = redges
    got = list(transforms.subnet_iter(net, **kw))
    # which edges exist on this path
    E = [(x, y) for x, y in m.pairs() if ((x, y) in m.w) and bool(m.has(x, y))]
    pools = [m.nodes] + m.layers
    want = []
    for sel in itertools.product(*[list(subsets(p, True)) if a in rem else [tuple(p)] for a, p in enumerate(pools)]):
        nls = [x for x in m.nls if all(x[a] in sel[a] for a in range(m.a + 1))]
        es = [e for e in E if e[0] in nls and e[1] in nls]
        for ch in (subsets(es, False) if redges else [tuple(es)]):
            r = Model(m.a, m.directed, m.full, m.kind, m.noEdge)
            r.layers = [list(sel[k + 1]) for k in range(m.a)]
            r.nls = nls
            r.nodes = list(sel[0])
            if not m.full and m.a:
                r.nodes = [v for v in r.nodes if any(x[0] == v for x in nls)]
            r.rules = m.rules
            for x, y in ch:
                r.put(x, y, m.w[x, y])
            want.append(r)
    S.check(len(got) == len(want), 'number of subnetworks')
    left = list(got)
    for r in want:
        hit = None
        for g in left:
            if set(g) != set(r.nodes) or any(set(g.get_layers(k + 1)) != set(r.layers[k]) for k in range(m.a)):
                continue
            present = all((bool(Not(eqt(g[link(x, y)], m.noEdge))) == ((x, y) in r.w)) for x, y in r.pairs() if r.rules is None or x[1:] == y[1:])
            if present:
                hit = g
                break
        S.check(hit is not None, 'every subnetwork is yielded')
        left.remove(hit) if hit is None else left.pop([i for i, g in enumerate(left) if g is hit][0])
        same_as(S, hit, r, ' of a yielded subnetwork')
        S.check(type(hit) is type(net), 'type of a yielded subnetwork')
    S.check(not left, 'nothing else is yielded')
    same_as(S, net, m, ' of the original network')


def under(S, c):
    net, m = anynet(S, c)
    got = transforms.get_underlying_graph(net)
    S.check(got.aspects == 0 and bool(got.directed) == m.directed, 'kind of the underlying graph')
    # the underlying graph has one node, named after it, for each node-layer
    nm = lambda x: str(x) if m.a else str(x)
    S.same_set(list(got), [(nm(x), True) for x in m.nls], 'nodes of the underlying graph')
    for x in m.nls:
        for y in m.nls:
            S.check(eqt(got[nm(x), nm(y)], m.get(x, y)), 'edge weights of the underlying graph')
    S.check(eqt(len(got.edges), Sum([B2I(m.has(x, y)) for x, y in m.pairs()])), 'number of edges of the underlying graph')
    same_as(S, net, m, ' of the original network')


def instances(add):
    for d in (False, True):
        s = 'dir' if d else 'undir'
        add('edges-a0-' + s, subs, dict(n=3, directed=d, self=False, maxedges=3), bounds='3 nodes, up to 3 edges')
        add('self-a0-' + s, subs, dict(n=2, directed=d, maxedges=3), bounds='2 nodes with self-edges')
        add('nodes-a0-' + s, subs, dict(n=3, directed=d, self=False, maxedges=3, remove=[0], edges=False), bounds='3 nodes, induced')
        add('both-a0-' + s, subs, dict(n=3, directed=d, self=False, maxedges=2, remove=[0]), bounds='3 nodes')
        add('ml-' + s, subs, dict(n=2, L=[2], directed=d, self=False, maxedges=3, remove=[1], allowed='all'), bounds='2 nodes, 2 layers, 3 edges')
        add('ml-nodes-' + s, subs, dict(n=2, L=[2], directed=d, self=False, maxedges=3, remove=[0, 1], edges=False), bounds='2 nodes, 2 layers, 3 edges')
        add('ml-nonfull-' + s, subs, dict(n=2, L=[2], directed=d, full=False, always=2, self=False, maxedges=2, remove=[1]), bounds='any membership')
        add('mplex-' + s, subs, dict(kind='multiplex', couplings=['categorical'], n=2, L=[2], directed=d, maxedges=2, remove=[1]), bounds='2 nodes, 2 layers')
        add('mplex-nodes-' + s, subs, dict(kind='multiplex', couplings=['categorical'], n=3, L=[1], directed=d, maxedges=2, remove=[0, 1], edges=True, explicit=True), bounds='3 nodes, 1 layer')
        add('mplex-none-' + s, subs, dict(kind='multiplex', couplings=['none'], n=2, L=[2], directed=d, maxedges=2, edges=True, explicit=True))
        add('under-ml-' + s, under, dict(n=2, L=[2], directed=d, self=not d, maxedges=8), bounds='2 nodes, 2 layers')
        add('under-nonfull-' + s, under, dict(n=2, L=[2], directed=d, full=False, self=False, maxedges=3), bounds='any membership')
        add('under-mplex-' + s, under, dict(kind='multiplex', couplings=['categorical'], n=2, L=[2], directed=d), bounds='2 nodes, 2 layers')
        add('under-ml2-' + s, under, dict(n=2, L=[2, 2], directed=d, self=False, maxedges=4), bounds='2 nodes, 2x2 layers')
    for d in (False, True):
        for i, (t, b) in enumerate(shapes(d, k=3, free=1)):
            na = len(b['L'])
            add('under-' + t, under, dict(b, some=(5, 5 + i)), bounds='larger networks, arbitrary weights on 5 pairs')
            add('induced-' + t, subs, dict(b, self=False, remove=[[0], [1], [na]][i % 3], edges=False), bounds='larger networks, arbitrary weights on 3 pairs')
            add('edges-' + t, subs, dict(b, self=False, some=(2, 17 + i), remove=[na] if i % 2 else []), bounds='larger networks, arbitrary weights on 2 pairs')
    add('edges-a0-big', subs, dict(n=4, self=False, maxedges=5), tier='thorough')
    add('both-ml-big', subs, dict(n=2, L=[2], self=False, maxedges=4, remove=[0, 1]), tier='thorough')
