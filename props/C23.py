"""C23 networks used as networkx graphs."""
from .common import *
import networkx
from pymnet import nx as wrapped
ASSUMPTIONS = ['networkx itself is run, not checked: only what the network and its view report',
               'noEdge is 0']
ORIGINAL = networkx.Graph


def agrees(S, G, m, tag=''):
    """The networkx graph G shows the undirected monoplex network m."""
    V = [x[0] for x in m.nls]
    has = lambda u, v: m.has((u,), (v,))
    get = lambda u, v: m.get((u,), (v,))
    S.check(sorted(G.nodes, key=str) == sorted(V, key=str) and sorted(G, key=str) == sorted(V, key=str), 'nodes of the graph' + tag)
    S.check(len(G) == len(V) and G.number_of_nodes() == len(V), 'number of nodes of the graph' + tag)
    seen = {}
    for u, v, w in G.edges(data='weight'):
        S.check((u, v) not in seen and (v, u) not in seen, 'each edge of the graph once' + tag)
        seen[u, v] = w
    for a, u in enumerate(V):
        for v in V[:a + 1]:
            e = (u, v) if (u, v) in seen else (v, u) if (v, u) in seen else None
            S.check(Iff(has(u, v), e is not None), 'edges of the graph' + tag)
            if e is not None:
                S.check(eqt(seen[e], get(u, v)), 'weights of the graph' + tag)
                S.check(And(eqt(G[u][v]['weight'], get(u, v)), eqt(G[v][u]['weight'], get(u, v)), eqt(G.get_edge_data(u, v)['weight'], get(u, v))), 'weights of the graph' + tag)
                S.check(dict(G[u][v]).keys() == {'weight'}, 'attributes of an edge' + tag)
            S.check(G.has_edge(u, v) == (e is not None) and G.has_edge(v, u) == (e is not None) and (v in G[u]) == (e is not None), 'edges of the graph' + tag)
            if e is None:
                try:
                    G[u][v]
                    S.check(False, 'an edge that does not exist raises KeyError' + tag)
                except KeyError:
                    pass
    for v in V:
        S.check(eqt(len(G[v]), Sum([B2I(has(v, u)) for u in V])), 'number of neighbours in the graph' + tag)
        S.check(eqt(G.degree(v), Sum([B2I(has(v, u)) for u in V]) + B2I(has(v, v))), 'degree in the graph' + tag)
        S.check(eqt(G.degree(v, weight='weight'), Sum([get(v, u) for u in V]) + get(v, v)), 'weighted degree in the graph' + tag)
    S.check(G.number_of_edges() == len(seen), 'number of edges of the graph' + tag)
    S.check('no such node' not in G, 'unknown nodes are not in the graph')
    try:
        G['no such node']
        S.check(False, 'unknown nodes raise KeyError')
    except KeyError:
        pass


def view(S, c):
    net, m = anynet(S, c)
    if c.get('kind') == 'multiplex':
        l = m.layers[0][0]
        net, full = net.A[l], m
        m = sub(full, l)
    agrees(S, wrapped.autowrap(net), m)


def sub(m, l):
    r = Model(0, m.directed, True, 'multilayer')
    r.nodes = [x[0] for x in m.nls if x[1] == l]
    r.nls = [(v,) for v in r.nodes]
    r.w = {((x[0],), (y[0],)): w for (x, y), w in m.w.items() if x[1] == l}
    return r


NAMES = ['a', (0, 'a'), 7]


def writes(S, c):
    """Any sequence of changes through the graph or the network."""
    base = pymnet.MultiplexNetwork('categorical') if c.get('mplex') else pymnet.MultilayerNetwork(aspects=0)
    if c.get('mplex'):
        base.add_layer('L')
    net = base.A['L'] if c.get('mplex') else base
    G = wrapped.autowrap(net)
    r = Model(0, False, True, 'multilayer')
    names = c.get('names', NAMES)

    def node(v):
        if v not in r.nodes:
            r.nodes.append(v)
            r.nls.append((v,))
    for k in range(c['k']):
        op = S.choice(c.get('ops', ['edge', 'weight', 'attrs', 'many', 'set', 'net', 'remove', 'node', 'adj', 'color']), 'op%d' % k)
        u, v = S.choice(names, 'u%d' % k), S.choice(names, 'v%d' % k)
        if c.get('mplex') and u == v:
            return
        old = r.get((u,), (v,))
        if op == 'node':
            G.add_node(u)
            node(u)
            continue
        if op == 'remove':
            if bool(eqt(old, 0)):
                return
            G.remove_edge(u, v)
            r.put((u,), (v,), 0)
            continue
        w = S.weight('w%d' % k, nonzero=True)
        if op == 'edge':
            G.add_edge(u, v)
            w = Ite(eqt(old, 0), 1, old)
        elif op == 'weight':
            G.add_edge(u, v, weight=w)
        elif op == 'attrs':
            G.add_edge(u, v, color='red', weight=w, label='x')
        elif op == 'color':
            G.add_edge(u, v, color='red')
            w = Ite(eqt(old, 0), 1, old)
        elif op == 'many':
            G.add_weighted_edges_from([(u, v, w)])
        elif op == 'set':
            if bool(eqt(old, 0)):
                return
            G[u][v]['weight'] = w
        elif op == 'adj':
            if bool(eqt(old, 0)):
                return
            G.edges[u, v]['weight'] = w
        elif op == 'net':
            t = lambda x: wrapped.ntuple(x) if type(x) is tuple else x
            net[t(u), t(v)] = w
        node(u)
        node(v)
        r.put((u,), (v,), w)
    agrees(S, G, r)
    S.check(set(net) == set(r.nodes), 'nodes of the network')
    for e in net.edges:
        S.check(eqt(e[2], r.get((e[0],), (e[1],))), 'edges of the network')
    S.check(eqt(len(net.edges), Sum([B2I(r.has(x, y)) for x, y in r.pairs()])), 'number of edges of the network')
    if c.get('mplex'):
        for x in base.edges:
            if x[2] == x[3]:
                S.check(eqt(x[-1], r.get((x[0],), (x[1],))), 'edges of the multiplex network')


def plain(S, got, r, tag):
    S.check(isinstance(got, pymnet.MultilayerNetwork) and got.aspects == 0, 'graphs are returned as monoplex networks')
    S.check(networkx.Graph is ORIGINAL, 'networkx is left as it was')
    same_as(S, got, r, tag)


def functions(S, c):
    """networkx functions take networks and return networks."""
    net, m = anynet(S, c)
    what = c['what']
    V = list(m.nodes)
    if what == 'mst':
        got = wrapped.minimum_spanning_tree(net)
        S.check(isinstance(got, pymnet.MultilayerNetwork), 'graphs are returned as monoplex networks')
        E = [(x, y) for x, y in m.pairs() if bool(m.has(x, y))]
        T = [(x, y) for x, y in m.pairs() if not bool(eqt(got[link(x, y)], 0))]
        S.check(set(T) <= set(E) and And([eqt(got[link(x, y)], m.get(x, y)) for x, y in T]), 'tree edges are edges with their weights')
        def forest(F):
            comp = {v: v for v in V}
            for (u,), (v,) in F:
                if comp[u] == comp[v]:
                    return False
                a, b = comp[u], comp[v]
                comp = {k: (a if x == b else x) for k, x in comp.items()}
            return True
        S.check(forest(T), 'the tree has no cycles')
        for F in itertools.combinations(E, len(T)):
            if forest(F):
                S.check(Sum([m.get(x, y) for x, y in T]) <= Sum([m.get(x, y) for x, y in F]), 'no spanning tree weighs less')
        for e in E:
            S.check(e in T or not forest(T + [e]), 'the tree spans every component')
    elif what == 'subgraph':
        sel = [v for v in V if S.choice([True, False], 'in%d' % v)]
        r = copy_model(m)
        r.nodes, r.nls = sel, [(v,) for v in sel]
        r.w = {(x, y): w for (x, y), w in m.w.items() if x in r.nls and y in r.nls}
        for how in ('args', 'kwargs'):
            got = wrapped.subgraph(net, sel) if how == 'args' else wrapped.subgraph(G=net, nbunch=sel)
            plain(S, got, r, ' of the subgraph')
        if sel and len(sel) > 1:
            got[sel[0], sel[1]] = w = S.real('new')
            S.check(eqt(got[sel[0], sel[1]], w), 'the returned network is written')
    elif what == 'components':
        got = [set(x) for x in wrapped.connected_components(net)]
        reach = {u: {u} for u in V}
        for _ in V:
            for x, y in m.pairs():
                if bool(m.has(x, y)):
                    for u in V:
                        if x[0] in reach[u] or y[0] in reach[u]:
                            reach[u] |= {x[0], y[0]}
        S.check(all(reach[u] in got for u in V) and sum(len(g) for g in got) == len(V), 'connected components')
        S.check(wrapped.number_connected_components(G=net) == len(got), 'number of connected components')
    elif what == 'path':
        d = None
        for k in range(len(V) - 1):
            for mid in itertools.permutations(V[1:-1], k):
                p = (V[0],) + mid + (V[-1],)
                if all(bool(m.has((a,), (b,))) for a, b in zip(p, p[1:])):
                    n = Sum([m.get((a,), (b,)) for a, b in zip(p, p[1:])])
                    d = n if d is None else Ite(n < d, n, d)
        try:
            got = wrapped.dijkstra_path_length(net, V[0], target=V[-1])
            S.check(d is not None and eqt(got, d), 'length of the shortest path')
        except networkx.NetworkXNoPath:
            S.check(d is None, 'length of the shortest path')
    elif what == 'compose':
        other, m2 = anynet(S, dict(c, n=c['n'] + 1, maxedges=2))
        got = wrapped.compose(net, other)
        r = copy_model(m2)
        for x, y in m.pairs():
            if bool(Not(m2.has(x, y))):
                r.put(x, y, m.get(x, y))
        plain(S, got, r, ' of the composition')
        same_as(S, other, m2, ' of the second network')
    elif what == 'core':
        got = wrapped.k_core(net, k=0)
        plain(S, got, m, ' of the 0-core')
    S.check(networkx.Graph is ORIGINAL, 'networkx is left as it was')
    same_as(S, net, m, ' of the original network')


def raising(S, c):
    """An exception leaves networkx as it was."""
    net, m = anynet(S, c)
    s = S.choice(m.nodes + ['unknown'], 's')
    t = S.choice(m.nodes + ['unknown'], 't')
    try:
        wrapped.dijkstra_path_length(net, source=s, target=t)
    except networkx.NetworkXException:
        pass
    S.check(networkx.Graph is ORIGINAL, 'networkx is left as it was')
    G = networkx.Graph()
    S.check(type(G) is ORIGINAL, 'networkx is left as it was')
    for bad in (lambda: wrapped.diameter(pymnet.MultilayerNetwork(aspects=1)), lambda: wrapped.diameter(pymnet.MultilayerNetwork(aspects=0, directed=True)),
                lambda: wrapped.diameter(G=pymnet.MultilayerNetwork(aspects=1)),
                lambda: wrapped.diameter(pymnet.MultiplexNetwork('categorical'))):
        S.raises(AssertionError, bad, 'networks that are directed or not monoplex are rejected')
        S.check(networkx.Graph is ORIGINAL, 'networkx is left as it was')


def made(S, c):
    """Graphs made by networkx are networks."""
    a, b = S.conc(S.int('a', 1, 3)), S.conc(S.int('b', 1, 3))
    got = wrapped.grid_graph([a, b])
    V = [(i, j) for i in range(b) for j in range(a)]
    S.check(isinstance(got, pymnet.MultilayerNetwork), 'graphs are returned as networks')
    S.check(len(got) == len(V) and set(got) == set(V), 'nodes of a grid')
    adj = lambda x, y: abs(x[0] - y[0]) + abs(x[1] - y[1]) == 1
    n = 0
    t = wrapped.ntuple
    for x in V:
        for y in V:
            S.check(got[t(x), t(y)] == (1 if adj(x, y) else 0), 'edges of a grid')
            n += adj(x, y)
    S.check(2 * len(got.edges) == n, 'number of edges of a grid')
    S.check(networkx.Graph is ORIGINAL, 'networkx is left as it was')


def instances(add):
    add('view', view, dict(n=3), bounds='3 nodes, self-edges')
    add('view-4', view, dict(n=4, self=False), bounds='4 nodes')
    add('view-layer', view, dict(kind='multiplex', couplings=['categorical'], n=3, L=[2], maxedges=6), bounds='a layer of a multiplex network')
    add('view-layer-nonfull', view, dict(kind='multiplex', couplings=['categorical'], n=2, L=[2], full=False, always=1), bounds='a layer of a multiplex network')
    ops = ['edge', 'weight', 'attrs', 'many', 'set', 'net', 'remove', 'node', 'adj', 'color']
    add('writes-1', writes, dict(k=1), bounds='one change')
    add('writes-2', writes, dict(k=2, names=NAMES[:2]), bounds='two changes, 2 names')
    add('writes-layer', writes, dict(k=2, names=['a', 'b'], mplex=True, ops=['edge', 'weight', 'set', 'net', 'remove']), bounds='two changes through a layer')
    add('writes-3', writes, dict(k=3, names=NAMES[:2], ops=['weight', 'edge', 'remove', 'set']), bounds='three changes, 2 names')
    add('writes-3-all', writes, dict(k=3, names=NAMES[:2]), tier='thorough', bounds='three changes, 2 names')
    add('mst', functions, dict(n=3, self=False, what='mst'), bounds='3 nodes, any weights')
    add('mst-4', functions, dict(n=4, self=False, maxedges=5, what='mst', present=True), tier='thorough', bounds='4 nodes, 5 edges, any weights')
    add('subgraph', functions, dict(n=3, maxedges=4, what='subgraph'), bounds='3 nodes, every selection')
    add('components', functions, dict(n=3, self=False, what='components'), bounds='3 nodes')
    add('components-4', functions, dict(n=4, self=False, what='components'), tier='thorough', bounds='4 nodes')
    add('path', functions, dict(n=3, self=False, positive=True, what='path'), bounds='3 nodes, positive weights')
    add('path-4', functions, dict(n=4, self=False, positive=True, what='path'), tier='thorough', bounds='4 nodes, positive weights')
    add('compose', functions, dict(n=2, what='compose'), bounds='2 and 3 nodes')
    add('core', functions, dict(n=3, self=False, what='core'), bounds='3 nodes')
    add('raising', raising, dict(n=2, self=False, positive=True), bounds='known and unknown nodes')
    add('made', made, {}, bounds='grids up to 3x3')
