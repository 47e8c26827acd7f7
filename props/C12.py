"""C12 relabel and normalize."""
from .common import *
ASSUMPTIONS = ['noEdge is 0 or -1', 'the name maps are injective on the labels of the network (new names may coincide with old ones)']


def moved(S, m, nmap, lmaps):
    f = lambda x: (nmap.get(x[0], x[0]),) + tuple(lmaps[k].get(x[k + 1], x[k + 1]) for k in range(m.a))
    r = Model(m.a, m.directed, m.full, m.kind, m.noEdge)
    r.nodes = [nmap.get(v, v) for v in m.nodes]
    r.layers = [[lmaps[k].get(l, l) for l in m.layers[k]] for k in range(m.a)]
    r.nls = [f(x) for x in m.nls]
    return r, f


def same_moved(S, got, m, r, f, tag):
    S.check(got.aspects == m.a and bool(got.directed) == m.directed, 'kind' + tag)
    S.check(type(got) is (pymnet.MultiplexNetwork if m.kind == 'multiplex' else pymnet.MultilayerNetwork), 'type' + tag)
    S.same_set(list(got), [(v, True) for v in r.nodes], 'nodes' + tag)
    for k in range(m.a):
        S.same_set(list(got.get_layers(k + 1)), [(l, True) for l in r.layers[k]], 'layers' + tag)
    if m.a:
        S.check(got.fullyInterconnected == m.full, 'interconnectedness' + tag)
        S.same_set([tuple(x) for x in got.iter_node_layers()], [(x, True) for x in r.nls], 'node-layers' + tag)
    for x in m.nls:
        for y in m.nls:
            S.check(eqt(got[link(f(x), f(y))], m.get(x, y)), 'edge weights' + tag)
    n = Sum([B2I(m.has(x, y)) for x, y in m.pairs()])
    S.check(eqt(len(got.edges), n), 'number of edges' + tag)


def relab(S, c):
    net, m = anynet(S, c)
    nmap, lmaps = {}, []
    for i, v in enumerate(m.nodes):
        if c.get('allnodes') or i < c.get('nmap', 1):
            nmap[v] = S.label('name')
    for k in range(m.a):
        lm = {}
        for i, l in enumerate(m.layers[k]):
            if i < (c.get('lmap') or [0] * m.a)[k]:
                lm[l] = S.label('lname')
        lmaps.append(lm)
    r, f = moved(S, m, nmap, lmaps)
    S.assume(Distinct(r.nodes))
    for k in range(m.a):
        S.assume(Distinct(r.layers[k]))
        if m.kind == 'multiplex' and m.rules[k][0] == 'ordinal':
            raise AssertionError('relabelling changes the distances of ordinal layers')
    kw = {}
    form = c.get('form', 'list')
    if c.get('nmap', 1):
        kw['nodeNames'] = nmap
    if form == 'dict':
        kw['layerNames'] = lmaps[0]
    elif form == 'list':
        kw['layerNames'] = list(lmaps)
    elif form == 'short':       # maps for the first aspects only
        assert not any(lmaps[1:])
        kw['layerNames'] = lmaps[:1]
    elif form == 'tuple':
        kw['layerNames'] = tuple(lmaps)
    keepN, keepL = dict(nmap), [dict(x) for x in lmaps]
    given = list(kw['layerNames']) if form in ('list', 'short') else None
    got = transforms.relabel(net, **kw)
    same_moved(S, got, m, r, f, ' of the relabelled network')
    S.check(list(nmap) == list(keepN) and And([eqt(nmap[k], keepN[k]) for k in keepN]) and [list(x) for x in lmaps] == [list(x) for x in keepL], 'the name maps are not modified')
    if given is not None:
        S.check(len(kw['layerNames']) == len(given), 'the list of name maps is not modified')
    if m.kind == 'multiplex':
        S.check([x[0] for x in got.couplings] == [x[0] for x in net.couplings], 'couplings are kept')
    if c.get('recheck', True):
        same_as(S, net, m, ' of the original network')


def norm(S, c):
    """A network with arbitrary labels: node names are symbolic, created in an arbitrary order."""
    d, n, L = c.get('directed', False), c['n'], c.get('L', [])
    full = c.get('full', True)
    V = S.labels(n, 'v')
    LY = [S.labels(k, 'l%d_' % i) for i, k in enumerate(L)]
    a = len(L)
    if c.get('kind') == 'multiplex':
        net = pymnet.MultiplexNetwork([c['coupling']], directed=d, fullyInterconnected=full)
    else:
        net = pymnet.MultilayerNetwork(aspects=a, directed=d, fullyInterconnected=full)
    for k in range(a):
        for l in LY[k]:
            net.add_layer(l, k + 1)
    combos = list(itertools.product(*LY))
    nls = []
    for i, v in enumerate(V):
        if a == 0 or full:
            net.add_node(v)
            nls += [(v,) + l for l in combos]
        else:
            for j, l in enumerate(combos):
                if j == 0 or S.choice([True, False], 'in%d_%d' % (i, j)):
                    net.add_node(v, key(l))
                    nls.append((v,) + l)
    edges = []
    for i, x in enumerate(nls):
        for j, y in enumerate(nls):
            if (i < j or d and i > j) and len(edges) < c['edges'] and not (c.get('kind') == 'multiplex' and any(p is not q for p, q in zip(x[1:], y[1:]))):
                w = S.real('w')
                net[link(x, y)] = w
                edges.append((x, y, w))
    ns, ls = S.int('nodeStart'), S.int('layerStart')
    n2i, l2i = c.get('n2i'), c.get('l2i')
    kw = dict(nodesToIndices=n2i, layersToIndices=l2i)
    if c.get('starts', True):
        kw.update(nodeStart=ns, layerStart=ls)
    else:
        ns = ls = 0
    out = transforms.normalize(net, **kw)
    res = out if isinstance(out, tuple) else (out,)
    S.check(len(res) == 1 + (n2i is not None) + (l2i is not None), 'number of returned values')
    got = res[0]
    sum_ = lambda seq, v, st: st + Sum([B2I(u < v) for u in seq])
    rank = sum_ if c.get('starts', True) else (lambda seq, v, st: S.conc(sum_(seq, v, st)))
    f = lambda x: (rank(V, x[0], ns),) + tuple(rank(LY[k], x[k + 1], ls) for k in range(a))
    S.same_set(list(got), [(ns + i, True) for i in range(n)], 'nodes are consecutive integers')
    for k in range(a):
        S.same_set(list(got.get_layers(k + 1)), [(ls + i, True) for i in range(L[k])], 'layers are consecutive integers')
    if a:
        S.same_set([tuple(x) for x in got.iter_node_layers()], [(f(x), True) for x in nls], 'node-layers of the normalized network')
    for x, y, w in edges:
        S.check(eqt(got[link(f(x), f(y))], w), 'edge weights of the normalized network')
    if c.get('kind') != 'multiplex':
        S.check(eqt(len(got.edges), Sum([B2I(Not(eqt(w, 0))) for x, y, w in edges])), 'number of edges of the normalized network')
    if n2i is not None:
        nm = res[1]
        S.check(len(nm) == n, 'size of the node map')
        pairs = list(nm.items())
        if not n2i:
            pairs = [(b, p) for p, b in pairs]
        S.same_set([p for p, b in pairs], [(v, True) for v in V], 'names in the node map')
        S.check(And([eqt(b, rank(V, p, ns)) for p, b in pairs]), 'node map gives the index by which nodes are renamed')
    if l2i is not None:
        lm = res[-1]
        lm = [lm] if a == 1 else lm
        S.check(len(lm) == a, 'one layer map per aspect')
        for k in range(a):
            pairs = list(lm[k].items())
            if not l2i:
                pairs = [(b, p) for p, b in pairs]
            S.same_set([p for p, b in pairs], [(v, True) for v in LY[k]], 'names in the layer map')
            S.check(And([eqt(b, rank(LY[k], p, ls)) for p, b in pairs]), 'layer map gives the index by which layers are renamed')


def instances(add):
    for d in (False, True):
        s = 'dir' if d else 'undir'
        add('a0-' + s, relab, dict(n=3, directed=d, allnodes=True, form=None, maxedges=6), bounds='3 nodes, all renamed')
        add('a0-partial-' + s, relab, dict(n=3, directed=d, nmap=1, form=None, maxedges=4, flip=True), bounds='3 nodes, one renamed')
        add('a0-none-' + s, relab, dict(n=2, directed=d, nmap=0, form=None, maxedges=2))
        add('ml-' + s, relab, dict(n=2, L=[2], directed=d, nmap=2, lmap=[2], form='list', maxedges=4, recheck=False), bounds='2 nodes, 2 layers, all renamed')
        add('ml-dict-' + s, relab, dict(n=2, L=[2], directed=d, nmap=1, lmap=[1], form='dict', maxedges=3), bounds='2 nodes, 2 layers')
        add('ml-layers-' + s, relab, dict(n=2, L=[2], directed=d, nmap=0, lmap=[2], form='list', maxedges=4, self=False), bounds='2 nodes, 2 layers')
        add('ml-nonfull-' + s, relab, dict(n=2, L=[2], directed=d, full=False, always=1, nmap=1, lmap=[1], form='dict', self=False, maxedges=3, recheck=False), bounds='any membership')
        add('ml2-' + s, relab, dict(n=1, L=[2, 2], directed=d, nmap=1, lmap=[0, 2], form='list', self=False, maxedges=4, recheck=False), bounds='1 node, 2x2 layers')
        add('ml2-short-' + s, relab, dict(n=1, L=[2, 2], directed=d, nmap=0, lmap=[1, 0], form='short', self=False, maxedges=3, recheck=False))
        add('ml2-tuple-' + s, relab, dict(n=1, L=[2, 2], directed=d, nmap=0, lmap=[1, 1], form='tuple', self=False, maxedges=2, recheck=False))
        add('mplex-' + s, relab, dict(kind='multiplex', couplings=['categorical'], n=2, L=[2], directed=d, nmap=2, lmap=[1], form='dict'), bounds='2 nodes, 2 layers')
        add('mplex-nonfull-' + s, relab, dict(kind='multiplex', couplings=['none'], n=2, L=[2], directed=d, full=False, nmap=1, lmap=[1], form='list', recheck=False), bounds='any membership')
        add('mplex2-' + s, relab, dict(kind='multiplex', couplings=['categorical', 'none'], n=2, L=[2, 1], directed=d, nmap=1, lmap=[1, 1], form='list', recheck=False), bounds='2 nodes, 2x1 layers')
        add('norm-a0-' + s, norm, dict(n=3, directed=d, edges=3), bounds='3 nodes with arbitrary names')
        add('norm-ml-' + s, norm, dict(n=2, L=[2], directed=d, edges=3, n2i=True, l2i=True), bounds='2 nodes, 2 layers with arbitrary names')
        add('norm-nonfull-' + s, norm, dict(n=2, L=[2], directed=d, full=False, edges=2, n2i=False, l2i=False))
        add('norm-mplex-' + s, norm, dict(kind='multiplex', coupling='categorical', n=2, L=[2], directed=d, edges=2, n2i=False, l2i=True))
    for n2i in (None, True, False):
        for l2i in (None, True, False):
            add('norm-maps-%s-%s' % (n2i, l2i), norm, dict(n=2, L=[2], edges=1, n2i=n2i, l2i=l2i))
    add('norm-nostart', norm, dict(n=2, L=[2], edges=1, starts=False, n2i=True, l2i=False))
    add('norm-ml2', norm, dict(n=2, L=[2, 1], edges=2, n2i=True, l2i=False))
    for l2i in (None, True, False):
        add('norm-ml2b-%s' % l2i, norm, dict(n=1, L=[1, 2], edges=1, n2i=None, l2i=l2i), bounds='1 node, 1x2 layers with arbitrary names')
        add('norm-ml2c-%s' % l2i, norm, dict(n=1, L=[2, 2], edges=1, n2i=l2i, l2i=l2i), bounds='1 node, 2x2 layers with arbitrary names')
    for d in (False, True):
        s = 'dir' if d else 'undir'
        add('loose-' + s, relab, dict(n=2, L=[2], directed=d, full=False, loose=2, nmap=3, lmap=[1], form='dict', self=False, maxedges=1), bounds='any membership, nodes on no layer')
        add('mplex-loose-' + s, relab, dict(kind='multiplex', couplings=['none'], n=2, L=[2], directed=d, full=False, loose=2, nmap=3, lmap=[0], form='list', maxedges=1), bounds='any membership, nodes on no layer')
        add('mplex-categorical-nf-' + s, relab, dict(kind='multiplex', couplings=['categorical'], n=1, L=[2], directed=d, full=False, nmap=1, lmap=[2], form='dict', maxedges=1), bounds='any membership')
    for d in (False, True):
        for i, (t, b) in enumerate(shapes(d, k=2)):
            na = len(b['L'])
            if 'mx' in t:
                b = dict(b, couplings=[{'ordinal': 'categorical'}.get(x, x) for x in b['couplings']])
            add(t, relab, dict(b, nmap=1 + i % 2, lmap=([0] * na + [1] * na)[(i % na) + 1:][:na], form=['list', 'tuple'][i % 2] if na > 1 else 'dict', recheck=i % 2 == 0), bounds='larger networks, arbitrary weights on 2 pairs')
    add('norm-ml2d', norm, dict(n=2, L=[2, 2], edges=2, n2i=None, l2i=None), bounds='2 nodes, 2x2 layers with arbitrary names')
    add('norm-ml3', norm, dict(n=1, L=[2, 1, 2], edges=1, n2i=True, l2i=True), bounds='1 node, 2x1x2 layers with arbitrary names')
    add('norm-a0-4', norm, dict(n=4, edges=5, n2i=True), tier='thorough', bounds='4 nodes with arbitrary names')
    add('norm-ml-3', norm, dict(n=3, L=[2], edges=5, n2i=True, l2i=True), tier='thorough', bounds='3 nodes, 2 layers with arbitrary names')
    add('ml-3', relab, dict(n=3, L=[2], nmap=3, lmap=[2], form='list', self=False, maxedges=9, recheck=False), tier='thorough', bounds='3 nodes, 2 layers, all renamed')
