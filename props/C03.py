"""C03 edge iteration: every edge once, with its weight; the edge count agrees."""
from .common import *
from . import timeline
ASSUMPTIONS = []


def check_edges(S, net, ref, a, label=''):
    got = list(net.edges)
    full = [(tuple(e[0:-1:2]), tuple(e[1:-1:2]), e[-1]) for e in got]
    for e in got:
        S.check(len(e) == 2 * (a + 1) + 1, 'edge tuples have two indices per dimension and a weight' + label)
    # all pairs that can be edges
    want = []
    for n1, n2, v in ref.ops:
        want.append(((n1, n2), ref.has(n1, n2)))

    def same(x, y):
        r = And(eqt(x[0], y[0]), eqt(x[1], y[1]))
        if not ref.directed:
            r = Or(r, And(eqt(x[0], y[1]), eqt(x[1], y[0])))
        return r
    for (n1, n2, w) in full:
        S.check(And(eqt(w, ref.get(n1, n2)), ref.has(n1, n2)), 'iterated edges exist and carry their weight' + label)
    S.check(And([Not(same(full[i], full[j])) for i in range(len(full)) for j in range(i)]), 'no edge is iterated twice' + label)
    S.check(And([Implies(c, Or([same(p, f) for f in full])) for p, c in want]), 'every edge is iterated' + label)
    n = 0
    for i, (p, c) in enumerate(want):
        n = n + B2I(And(c, And([Not(And(d, same(p, q))) for q, d in want[:i]])))
    S.check(eqt(len(net.edges), n), 'len(net.edges) is the number of edges' + label)


def history(S, c):
    a = c['aspects']
    noEdge = S.real('noEdge') if c.get('symNoEdge') else 0
    net = pymnet.MultilayerNetwork(aspects=a, directed=c['directed'], noEdge=noEdge, fullyInterconnected=c.get('full', True))
    ref = EdgeHist(noEdge, c['directed'])
    for k in range(c['k']):
        n1, n2 = nl(S, a, 'a%d' % k), nl(S, a, 'b%d' % k)
        v = S.real('w%d' % k)
        net[link(n1, n2)] = v
        ref.set(n1, n2, v)
    check_edges(S, net, ref, a)


def graph(S, c):
    """arbitrary weighted graph on n nodes (each pair present or absent)"""
    n = c['n']
    net = pymnet.MultilayerNetwork(aspects=0, directed=c['directed'])
    ref = EdgeHist(0, c['directed'])
    for i in range(n):
        net.add_node(i)
    for i in range(n):
        for j in range(n):
            if (c['directed'] or i <= j) and (c.get('self', True) or i != j):
                w = S.real('w%d_%d' % (i, j))
                net[i, j] = w
                ref.set((i,), (j,), w)
    check_edges(S, net, ref, 0)


def state(S, c):
    """A larger network, some of its edges written again."""
    net, m = anynet(S, c)
    stored = sorted(m.w)
    for i in range(c.get('again', 0)):
        x, y = stored[(5 * i + 2) % len(stored)]
        w = S.real('again%d' % i)
        net[link(y, x) if i % 2 and not m.directed else link(x, y)] = w
        m.put(x, y, w)
    got = [(tuple(e[0:-1:2]), tuple(e[1:-1:2]), e[-1]) for e in net.edges]
    keys = [(x, y) if m.directed or x <= y else (y, x) for x, y, w in got]
    S.check(len(set(keys)) == len(keys), 'no edge is iterated twice')
    S.check(And([And(x in m.nls, y in m.nls) and And(eqt(w, m.get(x, y)), m.has(x, y)) for x, y, w in got]), 'iterated edges exist and carry their weight')
    every = list(m.pairs())
    S.check(And([Implies(m.has(x, y), (x, y) in keys or not m.directed and (y, x) in keys) for x, y in every]), 'every edge is iterated')
    S.check(eqt(len(net.edges), Sum([B2I(m.has(x, y)) for x, y in every])), 'len(net.edges) is the number of edges')


def multiplex(S, c):
    """multiplex networks: the couplings between layers are edges too"""
    nn, nL = c['n'], c['L']
    cw = S.real('cw')
    S.assume(Not(eqt(cw, 0)))
    cpl = c['coupling']
    net = pymnet.MultiplexNetwork(couplings=[(cpl, cw)] if cpl != 'none' else ['none'], directed=c['directed'],
                                  fullyInterconnected=c.get('full', True))
    nodes, layers = list(range(nn)), list(range(10, 10 + nL))
    ref = EdgeHist(0, c['directed'])
    present = set()
    for l in layers:
        net.add_layer(l)
    if c.get('full', True):
        for v in nodes:
            net.add_node(v)
        present = set((v, l) for v in nodes for l in layers)
    else:
        for v in nodes:
            for l in layers:
                if S.choice([True, False], 'in%d_%d' % (v, l)):
                    net.add_node(v, l)
                    present.add((v, l))
    for l in layers:
        for i in nodes:
            for j in nodes:
                if i < j or c['directed'] and i != j:
                    if (i, l) in present and (j, l) in present:
                        w = S.real('w%d_%d_%d' % (l, i, j))
                        net[i, j, l] = w
                        ref.set((i, l), (j, l), w)
    for v in nodes:
        for l in layers:
            for r in layers:
                if l != r and (v, l) in present and (v, r) in present and (l < r or c['directed']):
                    if cpl == 'categorical' or cpl == 'ordinal' and abs(l - r) == 1:
                        ref.set((v, l), (v, r), cw)
    check_edges(S, net, ref, 1, ' (multiplex)')


def instances(add):
    timeline.instances(add, timeline.look_edges)
    timeline.instances(add, timeline.look_edges, steps=3, tier='thorough')
    for d in (False, True):
        s = 'dir' if d else 'undir'
        add('hist-a0-k3-' + s, history, dict(aspects=0, directed=d, k=3), bounds='any 3 writes')
        add('hist-a0-k2-noedge-' + s, history, dict(aspects=0, directed=d, k=2, symNoEdge=True), bounds='2 writes, any noEdge')
        add('hist-a1-k1-' + s, history, dict(aspects=1, directed=d, k=1))
        add('hist-a1-k2-' + s, history, dict(aspects=1, directed=d, k=2), bounds='2 writes, 1 aspect')
        add('hist-a1-k2-nonfull-' + s, history, dict(aspects=1, directed=d, k=2, full=False), bounds='2 writes, 1 aspect, not fully interconnected')
        add('hist-a2-k1-' + s, history, dict(aspects=2, directed=d, k=1))
        add('hist-a2-k1-nonfull-' + s, history, dict(aspects=2, directed=d, k=1, full=False))
        add('graph-' + s, graph, dict(n=2 if d else 3, directed=d))
        add('graph3-noself-' + s, graph, dict(n=3, directed=d, self=False))
        for cpl in ('categorical', 'ordinal', 'none'):
            add('mplex-%s-%s' % (cpl, s), multiplex, dict(n=2, L=3, coupling=cpl, directed=d))
        add('mplex-nonfull-' + s, multiplex, dict(n=2, L=2, coupling='categorical', directed=d, full=False))
        add('mplex-nonfull-ordinal-' + s, multiplex, dict(n=2, L=2, coupling='ordinal', directed=d, full=False))
        for t, b in shapes(d, k=7) + shapes(d, k=7, small=True):
            add(t, state, dict(b, again=2), bounds='larger networks, arbitrary weights on 7 pairs, 2 of them written again')
        add('graph-big-' + s, graph, dict(n=3 if d else 4, directed=d), tier='thorough')
        add('hist-a0-k4-' + s, history, dict(aspects=0, directed=d, k=4), tier='thorough')
