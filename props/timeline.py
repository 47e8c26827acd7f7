"""Networks followed through a sequence of writes, looked at after each of them."""
from .common import *


def order_edges(S, m):
    """pairs of node-layers that can be written, both ways round"""
    P = [(x, y) for x in m.nls for y in m.nls if x != y or m.kind != 'multiplex']
    if m.kind == 'multiplex':
        P = [(x, y) for x, y in P if x[1:] == y[1:]]
    return P


def another(names):
    """a new name"""
    if all(type(v) is int for v in names):
        return max(names) + 1
    return [v for v in NODE_NAMES['strings'] + ['new', 'more', 'most'] if v not in names][0]


def full_again(m):
    if m.full or m.a == 0:
        m.nls = [(v,) + l for v in m.nodes for l in m.combos()]


def step(S, c, net, m, k):
    op = S.choice(c['ops'], 'op%d' % k)
    if op == 'edge':
        P = order_edges(S, m)
        P = spread(P, c.get('pairs', 4), 7 + k) if c.get('pairs', 4) < len(P) else P
        x, y = S.choice(P, 'pair%d' % k)
    elif op in ('newedge', 'newlayeredge'):
        x = m.nls[0 if k % 2 else -1]
        v = another(m.nodes) if op == 'newedge' or m.kind == 'multiplex' else x[0]
        y = (v,) + x[1:]
        if op == 'newlayeredge':
            y = (v,) + tuple(another(L) for L in m.layers)
            if m.kind == 'multiplex':
                x = (x[0],) + y[1:]
        if k % 2:
            x, y = y, x
        for z in (x, y):
            if z[0] not in m.nodes:
                m.nodes.append(z[0])
            for d, l in enumerate(z[1:]):
                if l not in m.layers[d]:
                    m.layers[d].append(l)
            if z not in m.nls:
                m.nls.append(z)
        full_again(m)
    if op in ('edge', 'newedge', 'newlayeredge'):
        w = S.real('s%d' % k)
        how = S.choice(c.get('how', ['net']), 'how%d' % k) if op == 'edge' else c['how'][-1]
        if how == 'view' and m.kind == 'multiplex' and x[1:] == y[1:] and key(x[1:]) in net.A:
            net.A[key(x[1:])][x[0], y[0]] = w
        elif how == 'node':
            net[x if m.a else x[0]][y if m.a else y[0]] = w
        elif how == 'short' and x[1:] == y[1:]:
            net[(x[0], y[0]) + x[1:]] = w
        else:
            net[link(x, y)] = w
        m.put(x, y, w)
    elif op == 'node':
        v = another(m.nodes)
        net.add_node(v)
        m.nodes.append(v)
        full_again(m)
    elif op == 'layer':
        d = S.choice(range(m.a), 'asp%d' % k)
        l = another(m.layers[d])
        net.add_layer(l, d + 1)
        m.layers[d].append(l)
        full_again(m)
    elif op == 'nodelayer':
        v = S.choice([m.nodes[0], another(m.nodes)], 'v%d' % k)
        l = m.combos()[-1]
        net.add_node(v, key(l)) if m.a else net.add_node(v)
        if v not in m.nodes:
            m.nodes.append(v)
        if (v,) + l not in m.nls:
            m.nls.append((v,) + l)
        full_again(m)


def timeline(look):
    def watched(S, c):
        net, m = anynet(S, c)
        look(S, net, m)
        for k in range(c['steps']):
            step(S, c, net, m, k)
            look(S, net, m)
    watched.__name__ = look.__name__
    return watched


def look_reads(S, net, m):
    i = (lambda x: x) if m.a else (lambda x: x[0])
    P = [(x, y) for x in m.nls for y in m.nls if x != y or m.kind != 'multiplex']
    S.check(And([eqt(net[link(x, y)], m.get(x, y)) for x, y in P]), 'every edge is read with its last value')
    S.check(And([eqt(net[i(x)][i(y)], m.get(x, y)) for x, y in P]), 'every edge is read with its last value through its node')
    S.check(And([eqt(net[(x[0], y[0]) + x[1:]], m.get(x, y)) for x, y in P if x[1:] == y[1:] and m.a]), 'every edge is read with its last value in the short notation')
    S.check(And([eqt(net[link(x, (COLON,) * len(x))][i(y)], m.get(x, y)) for x, y in P]), 'every edge is read with its last value through a slice')


def look_nodes(S, net, m):
    unp = (lambda x: (x,)) if m.a == 0 else (lambda x: x)
    cnt = lambda ps: Sum([B2I(p) for _, p in ps])
    for x in m.nls if len(m.nls) < 4 else [m.nls[0], m.nls[len(m.nls) // 2], m.nls[-1]]:
        masks = [None]
        if m.a:
            masks += [tuple(v if b == i else None for i, v in enumerate(x)) for b in range(m.a + 1)]
        for dims in masks:
            if dims is None:
                node = net[x if m.a else x[0]]
            else:
                node = net[link(x, tuple(COLON if d is None else d for d in dims))]
            tag = '' if dims is None else ' (restricted to given nodes/layers)'
            V = [y for y in m.nls if dims is None or all(d is None or d == v for v, d in zip(y, dims))]
            out = [(y, m.has(x, y)) for y in V]
            inn = [(y, m.has(y, x)) for y in V]
            tot = [(y, Or(m.has(x, y), m.has(y, x))) for y in V]
            S.check(And(eqt(node.deg_out(), cnt(out)), eqt(node.deg_in(), cnt(inn)), eqt(node.deg_total(), cnt(tot)), eqt(node.deg(), cnt(tot)), eqt(len(node), cnt(tot))), 'degrees' + tag)
            so, si = Sum([Ite(p, m.get(x, y), 0) for y, p in out]), Sum([Ite(p, m.get(y, x), 0) for y, p in inn])
            st = so + si if m.directed else so
            S.check(And(eqt(node.str_out(), so), eqt(node.str_in(), si), eqt(node.str_total(), st), eqt(node.str(), st)), 'strengths' + tag)
            S.same_set([unp(y) for y in node.iter_out()], out, 'out-neighbours' + tag)
            S.same_set([unp(y) for y in node.iter_in()], inn, 'in-neighbours' + tag)
            S.same_set([unp(y) for y in node.iter_total()], tot, 'total neighbours' + tag)
            S.same_set([unp(y) for y in node], tot, 'neighbours' + tag)


def look_edges(S, net, m):
    got = [(tuple(e[0:-1:2]), tuple(e[1:-1:2]), e[-1]) for e in net.edges]
    keys = [(x, y) if m.directed or x <= y else (y, x) for x, y, w in got]
    S.check(len(set(keys)) == len(keys), 'no edge is iterated twice')
    S.check(And([And(x in m.nls, y in m.nls) and And(eqt(w, m.get(x, y)), m.has(x, y)) for x, y, w in got]), 'iterated edges exist and carry their weight')
    every = list(m.pairs())
    S.check(And([Implies(m.has(x, y), (x, y) in keys or not m.directed and (y, x) in keys) for x, y in every]), 'every edge is iterated')
    S.check(eqt(len(net.edges), Sum([B2I(m.has(x, y)) for x, y in every])), 'len(net.edges) is the number of edges')


def look_sets(S, net, m):
    S.check(sorted(net) == sorted(m.nodes) and len(net) == len(m.nodes), 'the nodes are those added')
    S.check(sorted(net.iter_nodes()) == sorted(m.nodes), 'iter_nodes gives the nodes')
    for d in range(m.a):
        S.check(sorted(net.get_layers(d + 1)) == sorted(m.layers[d]) == sorted(net.iter_layers(d + 1)), 'the layers are those added')
    if m.a:
        S.check(sorted(net.iter_layers()) == (sorted(m.layers[0]) if m.a == 1 else sorted(m.combos())), 'iter_layers gives the layers')
    S.check(sorted(tuple(x) for x in net.iter_node_layers()) == sorted(m.nls), 'the node-layers are those added')
    if m.a:
        for l in m.combos():
            S.check(sorted(net.iter_nodes(key(l))) == sorted(x[0] for x in m.nls if x[1:] == l), 'iter_nodes(layer) gives the nodes of the layer')


def look_views(S, net, m):
    S.check(sorted(net.A) == sorted(key(l) for l in m.combos()), 'one intra-layer network for each layer')
    for l in m.combos():
        V = sorted(x[0] for x in m.nls if x[1:] == l)
        A = net.A[key(l)]
        S.check(sorted(A) == V, 'nodes seen through A[layer]')
        for u in V:
            S.check(And([eqt(A[u, v], m.get((u,) + l, (v,) + l)) for v in V if u != v]), 'edges seen through A[layer]')
            S.check(And([eqt(net[(u, v) + l], m.get((u,) + l, (v,) + l)) for v in V if u != v]), 'edges seen through the network')
            S.check(eqt(A[u].deg_out(), Sum([B2I(m.has((u,) + l, (v,) + l)) for v in V if u != v])), 'degrees seen through A[layer]')
            S.same_set(list(A[u].iter_out()), [(v, m.has((u,) + l, (v,) + l)) for v in V if u != v], 'neighbours seen through A[layer]')
        E = [(e[0], e[1]) if m.directed else tuple(sorted(e[:2])) for e in A.edges]
        S.same_set(E, [((u, v), m.has((u,) + l, (v,) + l)) for u in V for v in V if u < v or m.directed and u != v], 'edges of A[layer]')
        S.check(len(A.edges) == len(E) == len(set(E)), 'number of edges of A[layer]')


def look_equal(S, net, m):
    """a network built anew from the description compares equal, and one that lacks an edge does not"""
    if m.kind == 'multiplex':
        new = pymnet.MultiplexNetwork(couplings=[(k, w) if k != 'none' else k for k, w in m.rules], directed=m.directed, fullyInterconnected=m.full)
    else:
        new = pymnet.MultilayerNetwork(aspects=m.a, directed=m.directed, fullyInterconnected=m.full)
    for d in range(m.a):
        for l in reversed(m.layers[d]):
            new.add_layer(l, d + 1)
    for v in reversed(m.nodes):
        new.add_node(v)
    if not m.full and m.a:
        for x in reversed(m.nls):
            new.add_node(x[0], key(x[1:]))
    E = [(x, y) for x, y in m.pairs() if (x, y) in m.w]
    for x, y in reversed(E):
        new[link(y, x) if not m.directed else link(x, y)] = m.get(x, y)
    S.check(net == new and new == net and not net != new, 'networks built differently compare equal')
    if E:
        x, y = E[-1]
        w = S.real('other')
        S.assume(Not(eqt(w, m.get(x, y))))
        new[link(x, y)] = w
        S.check(net != new and new != net and not net == new, 'networks with another weight compare unequal')


ANY = ['edge', 'newedge', 'newlayeredge', 'node', 'layer', 'nodelayer']


def instances(add, look, kinds='mono ml nf ml2 mx mxnf mx2', directed=(False, True), steps=2, tier='quick', pairs=3, how=('net',), maxedges=1, only=None):
    fn = timeline(look)
    K = {'mono': dict(L=[], n=2), 'ml': dict(L=[2], n=2), 'nf': dict(L=[2], n=2, full=False, always=3, free=(0, 1)), 'ml2': dict(L=[1, 2], n=2), 'nf2': dict(L=[1, 2], n=2, full=False, always=3, free=(0, 1)),
         'mx': dict(kind='multiplex', L=[2], n=2, couplings=['ordinal']), 'mxnf': dict(kind='multiplex', L=[2], n=2, full=False, always=3, free=(0, 1), couplings=['categorical']),
         'mx2': dict(kind='multiplex', L=[1, 2], n=2, couplings=['categorical', 'ordinal']), 'mxnf2': dict(kind='multiplex', L=[1, 2], n=2, full=False, always=3, free=(0, 1), couplings=['ordinal', 'categorical'])}
    for k in kinds.split():
        for d in directed:
            b = dict(K[k], directed=d, steps=steps, maxedges=maxedges, pairs=pairs, how=list(how), again=False)
            ops = ANY if b['L'] else ['edge', 'newedge', 'node']
            b['ops'] = [o for o in ops if only is None or o in only]
            add('time-%s-%s%s' % (k, 'dir' if d else 'undir', '' if steps == 2 else '-%d' % steps), fn, b, tier=tier, bounds='any %d operations, looked at after each' % steps)
