"""C14 randomising node identities within layers."""
from .common import *
ASSUMPTIONS = ['random.shuffle yields any permutation (stubbed by an arbitrary choice)', 'noEdge is 0 or -1']


def rnd(S, c):
    net, m = anynet(S, c)
    got = transforms.randomize_nodes_by_layer(net)
    tag = ' of the randomized network'
    S.check(got is not net and type(got) is pymnet.MultiplexNetwork, 'a new multiplex network is returned')
    S.check(got.aspects == 1 and bool(got.directed) == m.directed and got.fullyInterconnected == m.full, 'kind' + tag)
    S.check([x[0] for x in got.couplings] == [x[0] for x in net.couplings], 'couplings' + tag)
    S.same_set(list(got), [(v, True) for v in m.nodes], 'nodes' + tag)
    S.same_set(list(got.get_layers(1)), [(l, True) for l in m.layers[0]], 'layers' + tag)
    S.same_set([tuple(x) for x in got.iter_node_layers()], [(x, True) for x in m.nls], 'node-layers' + tag)
    for l in m.layers[0]:
        V = [x[0] for x in m.nls if x[1] == l]
        opts = []
        for p in itertools.permutations(V):
            q = dict(zip(V, p))
            opts.append(And([eqt(got[q[u], q[v], l], m.get((u, l), (v, l))) for u in V for v in V if u != v]))
        S.check(Or(opts), 'each layer is the original layer with permuted nodes')
        S.check(eqt(len(got.A[l].edges), len(net.A[l].edges)), 'number of edges in a layer')
    for x in m.nls:
        for y in m.nls:
            if x[1] != y[1]:
                S.check(eqt(got[link(x, y)], m.get(x, y)), 'coupling edges')
    same_as(S, net, m, ' of the original network')


def instances(add):
    for d in (False, True):
        s = 'dir' if d else 'undir'
        add('n3-' + s, rnd, dict(kind='multiplex', couplings=['categorical'], n=3, L=[1], directed=d), bounds='3 nodes, 1 layer, every permutation')
        add('n2-' + s, rnd, dict(kind='multiplex', couplings=['categorical'], n=2, L=[2], directed=d), bounds='2 nodes, 2 layers')
        add('n3x2-' + s, rnd, dict(kind='multiplex', couplings=['none'], n=3, L=[2], directed=d, maxedges=3 if not d else 2), bounds='3 nodes, 2 layers')
        add('nonfull-' + s, rnd, dict(kind='multiplex', couplings=['ordinal'], n=2, L=[2], full=False, directed=d), bounds='any membership')
        add('nonfull3-' + s, rnd, dict(kind='multiplex', couplings=['none'], n=3, L=[1], full=False, directed=d, maxedges=3), bounds='any membership')
        for i, (t, b) in enumerate(shapes(d, k=3, kinds='mx mxnf', small=True, aspects=(1,))):
            if b['n'] == 3:
                add(t, rnd, dict(b, couplings=[['none'], ['ordinal']][i % 2], L=[2]), bounds='larger networks, arbitrary weights on 3 pairs, every permutation')
    add('n3x2-full', rnd, dict(kind='multiplex', couplings=['categorical'], n=3, L=[2]), tier='thorough')
    add('n4', rnd, dict(kind='multiplex', couplings=['none'], n=4, L=[1], maxedges=4), tier='thorough')
