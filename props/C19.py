"""C19 configuration models keep the degrees."""
from .common import *
from pymnet import models
from .C18 import simple_layer
ASSUMPTIONS = ['random.shuffle and random.sample give any outcome (stubs); runs needing more draws than max_draws are cut',
               'shuffle_prefix instances: only shuffles that start with the given stubs (all orders of the rest)',
               'node labels are arbitrary but given in increasing order']


def degdict(S, seq):
    V = S.ordered_labels(len(seq))
    return V, dict(zip(V, seq))


def deg_obl(S, net, V, seq, tag=''):
    simple_layer(S, net, V, sum(seq) // 2, tag)
    for v, k in zip(V, seq):
        S.check(eqt(Sum([B2I(eqt(net[v, u], 1)) for u in V if u is not v]), k), 'degree of a node is the given one' + tag)
        S.check(eqt(net[v].deg(), k), 'deg() of a node is the given one' + tag)


def nodes(S, c):
    seq = c['degs']
    V = S.ordered_labels(len(seq))
    d = dict(zip(V, seq))
    if 'pre' in c:
        from symx import env
        env.POLICY.shuffle_prefix = [V[i] for i in c['pre']]
    if c.get('direct'):
        net = pymnet.MultilayerNetwork(aspects=0)
        pymnet.single_layer_conf(net, d, degstype='nodes')
    else:
        net = pymnet.conf(d, degstype='nodes')
    S.check(type(net) is pymnet.MultilayerNetwork and net.aspects == 0, 'a monoplex network')
    S.check(And([eqt(d[v], k) for v, k in zip(V, seq)]), 'the given degrees are not modified')
    deg_obl(S, net, V, seq)


def distribution(S, c):
    dist = c['dist']
    net = pymnet.conf(dict(dist))
    n = sum(dist.values())
    simple_layer(S, net, list(range(n)), sum(k * v for k, v in dist.items()) // 2)
    got = [net[v].deg() for v in range(n)]
    for k in range(n):
        S.check(sum(1 for g in got if g == k) == dist.get(k, 0), 'number of nodes of a degree')


def layers(S, c):
    spec = c['layers']
    ct = c.get('type', 'nodes')
    named = isinstance(spec, dict)
    items = list(spec.items()) if named else list(enumerate(spec))
    kw = {} if 'couplings' not in c else {'couplings': c['couplings']}
    net = pymnet.conf(spec if not c.get('copy') else source(items, c), degstype=ct, **kw)
    S.check(type(net) is pymnet.MultiplexNetwork and net.aspects == 1, 'a multiplex network')
    S.check(tuple(net.couplings[0]) == c.get('couplings', ('categorical', 1.0)), 'couplings')
    S.same_set(list(net.get_layers(1)), [(l, True) for l, d in items], 'layers')
    if ct == 'nodes':
        aligned = len(set(frozenset(d) for l, d in items)) == 1
        S.check(net.fullyInterconnected == aligned, 'fully interconnected exactly when all layers have the same nodes')
        for l, d in items:
            V = sorted(d)
            deg_obl(S, net.A[l], V, [d[v] for v in V], ' of a layer')
    else:
        aligned = len(set(sum(d.values()) for l, d in items)) == 1
        S.check(net.fullyInterconnected == aligned, 'fully interconnected exactly when all layers have as many nodes')
        for l, d in items:
            n = sum(d.values())
            simple_layer(S, net.A[l], list(range(n)), sum(k * v for k, v in d.items()) // 2, ' of a layer')
            got = [net.A[l][v].deg() for v in range(n)]
            for k in range(n):
                S.check(sum(1 for g in got if g == k) == d.get(k, 0), 'number of nodes of a degree in a layer')


def source(items, c):
    """A multiplex network with the given degrees (each layer a perfect matching or star on its nodes)."""
    net = pymnet.MultiplexNetwork('categorical', fullyInterconnected=c.get('full', True))
    for l, d in items:
        net.add_layer(l)
        for v in d:
            net.A[l].add_node(v)
        V = sorted(v for v in d if d[v])
        hub = [v for v in V if d[v] > 1]
        if hub:
            for v in V:
                if v != hub[0]:
                    net.A[l][hub[0], v] = 1
        else:
            for a, b in zip(V[::2], V[1::2]):
                net.A[l][a, b] = 1
    return net


def mono_copy(S, c):
    net, m = anynet(S, dict(n=c['n'], self=False, maxedges=c['maxedges'], present=True))
    seq = [net[v].deg() for v in m.nodes]
    got = pymnet.conf(net)
    deg_obl(S, got, m.nodes, seq)
    same_as(S, net, m, ' of the original network')


def bad(S, c):
    S.raises(Exception, lambda: pymnet.conf({0: 1, 1: 1}, degstype='foo'), 'an unknown degstype is rejected')
    S.raises(Exception, lambda: pymnet.conf([{0: 1, 1: 1}], degstype='foo'), 'an unknown degstype is rejected')
    S.raises(AssertionError, lambda: pymnet.conf({0: 1, 1: 1, 2: 1}, degstype='nodes'), 'an odd number of stubs is rejected')
    S.raises(AssertionError, lambda: pymnet.conf({0: 2, 1: 2}, degstype='nodes'), 'more edges than a simple graph can have are rejected')


def instances(add):
    D = dict(max_draws=3)
    for i, seq in enumerate([[0], [1, 1], [0, 1, 1], [1, 1, 1, 1], [2, 1, 1], [2, 1, 1, 0]]):
        add('nodes-%s' % '-'.join(map(str, seq)), nodes, dict(D, degs=seq), bounds='degrees %s, every shuffle' % seq)
    add('nodes-2-1-1-1-1', nodes, dict(D, degs=[2, 1, 1, 1, 1], pre=[0]), bounds='degrees 2,1,1,1,1; shuffles starting with the first node')
    add('direct', nodes, dict(D, degs=[1, 2, 1], direct=True))
    # repairs of self- and multi-edges: the shuffle starts with the conflicting stubs
    add('self', nodes, dict(max_draws=2, degs=[2, 1, 1, 1, 1], pre=[0, 0]), bounds='a self-edge repaired at the first draw')
    add('self-mid', nodes, dict(max_draws=2, degs=[1, 1, 2, 1, 1], pre=[2, 2]))
    add('self-retry', nodes, dict(max_draws=3, degs=[2, 1, 1, 1, 1], pre=[0, 0, 1, 2, 3, 4]), bounds='a self-edge repaired at the first or second draw')
    add('self-two', nodes, dict(max_draws=3, degs=[2, 2, 1, 1, 1, 1], pre=[0, 0, 1, 1]), bounds='two self-edges')
    add('self-double', nodes, dict(max_draws=3, degs=[4, 1, 1, 1, 1, 1, 1, 1, 1], pre=[0, 0, 0, 0, 1, 2, 3, 4, 5, 6]), bounds='two self-edges of one node')
    add('multi', nodes, dict(max_draws=2, degs=[2, 2, 1, 1, 1, 1], pre=[0, 1, 0, 1]), bounds='a double edge repaired at the first draw')
    add('multi-flip', nodes, dict(max_draws=2, degs=[1, 2, 1, 2, 1, 1], pre=[3, 1, 1, 3]), bounds='a double edge in both orientations')
    add('multi-retry', nodes, dict(max_draws=3, degs=[2, 2, 1, 1, 1, 1], pre=[0, 1, 0, 1, 2, 3]), bounds='a double edge repaired at the first or second draw')
    add('multi-triple', nodes, dict(max_draws=2, degs=[3, 3, 1, 1, 1, 1], pre=[0, 1, 0, 1, 0, 1]), bounds='a triple edge')
    add('multi-quad', nodes, dict(max_draws=3, degs=[4, 4, 1, 1, 1, 1, 1, 1, 1, 1], pre=[0, 1, 0, 1, 0, 1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9]), bounds='a quadruple edge')
    add('self-and-multi', nodes, dict(max_draws=3, degs=[3, 3, 2, 1, 1, 1, 1], pre=[0, 0, 1, 2, 1, 2]), tier='thorough', bounds='a self-edge and a double edge')
    add('all-2-1-1-1-1', nodes, dict(max_draws=2, degs=[2, 1, 1, 1, 1]), tier='thorough', bounds='every shuffle')
    add('all-2-2-1-1', nodes, dict(max_draws=2, degs=[2, 2, 1, 1]), tier='thorough', bounds='every shuffle')
    # repairs where some of the drawn edges cannot be used: rewiring them would repeat an edge
    def fixed(name, edges, draws=3, tier='quick'):
        n = 1 + max(max(e) for e in edges)
        pre = [v for e in edges for v in e]
        add('repair-' + name, nodes, dict(max_draws=draws, degs=[pre.count(v) for v in range(n)], pre=pre), tier=tier, bounds='edges %s before the repairs, at most %d draws' % (edges, draws - 1))
    fixed('self-near', [(0, 0), (0, 1), (1, 2), (3, 4), (5, 6)])
    fixed('self-near2', [(0, 0), (0, 3), (1, 2), (3, 4), (5, 6)])
    fixed('self-far', [(0, 0), (1, 2), (3, 4), (2, 4), (5, 6)])
    fixed('self-beside-multi', [(0, 0), (1, 2), (1, 2), (3, 4), (5, 6)])
    fixed('multi-near', [(0, 1), (0, 1), (0, 2), (2, 3), (4, 5), (6, 7)])
    fixed('multi-near2', [(0, 1), (1, 0), (1, 3), (2, 3), (4, 5), (6, 7)])
    fixed('multi-near4', [(0, 1), (0, 1), (0, 4), (1, 5), (2, 3), (4, 5), (6, 7)])
    fixed('multi-triple', [(0, 1), (0, 1), (0, 1), (2, 3), (4, 5)])
    fixed('multi-two', [(0, 1), (0, 1), (2, 3), (2, 3), (4, 5), (6, 7)], draws=3)
    # a conflict that is not the first edge, followed by another repair
    fixed('self-second', [(1, 2), (0, 0), (3, 4), (5, 6)])
    fixed('self-third-multi', [(1, 2), (3, 4), (0, 0), (1, 2), (5, 6), (7, 8)])
    fixed('self-two-later', [(2, 3), (0, 0), (4, 5), (1, 1), (6, 7)])
    fixed('self-twice', [(1, 2), (0, 0), (3, 4), (0, 0), (5, 6), (7, 8)])
    fixed('multi-later', [(2, 3), (0, 1), (4, 5), (0, 1), (6, 7)])
    fixed('multi-two-later', [(4, 5), (0, 1), (2, 3), (6, 7), (0, 1), (2, 3)])
    fixed('multi-flip-two', [(1, 0), (1, 0), (2, 3), (4, 5), (2, 3), (6, 7)])
    fixed('self-multi', [(0, 0), (1, 2), (1, 2), (3, 4), (5, 6), (7, 8)], draws=3)
    for i, dist in enumerate([{1: 2}, {0: 2, 1: 2}, {1: 2, 2: 1}, {1: 2, 0: 1}]):
        add('dist-%d' % i, distribution, dict(D, dist=dist), bounds='degree distribution %s' % dist)
    add('mplex', layers, dict(D, layers=[{0: 1, 1: 1}, {0: 0, 1: 0}]))
    add('mplex-named', layers, dict(D, layers={'a': {0: 1, 1: 1, 2: 0}, 'b': {0: 0, 1: 1, 2: 1}}, couplings=('ordinal', 2.0)))
    add('mplex-nonaligned', layers, dict(D, layers={5: {0: 1, 1: 1}, 6: {1: 1, 2: 1, 3: 0}}))
    add('mplex-nonaligned2', layers, dict(D, layers=[{0: 1, 1: 1}, {2: 1, 3: 1}], couplings=('none',)))
    add('mplex-dist', layers, dict(max_draws=4, layers=[{1: 2}, {0: 2}], type='distribution'))
    add('mplex-dist-nonaligned', layers, dict(max_draws=4, layers={'x': {1: 2}, 'y': {0: 1, 1: 2}}, type='distribution'))
    for i, sz in enumerate([(2, 1, 1), (1, 1, 2), (1, 2, 1)]):
        add('mplex-dist-3-%d' % i, layers, dict(max_draws=6, layers=[{0: n} for n in sz[:]], type='distribution'), bounds='3 layers of different sizes')
        add('mplex-nodes-3-%d' % i, layers, dict(max_draws=6, layers=[{v: 0 for v in range(n)} for n in sz]), bounds='3 layers of different sizes')
    add('mplex-dist-3-edges', layers, dict(max_draws=6, layers=[{1: 2}, {0: 1}, {0: 1}], type='distribution'), bounds='3 layers of different sizes')
    add('mplex-copy', layers, dict(D, layers={'a': {0: 1, 1: 1, 2: 0}, 'b': {0: 2, 1: 1, 2: 1}}, copy=True))
    add('mplex-copy-couplings', layers, dict(D, layers={'a': {0: 1, 1: 1}, 'b': {0: 0, 1: 0}}, copy=True, couplings=('ordinal', 3.0)))
    add('mplex-copy-nonaligned', layers, dict(D, layers={0: {0: 1, 1: 1}, 1: {1: 1, 2: 1}}, copy=True, full=False))
    add('mono-copy', mono_copy, dict(D, n=3, maxedges=2))
    add('invalid', bad, {})
