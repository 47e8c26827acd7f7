"""C33 the modularity view."""
from .common import *
from pymnet.net import ModularityMultilayerNetworkView as View
ASSUMPTIONS = ['at least one aspect', 'undirected networks; the strength of a node within its layer counts a self-edge once']


def run(S, c):
    net, m = anynet(S, c)
    if c.get('gamma'):
        gamma = S.real('gamma')
        v = View(net, gamma) if S.choice([True, False], 'pos') else View(net, gamma=gamma)
    else:
        gamma = 1
        v = View(net)
    S.check(v.aspects == m.a, 'the view has the aspects of the network')
    for k in range(m.a):
        S.same_set(list(v.get_layers(k + 1)), [(l, True) for l in m.layers[k]], 'the view has the layers of the network')
    S.same_set(list(v), [(x, True) for x in m.nodes], 'the view has the nodes of the network')

    def strength(x):
        return Sum([m.get(x, y) for y in m.nls if y[1:] == x[1:]])
    k = {x: strength(x) for x in m.nls}
    for x in m.nls:
        two_m = Sum([k[y] for y in m.nls if y[1:] == x[1:]])
        for y in m.nls:
            w = m.get(x, y)
            got = v[link(x, y)]
            if x[1:] == y[1:]:
                S.check(Or(And(eqt(two_m, 0), eqt(got, w)), And(Not(eqt(two_m, 0)), eqt((w - got) * two_m, gamma * k[x] * k[y]))), 'within a layer the expected weight is subtracted')
            else:
                S.check(eqt(got, w), 'weights between layers are kept')
    for l in set(x[1:] for x in m.nls):
        X = [x for x in m.nls if x[1:] == l]
        if gamma == 1 or not c.get('gamma'):
            for x in X:
                if not c.get('nonrow'):
                    S.check(Or(eqt(Sum([k[y] for y in X]), 0), eqt(Sum([v[link(x, y)] for y in X]), 0)), 'the modularity weights of a node within its layer add up to zero')
    same_as(S, net, m, ' (the network is not changed)')


def instances(add):
    add('layer', run, dict(n=3, L=[1], self=False, gamma=True, again=False), bounds='3 nodes x 1 layer')
    add('layer-def', run, dict(n=3, L=[1], self=False, again=False), bounds='3 nodes x 1 layer')
    one = dict(allowed='inter1', n=2, L=[2])
    add('two', run, dict(one, self=False, gamma=True), bounds='2 nodes x 2 layers')
    add('two-self', run, dict(one, gamma=False, maxedges=5), bounds='2 nodes x 2 layers')
    add('plex', run, dict(kind='multiplex', couplings=['categorical'], n=3, L=[2], self=False, maxedges=4, nonrow=True, gamma=True, again=False), bounds='categorical multiplex, 3 nodes x 2 layers')
    add('plex-o', run, dict(kind='multiplex', couplings=['ordinal'], n=2, L=[3], self=False, gamma=True), bounds='ordinal multiplex, 2 nodes x 3 layers')
    add('two-aspects', run, dict(n=2, L=[2, 1], allowed='inter1', self=False, gamma=True), bounds='2 nodes x 2 x 1 layers')
    add('nf', run, dict(one, self=False, full=False, always=2, gamma=True), bounds='2 nodes x 2 layers non-fully interconnected')
    add('plex-nf', run, dict(kind='multiplex', couplings=['categorical'], n=2, L=[2], self=False, full=False, always=2, gamma=True), bounds='categorical multiplex, non-fully interconnected')
    for i, (t, b) in enumerate(shapes(False, k=3, small=True)):
        add(t, run, dict(b, self=False, gamma=i % 2 == 0, nonrow=True), bounds='larger networks, arbitrary weights on 3 pairs')
    add('layer4', run, dict(n=4, L=[1], self=False, gamma=True, maxedges=4), tier='thorough', bounds='4 nodes x 1 layer, 4 edges')
    add('three', run, dict(one, n=3, self=False, gamma=True, maxedges=6, nonrow=True), tier='thorough', bounds='3 nodes x 2 layers, 6 edges')
    add('plex3', run, dict(kind='multiplex', couplings=['categorical'], n=3, L=[3], self=False, maxedges=5, nonrow=True, gamma=True), tier='thorough', bounds='categorical multiplex, 3 nodes x 3 layers')
