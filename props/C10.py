"""C10 overlay network."""
from .common import *
ASSUMPTIONS = ['noEdge is 0 or -1', 'no self-edges within layers']


def overlay(S, c):
    net, m = anynet(S, c)
    got = transforms.overlay_network(net)
    r = Model(0, m.directed, True, 'multilayer')
    r.nodes = list(m.nodes)
    r.nls = [(v,) for v in m.nodes]
    for i in m.nodes:
        for j in m.nodes:
            if i != j:
                r.w[(i,), (j,)] = Sum([m.val((i,) + l, (j,) + l) for l in m.combos()])
    same_as(S, got, r, ' of the overlay network')
    same_as(S, net, m, ' of the original network')


def aspects(S, c):
    net = pymnet.MultilayerNetwork(aspects=c['a'])
    S.raises(AssertionError, lambda: transforms.overlay_network(net), 'overlay of a network without exactly one aspect is rejected')


def instances(add):
    for d in (False, True):
        s = 'dir' if d else 'undir'
        add('ml-' + s, overlay, dict(n=3, L=[2], directed=d, allowed='intra', self=False, maxedges=7), bounds='3 nodes, 2 layers')
        add('ml-inter-' + s, overlay, dict(n=2, L=[2], directed=d, self=False, maxedges=7), bounds='2 nodes, 2 layers, inter-layer edges')
        add('ml-L3-' + s, overlay, dict(n=2, L=[3], directed=d, allowed='intra', self=False), bounds='2 nodes, 3 layers')
        add('ml-nonfull-' + s, overlay, dict(n=2, L=[2], directed=d, full=False, self=False, maxedges=4))
        add('mplex-' + s, overlay, dict(kind='multiplex', couplings=['categorical'], n=3 if not d else 2, L=[2], directed=d))
        add('mplex-nonfull-' + s, overlay, dict(kind='multiplex', couplings=['ordinal'], n=2, L=[2], directed=d, full=False))
    for d in (False, True):
        for t, b in shapes(d, k=6, aspects=(1,)):
            add(t, overlay, dict(b, self=False), bounds='larger networks, arbitrary weights on 6 pairs')
    add('one-node', overlay, dict(n=1, L=[2], self=False))
    add('aspects-0', aspects, dict(a=0))
    add('aspects-2', aspects, dict(a=2))
    add('ml-big', overlay, dict(n=4, L=[2], allowed='intra', self=False, maxedges=11), tier='thorough')
