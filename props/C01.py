"""C01 edge store: reads return the last write, under every notation."""
from .common import *
from . import timeline

ASSUMPTIONS = ['labels are arbitrary integers per position; noEdge is an arbitrary number']


def write(S, net, n1, n2, v, notation):
    if notation == 'full':
        net[link(n1, n2)] = v
    elif notation == 'node':
        net[n1 if len(n1) > 1 else n1[0]][n2 if len(n2) > 1 else n2[0]] = v
    elif notation == 'node-slice':
        net[link(n1, (COLON,) * len(n1))][n2 if len(n2) > 1 else n2[0]] = v
    elif notation == 'short':
        # only for links inside one layer
        S.assume(And([eqt(a, b) for a, b in zip(n1[1:], n2[1:])]))
        net[(n1[0], n2[0]) + n1[1:]] = v


def reads(S, net, n1, n2):
    i2 = n2 if len(n2) > 1 else n2[0]
    yield 'full', net[link(n1, n2)]
    yield 'node', net[n1 if len(n1) > 1 else n1[0]][i2]
    yield 'node-slice', net[link(n1, (COLON,) * len(n1))][i2]
    if len(n1) > 1 and all(bool(a == b) for a, b in zip(n1[1:], n2[1:])):
        yield 'short', net[(n1[0], n2[0]) + n1[1:]]


def history(S, c):
    noEdge = S.real('noEdge') if c.get('symNoEdge') else 0
    net = pymnet.MultilayerNetwork(aspects=c['aspects'], directed=c['directed'], noEdge=noEdge,
                                   fullyInterconnected=c.get('full', True))
    ref = EdgeHist(noEdge, c['directed'])
    for k in range(c['k']):
        n1, n2 = nl(S, c['aspects'], 'a%d' % k), nl(S, c['aspects'], 'b%d' % k)
        v = S.real('w%d' % k)
        write(S, net, n1, n2, v, S.choice(c['notations'], 'notation%d' % k))
        ref.set(n1, n2, v)
    p, q = nl(S, c['aspects'], 'p'), nl(S, c['aspects'], 'q')
    want = ref.get(p, q)
    for name, got in reads(S, net, p, q):
        S.check(eqt(got, want), 'read after writes (%s notation) returns the last value written' % name)


def badarity(S, c):
    a = c['aspects']
    net = pymnet.MultilayerNetwork(aspects=a)
    n1, n2 = nl(S, a, 'a'), nl(S, a, 'b')
    v = S.real('w')
    net[link(n1, n2)] = v
    d = a + 1
    for n in range(1, 2 * d + 3):
        if n in (d, d + 1, 2 * d):
            continue
        key = tuple(S.label('k') for _ in range(n))
        S.raises(KeyError, lambda: net[key], 'reading with a wrong number of indices raises KeyError')
    for n in range(1, 2 * d + 3):
        if n in (d + 1, 2 * d):
            continue
        key = tuple(S.label('k') for _ in range(n))

        def f():
            net[key] = v + 1
        S.raises(KeyError, f, 'writing with a wrong number of indices raises KeyError')
    S.check(eqt(net[link(n1, n2)], v), 'edge unchanged by rejected accesses')
    S.check(len(net.edges) <= 1, 'no edges created by rejected accesses')


def instances(add):
    timeline.instances(add, timeline.look_reads, how=('net', 'node'))
    timeline.instances(add, timeline.look_reads, how=('net', 'node'), steps=3, tier='thorough')
    N = ['full', 'node', 'node-slice']
    for d in (False, True):
        s = 'dir' if d else 'undir'
        add('hist-a0-k3-' + s, history, dict(aspects=0, directed=d, k=3, notations=['full'], symNoEdge=True),
            bounds='3 writes, any integer labels, any weights and noEdge')
        add('hist-a0-k2-notations-' + s, history, dict(aspects=0, directed=d, k=2, notations=N, symNoEdge=True),
            bounds='2 writes in any notation')
        add('hist-a1-k2-' + s, history, dict(aspects=1, directed=d, k=2, notations=['full']), bounds='2 writes, 1 aspect')
        add('hist-a1-k1-notations-' + s, history, dict(aspects=1, directed=d, k=1, notations=N + ['short'], symNoEdge=True),
            bounds='1 write in any notation, 1 aspect')
        add('hist-a1-k1-nonfull-' + s, history, dict(aspects=1, directed=d, k=1, notations=['full', 'short'], full=False),
            bounds='1 write, 1 aspect, not fully interconnected')
        add('hist-a2-k1-' + s, history, dict(aspects=2, directed=d, k=1, notations=['full', 'short']), bounds='1 write, 2 aspects')
        add('hist-a2-k1-nonfull-' + s, history, dict(aspects=2, directed=d, k=1, notations=['full', 'short'], full=False),
            bounds='1 write, 2 aspects, not fully interconnected')
        for full in (True, False):
            add('hist-a3-k1-%s-%s' % ('full' if full else 'nonfull', s), history,
                dict(aspects=3, directed=d, k=1, notations=['full', 'short'], full=full), bounds='1 write, 3 aspects')
    for a in (0, 1, 2):
        add('arity-a%d' % a, badarity, dict(aspects=a))
