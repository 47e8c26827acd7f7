"""C18 Erdos-Renyi models."""
from .common import *
from pymnet import models
ASSUMPTIONS = ['random.random() is any real in [0,1), random.sample any sample (stubs)',
               'floor(log(1-r)/log(1-p)) is computed in exact arithmetic; values from the floor_cap on are one symbolic integer']


def simple_layer(S, net, V, edges=None, tag=''):
    """net is an undirected simple graph on V with unit weights."""
    S.same_set(list(net), [(v, True) for v in V], 'nodes of the network' + tag)
    cnt = 0
    for i in V:
        S.check(eqt(net[i, i], 0), 'no self-edges' + tag)
        for j in V:
            S.check(Or(eqt(net[i, j], 0), eqt(net[i, j], 1)), 'edges have weight 1' + tag)
    S.check(eqt(len(net.edges), Sum([B2I(eqt(net[i, j], 1)) for a, i in enumerate(V) for j in V[:a]])), 'edges are between the given nodes' + tag)
    if edges is not None:
        S.check(eqt(len(net.edges), edges), 'number of edges' + tag)


def prob(S, c):
    p = c.get('p')
    if p is None:
        p = S.real('p')
        S.assume(And(p > 0, p < 1))
    return p


def single(S, c):
    V = S.labels(c['n'])
    net = pymnet.MultilayerNetwork(aspects=0)
    N = c['n'] * (c['n'] - 1) // 2
    if 'edges' in c:
        pymnet.single_layer_er(net, V, edges=c['edges'])
        simple_layer(S, net, V, c['edges'])
    else:
        p = prob(S, c)
        pymnet.single_layer_er(net, V, p=p)
        simple_layer(S, net, V, {0: 0, 1: N}.get(c.get('p')))


def bijection(S, c):
    """Every edge index is turned into one pair of distinct nodes, differently for different indices."""
    n = c['n']

    class Nodes(object):
        def __len__(self): return n
        def __iter__(self): return iter(())
        def __getitem__(self, i):
            S.check(And(i >= 0, i < n), 'edges are between the given nodes')
            return i

    class Rec(object):
        aspects, directed = 0, False
        def __init__(self): self.w = []
        def add_node(self, v): pass
        def __setitem__(self, ij, w): self.w.append((ij[0], ij[1], w))
    net = Rec()
    models.single_layer_er(net, Nodes(), edges=c['edges'])
    S.check(len(net.w) == c['edges'], 'number of edges')
    for k, (i, j, w) in enumerate(net.w):
        S.check(And(Not(eqt(i, j)), eqt(w, 1)), 'edges join distinct nodes')
        for (i2, j2, w2) in net.w[:k]:
            S.check(Not(Or(And(eqt(i, i2), eqt(j, j2)), And(eqt(i, j2), eqt(j, i2)))), 'different edges are drawn')


def multi(S, c):
    n, p, e = c['n'], c.get('ps'), c.get('edges')
    if p is not None:
        if p == 'sym':
            p = prob(S, {})
        elif isinstance(p, list):
            p = [prob(S, {'p': x}) if x is not None else prob(S, {}) for x in p]
    net = pymnet.er(n, p, e)
    fic = not isinstance(n, list)
    if fic and not isinstance(p, list) and not isinstance(e, list):
        S.check(type(net) is pymnet.MultilayerNetwork and net.aspects == 0, 'a monoplex network')
        simple_layer(S, net, list(range(n)), e)
        return
    k = len(n) if not fic else len(p if p is not None else e)
    S.check(type(net) is pymnet.MultiplexNetwork and net.aspects == 1 and net.fullyInterconnected == fic, 'a multiplex network')
    S.check([tuple(x) for x in net.couplings] == [('categorical', 1.0)], 'categorical couplings')
    S.check(sorted(net.get_layers(1)) == list(range(k)), 'one layer for each given layer')
    nodes = [list(range(n))] * k if fic else [list(x) for x in n]
    S.check(sorted(net) == sorted(set(x for l in nodes for x in l)), 'nodes of the multiplex network')
    for l in range(k):
        el = e[l] if isinstance(e, list) else e
        pl = p[l] if isinstance(p, list) else p
        if not is_sym(pl) and pl in (0, 1):
            el = {0: 0, 1: len(nodes[l]) * (len(nodes[l]) - 1) // 2}[pl]
        simple_layer(S, net.A[l], nodes[l], el, ' of a layer')
        S.check(sorted(net.A[l]) == sorted(nodes[l]) and all((v in net.A[l]) for v in nodes[l]), 'nodes of a layer')


def partially(S, c):
    ps = [prob(S, {}) if x is None else x for x in c['ps']]
    kw = {'couplings': c['couplings']} if 'couplings' in c else {}
    net = pymnet.er_partially_interconnected(c['nodes'], ps, **kw)
    S.check(type(net) is pymnet.MultiplexNetwork and not net.fullyInterconnected, 'a multiplex network that is not fully interconnected')
    S.check(net.couplings[0][0] == c.get('couplings', ('categorical', 1.0))[0], 'couplings')
    S.same_set([tuple(x) for x in net.iter_node_layers()], [((v, l), True) for l, V in enumerate(c['nodes']) for v in V], 'nodes are in the layers they were given for')
    for l, V in enumerate(c['nodes']):
        simple_layer(S, net.A[l], list(V), {0: 0, 1: len(V) * (len(V) - 1) // 2}.get(c['ps'][l]), ' of a layer')


def wrong(S, c):
    S.raises(Exception, lambda: pymnet.er(2), 'p or edges must be given')
    S.raises(Exception, lambda: pymnet.er(2, p=1.0, edges=1), 'p and edges must not both be given')
    S.raises(Exception, lambda: pymnet.single_layer_er(pymnet.MultilayerNetwork(), [1, 2]), 'p or edges must be given')
    S.raises(Exception, lambda: pymnet.single_layer_er(pymnet.MultilayerNetwork(), [1, 2], p=1, edges=1), 'p and edges must not both be given')
    S.raises(AssertionError, lambda: pymnet.er([[1], [2]], p=[1.0]), 'as many probabilities as layers')
    S.raises(AssertionError, lambda: pymnet.er([[1], [2]], edges=[0]), 'as many edge counts as layers')
    S.raises(AssertionError, lambda: pymnet.er_partially_interconnected([[1], [2]], [1.0]), 'as many probabilities as layers')


def instances(add):
    for n in (0, 1, 2, 3, 4):
        add('single-p-n%d' % n, single, dict(n=n, floor_cap=n * (n - 1) // 2 + 1), bounds='%d nodes, any probability' % n)
        add('single-p0-n%d' % n, single, dict(n=n, p=0))
        add('single-p1-n%d' % n, single, dict(n=n, p=1))
    for n, e in ((2, 0), (2, 1), (3, 0), (3, 1), (3, 2), (3, 3), (4, 2), (4, 6)):
        add('single-edges-n%d-%d' % (n, e), single, dict(n=n, edges=e), bounds='%d nodes, %d edges' % (n, e)) if (n, e) != (4, 6) else \
            add('single-edges-n%d-%d' % (n, e), single, dict(n=n, edges=e), tier='thorough')
    for n, e in ((16, 1), (20, 2)):
        add('index-n%d-%d' % (n, e), bijection, dict(n=n, edges=e, sym_sample=True), bounds='%d nodes, any edge index' % n)
    add('index-n24', bijection, dict(n=24, edges=3, sym_sample=True), tier='thorough', bounds='24 nodes, any 3 edge indices')
    add('mono-p', multi, dict(n=3, ps='sym', floor_cap=4))
    add('mono-edges', multi, dict(n=3, edges=2))
    add('mplex-p', multi, dict(n=2, ps=[None, None], floor_cap=2))
    add('mplex-p3', multi, dict(n=3, ps=[None, 0], floor_cap=4))
    add('mplex-p01', multi, dict(n=3, ps=[0, 1]))
    add('mplex-edges', multi, dict(n=3, edges=[1, 2]))
    add('mplex-edges0', multi, dict(n=3, edges=[0, 3]))
    add('lists-p', multi, dict(n=[[0, 1], [1, 2, 3]], ps='sym', floor_cap=4))
    add('lists-ps', multi, dict(n=[[0, 1], [1, 2, 3]], ps=[1, None], floor_cap=4))
    add('lists-edges', multi, dict(n=[[0, 1], [1, 2, 3]], edges=1))
    add('lists-edges2', multi, dict(n=[[0, 1], [1, 2, 3], [5]], edges=[0, 2, 0]))
    add('lists-empty-p', multi, dict(n=[[0, 1], [], [1, 2]], ps=[None, None, 0], floor_cap=2))
    add('lists-empty-p1', multi, dict(n=[[], ['a']], ps=[1, 1]))
    add('lists-empty-edges', multi, dict(n=[[0, 1], [], [1, 2]], edges=[1, 0, 1]))
    add('mplex-n0', multi, dict(n=0, ps=[None, 1], floor_cap=2))
    add('mplex-n0-edges', multi, dict(n=0, edges=[0, 0]))
    add('mplex-n1', multi, dict(n=1, ps=[None, 1], floor_cap=2))
    add('partial-empty', partially, dict(nodes=[[0, 1], [], ['a']], ps=[None, None, 1], floor_cap=2))
    add('lists-same', multi, dict(n=[[0, 1], [0, 1]], edges=1))
    add('lists-same-p', multi, dict(n=[[1, 0], [0, 1]], ps='sym', floor_cap=2))
    add('lists-range', multi, dict(n=[range(2), range(1, 3)], edges=[1, 1]))
    add('partial', partially, dict(nodes=[[0, 1], [1, 2, 3]], ps=[None, None], floor_cap=4))
    add('partial-01', partially, dict(nodes=[[0, 1], [1, 2, 3], [7]], ps=[1, 0, None], couplings=('ordinal', 2)))
    add('invalid', wrong, {})
