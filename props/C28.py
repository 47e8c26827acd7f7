"""C28 enumeration and sampling of induced subgraphs."""
from .common import *
from symx.dist import distribution
from pymnet import sampling
from pymnet.sampling import esu, dumb
ASSUMPTIONS = ['undirected one-aspect networks without self-edges, noEdge 0', 'at least two layers when only the common intersection is given']


def connected(m, X):
    """are the node-layers X connected by edges among them (decided on the path)"""
    if not X:
        return False
    seen, todo = {X[0]}, [X[0]]
    while todo:
        x = todo.pop()
        for y in X:
            if y not in seen and bool(m.has(x, y)):
                seen.add(y)
                todo.append(y)
    return len(seen) == len(X)


def acceptable(m, N, L):
    X = [x for x in m.nls if x[0] in N and x[1] in L]
    return all(any(x[0] == v for x in X) for v in N) and all(any(x[1] == l for x in X) for l in L) and connected(m, X)


def isects(m, N, order):
    """sizes and intersection sizes of the layers in this order"""
    sets = [set(v for v in N if (v, l) in m.nls) for l in order]
    inter = []
    for k in range(2, len(order) + 1):
        for c in itertools.combinations(sets, k):
            inter.append(len(set.intersection(*c)))
    return [len(s) for s in sets], inter


def meets(m, N, L, sizes, inter, typ='strict'):
    if not acceptable(m, N, L):
        return False
    for order in itertools.permutations(L):
        s, i = isects(m, N, order)
        if s == list(sizes) and all(want is None or (got == want if typ == 'strict' else got <= want) for got, want in zip(i, inter)):
            return True
    return False


def answers(m, c):
    """the acceptable subgraphs for the request, as (node set, layer set)"""
    k = c['kw']
    if 'sizes' in k:
        sizes, inter = k['sizes'], k['intersections']
        n = 2 ** len(sizes) - len(sizes) - 1
        nlay, nn = len(sizes), k.get('nnodes')
        if isinstance(inter, int):
            inter = [None] * (n - 1) + [inter]
        if nn is None:
            sg, j = 1, 0
            nn = sum(sizes)
            for r in range(2, nlay + 1):
                sg = -sg
                for _ in itertools.combinations(sizes, r):
                    nn += sg * inter[j]
                    j += 1
        test = lambda N, L: meets(m, N, L, sizes, inter, k.get('intersection_type', 'strict'))
    else:
        nn, nlay = k['nnodes'], k['nlayers']
        test = lambda N, L: acceptable(m, N, L)
    out = []
    if nn < 0:
        return out
    for N in itertools.combinations(m.nodes, nn):
        for L in itertools.combinations(m.layers[0], nlay):
            if test(N, L):
                out.append((frozenset(N), frozenset(L)))
    return out


def norm(S, results):
    out = []
    for r in results:
        S.check(isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], list) and isinstance(r[1], list), 'results are ([nodes],[layers]) pairs')
        S.check(len(set(r[0])) == len(r[0]) and len(set(r[1])) == len(r[1]), 'no repeated nodes or layers in a result')
        out.append((frozenset(r[0]), frozenset(r[1])))
    return out


def makenet(S, c):
    net, m = anynet(S, c)
    if c.get('order'):          # node-layers numbered in another order: permuted names
        f = dict(zip(m.nodes, S.perm(m.nodes, 'pn')))
        g = dict(zip(m.layers[0], S.perm(m.layers[0], 'pl')))
        r = lambda x: (f[x[0]], g[x[1]])
        t = copy_model(m)
        t.nls = [r(x) for x in m.nls]
        t.nodes = sorted(f[v] for v in m.nodes)
        t.w = {(r(x), r(y)): w for (x, y), w in m.w.items()}
        net = pymnet.MultilayerNetwork(aspects=1, fullyInterconnected=m.full)
        for l in t.layers[0]:
            net.add_layer(l)
        for x in t.nls:
            net.add_node(x[0], x[1]) if not m.full else net.add_node(x[0])
        for (x, y), w in t.w.items():
            net[link(x, y)] = w
        m = t
    return net, m


def enumerate_(S, c):
    net, m = makenet(S, c)
    want = answers(m, c)
    for how in c.get('how', ['esu', 'dumb', 'nocopy']):
        got = []
        kw = dict(c['kw'])
        cb = c.get('callback') and S.choice([False, True], 'cb')
        res = got.append if cb else got
        if how == 'dumb':
            dumb.dumb_enumeration(net, res, **kw)
        else:
            if how == 'nocopy':
                kw['copy_network'] = False
            ret = esu.sample_multilayer_subgraphs_esu(net, res, **kw)
        R = norm(S, got)
        S.check(len(set(R)) == len(R), 'each subgraph is found once')
        S.check(set(R) <= set(want), 'only acceptable subgraphs are found')
        S.check(set(R) >= set(want), 'all acceptable subgraphs are found')
        same_as(S, net, m, ' of the network afterwards', edges=False)
        S.check(And([eqt(net[link(x, y)], m.get(x, y)) for x, y in m.pairs(selfedges=False)]), 'edges of the network afterwards')


def custom(S, c):
    """a custom check is asked about subgraphs of the right shape, each at most once, with the
    induced edges of the original, and decides exactly what is returned"""
    net, m = makenet(S, c)
    nn, nlay = c['kw']['nnodes'], c['kw']['nlayers']
    want = answers(m, c)
    for how in ['esu', 'dumb', 'nocopy']:
        asked, yes = [], []

        def check(nw, N, L):
            k = (frozenset(N), frozenset(L))
            S.check(len(N) == nn and len(L) == nlay and len(k[0]) == nn and len(k[1]) == nlay, 'the check sees subgraphs of the requested shape')
            asked.append(k)
            X = [x for x in m.nls if x[0] in N and x[1] in L]
            S.check(And([eqt(nw[link(x, y)], m.get(x, y)) for x in X for y in X if x != y]), 'the check sees the edges of the original induced subgraph')
            ok = sum(N) % 2 == 0
            if ok:
                yes.append(k)
            return ok
        got = []
        kw = dict(c['kw'], custom_check_function=check)
        if how == 'dumb':
            dumb.dumb_enumeration(net, got, **kw)
        else:
            esu.sample_multilayer_subgraphs_esu(net, got, copy_network=(how == 'esu'), **kw)
        S.check(len(set(asked)) == len(asked), 'each subgraph is checked once')
        S.check(set(asked) >= set(want), 'every connected subgraph without empty nodes or layers is checked')
        S.check(sorted(map(repr, norm(S, got))) == sorted(map(repr, yes)), 'the custom check decides which subgraphs are returned')


def probability(S, c):
    """every acceptable subgraph is sampled with probability product(p)"""
    net, m = makenet(S, c)
    want = answers(m, c)
    k = c['kw']
    depth = c['depth']
    p = [S.real('p%d' % i) for i in range(depth)]
    for x in p:
        S.assume(And(x >= 0, x <= 1))
    total = p[0]
    for x in p[1:]:
        total = total * x

    def run():
        got = []
        esu.sample_multilayer_subgraphs_esu(net, got, p=list(p), seed=c.get('seed'), copy_network=c.get('copy', True), **k)
        return norm(S, got)
    D = distribution(S, run)
    prob = {}
    for pr, R in D:
        S.check(len(set(R)) == len(R), 'each subgraph is sampled at most once')
        for r in R:
            S.check(r in want, 'only acceptable subgraphs are sampled')
            prob[r] = prob.get(r, 0) + pr
    for r in want:
        S.check(eqt(prob.get(r, 0), total), 'every acceptable subgraph is sampled with probability product(p)')


def instances(add):
    one = dict(allowed='inter1', self=False)
    K = dict(
        r11=dict(nnodes=1, nlayers=1), r21=dict(nnodes=2, nlayers=1), r12=dict(nnodes=1, nlayers=2), r22=dict(nnodes=2, nlayers=2),
        r31=dict(nnodes=3, nlayers=1), r32=dict(nnodes=3, nlayers=2), r23=dict(nnodes=2, nlayers=3), r33=dict(nnodes=3, nlayers=3),
        s21=dict(sizes=[2, 1], intersections=[1]), s11=dict(sizes=[1, 1], intersections=[0]), s22=dict(sizes=[2, 2], intersections=[2]),
        s22b=dict(sizes=[2, 2], intersections=[1]), s2=dict(sizes=[2], intersections=[]), s3=dict(sizes=[3], intersections=[]),
        n21=dict(sizes=[2, 1], intersections=[None], nnodes=2), n22=dict(sizes=[2, 2], intersections=[None], nnodes=3),
        l22=dict(sizes=[2, 2], intersections=[1], nnodes=3, intersection_type='less_or_equal'),
        l21=dict(sizes=[2, 1], intersections=[1], nnodes=2, intersection_type='less_or_equal'),
        c21=dict(sizes=[2, 1], intersections=1, nnodes=2), c22=dict(sizes=[2, 2], intersections=1, nnodes=3),
        cl22=dict(sizes=[2, 2], intersections=2, nnodes=2, intersection_type='less_or_equal'),
        s211=dict(sizes=[2, 1, 1], intersections=[1, 1, 1, 1]), s111=dict(sizes=[1, 1, 1], intersections=[0, 0, 1, 0]),
        n211=dict(sizes=[2, 1, 1], intersections=[None, 0, None, None], nnodes=2), c211=dict(sizes=[2, 1, 2], intersections=1, nnodes=2))
    for k in ('r11', 'r21', 'r12', 'r22', 's21', 's11', 's22', 'n21', 'l21', 'c21', 'cl22', 's2'):
        add('2x2-' + k, enumerate_, dict(n=2, L=[2], self=False, kw=K[k]), bounds='2 nodes x 2 layers, all edge sets')
    for k in ('r31', 'r32', 'r22', 's22b', 'n22', 'l22', 'c22', 's3', 's21'):
        add('3x2-' + k, enumerate_, dict(one, n=3, L=[2], kw=K[k], order=False), bounds='3 nodes x 2 layers, intra-layer and same-node edges, all edge sets')
    for k in ('r22', 's21', 'r12', 'r21'):
        add('nf-2x2-' + k, enumerate_, dict(n=2, L=[2], self=False, full=False, kw=K[k]), bounds='2 nodes x 2 layers non-fully interconnected, all node-layer and edge sets')
    star = lambda *keep: (lambda x, y: (x, y) in keep or (y, x) in keep)
    A = lambda v, l: (v, 10 + l)
    e33 = [(A(0, 0), A(1, 0)), (A(1, 0), A(1, 1)), (A(1, 1), A(2, 1)), (A(0, 0), A(0, 2)), (A(2, 2), A(2, 1)), (A(0, 2), A(2, 2)), (A(0, 0), A(2, 1)), (A(1, 1), A(1, 2))]
    for k in ('r33', 'r23', 's211', 's111', 'n211', 'c211', 'r22', 'r32'):
        add('3x3-' + k, enumerate_, dict(n=3, L=[3], kw=K[k], allowed=star(*e33)), bounds='3 nodes x 3 layers, all subsets of 8 edges')
    e42 = [(A(0, 0), A(1, 0)), (A(1, 0), A(2, 0)), (A(2, 0), A(3, 0)), (A(3, 0), A(3, 1)), (A(0, 1), A(3, 1)), (A(1, 1), A(1, 0)), (A(1, 1), A(2, 1)), (A(0, 0), A(2, 1))]
    for k in ('r22', 'r32', 's22b', 'n22'):
        add('4x2-' + k, enumerate_, dict(n=4, L=[2], kw=K[k], allowed=star(*e42)), bounds='4 nodes x 2 layers, all subsets of 8 edges')
        add('4x2nf-' + k, enumerate_, dict(n=4, L=[2], kw=K[k], allowed=star(*e42[:6]), full=False, always=5), bounds='4 nodes x 2 layers non-fully interconnected, all subsets of 6 edges')
    # few nodes on many layers, and networks where no intra- or no same-node edges are given
    K['r24'] = dict(nnodes=2, nlayers=4)
    K['r14'] = dict(nnodes=1, nlayers=4)
    K['r34'] = dict(nnodes=3, nlayers=4)
    e24 = [(A(0, 0), A(1, 0)), (A(1, 0), A(1, 1)), (A(0, 1), A(1, 1)), (A(0, 0), A(0, 2)), (A(1, 2), A(0, 2)), (A(1, 1), A(1, 3)), (A(0, 3), A(1, 3)), (A(0, 2), A(0, 3))]
    for k in ('r23', 'r24', 'r22', 's111', 's211', 'c211', 'n211'):
        add('2x4-' + k, enumerate_, dict(n=2, L=[4], kw=K[k], allowed=star(*e24)), bounds='2 nodes x 4 layers, all subsets of 8 edges')
        add('2x4nf-' + k, enumerate_, dict(n=2, L=[4], kw=K[k], allowed=star(*e24[:6]), full=False, always=3, how=['esu', 'dumb']), bounds='2 nodes x 4 layers non-fully interconnected, all subsets of 6 edges')
    e34 = [(A(0, 0), A(1, 0)), (A(0, 0), A(0, 1)), (A(1, 1), A(0, 1)), (A(1, 1), A(1, 2)), (A(1, 2), A(2, 2)), (A(2, 2), A(2, 3)), (A(2, 3), A(1, 3)), (A(0, 3), A(1, 3))]
    for k in ('r23', 'r33', 'r34', 'r32', 's111'):
        add('3x4-' + k, enumerate_, dict(n=3, L=[4], kw=K[k], allowed=star(*e34)), bounds='3 nodes x 4 layers, all subsets of 8 edges')
    far = [(A(0, 0), A(1, 1)), (A(1, 1), A(2, 2)), (A(2, 2), A(0, 3)), (A(0, 0), A(2, 3)), (A(1, 1), A(0, 3)), (A(2, 2), A(0, 0)), (A(1, 3), A(2, 0)), (A(0, 1), A(1, 2))]
    for k in ('r23', 'r33', 'r32', 's111'):
        add('3x4f-' + k, enumerate_, dict(n=3, L=[4], kw=K[k], allowed=star(*far), full=False, always=9, how=['esu', 'nocopy'], maxedges=6), bounds='3 nodes x 4 layers non-fully interconnected, edges between different nodes of different layers')
    for k in ('r22', 'r32', 's22b'):
        add('3x2o-' + k, enumerate_, dict(n=3, L=[2], kw=K[k], allowed=star(*[(A(a, l), A(b, r)) for a, l, b, r in ((0, 0, 1, 0), (1, 0, 1, 1), (1, 1, 2, 1), (0, 0, 2, 1), (2, 0, 2, 1))]), order=True, how=['esu', 'nocopy']),
            bounds='3 nodes x 2 layers, all subsets of 5 edges, all orders of nodes and layers')
        add('3x2x-' + k, enumerate_, dict(n=3, L=[2], kw=K[k], self=False, maxedges=12), tier='thorough', bounds='3 nodes x 2 layers, all subsets of 12 edges')
        add('3x2on-' + k, enumerate_, dict(one, n=3, L=[2], kw=K[k], order=True, how=['esu']), tier='thorough', bounds='3 nodes x 2 layers, intra-layer and same-node edges, all orders')
    mp = dict(kind='multiplex', couplings=['categorical'], self=False)
    for k in ('r22', 's22b', 'r32'):
        add('plex-' + k, enumerate_, dict(mp, n=3, L=[2], kw=K[k]), bounds='categorical multiplex, 3 nodes x 2 layers, all edge sets')
    add('callback', enumerate_, dict(n=2, L=[2], self=False, kw=K['r22'], callback=True), bounds='2x2, results collected by a callback')
    for k in ('r22', 'r21', 'r32'):
        add('custom-' + k, custom, dict(one, n=3, L=[2], kw=K[k]), bounds='3 nodes x 2 layers, intra-layer and same-node edges, all edge sets')
    for k, d in (('r21', 2), ('r12', 2), ('r22', 3), ('s21', 3)):
        add('prob-2x2-' + k, probability, dict(n=2, L=[2], self=False, kw=K[k], depth=d), bounds='2 nodes x 2 layers, all edge sets, all probabilities')
        add('prob-nf-' + k, probability, dict(n=2, L=[2], self=False, full=False, always=2, kw=K[k], depth=d, copy=False, seed=3), bounds='2 nodes x 2 layers non-fully interconnected, all edge sets, all probabilities')
    e5 = [(A(0, 0), A(1, 0)), (A(1, 0), A(1, 1)), (A(0, 1), A(2, 1)), (A(0, 0), A(2, 1)), (A(0, 0), A(0, 1))]
    add('prob-3x2-r32', probability, dict(n=3, L=[2], kw=K['r32'], depth=4, allowed=star(*e5[:4])), bounds='3 nodes x 2 layers, subsets of 4 edges, all probabilities')
    add('prob-3x2-r22', probability, dict(n=3, L=[2], kw=K['r22'], depth=3, allowed=star(*e5)), bounds='3 nodes x 2 layers, subsets of 5 edges, all probabilities')
    add('prob-3x2-r31', probability, dict(n=3, L=[1], kw=K['r31'], depth=3, self=False), bounds='3 nodes x 1 layer, all edge sets, all probabilities')
