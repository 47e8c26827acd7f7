"""C29 requirement checks of induced subgraphs."""
from .common import *
from .C28 import connected, acceptable
from pymnet.sampling import reqs
from pymnet import sampling
ASSUMPTIONS = ['undirected one-aspect networks without self-edges, noEdge 0']


def combos(n):
    return [c for k in range(2, n + 1) for c in itertools.combinations(range(n), k)]


def lengths(S, c):
    """For any sets of nodes on the layers, the required number of nodes is the size of their union."""
    n, u = c['layers'], c['universe']
    inn = [[S.int('in%d_%d' % (i, v), 0, 1) for v in range(u)] for i in range(n)]
    sizes = [Sum(r) for r in inn]
    for s in sizes:
        S.assume(s >= 1)
    inter = [Sum([B2I(And([eqt(inn[i][v], 1) for i in cb])) for v in range(u)]) for cb in combos(n)]
    got = reqs.default_calculate_required_lengths(list(sizes), list(inter))
    union = Sum([B2I(Or([eqt(inn[i][v], 1) for i in range(n)])) for v in range(u)])
    S.check(len(got) == 2 and got[1] == n, 'required number of layers')
    S.check(eqt(got[0], union), 'required number of nodes is the size of the union')


def formula(S, c):
    """For any sizes and intersections, inclusion-exclusion; inappropriate ones are rejected."""
    n = c['layers']
    sizes = [S.int('s%d' % i, -1, None) for i in range(n)]
    inter = [S.int('x%d' % i, -2, None) for i in range(2 ** n - n - 1)]
    ok = And([s >= 1 for s in sizes] + [x >= 0 for x in inter] + [True])
    if bool(ok):
        got = reqs.default_calculate_required_lengths(list(sizes), list(inter))
        want = Sum(sizes)
        for x, cb in zip(inter, combos(n)):
            want = want + x if len(cb) % 2 else want - x
        S.check(eqt(got[0], want), 'required number of nodes by inclusion-exclusion')
        S.check(got[1] == n, 'required number of layers')
    else:
        S.raises(AssertionError, lambda: reqs.default_calculate_required_lengths(list(sizes), list(inter)), 'inappropriate sizes or intersections are rejected')
    S.raises(AssertionError, lambda: reqs.default_calculate_required_lengths(list(sizes), list(inter) + [1]), 'a wrong number of intersections is rejected')
    S.raises(AssertionError, lambda: reqs.default_calculate_required_lengths([], []), 'an empty list of sizes is rejected')


def isect_term(m, N, order, cb):
    return len([v for v in N if all((v, order[i]) in m.nls for i in cb)])


def check(S, c):
    net, m = anynet(S, c)
    N = [m.nodes[i] for i in S.choice(c['nodelists'], 'N')] if c.get('nodelists') else list(m.nodes)
    L = [m.layers[0][i] for i in S.choice(c['layerlists'], 'L')] if c.get('layerlists') else list(m.layers[0])
    if c.get('perm'):
        N, L = S.perm(N, 'N'), S.perm(L, 'L')
    n = len(L)
    typ = c.get('type', 'strict')
    sizes = [S.int('s%d' % i, 1, len(N)) for i in range(n)]
    inter = [None if i in c.get('nones', ()) else S.int('x%d' % i, 0, len(N)) for i in range(2 ** n - n - 1)]
    acc = acceptable(m, N, L)
    R = [[isect_term(m, N, o, (i,)) for i in range(n)] + [isect_term(m, N, o, cb) for cb in combos(n)] for o in itertools.permutations(L)]
    fits = Or([And([eqt(a, b) for a, b in zip(r[:n], sizes)] +
                   [(eqt(a, b) if typ == 'strict' else le(a, b)) for a, b in zip(r[n:], inter) if b is not None]) for r in R])
    want = And(acc, fits)
    kw = {}
    if c.get('given', True):
        kw = dict(nnodes=len(N), nlayers=n)
    elif typ != 'strict':
        kw = dict(nnodes=len(N))
    if not kw:
        need = Sum(sizes)
        for x, cb in zip(inter, combos(n)):
            need = need + x if len(cb) % 2 else need - x
        if not bool(eqt(need, len(N))):
            S.raises(AssertionError, lambda: reqs.default_check_reqs(net, N, L, list(sizes), list(inter)), 'a wrong number of nodes is rejected')
            return
    got = reqs.default_check_reqs(net, tuple(N) if c.get('perm') else N, L, list(sizes), list(inter), intersection_type=typ, **kw)
    S.check(Iff(bool(got), want), 'accepted iff connected, without empty nodes or layers, and of the required sizes and intersections in some order of the layers')


def relaxed(S, c):
    net, m = anynet(S, c)
    N = [v for v in m.nodes if S.choice([True, False], 'v%s' % v)]
    L = [l for l in m.layers[0] if S.choice([True, False], 'l%s' % l)]
    if not N or not L:
        return
    got = reqs.relaxed_check_reqs(net, N, L)
    S.check(bool(got) == acceptable(m, N, L), 'accepted iff connected and without empty nodes or layers')
    same_as(S, net, m, ' of the network afterwards', edges=False)


def errors(S, c):
    net, m = anynet(S, c)
    N, L = m.nodes, m.layers[0]
    f = reqs.default_check_reqs
    S.raises(TypeError, lambda: f(net, N, L, [1, 1], [None]), 'Nones need the number of nodes and layers')
    S.raises(TypeError, lambda: f(net, N, L, [1, 1], [None], nnodes=2, intersection_type='less_or_equal'), 'Nones need the number of layers')
    S.raises(AssertionError, lambda: f(net, N, L, [1, 1], [0], intersection_type='less_or_equal'), 'less_or_equal needs the number of nodes')
    S.raises(TypeError, lambda: f(net, N, L, [1, 1], [0], intersection_type='other'), 'unknown intersection types are rejected')
    S.raises(AssertionError, lambda: f(net, N[:1], L, [1, 1], [0]), 'a wrong number of nodes is rejected')
    S.raises(AssertionError, lambda: f(net, N, L[:1], [1, 1], [0]), 'a wrong number of layers is rejected')
    S.raises(AssertionError, lambda: f(net, N, L, [2, 0], [0]), 'inappropriate sizes are rejected')
    S.raises(AssertionError, lambda: f(net, N, L, [2, 0], [0], nnodes=2, nlayers=2), 'inappropriate sizes are rejected')


def instances(add):
    for n, u in ((1, 3), (2, 3), (3, 3), (4, 2)):
        add('lengths-%d' % n, lengths, dict(layers=n, universe=u), bounds='%d layers with any node sets from %d nodes' % (n, u))
    add('lengths-4x4', lengths, dict(layers=4, universe=4), tier='thorough', bounds='4 layers with any node sets from 4 nodes')
    for n in (1, 2, 3, 4):
        add('formula-%d' % n, formula, dict(layers=n), bounds='%d layers, all integers' % n)
    one = dict(allowed='inter1', self=False)
    for typ in ('strict', 'less_or_equal'):
        for giv in (True, False):
            t = '%s-%s' % (typ[0], 'g' if giv else 'c')
            k = dict(type=typ, given=giv)
            add('check-2x2-' + t, check, dict(one, n=2, L=[2], **k), bounds='2 nodes x 2 layers, all edge sets, all sizes and intersections')
            add('check-nf-' + t, check, dict(one, n=3, L=[2], full=False, always=1, maxedges=5, **k), bounds='3 nodes x 2 layers non-fully interconnected, 5 edges, all sizes and intersections')
            add('check-nf3-' + t, check, dict(one, n=2, L=[3], full=False, always=2, maxedges=4, **k), bounds='2 nodes x 3 layers non-fully interconnected, 4 edges, all sizes and intersections')
            add('check-3x3-' + t, check, dict(one, n=3, L=[3], full=False, always=5, present=True, maxedges=9, **k), tier='thorough', bounds='3 nodes x 3 layers non-fully interconnected, all sizes and intersections')
        add('check-none-' + typ[0], check, dict(one, n=2, L=[3], full=False, always=2, type=typ, nones=(0, 2), maxedges=5, present=True), bounds='2 nodes x 3 layers, some intersections None')
        add('check-nall-' + typ[0], check, dict(one, n=3, L=[2], full=False, always=2, type=typ, nones=(0,), maxedges=5), bounds='3 nodes x 2 layers, intersections None')
        add('check-common-' + typ[0], check, dict(one, n=2, L=[3], full=False, always=2, type=typ, nones=(0, 1, 2), maxedges=5, present=True), bounds='2 nodes x 3 layers, only the common intersection')
        add('check-sub-' + typ[0], check, dict(one, n=3, L=[2], full=True, maxedges=6, type=typ, nodelists=[(0, 1), (2, 0), (1, 2), (0, 1, 2), (1,)], perm=True), bounds='3 nodes x 2 layers, subsets of the nodes in any order')
    A = lambda v, l: (v, 10 + l)
    E = [(A(0, 0), A(1, 0)), (A(1, 0), A(1, 1)), (A(0, 1), A(1, 1)), (A(1, 2), A(2, 1)), (A(3, 0), A(0, 0)), (A(3, 2), A(1, 2)), (A(2, 2), A(2, 1))]
    tmpl = lambda x, y: (x, y) in E or (y, x) in E
    for typ in ('strict', 'less_or_equal'):
        add('check-part-' + typ[0], check, dict(n=4, L=[3], full=False, free=(1, 2), allowed=tmpl, type=typ, nodelists=[(0, 1), (3, 1, 0), (2, 1)], layerlists=[(0, 1), (2, 1)], maxedges=5), bounds='parts of networks of 4 nodes x 3 layers')
        add('check-four-' + typ[0], check, dict(n=3, L=[4], full=False, free=(2, 2), allowed='inter1', self=False, type=typ, present=True, nones=(1, 4, 6, 7, 8), given=True), bounds='3 nodes x 4 layers, non-fully interconnected')
    add('relaxed-4x3', relaxed, dict(n=4, L=[3], full=False, free=(1, 7), allowed=tmpl, maxedges=5), bounds='4 nodes x 3 layers, any subsets')
    add('check-1', check, dict(n=3, L=[1], self=False, full=False), bounds='3 nodes x 1 layer')
    add('relaxed-2x2', relaxed, dict(n=2, L=[2], self=False), bounds='2 nodes x 2 layers, all edge sets, any subsets')
    add('relaxed-3x2', relaxed, dict(one, n=3, L=[2]), bounds='3 nodes x 2 layers, any subsets')
    add('relaxed-nf', relaxed, dict(one, n=3, L=[2], full=False, always=1, maxedges=5), bounds='3 nodes x 2 layers non-fully interconnected, 5 edges, any subsets')
    add('relaxed-2x3', relaxed, dict(one, n=2, L=[3], maxedges=8), bounds='2 nodes x 3 layers, 8 edges, any subsets')
    add('relaxed-plex', relaxed, dict(n=3, L=[2], kind='multiplex', couplings=['categorical']), bounds='categorical multiplex, 3 nodes x 2 layers')
    add('errors', errors, dict(one, n=2, L=[2]), bounds='2 nodes x 2 layers')
