"""C20 full, multilayer Erdos-Renyi, overlap and preferential attachment models."""
from .common import *
from pymnet import models
ASSUMPTIONS = ['random.* give any outcome (stubs); runs needing more draws than max_draws are cut']
CAT = ('categorical', 1.0)


def full(S, c):
    n, L = c['n'], c['L']
    kw = {'couplings': c['couplings']} if 'couplings' in c else {}
    lab = None
    if L == 'sym':
        lab = S.labels(2, 'l')
        net = pymnet.full(n, lab, **kw)
    else:
        net = pymnet.full(n, L, **kw)
        lab = [] if L is None else (list(range(L)) if isinstance(L, int) else list(L))
    S.same_set(list(net), [(v, True) for v in range(n)], 'nodes of the full network')
    if L is None:
        S.check(type(net) is pymnet.MultilayerNetwork and net.aspects == 0, 'a monoplex network')
        A = [net]
    else:
        S.check(type(net) is pymnet.MultiplexNetwork and net.fullyInterconnected, 'a multiplex network')
        S.check(tuple(net.couplings[0]) == c.get('couplings', CAT), 'couplings')
        S.same_set(list(net.get_layers(1)), [(l, True) for l in lab], 'layers of the full network')
        A = [net.A[l] for l in lab]
    for a in A:
        S.check(len(a.edges) == n * (n - 1) // 2, 'number of edges of a full layer')
        S.check(all(a[i, j] == (1 if i != j else 0) for i in range(n) for j in range(n)), 'all edges between distinct nodes')


def fullml(S, c):
    n, L = c['n'], c['L']
    lab = S.labels(2, 'l') if L == 'sym' else (list(range(L)) if isinstance(L, int) else list(L))
    net = pymnet.full_multilayer(n, lab if L == 'sym' else L)
    S.check(type(net) is pymnet.MultilayerNetwork and net.aspects == 1 and net.fullyInterconnected and not net.directed, 'a multilayer network')
    S.same_set(list(net), [(v, True) for v in range(n)], 'nodes of the full network')
    S.same_set(list(net.get_layers(1)), [(l, True) for l in lab], 'layers of the full network')
    N = n * len(lab)
    S.check(len(net.edges) == N * (N - 1) // 2, 'number of edges')
    for l in lab:
        for k in lab:
            for i in range(n):
                for j in range(n):
                    S.check(eqt(net[i, j, l, k], 0 if i == j and l is k else 1), 'all edges between distinct node-layers')


def erml(S, c):
    n, L = c['n'], c['L']
    p = S.real('p') if c.get('p') is None else c['p']
    if c.get('p') is None:
        S.assume(And(p >= 0, p <= 1))
    lab = list(range(L)) if isinstance(L, int) else list(L)
    rw = c.get('weights', False)
    net = pymnet.er_multilayer(n, L, p, randomWeights=rw) if rw else pymnet.er_multilayer(n, L, p)
    S.check(type(net) is pymnet.MultilayerNetwork and net.aspects == 1 and net.fullyInterconnected, 'a multilayer network')
    S.same_set(list(net), [(v, True) for v in range(n)], 'nodes of the network')
    S.same_set(list(net.get_layers(1)), [(l, True) for l in lab], 'layers of the network')
    nls = [(i, l) for i in range(n) for l in lab]
    cnt = 0
    for a, x in enumerate(nls):
        S.check(eqt(net[link(x, x)], 0), 'no self-edges')
        for y in nls[:a]:
            w = net[link(x, y)]
            S.check(Or(eqt(w, 0), And(w > 0, w <= 1)) if rw else Or(eqt(w, 0), eqt(w, 1)), 'weights of the edges')
            if x[0] != y[0]:
                if c.get('p') == 1:
                    S.check(Not(eqt(w, 0)), 'all edges exist when the probability is 1')
            if c.get('p') == 0:
                S.check(eqt(w, 0), 'no edges exist when the probability is 0')


def comb_edges(S, net, V, L):
    """edges of net per exact layer combination: dict pair -> frozenset of layers (weights must be 0/1)"""
    out = {}
    for a, i in enumerate(V):
        for j in V[:a]:
            ls = []
            for l in L:
                S.check(net[i, j, l] in (0, 1), 'edges have weight 1')
                if net[i, j, l]:
                    ls.append(l)
            out[i, j] = frozenset(ls)
    for l in L:
        S.check(len(net.A[l].edges) == sum(1 for s in out.values() if l in s), 'no self-edges')
    return out


def overlaps(S, c):
    deg = c['degs']
    net = models.conf_overlaps({k: dict(v) for k, v in deg.items()}, couplings=c.get('couplings'))
    L = sorted(set(l for k in deg for l in k))
    V = sorted(set(v for d in deg.values() for v in d))
    S.check(sorted(net.get_layers(1)) == L, 'layers of the network')
    S.check(sorted(net) == V, 'nodes of the network')
    ce = comb_edges(S, net, V, L)
    S.check(all(not s or s in [frozenset(k) for k in deg] for s in ce.values()), 'edges are shared by the given layer combinations')
    for k, d in deg.items():
        for v in d:
            S.check(sum(1 for p, s in ce.items() if v in p and s == frozenset(k)) == d[v], 'overlap degree of a node is the given one')


def match(S, c):
    n, e, ps, L = c['n'], c['edges'], c['ps'], c['L']
    net = models.er_overlaps_match_aggregated(n, e, dict(ps), couplings=c.get('couplings'))
    S.check(sorted(net) == list(range(n)), 'nodes of the network')
    S.check(sorted(net.get_layers(1)) == sorted(L), 'layers of the network')
    ce = comb_edges(S, net, list(range(n)), L)
    S.check(sum(1 for s in ce.values() if s) == e * len(L), 'the aggregated network has edges * layers edges')
    for k in [frozenset(k) for k in ps if len(k) > 1]:
        m = int(round(ps[[x for x in ps if frozenset(x) == k][0]] * e))
        S.check(sum(1 for s in ce.values() if s == k) == m * len(k), 'number of edges shared by a layer combination')


def ba(S, c):
    n, ms = c['n'], c['ms']
    net = models.ba_total_degree(n, list(ms), couplings=c.get('couplings'))
    S.check(sorted(net) == list(range(n)), 'nodes of the network')
    S.check(sorted(net.get_layers(1)) == list(range(len(ms))), 'layers of the network')
    for l, m in enumerate(ms):
        for i in range(n):
            S.check(net[i, i, l] == 0, 'no self-edges')
            older = [net[i, j, l] for j in range(i)]
            S.check(all(w in (0, 1) for w in older), 'edges have weight 1')
            S.check(sum(older) == (m if i >= m else 0), 'a node gets the given number of links to older nodes')
    S.check(net.couplings[0][0] == (c.get('couplings') or ('none',))[0], 'couplings')


def instances(add):
    for n in (0, 1, 2, 3):
        for L in (None, 1, 2, ('a', 'b')):
            add('full-%d-%s' % (n, L if not isinstance(L, tuple) else 'names'), full, dict(n=n, L=L))
        add('full-sym-%d' % n, full, dict(n=n, L='sym', couplings=('ordinal', 2.0)), bounds='%d nodes, 2 arbitrary layer names' % n)
        for L in (1, 2, 'sym'):
            add('fullml-%d-%s' % (n, L), fullml, dict(n=n, L=L))
    add('fullml-3x3', fullml, dict(n=3, L=3))
    for n, L in ((0, 2), (1, 2), (2, 1), (3, 1), (2, 2)):
        add('erml-%dx%d' % (n, L), erml, dict(n=n, L=L), bounds='%d nodes, %d layers, any probability' % (n, L))
        add('erml-%dx%d-p1' % (n, L), erml, dict(n=n, L=L, p=1))
        add('erml-%dx%d-p0' % (n, L), erml, dict(n=n, L=L, p=0))
    add('erml-weights', erml, dict(n=3, L=1, weights=True), bounds='3 nodes, any weights drawn')
    add('erml-weights2', erml, dict(n=2, L=('x', 'y'), weights=True))
    P = {0: 1, 1: 1}
    add('overlap-simple', overlaps, dict(max_draws=2, degs={(0,): P, (0, 1): {0: 0, 1: 0, 2: 1, 3: 1}}))
    add('overlap-iso', overlaps, dict(max_draws=2, degs={('a',): {0: 1, 1: 1, 2: 0}, ('b',): {2: 0}}, couplings=CAT))
    # the same pair drawn for two combinations: swapped away
    add('overlap-taken', overlaps, dict(max_draws=3, degs={(0,): {0: 1, 1: 1}, (0, 1): {0: 1, 1: 1, 2: 1, 3: 1, 4: 1, 5: 1}}, shuffle_prefix=[0, 1]), bounds='an edge taken by another layer combination')
    add('overlap-taken-twice', overlaps, dict(max_draws=4, degs={(0,): {0: 1, 1: 1, 2: 1, 3: 1}, (1,): {0: 1, 1: 1, 2: 1, 3: 1, 4: 1, 5: 1, 6: 1, 7: 1}}, shuffle_prefix=[0, 1, 2, 3, 4, 5]), tier='thorough')
    add('overlap-self', overlaps, dict(max_draws=3, degs={(0, 1): {0: 2, 1: 1, 2: 1, 3: 1, 4: 1}, (1,): {5: 1, 6: 1}}, shuffle_prefix=[0, 0]), bounds='a self-edge')
    add('overlap-multi', overlaps, dict(max_draws=3, degs={(0, 1): {0: 2, 1: 2, 2: 1, 3: 1, 4: 1, 5: 1}, (1,): {7: 1, 6: 1}}, shuffle_prefix=[0, 1, 0, 1]), bounds='a double edge')
    add('overlap-self-other', overlaps, dict(max_draws=3, degs={(0,): {3: 1, 0: 1}, (0, 1): {0: 2, 1: 1, 2: 1, 3: 1, 4: 1}}, shuffle_prefix=[0, 0]), bounds='a self-edge whose repair may collide with another combination')
    # edges made by a repair are taken for later combinations
    A, B = {0: 2, 1: 1, 2: 1, 3: 1, 4: 1}, {2: 1, 4: 1, 5: 1, 6: 1, 7: 1, 8: 1}
    add('overlap-repair-self', overlaps, dict(max_draws=4, degs={(0, 1): A, (0,): B}, shuffle_plan=[[0, 0, 1, 2, 3, 4], [2, 4, 5, 6, 7, 8]]), bounds='a self-edge repaired into an edge drawn for the next combination')
    add('overlap-repair-self1', overlaps, dict(max_draws=4, degs={(0, 1): A, (0,): {0: 1, 1: 1, 5: 1, 6: 1, 7: 1, 8: 1}}, shuffle_plan=[[0, 0, 1, 2, 3, 4], [0, 1, 5, 6, 7, 8]]), bounds='the same, another new edge')
    add('overlap-repair-self2', overlaps, dict(max_draws=4, degs={(0, 1): A, (0,): {0: 1, 3: 1, 5: 1, 6: 1, 7: 1, 8: 1}}, shuffle_plan=[[0, 0, 1, 2, 3, 4], [0, 3, 5, 6, 7, 8]]), bounds='the same, another new edge')
    add('overlap-freed', overlaps, dict(max_draws=4, degs={(0, 1): A, (0,): {1: 1, 2: 1, 5: 1, 6: 1}}, shuffle_plan=[[0, 0, 1, 2, 3, 4], [1, 2, 5, 6]]), bounds='an edge freed by a repair, drawn for the next combination')
    A = {0: 2, 1: 2, 2: 1, 3: 1, 4: 1, 5: 1}
    for i, (x, y) in enumerate(((0, 2), (1, 3), (0, 4), (1, 5), (0, 1))):
        r = [z for z in range(6, 10)]
        add('overlap-repair-multi%d' % i, overlaps, dict(max_draws=4, degs={(0, 1): A, (0,): {z: 1 for z in [x, y] + r}}, shuffle_plan=[[0, 1, 0, 1, 2, 3, 4, 5], [x, y] + r]), bounds='a double edge repaired, and an edge of the next combination')
    A, B = {0: 1, 1: 1}, {0: 1, 1: 1, 2: 1, 3: 1, 4: 1, 5: 1}
    for i, (x, y) in enumerate(((0, 2), (1, 3), (0, 4), (0, 1))):
        r = [z for z in range(6, 10)]
        add('overlap-repair-taken%d' % i, overlaps, dict(max_draws=5, degs={(2,): A, (0, 1): B, (0,): {z: 1 for z in [x, y] + r}}, shuffle_plan=[[0, 1], [0, 1, 2, 3, 4, 5], [x, y] + r]), bounds='a taken edge repaired, and an edge of the third combination')
    # repairs where some of the drawn edges cannot be used
    def planned(name, first, edges, draws=2, later=()):
        degs, plan = {}, []
        for comb, es in (((2,), first), ((0, 1), edges), ((0,), later)):
            if es:
                ends = [v for e in es for v in e]
                degs[comb] = {v: ends.count(v) for v in sorted(set(ends))}
                plan.append(ends)
        add('overlap-blocked-' + name, overlaps, dict(max_draws=len(plan) + draws, degs=degs, shuffle_plan=plan), bounds='edges %s before the repairs, %s used by another combination, at most %d draws' % (edges, first, draws))
    S0 = [(0, 0), (1, 2), (3, 4), (5, 6)]
    planned('self', [], S0)
    planned('self-near', [(0, 1)], S0)
    planned('self-near2', [(0, 3)], S0)
    planned('self-far', [(2, 4)], S0)
    planned('self-multi', [], [(0, 0), (1, 2), (1, 2), (3, 4), (5, 6)])
    planned('self-taken', [(1, 2)], S0 + [(7, 8)])
    planned('self-two', [], [(0, 0), (1, 1), (2, 3), (4, 5)])
    M0 = [(0, 1), (1, 0), (2, 3), (4, 5), (6, 7)]
    planned('multi', [], M0)
    for i, e in enumerate(((0, 2), (1, 3), (0, 4), (1, 5))):
        planned('multi-near%d' % i, [e], M0)
    planned('multi-later', [], [(0, 1), (0, 1), (2, 3), (4, 5)], later=[(0, 1), (6, 7), (8, 9)])
    planned('multi-triple', [], [(0, 1), (0, 1), (0, 1), (2, 3), (4, 5)])
    planned('multi-two', [], [(0, 1), (0, 1), (2, 3), (2, 3), (4, 5), (6, 7)])
    planned('multi-taken', [(2, 3)], [(0, 1), (0, 1), (2, 3), (4, 5), (6, 7)])
    for i, e in enumerate(((0, 2), (1, 4), (3, 5))):
        planned('taken-near%d' % i, [(0, 1), e], [(0, 1), (2, 3), (4, 5), (6, 7)])
    planned('taken-two', [(0, 1), (2, 3)], [(0, 1), (2, 3), (4, 5), (6, 7)])
    planned('taken-twice', [(0, 1)], [(0, 1), (0, 1), (2, 3), (4, 5), (6, 7)])
    # conflicts that are not the first edge, followed by another repair
    planned('self-second-multi', [], [(1, 2), (0, 0), (3, 4), (1, 2), (5, 6), (7, 8)])
    planned('self-second-two', [], [(2, 3), (0, 0), (4, 5), (1, 1), (6, 7)])
    planned('multi-second-two', [], [(4, 5), (0, 1), (2, 3), (6, 7), (0, 1), (2, 3)])
    planned('multi-flip-two', [], [(1, 0), (1, 0), (2, 3), (4, 5), (2, 3), (6, 7)])
    planned('multi-mixed', [(8, 9)], [(4, 5), (0, 1), (2, 3), (0, 1), (8, 9), (6, 7)])
    planned('taken-second', [(2, 3), (6, 7)], [(0, 1), (2, 3), (4, 5), (6, 7)])
    add('match-2', match, dict(n=4, edges=2, L=[0, 1], ps={(0, 1): 0.5}, max_draws=5), bounds='4 nodes, 2 layers, 2 edges per layer')
    add('match-0', match, dict(n=3, edges=1, L=[0, 1], ps={(0, 1): 0.0}, max_draws=4, couplings=CAT))
    add('match-1', match, dict(n=3, edges=1, L=[0, 1], ps={(0, 1): 1.0}, max_draws=4))
    add('match-single', match, dict(n=3, edges=1, L=[0, 1, 2], ps={(0, 1): 0.0, (2,): 0.3, (0,): 1}, max_draws=4))
    add('match-3', match, dict(n=4, edges=1, L=[0, 1, 2], ps={(0, 1): 1.0, (2,): 0.5}, max_draws=4))
    add('match-big', match, dict(n=4, edges=2, L=[0, 1], ps={(0, 1): 0.5}, max_draws=7), tier='thorough')
    for ms in ([1], [2], [0, 1], [1, 1], [1, 2]):
        n = 4 if sum(ms) < 3 else 3
        add('ba-%d-%s' % (n, '-'.join(map(str, ms))), ba, dict(n=n, ms=ms, max_draws=4 if len(ms) == 1 else 5), bounds='%d nodes' % n)
    add('ba-2-3', ba, dict(n=2, ms=[3, 2], couplings=('categorical', 1.0)))
    add('ba-4-1-2', ba, dict(n=4, ms=[1, 2], max_draws=6), tier='thorough')
