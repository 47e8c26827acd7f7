"""C34 exact distributions of the random models."""
from fractions import Fraction
from math import comb, factorial
from symx.dist import distribution, outcomes, Dist
from .common import *
from symx.core import z3, to_term
from pymnet import models, transforms
from pymnet.sampling import creators
ASSUMPTIONS = ['random numbers are exactly uniform and independent', 'probabilities are strictly between 0 and 1 where they are symbolic (0 and 1 are separate instances)']


def prob(S, h='p'):
    p = S.real(h)
    S.assume(And(p > 0, p < 1))
    return p


def same(S, D, want, what):
    """the outcome probabilities D are exactly those of want (dicts)"""
    for k in D:
        if k not in want:
            S.check(eqt(D[k], 0), 'no other outcome is possible (%s)' % what)
    for k, w in want.items():
        if k in D:
            S.check(near(D[k], w), 'every outcome has its probability (%s)' % what)
        else:
            S.check(eqt(w, 0), 'every outcome has its probability (%s)' % what)


def near(a, b):
    if is_sym(a) or is_sym(b):
        d = z3.simplify(to_term(a) - to_term(b), som=True, som_blowup=10 ** 6)      # identity of polynomials
        return True if z3.is_rational_value(d) and d.as_fraction() == 0 else eqt(a, b)
    return abs(a - b) < 1e-6


def bernoulli(slots):
    """distribution of the sets of slots, each with its own probability"""
    out = {frozenset(): 1}
    for s, p in slots:
        new = {}
        for k, q in out.items():
            new[k | {s}] = q * p
            new[k] = q * (1 - p)
        out = new
    return out


def pairs(V):
    return [frozenset(x) for x in itertools.combinations(V, 2)]


def single(S, c):
    """each pair is an edge independently with probability p"""
    V = c['nodes']
    p = c['p'] if 'p' in c else prob(S)

    def run():
        net = pymnet.MultilayerNetwork(aspects=0)
        models.single_layer_er(net, V, p=p)
        S.check(set(net) == set(V), 'all nodes are added')
        return net
    N = len(pairs(V))
    D = outcomes(distribution(S, run, cap=N + 1), lambda net: frozenset(frozenset(e[:2]) for e in net.edges))
    if p in (0, 1) and not is_sym(p):
        same(S, D, {frozenset(pairs(V) if p else ()): 1}, 'edges')
    else:
        same(S, D, bernoulli([(x, p) for x in pairs(V)]), 'edges')


def fixed(S, c):
    """every set of m edges is equally likely"""
    V, m = c['nodes'], c['m']

    def run():
        net = pymnet.MultilayerNetwork(aspects=0)
        models.single_layer_er(net, V, edges=m)
        return net
    D = outcomes(distribution(S, run), lambda net: frozenset(frozenset(e[:2]) for e in net.edges))
    P = pairs(V)
    same(S, D, {frozenset(x): Fraction(1, comb(len(P), m)) for x in itertools.combinations(P, m)}, 'edges')


def layered(net):
    return frozenset((l, frozenset(e[:2])) for l in net.get_layers(1) for e in net.A[l].edges)


def multi(S, c):
    """the layers are independent Erdos-Renyi networks"""
    V = c['nodes']        # nodes of each layer
    ps = [prob(S, 'p%d' % i) for i in range(c['k'])] if c.get('k') else None
    if c['fn'] == 'er_n':
        run = lambda: models.er(len(V[0]), p=list(ps))
    elif c['fn'] == 'er_lists':
        run = lambda: models.er([list(v) for v in V], p=list(ps))
    elif c['fn'] == 'er_one':
        run = lambda: models.er([list(v) for v in V], p=ps[0])
        ps = ps * len(V)
    elif c['fn'] == 'partial':
        run = lambda: models.er_partially_interconnected([list(v) for v in V], list(ps))
    N = max(len(pairs(v)) for v in V)
    D = outcomes(distribution(S, run, cap=N + 1), layered)
    same(S, D, bernoulli([((l, x), ps[l]) for l in range(len(V)) for x in pairs(V[l])]), 'edges of the layers')


def multi_m(S, c):
    V, ms = c['nodes'], c['ms']
    if c['fn'] == 'n':
        run = lambda: models.er(len(V[0]), edges=list(ms))
    else:
        run = lambda: models.er([list(v) for v in V], edges=list(ms) if len(ms) > 1 else ms[0])
    D = outcomes(distribution(S, run), layered)
    ms = ms if len(ms) > 1 else ms * len(V)
    want = {frozenset(): 1}
    for l, v in enumerate(V):
        new = {}
        for x in itertools.combinations(pairs(v), ms[l]):
            for k, q in want.items():
                new[k | {(l, e) for e in x}] = q * Fraction(1, comb(len(pairs(v)), ms[l]))
        want = new
    same(S, D, want, 'edges of the layers')


def nls_edges(net):
    return frozenset(frozenset(net._link_to_nodes(e[:-1])) for e in net.edges)


def multilayer(S, c):
    """each pair of node-layers of different nodes is linked independently with probability p"""
    n, L = c['n'], c['L']
    p = prob(S)
    D = outcomes(distribution(S, lambda: models.er_multilayer(n, L, p)), nls_edges)
    lab = list(range(L)) if isinstance(L, int) else list(L)
    X = [(v, l) for v in range(n) for l in lab]
    same(S, D, bernoulli([(x, p) for x in pairs(X) if len(set(v for v, l in x)) == 2]), 'edges')


def partial_ml(S, c):
    """each pair of node-layers is linked independently with probability p; the generator is seeded"""
    V = c['nodes']
    p = prob(S)
    seed = c.get('seed')
    seeds = []

    def run():
        d = core_dist()
        n0 = len(d.seeds)
        net = creators.er_multilayer_partially_interconnected([list(v) for v in V], p, seed=seed)
        S.check(d.seeds[n0:] == [seed], 'the generator is seeded with the given seed, once')
        S.check(set(net.iter_node_layers()) == {(v, l) for l, vs in enumerate(V) for v in vs}, 'node-layers of the network')
        S.check(net.aspects == 1 and not net.fullyInterconnected and not net.directed, 'kind of network')
        S.check(all(e[-1] == 1 for e in net.edges), 'edges have weight 1')
        return net
    D = outcomes(distribution(S, run), nls_edges)
    X = [(v, l) for l, vs in enumerate(V) for v in vs]
    same(S, D, bernoulli([(x, p) for x in pairs(X)]), 'edges')


def core_dist():
    from symx import core
    return core.CTX.dist


def shuffle_nodes(S, c):
    """randomize_nodes_by_layer applies independent uniform permutations to the nodes of the layers"""
    net, m = anynet(S, c)

    def keyf(o):
        return tuple(sorted((l, tuple(sorted((tuple(sorted(e[:2])), txt(e[2])) for e in o.A[l].edges))) for l in o.get_layers(1)))
    D = outcomes(distribution(S, lambda: transforms.randomize_nodes_by_layer(net)), keyf)
    want = {}
    L = m.layers[0]
    on = {l: [x[0] for x in m.nls if x[1] == l] for l in L}
    E = {l: [(x[0], y[0], m.get(x, y)) for i, x in enumerate(m.nls) for y in m.nls[:i] if x[1] == y[1] == l and bool(m.has(x, y))] for l in L}
    tot = 1
    for l in L:
        tot *= factorial(len(on[l]))
    for perm in itertools.product(*[itertools.permutations(on[l]) for l in L]):
        f = {l: dict(zip(on[l], q)) for l, q in zip(L, perm)}
        k = tuple(sorted((l, tuple(sorted((tuple(sorted((f[l][a], f[l][b]))), txt(w)) for a, b, w in E[l]))) for l in L))
        want[k] = want.get(k, 0) + Fraction(1, tot)
    same(S, D, want, 'randomized network')


def txt(w):
    return str(w.t.sexpr()) if is_sym(w) else str(w)


def ba(S, c):
    """a new node attaches with one link per layer to older nodes with probability proportional to total degree"""
    n, k = c['n'], c['k']
    D = outcomes(distribution(S, lambda: models.ba_total_degree(n, [1] * k)), layered)
    want = {}

    def grow(i, deg, edges, q):
        if i == n:
            key = frozenset(edges)
            want[key] = want.get(key, 0) + q
            return
        tot = sum(deg)
        if i == 0:
            return grow(1, deg, edges, q)
        for t in itertools.product(range(i), repeat=k):
            r = q
            for j in t:
                r = r * (Fraction(deg[j], tot) if tot else Fraction(1, i))
            if r == 0:
                continue
            d = list(deg)
            for j in t:
                d[j] += 1
                d[i] += 1
            grow(i + 1, d, edges | {(l, frozenset((i, j))) for l, j in enumerate(t)}, r)
    grow(0, [0] * n, frozenset(), Fraction(1))
    same(S, D, want, 'edges')


def confs(S, c):
    """without conflicts the configuration model pairs the stubs uniformly; labels are assigned uniformly"""
    degs = c['degs']
    typ = c['type']

    def run():
        net = pymnet.MultilayerNetwork(aspects=0)
        models.single_layer_conf(net, dict(degs), degstype=typ)
        return frozenset(frozenset(e[:2]) for e in net.edges)
    D = outcomes(distribution(S, run), lambda e: e)
    if typ == 'nodes':
        V = [v for v in degs if degs[v]]
        M = [frozenset(frozenset(x) for x in z) for z in matchings(V)]
        same(S, D, {z: Fraction(1, len(M)) for z in M}, 'perfect matchings')
    else:
        n = sum(degs.values())
        M = [frozenset(frozenset(x) for x in z) for T in itertools.combinations(range(n), degs[1]) for z in matchings(T)]
        same(S, D, {z: Fraction(1, len(M)) for z in M}, 'perfect matchings of the nodes of degree one')


def matchings(V):
    V = list(V)
    if not V:
        yield ()
        return
    a = V[0]
    for i in range(1, len(V)):
        for z in matchings(V[1:i] + V[i + 1:]):
            yield ((a, V[i]),) + z


def kf_nodelists(S, c):
    r = list(creators.random_nodelists(3, 2, 2, seed=1))
    S.check(len(r) == 2 and all(len(set(x)) == 2 and set(x) <= set(range(3)) for x in r), 'samples of nodes')


def instances(add):
    for n in (0, 1, 2, 3, 4):
        V = ['n%d' % i for i in range(n)]
        add('er-%d' % n, single, dict(nodes=V), bounds='%d nodes, any probability' % n)
        for p in (0, 1):
            add('er-%d-p%d' % (n, p), single, dict(nodes=V, p=p))
        for m in range(n * (n - 1) // 2 + 1):
            add('er-%d-m%d' % (n, m), fixed, dict(nodes=V, m=m), tier='quick' if comb(6, m) * factorial(m) <= 400 else 'thorough', bounds='%d nodes, %d edges' % (n, m))
    add('er-5-m2', fixed, dict(nodes=list('abcde'), m=2), bounds='5 nodes, 2 edges')
    add('mp-n', multi, dict(fn='er_n', nodes=[range(3)] * 2, k=2), bounds='3 nodes, 2 layers, any probabilities')
    add('mp-lists', multi, dict(fn='er_lists', nodes=[[0, 1, 2], [1, 5]], k=2), bounds='3 and 2 nodes, any probabilities')
    add('mp-one', multi, dict(fn='er_one', nodes=[[0, 1, 2], [1, 5]], k=1), bounds='3 and 2 nodes, any probability')
    add('mp-partial', multi, dict(fn='partial', nodes=[[0, 1], [1, 5, 0]], k=2), bounds='2 and 3 nodes, any probabilities')
    add('mp-m', multi_m, dict(fn='n', nodes=[range(3)] * 2, ms=[1, 2]), bounds='3 nodes, 1 and 2 edges')
    add('mp-lists-m', multi_m, dict(fn='l', nodes=[[0, 1, 2], [3, 1, 5]], ms=[2, 1]), bounds='3 and 3 nodes, 2 and 1 edges')
    add('mp-lists-m1', multi_m, dict(fn='l', nodes=[[0, 1, 2], [3, 1]], ms=[1]), bounds='3 and 2 nodes, 1 edge')
    for n, L in ((2, 1), (3, 1), (2, 2), (2, ('x', 'y')), (1, 2)):
        add('ml-%dx%s' % (n, L if isinstance(L, int) else 'names'), multilayer, dict(n=n, L=L), bounds='%d nodes, any probability' % n)
    add('ml-3x2', multilayer, dict(n=3, L=2), tier='thorough', bounds='3 nodes x 2 layers, any probability')
    for s in (None, 7, 'text', 0):
        add('pml-%s' % s, partial_ml, dict(nodes=[[0, 1], [1, 2]], seed=s), bounds='4 node-layers, any probability')
    add('pml-empty', partial_ml, dict(nodes=[['a', 'b', 'c'], [], ['a']], seed=3), bounds='4 node-layers, an empty layer')
    add('pml-5', partial_ml, dict(nodes=[['a', 'b', 'c'], ['d', 'a']], seed=3), tier='thorough', bounds='5 node-layers, any probability')
    mp = dict(kind='multiplex', couplings=['categorical'], self=False)
    add('shuffle', shuffle_nodes, dict(mp, n=3, L=[1]), bounds='3 nodes x 1 layer')
    add('shuffle-2', shuffle_nodes, dict(mp, n=3, L=[2], maxedges=3), bounds='3 nodes x 2 layers, 3 edges')
    add('shuffle-nf', shuffle_nodes, dict(mp, n=3, L=[2], maxedges=2, full=False, always=4), bounds='3 nodes x 2 layers, non-fully interconnected')
    add('ba-4-1', ba, dict(n=4, k=1), bounds='4 nodes, 1 layer')
    add('ba-3-2', ba, dict(n=3, k=2), bounds='3 nodes, 2 layers')
    add('ba-4-2', ba, dict(n=4, k=2), bounds='4 nodes, 2 layers')
    add('conf-2', confs, dict(degs={'a': 1, 'b': 1, 'c': 0}, type='nodes'))
    add('conf-4', confs, dict(degs={'a': 1, 'b': 1, 'c': 1, 'd': 1}, type='nodes'))
    add('conf-d', confs, dict(degs={1: 2, 0: 1}, type='distribution'))
    add('kf-nodelists', kf_nodelists, {})
