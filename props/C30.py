"""C30 graphlets, automorphism orbits, orbit counts and orbit equations."""
from .common import *
from .C27 import maps, is_iso, generators
from fractions import Fraction
from pymnet import graphlets as gl
G, GM = gl.graphlets_module, gl.graphlet_measures
ASSUMPTIONS = ['fully interconnected undirected multiplex networks, every layer among the graphlet layers',
               'PyBliss is not installed: canonical forms and automorphisms come from a stand-in that decides coloured graphs by partition refinement']
_memo = {}


def library(c):
    """graphlets etc. as generated by the code under test (concrete: computed once per process)"""
    k = repr((c['size'], c['glayers'], c.get('n_l'), c.get('couplings'), c['aspects']))
    if k not in _memo:
        nets, invs = gl.graphlets(c['size'], list(c['glayers']), n_l=c.get('n_l'), couplings=c.get('couplings'), allowed_aspects=c['aspects'])
        auts = gl.automorphism_orbits(nets, allowed_aspects=c['aspects'])
        _memo[k] = nets, invs, auts
    return _memo[k]


def describe(net):
    """Model of a concrete multiplex network"""
    m = Model(1, False, True, 'multiplex')
    m.nodes = sorted(net)
    m.layers = [sorted(net.iter_layers())]
    m.nls = [(v, l) for v in m.nodes for l in m.layers[0]]
    for x in m.nls:
        for y in m.nls:
            if x < y and net[link(x, y)] != 0:
                m.put(x, y, net[link(x, y)])
    return m


def allowed(c):
    return (0, 1) if c['aspects'] == 'all' else tuple(c['aspects'])


def isoms(a, b, al):
    """node-layer isomorphisms of two concrete networks"""
    out = []
    for f in maps(a, b, al):
        if is_iso(f, a, b) is True:
            out.append(f)
    return out


def tied(m, nodes):
    """connected by intra-layer edges of any layer"""
    nodes = list(nodes)
    seen, todo = {nodes[0]}, [nodes[0]]
    while todo:
        v = todo.pop()
        for u in nodes:
            if u not in seen and any(bool(m.has((v, l), (u, l))) for l in m.layers[0]):
                seen.add(u)
                todo.append(u)
    return len(seen) == len(nodes)


def restrict(m, nodes):
    """concrete description of the induced subnetwork (edges are decided on the path)"""
    r = Model(1, False, True, 'multiplex')
    r.nodes = sorted(nodes)
    r.layers = m.layers
    r.nls = [(v, l) for v in r.nodes for l in m.layers[0]]
    for x in r.nls:
        for y in r.nls:
            if x < y and bool(m.has(x, y)):
                r.put(x, y, 1)
    return r


def network(S, c):
    net, m = anynet(S, dict(c['net'], kind='multiplex'))
    # layers named as in the graphlets
    names = c['netlayers'] if 'netlayers' in c else list(c['glayers'])
    old = m.layers[0]
    f = dict(zip(old, names))
    t = copy_model(m)
    t.layers = [list(names)]
    t.nls = [(v, f[l]) for v, l in m.nls]
    t.w = {((x[0], f[x[1]]), (y[0], f[y[1]])): w for (x, y), w in m.w.items()}
    cp = c.get('couplings')
    net = pymnet.MultiplexNetwork(couplings=cp, fullyInterconnected=True)
    t.rules = [('categorical', 1)] if cp == 'categorical' else [('none', 0)]
    for l in names:
        net.add_layer(l)
    for v in t.nodes:
        net.add_node(v)
    for (x, y), w in t.w.items():
        net[link(x, y)] = w
    return net, t


def classes(S, c):
    """The generated graphlets are connected and pairwise different, and every connected network is one of them."""
    nets, invs, auts = library(c)
    al = allowed(c)
    S.check(sorted(nets) == list(range(2, c['size'] + 1)), 'graphlets of 2..n nodes')
    net, m = network(S, c)
    k = c['net']['n']
    if not tied(m, m.nodes):
        return
    ci = str(pymnet.get_complete_invariant(net, allowed_aspects=c['aspects']))
    S.check(ci in invs, 'every connected network has its class among the graphlets')
    if ci not in invs:
        return
    i, j = invs[ci]
    S.check(i == k and j < len(nets[i]), 'the class has the right number of nodes')
    mine = restrict(m, m.nodes)
    mine.rules = m.rules
    hits = [q for q, g in enumerate(nets[k]) if isoms(mine, describe(g), al)]
    S.check(hits == [j], 'exactly one graphlet is isomorphic to the network, the one its invariant names')
    # positions: orbits
    g = describe(nets[i][j])
    A = isoms(g, g, al)
    for v in g.nodes:
        S.check(auts[i, j, v] == min(f[0][v] for f in A), 'the orbit of a node is named by its smallest member')
    f = isoms(mine, g, al)[0]
    for v in m.nodes:
        name = G.orbit_name(v, net, nets, invs, auts, allowed_aspects=c['aspects'])
        S.check(name == (i, j, auts[i, j, f[0][v]]), 'orbit of a node of an isomorphic network')


def wellformed(S, c):
    nets, invs, auts = library(c)
    al = allowed(c)
    n_l = c.get('n_l') or len(c['glayers'])
    for k in nets:
        for j, g in enumerate(nets[k]):
            m = describe(g)
            S.check(len(m.nodes) == k and tied(m, m.nodes), 'a graphlet is connected and has its number of nodes')
            S.check(len(m.layers[0]) == n_l and set(m.layers[0]) <= set(c['glayers']), 'a graphlet has the requested number of layers')
            S.check(list(invs.values()).count((k, j)) == 1, 'every graphlet has one invariant')
    S.check(len(invs) == sum(len(x) for x in nets.values()), 'one graphlet for each invariant')
    S.check(set(auts) == set((k, j, v) for k in nets for j, g in enumerate(nets[k]) for v in g), 'every node of every graphlet has an orbit')
    lists = gl.list_orbits(auts)
    want = {k: set((k, j, auts[k, j, v]) for j, g in enumerate(nets[k]) for v in g) for k in nets}
    S.check(all(set(lists[k]) == want[k] and len(lists[k]) == len(want[k]) for k in nets) and set(lists) == set(nets), 'list of orbits')
    num = gl.orbit_numbers(c['size'], nets, auts)
    S.check(set(num) == set().union(*want.values()) and sorted(num.values()) == list(range(len(num))), 'orbits are numbered 0,1,..')
    S.check(all(num[a] < num[b] for a in num for b in num if a[:2] < b[:2]), 'orbit numbers follow the graphlets')
    S.check([num[o] for o in gl.ordered_orbit_list(num)] == list(range(len(num))), 'ordered list of orbits')
    for k in nets:
        for j, g in enumerate(nets[k]):
            if k > 3:
                continue
            m = describe(g)
            A = isoms(m, m, al)
            for mode in ('all', 'last', '1'):
                with generators(mode):
                    nlorb = G.automorphism_orbits_nl({k: nets[k][j:j + 1]}, allowed_aspects=c['aspects'])
                for x in m.nls:
                    S.check(nlorb[k, 0, x] == min(tuple(h[e] for h, e in zip(f, x)) for f in A), 'node-layer orbits')
    for mode in ('first', 'last') + tuple('0123456789'):
        with generators(mode):
            S.check(gl.automorphism_orbits(nets, allowed_aspects=c['aspects']) == auts, 'orbits do not depend on the generators of the automorphism group')


def counts_ref(m, c, v):
    nets, invs, auts = library(c)
    al = allowed(c)
    out = {}
    for r in range(2, c['size'] + 1):
        for N in itertools.combinations(m.nodes, r):
            if v is not None and v not in N or not tied(m, N):
                continue
            sub = restrict(m, N)
            sub.w = {e: w for e, w in sub.w.items() if e[0][1] == e[1][1]}
            key_ = (r, tuple(sorted(sub.w)), tuple(N), repr(c['aspects']), repr(c['glayers']), repr(c.get('couplings')))
            if key_ not in _memo:
                for j, g in enumerate(nets[r]):
                    gk = ('g', id(nets), r, j)
                    if gk not in _memo:
                        _memo[gk] = describe(g)
                        _memo[gk].w = {e: w for e, w in _memo[gk].w.items() if e[0][1] == e[1][1]}
                    gm = _memo[gk]
                    if len(gm.w) != len(sub.w):
                        continue
                    f = isoms(sub, gm, al)
                    if f:
                        _memo[key_] = j, f[0]
                        break
            j, f = _memo[key_]
            for u in N:
                o = (u, (r, j, auts[r, j, f[0][u]]))
                out[o] = out.get(o, 0) + 1
    return out


def counts(S, c):
    nets, invs, auts = library(c)
    net, m = network(S, c)
    ol = gl.ordered_orbit_list(gl.orbit_numbers(c['size'], nets, auts))
    want = counts_ref(m, c, None)
    one = {}
    for v in m.nodes:
        GM.orbit_counts(c['size'], v, net, nets, one, auts, invs, ol, allowed_aspects=c['aspects'])
    every = {(v, o): want.get((v, o), 0) for v in m.nodes for o in ol}
    S.check(dict(one) == every, 'orbit counts of one node')
    got = GM.orbit_counts_all(net, c['size'], nets, invs, auts, ol, allowed_aspects=c['aspects'])
    S.check(dict(got) == every, 'orbit counts of all nodes')
    same_as(S, net, m, ' of the network afterwards')


def touching(S, c):
    net, m = network(S, c)
    for v in m.nodes:
        for k in (2, 3):
            got = GM.touching_orbit_nodes(v, net, k)
            want = [frozenset(N) for r in range(2, k + 1) for N in itertools.combinations(m.nodes, r) if v in N and tied(m, N)]
            S.check(set(got) == set(want), 'connected node sets around a node')


def binom(x, k):
    return x if k == 1 else x * (x - 1) // 2


def equations(S, c):
    """Every orbit equation holds for every node of every network."""
    nets, invs, auts = library(c)
    k = 'eq' + repr((c['size'], c['glayers'], c.get('n_l'), c.get('couplings'), c['aspects']))
    if k not in _memo:
        eqs = gl.orbit_equations(c['size'], nets, auts, invs, allowed_aspects=c['aspects'])
        sub = {}
        for e in eqs:
            if len(e) == 2 and isinstance(e[0][0], tuple) and isinstance(e[1], tuple):
                big, small = sorted([e[0][0], e[1][0]], key=lambda o: -o[0])
                if big[0] > small[0]:
                    sub[e] = big, small, G.subtrahend(big, small, nets, auts, invs, allowed_aspects=c['aspects'])
        _memo[k] = eqs, sub
    eqs, sub = _memo[k]
    orbits = sorted(set((k[0], k[1], auts[k]) for k in auts))
    fit = lambda a, b: a[0] + b[0] - 1 <= c['size'] and nets[a[0]][a[1]].slices[1] == nets[b[0]][b[1]].slices[1]
    pairs = set(frozenset((a, b)) for a in orbits for b in orbits if fit(a, b))
    have = [frozenset([e[0]]) if isinstance(e[1], int) else frozenset((e[0][0], e[1][0])) for e in eqs]
    S.check(len(have) == len(set(have)) and set(have) == pairs, 'there is one equation for each pair of orbits that fit together')
    net, m = network(S, c)
    for v in m.nodes[:c.get('upto', 9)]:
        ref = counts_ref(m, c, v)
        C = lambda o: ref.get((v, o), 0)
        for e, right in eqs.items():
            if e in sub:
                big, small, s = sub[e]
                left = C(big) * (C(small) - s)
            elif isinstance(e[1], int):
                left = binom(C(e[0]), e[1])
            else:
                left = C(e[0][0]) * C(e[1][0])
            S.check(left == sum(q * C(o) for o, q in right.items()), 'an orbit equation')


def partitions(S, c):
    n, r = c['n'], c['r']
    s = set(range(n))
    if n % r == 0:
        got = [frozenset(frozenset(x) for x in p) for p in G.partitions(s, r)]
        S.check(all(set().union(*p) == s and all(len(x) == r for x in p) and len(p) == n // r for p in got) if n else got == [frozenset()], 'partitions into subsets of size r')
        cnt = 1
        for q in range(n, 0, -r):
            for z in range(1, r):
                cnt = cnt * (q - z)
            for z in range(1, r):
                cnt = Fraction(cnt, z)
        S.check(len(got) == len(set(got)) == cnt, 'all partitions, once each')
    want = set()
    for size in range(n + 1):
        if (n - size) % r or (size == r):
            continue
        for rem in itertools.combinations(sorted(s), size):
            for p in subsets(sorted(s - set(rem)), r):
                want.add((frozenset(p), frozenset(rem)))
    got = list(G.partitions_with_remainder(s, r))
    norm = []
    for p in got:
        full = [frozenset(x) for x in p if len(x) == r]
        rem = [frozenset(x) for x in p if len(x) != r]
        S.check(len(rem) <= 1, 'at most one remainder')
        norm.append((frozenset(full), rem[0] if rem else frozenset()))
    S.check(len(norm) == len(set(norm)) and set(norm) == want, 'partitions with a remainder')


def subsets(s, r):
    if not s:
        yield frozenset()
        return
    for c in itertools.combinations(s[1:], r - 1):
        part = frozenset((s[0],) + c)
        for p in subsets([x for x in s if x not in part], r):
            yield p | {part}


def layercombs(S, c):
    L = list(range(c['n']))
    got = G.layer_combinations(L)
    S.check(len(got) == 2 ** c['n'] - 1 and set(map(frozenset, got)) == set(frozenset(x) for k in range(1, c['n'] + 1) for x in itertools.combinations(L, k)),
            'all nonempty sets of layers')


def gcd(S, c):
    import numpy
    n = c['n']
    def mat(h):
        a = numpy.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                a[i, j] = S.real('%s%d%d' % (h, i, j))
        return a
    A, B = mat('a'), mat('b')
    want = Sum([(A[i, j] - B[i, j]) * (A[i, j] - B[i, j]) for i in range(n) for j in range(i + 1, n)])
    d = GM.GCD(A, B)
    S.check(And(eqt(d * d, want), d >= 0), 'graphlet correlation distance')
    D = GM.GCD_matrix([A, B, A])
    S.check(len(D) == 3 and all(len(r) == 3 for r in D), 'a square matrix of distances')
    for i in range(3):
        for j in range(3):
            S.check(eqt(D[i][j] * D[i][j], want if i % 2 != j % 2 else 0), 'matrix of distances')
    S.raises(AssertionError, lambda: GM.GCD(A, numpy.zeros((n + 1, n + 1), dtype=object)), 'matrices of different shapes are rejected')


def instances(add):
    L1, L2, L3 = ['a'], ['a', 'b'], ['a', 'b', 'c']
    sets = [('2l-all', dict(size=3, glayers=L2, aspects='all')), ('2l-v', dict(size=3, glayers=L2, aspects=[0])),
            ('1l', dict(size=4, glayers=L1, aspects='all')), ('2l-cat', dict(size=3, glayers=L2, aspects='all', couplings='categorical'))]
    for t, c in sets:
        add('form-' + t, wellformed, c, bounds='graphlets of up to %d nodes on %d layers' % (c['size'], len(c['glayers'])))
        nl = len(c['glayers'])
        for n in range(2, c['size'] + 1):
            add('class-%s-%d' % (t, n), classes, dict(c, net=dict(n=n, L=[nl])), bounds='every network of %d nodes and %d layers' % (n, nl))
    add('form-3l2', wellformed, dict(size=3, glayers=L3, n_l=2, aspects=[0]), bounds='graphlets of up to 3 nodes on any 2 of 3 layers')
    for t, nlay in (('ab', ['a', 'b']), ('ac', ['a', 'c']), ('bc', ['b', 'c'])):
        add('class-3l2-' + t, classes, dict(size=3, glayers=L3, n_l=2, aspects=[0], netlayers=nlay, net=dict(n=3, L=[2])), bounds='every network of 3 nodes and 2 of the 3 layers')
    add('class-3l', classes, dict(size=3, glayers=L3, aspects='all', net=dict(n=3, L=[3])), tier='thorough', bounds='every network of 3 nodes and 3 layers')
    add('class-3l-v', classes, dict(size=3, glayers=L3, aspects=[0], net=dict(n=3, L=[3])), tier='thorough', bounds='every network of 3 nodes and 3 layers')
    for t, c in sets:
        nl = len(c['glayers'])
        q = dict(n=4, L=[nl], maxedges=8 if nl == 2 else 99)
        add('counts-' + t, counts, dict(c, net=q), bounds='4 nodes x %d layers, %s' % (nl, '8 edges' if nl == 2 else 'all edge sets'))
        add('counts-x-' + t, counts, dict(c, net=dict(q, n=4 if nl == 2 else 5, maxedges=12)), tier='thorough', bounds='%d nodes x %d layers, all edge sets' % (4 if nl == 2 else 5, nl))
        if 'couplings' not in c:
            add('eqs-' + t, equations, dict(c, net=dict(q, n=4 if nl == 2 else 5)), bounds='every node of the networks of %d nodes x %d layers%s' % (4 if nl == 2 else 5, nl, ', 8 edges' if nl == 2 else ''))
            add('eqs-x-' + t, equations, dict(c, net=dict(q, n=4 if nl == 2 else 5, maxedges=12)), tier='thorough', bounds='every node of the networks of %d nodes x %d layers' % (4 if nl == 2 else 5, nl))
    add('eqs-2l-3', equations, dict(sets[0][1], net=dict(n=3, L=[2])), bounds='every node of the networks of 3 nodes x 2 layers')
    add('touch', touching, dict(sets[0][1], net=dict(n=4, L=[2], maxedges=8)), bounds='4 nodes x 2 layers, 8 edges')
    five = dict(size=5, glayers=L1, aspects='all')
    add('form-1l5', wellformed, five, bounds='graphlets of up to 5 nodes on one layer')
    add('class-1l5', classes, dict(five, net=dict(n=5, L=[1])), bounds='every network of 5 nodes and one layer')
    add('eqs-1l5', equations, dict(five, net=dict(n=5, L=[1])), bounds='every node of the networks of 5 nodes x one layer')
    add('eqs-1l5-6', equations, dict(five, upto=2, net=dict(n=6, L=[1], some=(10, 5))), bounds='6 nodes x one layer, 10 edges')
    for t, asp in (('2l4', 'all'), ('2l4v', [0])):
        four = dict(size=4, glayers=L2, aspects=asp)
        add('class-' + t, classes, dict(four, net=dict(n=4, L=[2], some=(9, 3))), tier='thorough', bounds='4 nodes and two layers, 9 edges')
        add('eqs-' + t, equations, dict(four, upto=2, net=dict(n=4, L=[2], some=(5, 4))), bounds='4 nodes x 2 layers, 5 edges')
        add('counts-' + t, counts, dict(four, net=dict(n=4, L=[2], some=(6, 6))), bounds='4 nodes x 2 layers, 6 edges, graphlets of up to 4 nodes')
        add('eqs-x-' + t, equations, dict(four, upto=2, net=dict(n=4, L=[2], some=(8, 4))), tier='thorough', bounds='4 nodes x 2 layers, 8 edges')
        add('counts-x-' + t, counts, dict(four, net=dict(n=4, L=[2], some=(9, 6))), tier='thorough', bounds='4 nodes x 2 layers, 9 edges, graphlets of up to 4 nodes')
    for n, r in ((0, 1), (1, 1), (3, 1), (2, 2), (3, 2), (4, 2), (5, 2), (6, 2), (6, 3), (4, 3), (5, 3)):
        add('part-%d-%d' % (n, r), partitions, dict(n=n, r=r), bounds='sets of %d elements' % n)
    for n in (1, 2, 3, 4):
        add('layers-%d' % n, layercombs, dict(n=n), bounds='%d layers' % n)
    for n in (2, 3):
        add('gcd-%d' % n, gcd, dict(n=n), bounds='all %dx%d matrices' % (n, n))
