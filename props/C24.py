"""C24 clustering coefficients of (weighted) monoplex networks and of the supra-graph."""
from .common import *
from pymnet import cc
ASSUMPTIONS = ['undirected networks without self-edges', 'weights are positive', 'noEdge is 0',
               'cube roots are exact: equality of Onnela sums is checked term by term through the same root function']
UNDEF = 'undefined'


def trip(m, v):
    """(pairs of neighbours, closing weight) of a node on this path"""
    N = [x for x in m.nls if x != v and bool(m.has(v, x))]
    return N, [(x, y, bool(m.has(x, y))) for x, y in itertools.combinations(N, 2)]


def nm(m, x):
    return x if m.a else x[0]


def pos(S, m):
    for x, y in m.pairs():
        S.assume(m.get(x, y) >= 0)


def local(S, c):
    net, m = anynet(S, c)
    pos(S, m)
    W = m.get
    for v in m.nls:
        N, T = trip(m, v)
        k = len(N)
        t = sum(1 for x in T if x[2])
        u = nm(m, v)
        got = cc.lcc(net, u, undefReturn=UNDEF)
        if k < 2:
            S.check(got is UNDEF and cc.lcc(net, u) == 0, 'undefined for less than two neighbours')
        else:
            S.check(eqt(got * (k * (k - 1)), 2 * t), 'local clustering is triangles over pairs of neighbours')
            S.check(eqt(cc.lcc(net, u), got), 'undefReturn does not matter when defined')
    same_as(S, net, m, ' of the original network', edges=c.get('recheck', True))


def weighted(S, c):
    net, m = anynet(S, c)
    pos(S, m)
    W = m.get
    E = [W(x, y) for x, y in m.pairs() if bool(m.has(x, y))]
    mx = None
    for w in E:
        mx = w if mx is None else Ite(w > mx, w, mx)
    gn, gd = 0, 0
    for v in m.nls:
        N, T = trip(m, v)
        k, u = len(N), nm(m, v)
        den = Sum([W(v, x) * W(v, y) for x, y, _ in T])
        num = Sum([W(v, x) * W(v, y) * W(x, y) for x, y, t in T if t])
        gn, gd = gn + num, gd + den
        for f in (cc.cc_zhang, cc.cc_onnela, cc.cc_barrat):
            if k < 2:
                S.check(f(net, u, undefReturn=UNDEF) is UNDEF and f(net, u) == 0, 'undefined for less than two neighbours')
        if k < 2:
            continue
        if 'zhang' in c['what']:
            z = cc.cc_zhang(net, u, undefReturn=UNDEF)
            S.check(eqt(z, quot(quot(num, den), mx)), 'local clustering by Zhang and Horvath')
        if 'onnela' in c['what']:
            root = Sum([(W(v, x) * W(v, y) * W(x, y)) ** (1. / 3.) for x, y, t in T if t])
            S.check(eqt(cc.cc_onnela(net, u, undefReturn=UNDEF), quot(2 * root, k * (k - 1) * mx)), 'local clustering by Onnela et al.')
        if 'barrat' in c['what']:
            b = Sum([W(v, x) + W(v, y) for x, y, t in T if t])
            s = Sum([W(v, x) for x in N])
            S.check(eqt(cc.cc_barrat(net, u, undefReturn=UNDEF), quot(b, s * (k - 1))), 'local clustering by Barrat et al.')
    if 'gzhang' in c['what']:
        got = cc.gcc_zhang(net)
        S.check((got is None) == (not any(len(trip(m, v)[0]) > 1 for v in m.nls)), 'global clustering is undefined without pairs of neighbours')
        if got is not None:
            S.check(eqt(got, quot(quot(gn, gd), mx)), 'global clustering by Zhang and Horvath')


def quot(a, b):
    return a / b if is_sym(a) or is_sym(b) else __import__('fractions').Fraction(a) / b


def ones(S, c):
    """With all weights equal to 1 the weighted versions are the unweighted one."""
    net, m = anynet(S, dict(c, values=[0, 1]))
    for v in m.nls:
        got = cc.lcc(net, v[0], undefReturn=UNDEF)
        for f in (cc.cc_zhang, cc.cc_onnela, cc.cc_barrat):
            r = f(net, v[0], undefReturn=UNDEF)
            S.check(r is UNDEF if got is UNDEF else eqt(r, got), 'weighted versions agree on unweighted networks')
    S.check(True, '')


def layers(S, c):
    """Counts over the layers of multiplex networks."""
    net, m = anynet(S, c)
    st, sd = 0, 0
    allcc = []
    for v in m.nodes:
        got = cc.cc_sequence(net, v)
        S.check(len(got[0]) == len(got[1]) == len(m.layers[0]), 'one entry per layer')
        want = {}
        for l in m.layers[0]:
            N = [x for x in m.nls if x[1] == l and x[0] != v and (v, l) in m.nls and bool(m.has((v, l), x))]
            t = sum(1 for x, y in itertools.combinations(N, 2) if bool(m.has(x, y)))
            want[l] = (t, len(N) * (len(N) - 1) // 2)
        S.check(And([And(eqt(got[0][i], want[l][0]), eqt(got[1][i], want[l][1])) for i, l in enumerate(net.A)]), 'triangles and pairs of neighbours in each layer')
        n, d = sum(x for x, y in want.values()), sum(y for x, y in want.values())
        st, sd = st + n, sd + d
        if d:
            S.check(eqt(cc.cc_layers_wavg(net, v) * d, n), 'average over layers weighted by pairs of neighbours')
        if all(y for x, y in want.values()):
            S.check(eqt(cc.cc_layers_avg(net, v) * len(want), Sum([quot(x, y) for x, y in want.values()])), 'average over layers')
    got = cc.gcc_super_graph_no_couplings(net)
    S.check((got is None) == (sd == 0), 'undefined without pairs of neighbours')
    if sd:
        S.check(eqt(got * sd, st), 'global clustering of the layers')
    if m.full:
        got = cc.gcc_super_graph(net)
        tr = [trip(m, v) for v in m.nls]
        d = sum(len(T) for N, T in tr)
        n = sum(1 for N, T in tr for x in T if x[2])
        S.check((got is None) == (d == 0), 'undefined without pairs of neighbours')
        if d:
            S.check(eqt(got * d, n), 'global clustering of the supra-graph')


def mean(S, c):
    """gcc_from_lcc averages over the nodes for which the coefficient is defined."""
    net, m = anynet(S, c)
    vals = []
    for v in m.nls:
        N, T = trip(m, v)
        if len(N) > 1:
            vals.append(quot(sum(1 for x in T if x[2]), len(T)))
    got = cc.gcc_from_lcc(net, cc.lcc)
    S.check((got is None) == (not vals), 'undefined when no local value is defined')
    if vals:
        S.check(eqt(got * len(vals), Sum(vals)), 'average of the local values')


def instances(add):
    add('lcc', local, dict(n=4, self=False, flip=True), bounds='4 nodes')
    add('lcc-ml', local, dict(n=2, L=[2], self=False), bounds='2 nodes, 2 layers')
    add('lcc-ml3', local, dict(n=3, L=[2], self=False, maxedges=8, recheck=False), bounds='3 nodes, 2 layers, 8 edges')
    add('lcc-nonfull', local, dict(n=2, L=[2], self=False, full=False), bounds='any membership')
    add('lcc-mplex', local, dict(kind='multiplex', couplings=['categorical'], n=3, L=[2]), bounds='3 nodes, 2 layers')
    add('weighted-3', weighted, dict(n=3, self=False, what=['zhang', 'gzhang', 'onnela', 'barrat']), bounds='3 nodes, any weights')
    add('barrat', weighted, dict(n=4, self=False, what=['barrat']), bounds='4 nodes, any weights')
    add('zhang', weighted, dict(n=4, self=False, maxedges=5, what=['zhang']), bounds='4 nodes, 5 edges, any weights')
    add('onnela', weighted, dict(n=4, self=False, maxedges=5, what=['onnela']), bounds='4 nodes, 5 edges, any weights')
    add('ones', ones, dict(n=4, self=False), bounds='4 nodes, unweighted')
    add('layers', layers, dict(kind='multiplex', couplings=['categorical'], n=3, L=[2]), bounds='3 nodes, 2 layers')
    add('layers-none', layers, dict(kind='multiplex', couplings=['none'], n=3, L=[2], maxedges=5), bounds='3 nodes, 2 layers')
    add('layers-nonfull', layers, dict(kind='multiplex', couplings=['categorical'], n=3, L=[2], full=False, always=4, maxedges=4), bounds='3 nodes, 2 layers, membership')
    add('layers-3', layers, dict(kind='multiplex', couplings=['categorical'], n=3, L=[3], maxedges=7), bounds='3 nodes, 3 layers')
    add('mean', mean, dict(n=4, self=False), bounds='4 nodes')
    far = only((0, 1), (0, 2), (1, 2), (2, 3), (3, 4))
    add('far-zhang', weighted, dict(n=5, self=False, allowed=far, what=['zhang', 'gzhang']), bounds='5 nodes, a triangle with a tail, any weights')
    add('far-onnela', weighted, dict(n=5, self=False, allowed=far, what=['onnela', 'barrat']), bounds='5 nodes, a triangle with a tail, any weights')
    apart = only((0, 1), (0, 2), (1, 2), (3, 4))
    add('apart', weighted, dict(n=5, self=False, allowed=apart, what=['zhang', 'gzhang', 'onnela', 'barrat']), bounds='5 nodes, a triangle and an edge, any weights')
    two = only((0, 1), (0, 2), (1, 2), (3, 4), (3, 5), (4, 5), (2, 3))
    add('two-local', local, dict(n=6, self=False, allowed=two), bounds='6 nodes, two triangles and an edge between them')
    add('two-mean', mean, dict(n=6, self=False, allowed=two), bounds='6 nodes, two triangles and an edge between them')
    for i, (t, b) in enumerate(shapes(False, k=7)):
        add('lcc-' + t, local, dict(b, self=False, recheck=i % 2 == 0), bounds='larger networks, arbitrary weights on 7 pairs')
    for t, b in shapes(False, k=6, kinds='mx mxnf', aspects=(1,)):
        add('layers-' + t, layers, b, bounds='larger networks, arbitrary weights on 6 pairs')
    add('lcc-5', local, dict(n=5, self=False), tier='thorough', bounds='5 nodes')
    add('zhang-full', weighted, dict(n=4, self=False, what=['zhang', 'gzhang']), tier='thorough', bounds='4 nodes, any weights')
    add('onnela-full', weighted, dict(n=4, self=False, what=['onnela']), tier='thorough', bounds='4 nodes, any weights')
    add('layers-3-full', layers, dict(kind='multiplex', couplings=['categorical'], n=3, L=[3]), tier='thorough', bounds='3 nodes, 3 layers')
