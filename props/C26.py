"""C26 other multiplex clustering coefficients."""
from .common import *
from pymnet import cc
from fractions import Fraction
ASSUMPTIONS = ['undirected multiplex networks', 'weights are nonnegative', 'noEdge is 0',
               'with an aggregated network given, the Brodka neighbourhoods are those of unweighted networks']
UNDEF = 'undefined'


def setup(S, c):
    net, m = anynet(S, dict(c, kind='multiplex'))
    for w in set(m.w.values()) if not is_sym(next(iter(m.w.values()), 0)) else list(m.w.values()):
        S.assume(w >= 0)
    return net, m


def W(m, i, j, l):
    return m.w.get(((i, l), (j, l)), 0)


def lnk(m, i, j, l):
    """whether i and j are linked in layer l (decides it on this path)"""
    return i != j and ((i, l), (j, l)) in m.w and bool(m.has((i, l), (j, l)))


def ratio(S, got, n, d, undef, tag):
    """got is n/d, or the undefined value when d is 0"""
    if not is_sym(d) and d == 0:
        S.check(got is undef, 'undefined value: ' + tag)
    elif is_sym(got) or not isinstance(got, str):
        S.check(eqt(got * d, n), tag)
    else:
        S.check(False, tag)


def quot(a, b):
    return a / b if is_sym(a) or is_sym(b) else Fraction(a, b)


def barrett(S, c):
    net, m = setup(S, c)
    V, L = m.nodes, m.layers[0]
    for k, w in list(m.w.items()):       # the order of the weights is decided before running
        if bool(eqt(w, 0)):
            m.w[k] = 0
            net[link(*k)] = 0
    for l in L:
        for u, j, h in itertools.permutations(V, 3):
            bool(W(m, u, h, l) < W(m, j, h, l)) if u < j else None
    if c['couplings'] != ['none']:
        anet = pymnet.MultilayerNetwork(aspects=0)
        for v in V:
            anet.add_node(v)
        for i, j in itertools.combinations(V, 2):
            anet[i, j] = Sum([W(m, i, j, l) for l in L])
    else:
        anet = transforms.aggregate(net, 1)
    A = lambda i, j: Sum([W(m, i, j, l) for l in L])
    mx = max
    for u in V:
        N = [v for v in V if any(lnk(m, u, v, l) for l in L)]
        n = Sum([A(u, j) * A(u, h) * A(j, h) for j in N for h in N if j != h])
        d = Sum([A(u, j) * Sum([mx(W(m, u, h, l), W(m, j, h, l)) for l in L]) for j in N for h in V])
        fs = [lambda: cc.cc_barrett(net, u, anet, undefReturn=UNDEF), lambda: cc.cc_barrett_optimized(net, u, anet, undefReturn=UNDEF)]
        if len(N) >= 2:
            for f in fs:
                S.check(eqt(f(), quot(n, d)), 'coefficient of Barrett et al.')
            if c.get('explicit', True):
                S.check(eqt(cc.cc_barrett_explicit(net, u, undefReturn=UNDEF), quot(n, d)), 'coefficient of Barrett et al. as it is defined')
        else:
            for f in fs:
                S.check(f() is UNDEF, 'undefined for less than two neighbours')
            if not N:
                S.check(cc.cc_barrett_explicit(net, u, undefReturn=UNDEF) is UNDEF, 'undefined without neighbours')
            S.check(And(eqt(cc.cc_barrett(net, u, anet), 0), eqt(cc.cc_barrett_explicit(net, u), 0), eqt(cc.cc_barrett_optimized(net, u, anet), 0)), 'undefined coefficients are 0 by default')


def brodka(S, c):
    net, m = setup(S, c)
    V, L = m.nodes, m.layers[0]
    anet = transforms.aggregate(net, 1) if c.get('anet') else None
    for u in V:
        cnt = {v: sum(1 for l in L if lnk(m, u, v, l)) for v in V if v != u}
        for th in list(range(1, len(L) + 1)) + ['all']:
            t = len(L) if th == 'all' else th
            N = [v for v in cnt if cnt[v] >= t]
            kw = {} if th == 1 else {'threshold': th}
            got = cc.lcc_brodka(net, u, anet=anet, undefReturn=UNDEF, **kw)
            s = Sum([W(m, v, h, l) + W(m, h, v, l) for v in N for h in N if v != h for l in L])
            ratio(S, got, s, 2 * len(N) * len(L), UNDEF, 'cross-layer coefficient of Brodka et al.')


def battiston(S, c):
    net, m = setup(S, c)
    V, L = m.nodes, m.layers[0]
    b = len(L)
    for u in V:
        N = {l: [v for v in V if lnk(m, u, v, l)] for l in L}
        s1 = sum(1 for a in L for k in L if a != k for v in N[a] for h in N[a] if lnk(m, v, h, k))
        d1 = (b - 1) * sum(len(N[a]) ** 2 for a in L)
        if b >= 2:
            ratio(S, cc.lcc_battiston1(net, u, undefReturn=UNDEF), s1, d1, UNDEF, 'first coefficient of Battiston et al.')
        else:
            S.raises(AssertionError, lambda: cc.lcc_battiston1(net, u), 'first coefficient of Battiston et al. needs two layers')
        s2 = sum(1 for a in L for k in L if a != k for g in L if g not in (a, k) for v in N[a] for h in N[k] if lnk(m, v, h, g))
        d2 = max(b - 2, 0) * sum(len(N[a]) * len(N[k]) for a in L for k in L if a != k)
        ratio(S, cc.lcc_battiston2(net, u, undefReturn=UNDEF), s2, d2, UNDEF, 'second coefficient of Battiston et al.')


def criado(S, c):
    net, m = setup(S, c)
    V, L = m.nodes, m.layers[0]
    anet = transforms.aggregate(net, 1) if c.get('anet') else None
    for u in V:
        G = [v for v in V if any(lnk(m, u, v, l) for l in L)]
        s = d = 0
        for l in L:
            Gl = [v for v in G if (v, l) in m.nls]
            s += 2 * sum(1 for v, h in itertools.combinations(Gl, 2) if lnk(m, v, h, l))
            d += len(Gl) * (len(Gl) - 1)
        ratio(S, cc.lcc_criado(net, u, undefReturn=UNDEF, anet=anet), s, d, UNDEF, 'coefficient of Criado et al.')


def contraction(S, c):
    """Global coefficients of the weighted supra-graph: closed over all paths of length two."""
    net, m = setup(S, c)
    X = m.nls
    w = lambda x, y: m.get(x, y) if x != y else 0
    n = Sum([w(x, y) * w(y, z) * w(z, x) for x in X for y in X for z in X if x != y and y != z and z != x])
    d = Sum([w(x, y) * w(y, z) for x in X for y in X for z in X if x != z and x != y and y != z])
    for f in (cc.gcc_contraction_m, cc.gcc_contraction_m_ct, cc.gcc_contraction_m_full):
        got = f(net)
        if got is None:
            S.check(eqt(d, 0), 'tensor contraction coefficient is defined')
        else:
            S.check(And(Not(eqt(d, 0)), eqt(got * d, n)), 'tensor contraction coefficient')


    # the same with the layers of the three steps chosen freely: the overlay network against the largest possible weights
    V, L = m.nodes, m.layers[0]
    o = {(i, j): Sum([w((i, l), (j, l)) for l in L]) for i, j in itertools.permutations(V, 2)}
    n = Sum([o[i, j] * o[j, k] * o[k, i] for i, j, k in itertools.permutations(V, 3)])
    d = Sum([o[i, j] * o[j, k] for i, j, k in itertools.permutations(V, 3)]) * len(L)
    for f in (cc.gcc_contraction_o2, cc.gcc_contraction_o_full):
        got = f(net)
        if got is None:
            S.check(eqt(d, 0), 'tensor contraction coefficient of the overlay network is defined')
        else:
            S.check(And(Not(eqt(d, 0)), eqt(got * d, n)), 'tensor contraction coefficient of the overlay network')


def instances(add):
    C, N = dict(couplings=['categorical']), dict(couplings=['none'])
    add('barrett-3x2', barrett, dict(N, n=3, L=[2]), bounds='3 nodes, 2 layers, any weights')
    add('barrett-4', barrett, dict(N, n=4, L=[1], maxedges=5), bounds='4 nodes, 1 layer, 5 edges, any weights')
    add('barrett-coupled', barrett, dict(C, n=3, L=[2], maxedges=4), bounds='3 nodes, 2 layers, 4 edges, any weights')
    add('barrett-nonfull', barrett, dict(N, n=3, L=[2], full=False, always=3, maxedges=4), bounds='membership')
    add('barrett-unit', barrett, dict(N, n=3, L=[3], values=[0, 1], ints=True, maxedges=8), bounds='3 nodes, 3 layers, 8 edges, unweighted')
    add('brodka-3x2', brodka, dict(C, n=3, L=[2]), bounds='3 nodes, 2 layers, any weights, every threshold')
    add('brodka-3x3', brodka, dict(N, n=3, L=[3], maxedges=7), bounds='3 nodes, 3 layers, 7 edges, any weights')
    add('brodka-4x2', brodka, dict(N, n=4, L=[2], maxedges=7), bounds='4 nodes, 2 layers, 7 edges, any weights')
    add('brodka-anet', brodka, dict(C, n=3, L=[2], anet=True, values=[0, 1], ints=True), bounds='3 nodes, 2 layers, unweighted')
    add('brodka-nonfull', brodka, dict(N, n=3, L=[2], full=False, always=2, maxedges=4), bounds='membership')
    add('battiston-3x2', battiston, dict(C, n=3, L=[2]), bounds='3 nodes, 2 layers')
    add('battiston-3x3', battiston, dict(C, n=3, L=[3], maxedges=7), bounds='3 nodes, 3 layers, 7 edges')
    add('battiston-4x2', battiston, dict(N, n=4, L=[2], maxedges=7), bounds='4 nodes, 2 layers, 7 edges')
    add('battiston-1', battiston, dict(N, n=3, L=[1]))
    add('criado-3x2', criado, dict(C, n=3, L=[2]), bounds='3 nodes, 2 layers')
    add('criado-anet', criado, dict(C, n=3, L=[2], anet=True), bounds='3 nodes, 2 layers')
    add('criado-4x2', criado, dict(N, n=4, L=[2], maxedges=7), bounds='4 nodes, 2 layers, 7 edges')
    add('criado-nonfull', criado, dict(C, n=3, L=[2], full=False, always=1, maxedges=5), bounds='membership')
    add('contraction', contraction, dict(C, n=2, L=[2]), bounds='2 nodes, 2 layers, any weights')
    add('contraction-3', contraction, dict(N, n=3, L=[1]), bounds='3 nodes, any weights')
    add('contraction-3x2', contraction, dict(N, n=3, L=[2], maxedges=4), bounds='3 nodes, 2 layers, 4 edges, any weights')
    add('contraction-dir', contraction, dict(C, n=2, L=[2], directed=True, maxedges=3), bounds='2 nodes, 2 layers, directed, 3 edges, any weights')
    add('contraction-dir-3', contraction, dict(N, n=3, L=[1], directed=True, maxedges=5), bounds='3 nodes, directed, 5 edges, any weights')
    # triangles whose sides are in different layers, nodes away from them
    T1 = inlayers([(0, 1), (2, 3), (3, 4)], [(1, 2), (0, 1)], [(0, 2), (1, 2)])
    T2 = inlayers([(0, 1), (1, 2), (0, 2), (2, 3)], [(2, 3), (0, 3)], [(0, 3)])
    T3 = inlayers([(0, 1), (1, 2)], [(0, 2), (0, 3)], [(2, 3), (1, 3)], [(0, 1), (2, 3)])
    for t, n, L, T in (('far', 5, 3, T1), ('tail', 4, 3, T2), ('four', 4, 4, T3)):
        b = dict(n=n, L=[L], allowed=T)
        bd = '%d nodes, %d layers, subsets of 6 to 8 edges' % (n, L)
        add('barrett-' + t, barrett, dict(N, maxedges=4, **b), bounds=bd)
        add('barrett-unit-' + t, barrett, dict(N, maxedges=6, values=[0, 1], ints=True, **b), bounds=bd)
        add('brodka-' + t, brodka, dict(C, **b), bounds=bd)
        add('brodka-nf-' + t, brodka, dict(C, full=False, free=(2, 3), maxedges=5, **b), bounds=bd)
        add('battiston-' + t, battiston, dict(C, **b), bounds=bd)
        add('criado-' + t, criado, dict(C, **b), bounds=bd)
        add('criado-nf-' + t, criado, dict(C, full=False, free=(2, 3), maxedges=5, **b), bounds=bd)
        add('criado-anet-' + t, criado, dict(N, anet=True, maxedges=6, **b), bounds=bd)
        add('contraction-' + t, contraction, dict(N, maxedges=3, **b), bounds='%d nodes, %d layers, 3 edges' % (n, L))
    add('barrett-3x2c', barrett, dict(C, n=3, L=[2]), tier='thorough')
    add('battiston-3x3-full', battiston, dict(C, n=3, L=[3]), tier='thorough', bounds='3 nodes, 3 layers')
    add('brodka-3x3-full', brodka, dict(C, n=3, L=[3]), tier='thorough', bounds='3 nodes, 3 layers, any weights')
    add('criado-4x2-full', criado, dict(C, n=4, L=[2], maxedges=10), tier='thorough', bounds='4 nodes, 2 layers, 10 edges')
