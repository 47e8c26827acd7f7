"""C25 alternating-walk cycle counts and clustering coefficients of multiplex networks."""
from .common import *
from pymnet import cc
ASSUMPTIONS = ['undirected unweighted multiplex networks (every edge has weight 1) with categorical couplings of weight 1',
               'noEdge is 0']
NAMES = ['aaa', 'aacac', 'acaac', 'acaca', 'acacac', 'afa', 'afcac', 'acfac', 'acfca', 'acfcac']


def mul(A, B):
    n = len(A)
    return [[sum(A[i][k] * B[k][j] for k in range(n) if A[i][k]) for j in range(n)] for i in range(n)]


def reference(m):
    """Closed walks of each kind from each node-layer, from the matrices of intra-layer edges (A),
    couplings (C) and all possible intra-layer edges (F)."""
    X = m.nls
    A = [[int(x[1] == y[1] and x != y and bool(m.has(x, y))) for y in X] for x in X]
    C = [[int(x[0] == y[0] and x != y) for y in X] for x in X]
    F = [[int(x[1] == y[1] and x != y) for y in X] for x in X]
    M = dict(a=A, c=C, f=F)
    memo = {}

    def walk(s):
        if s not in memo:
            memo[s] = M[s] if len(s) == 1 else mul(walk(s[:-1]), M[s[-1]])
        return memo[s]
    return {x: [walk(s)[i][i] for s in NAMES] for i, x in enumerate(X)}


def unit(S, c):
    d = dict(c, kind='multiplex', couplings=['none'], values=[0, 1], ints=True)
    net, m = anynet(S, d)
    net2 = pymnet.MultiplexNetwork([('categorical', 1.0)], fullyInterconnected=m.full)
    for l in m.layers[0]:
        net2.add_layer(l)
    for x in m.nls:
        net2.add_node(x[0], x[1]) if not m.full else net2.add_node(x[0])
    for (x, y), w in m.w.items():
        if c.get('conc'):       # decide which edges exist before running
            w = 0 if bool(eqt(w, 0)) else 1
            m.w[x, y] = w
        net2[link(x, y)] = w
    m.rules = [('categorical', 1)]
    return net2, m


def vec(S, got, want, tag):
    S.check(len(got) == 10, 'ten counts' + tag)
    for k, g, w in zip(NAMES, got, want):
        S.check(eqt(g, w), 'number of closed walks' + tag)


def add10(vs):
    return [sum(v[k] for v in vs) for k in range(10)]


def cycles(S, c):
    net, m = unit(S, c)
    R = reference(m)
    anet = transforms.aggregate(net, 1) if m.full else None
    L, V = m.layers[0], m.nodes
    for x in m.nls:
        vec(S, cc.cc_cycle_vector_bf(net, x[0], x[1]), R[x], ' around a node-layer')
        vec(S, cc.elementary_cycles(net, x[0], x[1]), R[x], ' around a node-layer')
        if m.full:
            vec(S, cc.cc_cycle_vector_anet(net, x[0], x[1], anet=anet), R[x], ' around a node-layer')
        if c.get('adj'):
            vec(S, cc.cc_cycle_vector_adj(net, x[0], x[1]), R[x], ' around a node-layer')
    for v in V:
        want = add10([R[x] for x in m.nls if x[0] == v])
        vec(S, cc.elementary_cycles(net, v), want, ' around a node')
        if m.full:
            vec(S, cc.elementary_cycles(net, v, anet=anet), want, ' around a node')
    for l in L:
        vec(S, cc.elementary_cycles(net, layer=l), add10([R[x] for x in m.nls if x[1] == l]), ' in a layer')
    vec(S, cc.elementary_cycles(net), add10(list(R.values())), ' in the network')
    if m.full:
        vec(S, cc.elementary_cycles(net, anet=anet), add10(list(R.values())), ' in the network')
    g = cc.cc_aw_vector(net)
    t = [tnd(R.get((v, l), [0] * 10)) for v in net for l in net.get_layers(1)]
    for k in range(3):
        S.check(And([eqt(g[2 * k][i], x[k][0]) for i, x in enumerate(t)] + [eqt(g[2 * k + 1][i], x[k][1]) for i, x in enumerate(t)]), 'numerators and denominators of all node-layers')
    if c.get('adj'):
        g = cc.gcc_aw_vector_adj(net)
        nls = net.get_supra_adjacency_matrix()[1]
        t = [tnd(R[tuple(x)]) for x in nls]
        for k in range(3):
            S.check(And([eqt(g[2 * k][i], x[k][0]) for i, x in enumerate(t)] + [eqt(g[2 * k + 1][i], x[k][1]) for i, x in enumerate(t)]), 'numerators and denominators from the adjacency matrix')
        S.check(net.couplings[0][0] == 'categorical' and eqt(net.couplings[0][1], 1), 'couplings are left as they were')


def tnd(r):
    """((t1,d1),(t2,d2),(t3,d3))"""
    return (r[0], r[5]), (r[1] + r[2] + r[3], r[6] + r[7] + r[8]), (r[4], r[9])


def Q(a, b):
    from fractions import Fraction
    if b == 0:
        return 0
    return Fraction(a, b)


def value(r, w1, w2, w3):
    t = tnd(r)
    if w3 is not None:
        return w1 * Q(*t[0]) + w2 * Q(*t[1]) + w3 * Q(*t[2])
    return None


def close(S, got, r, w1, w2, w3, tag):
    t = tnd(r)
    if w3 is not None:
        S.check(eqt(got, value(r, w1, w2, w3)), tag)
    else:
        costs(S, got, t, w1, w2, tag)


def costs(S, got, t, w1, w2, tag):
    f = (w1 * w1 * w1, w1 * w2 * w2, w2 * w2 * w2)
    n, d = Sum([a * x[0] for a, x in zip(f, t)]), Sum([a * x[1] for a, x in zip(f, t)])
    S.check(eqt(got * d, n) if any(x[1] for x in t) else eqt(got, 0), tag)


def moreno(S, net, m, r, w1, w2, w3):
    """Transitivity counting both directions, and against the pairs of different end points of the open walks."""
    s = [(r[0], r[5]), (2 * r[1] + 2 * r[2] + r[3], 2 * r[6] + 2 * r[7] + r[8]), (2 * r[4], 2 * r[9])]
    if s[0][1] and s[1][1]:
        g = cc.gcc_vector_moreno2(net)
        S.check(And([eqt(a, Q(*t)) for a, t in zip(g, s)]) if len(g) == 3 else False, 'transitivity from the matrices')
        S.check(eqt(cc.gcc_moreno2(net, w1=w1, w2=w2, w3=w3), w1 * Q(*s[0]) + w2 * Q(*s[1]) + w3 * Q(*s[2])), 'weighted transitivity from the matrices')
    X = m.nls
    A = [[int(x[1] == y[1] and x != y and bool(m.has(x, y))) for y in X] for x in X]
    C = [[int(x[0] == y[0] and x != y) for y in X] for x in X]

    def off(*ws):
        t = 0
        for k in ws:
            P = None
            for ch in k:
                P = (A if ch == 'a' else C) if P is None else mul(P, A if ch == 'a' else C)
            t += sum(P[i][j] for i in range(len(X)) for j in range(len(X)) if i != j)
        return t
    d = [off('aa'), off('aac', 'caca', 'aca', 'caac', 'acac'), off('acac', 'cacac')]
    if all(d):
        g = cc.gcc_vector_moreno(net)
        S.check(And([eqt(a, Q(t[0], e)) for a, t, e in zip(g, s, d)]) if len(g) == 3 else False, 'transitivity against open walks')
        S.check(eqt(cc.gcc_moreno(net, w1=w1, w2=w2, w3=w3), Sum([w * Q(t[0], e) for w, t, e in zip((w1, w2, w3), s, d)])), 'weighted transitivity against open walks')


def coefs(S, c):
    net, m = unit(S, c)
    R = reference(m)
    anet = transforms.aggregate(net, 1) if m.full else None
    for w3 in (True, None):
        w1, w2 = S.real('w1'), S.real('w2')
        S.assume(And(w1 > 0, w2 > 0))
        if w3:
            w3 = S.real('w3')
            S.assume(w3 > 0)
        kw = dict(w1=w1, w2=w2, w3=w3)
        if 'local' in c['what']:
            for x in m.nls:
                close(S, cc.lcc_aw(net, x[0], x[1], **kw), R[x], w1, w2, w3, 'local coefficient of a node-layer')
                if w3 is None:
                    v = cc.lcc_aw(net, x[0], x[1], returnCVector=True, anet=anet)
                    S.check(And([eqt(g, Q(*t)) for g, t in zip(v, tnd(R[x]))]), 'vector of a node-layer')
        if 'node' in c['what']:
            for v in m.nodes:
                r = add10([R[x] for x in m.nls if x[0] == v])
                for a in ((None, anet) if m.full else (None,)):
                    close(S, cc.sncc_aw(net, v, anet=a, **kw), r, w1, w2, w3, 'coefficient of a supernode')
                if w3 is None:
                    g = cc.sncc_aw(net, v, returnCVector=True)
                    S.check(And([eqt(a, Q(*t)) for a, t in zip(g, tnd(r))]), 'vector of a supernode')
                    close(S, cc.sncc_aw_layercost(net, v, a=w1, b=w2), r, w1, w2, None, 'coefficient of a supernode by layer costs')
                else:
                    g = cc.sncc_aw_seplayers(net, v, undefined='undefined', **kw)
                    if any(t[1] == 0 for t in tnd(r)):
                        S.check(g == 'undefined', 'undefined without walks to close')
                    else:
                        S.check(eqt(g, value(r, w1, w2, w3)), 'coefficient of a supernode by separate layers')
        if 'global' in c['what']:
            r = add10(list(R.values()))
            close(S, cc.gcc_aw(net, **kw), r, w1, w2, w3, 'global coefficient')
            if w3 is None:
                g = cc.gcc_aw(net, returnCVector=True)
                S.check(And([eqt(a, Q(*t)) for a, t in zip(g, tnd(r))]), 'global vector')
            elif m.full and c.get('adj'):
                S.check(eqt(cc.gcc_aw_seplayers_adj(net, **kw), value(r, w1, w2, w3)), 'global coefficient from the adjacency matrix')
                g = cc.gcc_aw_seplayers_adj(net, returnCVector=True)
                S.check(And([eqt(a, Q(*t)) for a, t in zip(g, tnd(r))]), 'global vector from the adjacency matrix')
            if w3 is not None and m.full and c.get('adj'):
                moreno(S, net, m, r, w1, w2, w3)
            # transitivity with both directions of the mixed walks
            s = [(r[0], r[5]), (2 * r[1] + 2 * r[2] + r[3], 2 * r[6] + 2 * r[7] + r[8]), (2 * r[4], 2 * r[9])]
            got = cc.gcc_moreno2_seplayers(net, **kw)
            if w3 is not None:
                S.check(eqt(got, w1 * Q(*s[0]) + w2 * Q(*s[1]) + w3 * Q(*s[2])), 'global coefficient counting both directions')
            else:
                costs(S, got, s, w1, w2, 'global coefficient counting both directions, by layer costs')
        if 'average' in c['what'] and m.nls:
            if w3 is not None:
                S.check(eqt(cc.avg_lcc_aw(net, **kw) * len(m.nls), Sum([value(R[x], w1, w2, w3) for x in m.nls])), 'average local coefficient')
                v = cc.avg_lcc_aw(net, returnCVector=True)
                S.check(And([eqt(v[k] * len(m.nls), Sum([Q(*tnd(R[x])[k]) for x in m.nls])) for k in range(3)]), 'average local vector')
            else:
                a = cc.avg_lcc_aw(net, w1=1, w2=1)
                f = lambda r: Q(sum(t for t, d in tnd(r)), sum(d for t, d in tnd(r)))
                S.check(eqt(a * len(m.nls), Sum([f(R[x]) for x in m.nls])), 'average local coefficient')


def instances(add):
    add('cycles-3x2', cycles, dict(n=3, L=[2], adj=True, conc=True), bounds='3 nodes, 2 layers')
    add('cycles-4x2', cycles, dict(n=4, L=[2], maxedges=9), bounds='4 nodes, 2 layers, 9 edges')
    add('cycles-3x3', cycles, dict(n=3, L=[3], maxedges=8), bounds='3 nodes, 3 layers, 8 edges')
    add('cycles-2x3', cycles, dict(n=2, L=[3], adj=True, conc=True), bounds='2 nodes, 3 layers')
    add('cycles-nonfull', cycles, dict(n=3, L=[2], full=False, always=1, maxedges=4), bounds='3 nodes, 2 layers, membership')
    add('cycles-nonfull3', cycles, dict(n=3, L=[3], full=False, always=5, maxedges=5), bounds='3 nodes, 3 layers, membership')
    add('coefs-3x2', coefs, dict(n=3, L=[2], what=['local', 'node', 'global', 'average'], adj=True, conc=True), bounds='3 nodes, 2 layers, any costs')
    add('coefs-3x3', coefs, dict(n=3, L=[3], conc=True, adj=True, what=['node', 'global'], maxedges=6), bounds='3 nodes, 3 layers, 6 edges, any costs')
    add('coefs-nonfull', coefs, dict(n=3, L=[2], full=False, always=3, conc=True, what=['local', 'node', 'global', 'average'], maxedges=4), bounds='membership')
    # triangles whose sides are in different layers, nodes away from them
    T1 = inlayers([(0, 1), (2, 3), (3, 4)], [(1, 2), (0, 1)], [(0, 2), (1, 2)])
    T2 = inlayers([(0, 1), (1, 2), (0, 2), (2, 3)], [(2, 3), (0, 3)], [(0, 3)])
    T3 = inlayers([(0, 1), (1, 2)], [(0, 2), (0, 3)], [(2, 3), (1, 3)], [(0, 1), (2, 3)])
    for t, n, L, T in (('far', 5, 3, T1), ('tail', 4, 3, T2), ('four', 4, 4, T3)):
        add('cycles-' + t, cycles, dict(n=n, L=[L], allowed=T), bounds='%d nodes, %d layers, all subsets of 7 or 8 edges' % (n, L))
        add('coefs-' + t, coefs, dict(n=n, L=[L], allowed=T, conc=True, what=['local', 'node', 'global', 'average'] if t == 'tail' else ['node', 'global'], maxedges=6), bounds='%d nodes, %d layers, all subsets of 6 edges, any costs' % (n, L))
        add('cycles-nf-' + t, cycles, dict(n=n, L=[L], allowed=T, full=False, free=(2, 4), maxedges=5), bounds='%d nodes, %d layers, membership, 5 edges' % (n, L))
    add('cycles-4x2-full', cycles, dict(n=4, L=[2]), tier='thorough', bounds='4 nodes, 2 layers')
    add('cycles-3x3-full', cycles, dict(n=3, L=[3], adj=True, conc=True), tier='thorough', bounds='3 nodes, 3 layers')
    add('cycles-nonfull-full', cycles, dict(n=3, L=[3], full=False, always=2, maxedges=6), tier='thorough')
