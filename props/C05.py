"""C05 coupling edges of multiplex networks: reads, neighbours, degrees and strengths agree
with the coupling rule of each aspect."""
from .common import *
from . import timeline
ASSUMPTIONS = ['coupling weights differ from noEdge', 'layer labels are arbitrary distinct integers (also for ordinal couplings)']


def build(S, c):
    kinds = c['couplings']
    a = len(kinds)
    spec, rules = [], []
    for d, k in enumerate(kinds):
        if k in ('categorical', 'ordinal'):
            cw = S.real('cw%d' % d)
            S.assume(Not(eqt(cw, 0)))
            spec.append((k, cw))
            rules.append((k, cw))
        elif k in ('categorical-default', 'ordinal-default'):
            spec.append(k.split('-')[0])
            rules.append((k.split('-')[0], 1))
        elif k == 'tuple-default':
            spec.append(('categorical',))
            rules.append(('categorical', 1))
        elif k == 'none':
            spec.append('none')
            rules.append(('none', 0))
        elif k == 'None':
            spec.append(None)
            rules.append(('none', 0))
        elif k == 'network':
            spec.append(None)
            rules.append(['network', {}])
    dirn = c.get('directed', False)
    Ls = [S.labels(n, 'L%d_' % (d + 1)) for d, n in enumerate(c['L'])]
    for d, k in enumerate(kinds):
        if k == 'network':
            cn = pymnet.MultilayerNetwork(aspects=0, directed=dirn)
            ref = EdgeHist(0, dirn)
            for l in Ls[d]:
                cn.add_node(l)
            for i, l in enumerate(Ls[d]):
                for j, m in enumerate(Ls[d]):
                    if i < j or dirn and i != j:
                        w = S.real('cn%d_%d' % (i, j))
                        cn[l, m] = w
                        ref.set((l,), (m,), w)
            spec[d] = cn
            rules[d] = ('network', ref)
    full = c.get('full', True)
    net = pymnet.MultiplexNetwork(couplings=spec if a > 1 or c.get('list', True) else spec[0], directed=dirn, fullyInterconnected=full)
    nodes = S.labels(c['n'], 'n')
    for d in range(a):
        for l in Ls[d]:
            net.add_layer(l, d + 1)
    combos = list(itertools.product(*Ls))
    members = {}
    for i, v in enumerate(nodes):
        for j, l in enumerate(combos):
            if full:
                members[i, j] = True
                if j == 0:
                    net.add_node(v)
            else:
                members[i, j] = S.choice([True, False], 'in%d_%d' % (i, j))
                if members[i, j]:
                    if c.get('via_edge') and i > 0:
                        pass
                    net.add_node(v, l[0] if a == 1 else l)
    intra = EdgeHist(0, dirn)
    for j, l in enumerate(combos):
        for i in range(len(nodes)):
            for k in range(len(nodes)):
                if (i < k or dirn and i != k) and members[i, j] and members[k, j] and c.get('intra', True):
                    w = S.real('w%d_%d_%d' % (j, i, k))
                    net[(nodes[i], nodes[k]) + l] = w
                    intra.set((nodes[i],) + l, (nodes[k],) + l, w)
    return net, rules, Ls, nodes, combos, members, intra


def expected(S, rules, intra, members, x, y):
    """x, y: ((i,node),(j,layers)) with indices"""
    (i, v), (j, l) = x
    (k, u), (m, r) = y
    if not members[i, j] or not members[k, m]:
        return 0
    if i != k:
        return intra.get((v,) + l, (u,) + r) if j == m else 0
    diff = [d for d in range(len(l)) if l[d] is not r[d]]
    if len(diff) != 1:
        return 0
    d = diff[0]
    kind, w = rules[d]
    if kind == 'categorical':
        return w
    if kind == 'ordinal':
        return Ite(Or(eqt(l[d] + 1, r[d]), eqt(r[d] + 1, l[d])), w, 0)
    if kind == 'network':
        return w.get((l[d],), (r[d],))
    return 0


def couplings(S, c):
    net, rules, Ls, nodes, combos, members, intra = build(S, c)
    dirn = c.get('directed', False)
    pts = [((i, v), (j, l)) for i, v in enumerate(nodes) for j, l in enumerate(combos)]
    tup = lambda x: (x[0][1],) + x[1][1]
    W = lambda x, y: expected(S, rules, intra, members, x, y)
    has = lambda x, y: Not(eqt(W(x, y), 0))
    if 'read' in c['what']:
        for x in pts:
            for y in pts:
                S.check(eqt(net[link(tup(x), tup(y))], W(x, y)), 'edge read follows the coupling rule')
    for x in pts[:c.get('probes', 99)]:
        if not members[x[0][0], x[1][0]]:
            continue
        node = net[tup(x)]
        others = [y for y in pts if y is not x]
        views = [(node, lambda y: True, '')]
        if 'slices' in c['what']:
            a = len(combos[0])
            for y in others[:c.get('slicetargets', 99)]:
                for mask in itertools.product([0, 1], repeat=a + 1):
                    if all(mask) or not any(mask):
                        continue
                    item = []
                    for t, s, m in zip(tup(x), tup(y), mask):
                        item += [t, s if m else COLON]

                    def match(z, y=y, mask=mask):
                        return all(not m or p is q for p, q, m in zip(tup(z), tup(y), mask))
                    views.append((net[tuple(item)], match, ' (sliced)'))
        for node, match, tag in views:
            vis = [y for y in others if match(y)]
            out = [(tup(y), has(x, y)) for y in vis]
            inn = [(tup(y), has(y, x)) for y in vis]
            tot = [(tup(y), Or(has(x, y), has(y, x))) for y in vis]
            if 'iter' in c['what']:
                S.same_set(list(node.iter_out()), out, 'out-neighbours follow the coupling rule' + tag)
                S.same_set(list(node.iter_in()), inn, 'in-neighbours follow the coupling rule' + tag)
                S.same_set(list(node), tot, 'neighbours follow the coupling rule' + tag)
            if 'deg' in c['what']:
                cnt = lambda ps: Sum([B2I(p) for _, p in ps])
                S.check(eqt(node.deg_out(), cnt(out)), 'out-degree follows the coupling rule' + tag)
                S.check(eqt(node.deg_in(), cnt(inn)), 'in-degree follows the coupling rule' + tag)
                S.check(eqt(node.deg_total(), cnt(tot)), 'total degree follows the coupling rule' + tag)
                S.check(eqt(node.deg(), cnt(tot)), 'degree follows the coupling rule' + tag)
            if 'str' in c['what']:
                so, si = Sum([W(x, y) for y in vis]), Sum([W(y, x) for y in vis])
                S.check(eqt(node.str_out(), so), 'out-strength follows the coupling rule' + tag)
                S.check(eqt(node.str_in(), si), 'in-strength follows the coupling rule' + tag)
                S.check(eqt(node.str(), so + si if dirn else so), 'strength follows the coupling rule' + tag)


def absent(S, c):
    """reads that name nodes or layers the network does not have"""
    kind = c['kind']
    cw = S.real('cw')
    S.assume(Not(eqt(cw, 0)))
    net = pymnet.MultiplexNetwork(couplings=[(kind, cw)] if kind != 'none' else ['none'], fullyInterconnected=c['full'])
    l, m, o = S.labels(3, 'L')
    v, u = S.labels(2, 'n')
    net.add_layer(l)
    net.add_layer(m)
    net.add_node(v, l)
    net.add_node(v, m)
    S.check(eqt(net[u, u, l, m], 0), 'no coupling edge for a node that is not in the network')
    S.check(eqt(net[v, v, l, o], 0), 'no coupling edge to a layer that is not in the network')
    S.check(eqt(net[v, v, o, l], 0), 'no coupling edge from a layer that is not in the network')
    S.check(eqt(net[v, v, l, l], 0), 'no self-link')
    S.check(eqt(net[v, u, l, m], 0), 'no diagonal coupling edge')
    S.check(eqt(net[v, u, o, o], 0), 'no edge in a layer that is not in the network')


def bad_spec(S, c):
    S.raises((AssertionError, ValueError), lambda: pymnet.MultiplexNetwork(couplings='nonexistent'), 'unknown coupling type is rejected')
    S.raises((AssertionError, ValueError), lambda: pymnet.MultiplexNetwork(couplings=3), 'invalid coupling type is rejected')
    cn = pymnet.MultilayerNetwork(aspects=1)
    S.raises((AssertionError, ValueError), lambda: pymnet.MultiplexNetwork(couplings=[cn]), 'coupling network must be monoplex')
    n = S.choice([1, 2, 3], 'na')
    net = pymnet.MultiplexNetwork(couplings=['categorical'] * n)
    S.check(net.aspects == n, 'a list of couplings gives one aspect each')


def kf_network(S, c):
    a, b = S.labels(2, 'L')
    cn = pymnet.MultilayerNetwork(aspects=0)
    cn[a, b] = 1
    net = pymnet.MultiplexNetwork(couplings=[cn])
    net.add_layer(a)
    net.add_layer(b)
    net.add_node(0)
    if c['q'] == 'iter':
        S.same_set(list(net[0, a]), [((0, b), True)], 'neighbours with a network coupling')
    else:
        S.check(eqt(net[0, a].str(), 1), 'strength with a network coupling')


def instances(add):
    timeline.instances(add, timeline.look_nodes, kinds='mx mxnf mx2 mxnf2', only=('newedge', 'newlayeredge', 'node', 'layer', 'nodelayer'))
    timeline.instances(add, timeline.look_nodes, kinds='mx mxnf mx2 mxnf2', only=('newedge', 'newlayeredge', 'node', 'layer', 'nodelayer'), steps=3, tier='thorough')
    timeline.instances(lambda n, *a, **k: add('read' + n, *a, **k), timeline.look_reads, kinds='mx mxnf mx2 mxnf2')
    ALL = ('read', 'iter', 'deg', 'str')
    for d in (False, True):
        s = 'dir' if d else 'undir'
        for k in ('categorical', 'ordinal', 'none', 'None', 'categorical-default', 'ordinal-default', 'tuple-default'):
            add('a1-%s-%s' % (k, s), couplings, dict(couplings=[k], L=[3], n=2 if k in ('categorical', 'ordinal') and not d else 1, directed=d, what=ALL, list=k != 'None'),
                bounds='3 layers with any labels')
        for k in ('categorical', 'ordinal', 'none'):
            add('a1-%s-slices-%s' % (k, s), couplings, dict(couplings=[k], L=[2], n=2, directed=d, what=('iter', 'deg', 'str', 'slices'), probes=2),
                bounds='2 layers, 2 nodes, every slice')
            add('a1-%s-nonfull-%s' % (k, s), couplings, dict(couplings=[k], L=[3], n=1, directed=d, what=ALL, full=False),
                bounds='3 layers, any membership')
        add('a1-network-' + s, couplings, dict(couplings=['network'], L=[3] if not d else [2], n=1, directed=d, what=('read', 'deg')),
            bounds='3 layers (2 directed), any coupling network over them')
        for p in (['categorical', 'ordinal'], ['ordinal', 'ordinal'], ['ordinal', 'none'], ['categorical', 'categorical']):
            add('a2-%s-%s' % ('-'.join(p), s), couplings, dict(couplings=p, L=[2, 2], n=1, directed=d, what=ALL), bounds='2x2 layers')
            add('a2-%s-nonfull-%s' % ('-'.join(p), s), couplings, dict(couplings=p, L=[2, 2], n=1, directed=d, what=ALL, full=False),
                bounds='2x2 layers, any membership')
    add('a1-nonfull-2nodes', couplings, dict(couplings=['categorical'], L=[2], n=2, what=ALL, full=False), bounds='2 nodes, 2 layers, any membership')
    add('a1-nonfull-ordinal-2nodes', couplings, dict(couplings=['ordinal'], L=[2], n=2, what=ALL + ('slices',), full=False), bounds='2 nodes, 2 layers, any membership, slices')
    add('a2-slices', couplings, dict(couplings=['categorical', 'ordinal'], L=[2, 2], n=1, what=('iter', 'deg', 'str', 'slices'), probes=1), bounds='2x2 layers, every slice')
    W3 = ('iter', 'deg', 'str', 'slices')
    for d in (False, True):
        s = 'dir' if d else 'undir'
        for k in ('categorical', 'ordinal'):
            for full in (True, False):
                add('a1-%s-slices3-%s%s' % (k, s, '' if full else '-nonfull'), couplings, dict(couplings=[k], L=[3], n=1, directed=d, what=W3, full=full, probes=3 if full else 1), bounds='3 layers, every slice')
            add('a1-%s-slices3-2nodes-%s' % (k, s), couplings, dict(couplings=[k], L=[3], n=2, directed=d, what=W3, probes=1), bounds='2 nodes, 3 layers, every slice')
        for p, L in ((['categorical', 'ordinal'], [3, 2]), (['ordinal', 'categorical'], [2, 3]), (['none', 'categorical'], [2, 3])):
            for full in (True, False):
                add('a2-%s-slices%d%d-%s%s' % ('-'.join(p), L[0], L[1], s, '' if full else '-nonfull'), couplings, dict(couplings=p, L=L, n=1, directed=d, what=W3, full=full, probes=1), bounds='%dx%d layers, every slice' % tuple(L))
    for k in ('categorical', 'ordinal', 'none'):
        for full in (True, False):
            add('absent-%s-%s' % (k, 'full' if full else 'nonfull'), absent, dict(kind=k, full=full))
    add('spec', bad_spec, {})
    add('kf-network-iter', kf_network, dict(q='iter'))
    add('kf-network-str', kf_network, dict(q='str'))
    add('a1-ordinal-4', couplings, dict(couplings=['ordinal'], L=[4], n=1, what=ALL), tier='thorough')
    add('a2-2nodes', couplings, dict(couplings=['categorical', 'ordinal'], L=[2, 2], n=2, what=ALL), tier='thorough')
    add('a3', couplings, dict(couplings=['categorical', 'ordinal', 'none'], L=[2, 2, 2], n=1, what=ALL), tier='thorough')
