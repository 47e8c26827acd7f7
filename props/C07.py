"""C07 network equality."""
from .common import *
from . import timeline
ASSUMPTIONS = []


def mk(S, c, kind, directed=False, full=True, noEdge=0, a=1):
    if kind == 'multiplex':
        return pymnet.MultiplexNetwork(couplings=['categorical'] * a, directed=directed, fullyInterconnected=full, noEdge=noEdge)
    return pymnet.MultilayerNetwork(aspects=a, directed=directed, fullyInterconnected=full, noEdge=noEdge)


def fill(S, net, ref, pts, layers, c, tag, order=None):
    a = c['a']
    prs = [(i, j) for i in range(len(pts)) for j in range(len(pts)) if (i < j or c['directed'] and i != j)]
    for p in pts:
        if c['full']:
            net.add_node(p)
    cells = [(l, i, j) for l in range(len(layers)) for i, j in prs]
    if order == 'reverse':
        cells = cells[::-1]
    for l, i, j in cells:
        w = S.real('%s%d_%d_%d' % (tag, l, i, j))
        if order == 'reverse' and not c['directed']:
            i, j = j, i
        net[(pts[i], pts[j]) + layers[l]] = w
        ref.set((pts[i],) + layers[l], (pts[j],) + layers[l], w)


def graphs(S, c):
    """two networks over the same nodes and layers, arbitrary weights, built in different orders"""
    pts = S.labels(c['n'], 'n')
    layers = [tuple(S.label('l%d_%d' % (i, d)) for d in range(c['a'])) for i in range(c['nl'])]
    if c['nl'] > 1:
        S.assume(Distinct([l[0] for l in layers]))
    nets, refs = [], []
    for t, order in (('x', None), ('y', 'reverse')):
        net = mk(S, c, c['kind'], c['directed'], c['full'], 0, c['a'])
        ref = EdgeHist(0, c['directed'])
        for l in layers:
            for d in range(c['a']):
                net.add_layer(l[d], d + 1)
        fill(S, net, ref, pts, layers, c, t, order)
        nets.append(net)
        refs.append(ref)
    if c.get('inter'):
        for t, net, ref in zip('xy', nets, refs):
            w = S.real(t + 'inter')
            net[link((pts[0],) + layers[0], (pts[1],) + layers[1])] = w
            ref.set((pts[0],) + layers[0], (pts[1],) + layers[1], w)
    n1, n2 = nets
    same = []
    for (x, y, w) in refs[0].ops:
        same.append(eqt(refs[0].get(x, y), refs[1].get(x, y)))
    want = And(same)
    got = n1 == n2
    S.check(Iff(want, got), 'networks are equal exactly when all edge weights are')
    S.check(Iff(Not(want), n1 != n2), '!= is the negation of ==')
    S.check(Iff(want, n2 == n1), 'equality is symmetric')
    S.check(n1 == n1, 'a network equals itself')


def nodesets(S, c):
    """same edges, different nodes/layers/membership"""
    i, j = S.labels(2, 'n')
    l = tuple(S.label('l%d' % d) for d in range(c['a']))
    w = S.real('w')
    nets = []
    for t in range(2):
        net = mk(S, c, c['kind'], False, c['full'], 0, c['a'])
        net[(i, j) + l] = w
        nets.append(net)
    n1, n2 = nets
    S.check(n1 == n2, 'networks built alike are equal')
    what = S.choice(['node', 'layer', 'nl'], 'what') if c['a'] else 'node'
    if what == 'node':
        v = S.label('v')
        n2.add_node(v)
        want = In(v, [i, j])
    elif what == 'layer':
        d = S.choice(range(c['a']), 'd')
        m = S.label('m')
        n2.add_layer(m, d + 1)
        want = eqt(m, l[d])
    else:
        v = S.choice([i, j], 'v')
        m = S.label('m')
        k = (m,) + l[1:]
        for n in (n1, n2):
            n.add_layer(m, 1)
        n2.add_node(v, k[0] if c['a'] == 1 else k)
        want = Or(c['full'], eqt(m, l[0]))
    S.check(Iff(n1 == n2, want), 'equality needs the same nodes, layers and node-layers')
    S.check(Iff(n2 == n1, want), 'equality needs the same nodes, layers and node-layers (symmetric)')


def members(S, c):
    """two networks with the same nodes, layers and edges and arbitrary node-layers"""
    V = list(range(c['n'] + 1))
    layers = list(itertools.product(*[['a', 'b', 'c'][:k] for k in c['L']]))
    w = S.real('w')
    nets, mem = [], []
    for t in 'xy':
        net = mk(S, c, c['kind'], c['directed'], False, 0, len(c['L']))
        for d, k in enumerate(c['L']):
            for l in ['a', 'b', 'c'][:k]:
                net.add_layer(l, d + 1)
        for v in V:
            net.add_node(v)
        M = set()
        for v in V[1:]:
            for l in layers:
                if S.bool('%s%d%s' % (t, v, ''.join(l))):
                    net.add_node(v, l if len(l) > 1 else l[0])
                    M.add((v, l))
        for l in layers:
            net.add_node(0, l if len(l) > 1 else l[0])
        if c['kind'] == 'multilayer':
            net[link((0,) + layers[0], (0,) + layers[1])] = w
        nets.append(net)
        mem.append(M)
    n1, n2 = nets
    want = mem[0] == mem[1]
    S.check(Iff(n1 == n2, want), 'equality needs the same node-layers')
    S.check(Iff(n2 == n1, want), 'equality needs the same node-layers (symmetric)')
    S.check(Iff(n1 != n2, not want), '!= is the negation of ==')


def kinds(S, c):
    """networks of different kind are not equal"""
    i, j, l = S.label('i'), S.label('j'), S.label('l')
    S.assume(Not(eqt(i, j)))
    w = S.real('w')
    x, y = S.real('x'), S.real('y')

    S.assume(And(Not(eqt(w, -1)), Not(eqt(w, 0))))

    def build(d, f, ne, kind):
        n = mk(S, c, kind, d, f, ne, 1)
        n[i, j, l] = w
        if d:
            n[j, i, l] = w
        return n
    combos = [(d, f, k) for d in (False, True) for f in (False, True) for k in ('multilayer', 'multiplex')]
    p = S.choice(combos, 'p')
    q = S.choice(combos, 'q')
    z = S.choice([0, -1], 'z')
    a, b = build(p[0], p[1], 0, p[2]), build(q[0], q[1], z, q[2])
    S.check(Iff(a == b, p == q and z == 0), 'networks of different kind (directedness, interconnectedness, noEdge, class) differ')
    S.check(Iff(b == a, p == q and z == 0), 'networks of different kind differ (symmetric)')
    S.check(Iff(a != b, not (p == q and z == 0)), '!= is the negation of ==')
    S.check((a == 3) is False or (a == 3) == False, 'a network does not equal something else')
    e1 = pymnet.MultilayerNetwork(aspects=c['ea'])
    e2 = pymnet.MultilayerNetwork(aspects=S.choice([0, 1, 2], 'e2'), noEdge=z)
    S.check((e1 == e2) == (e1.aspects == e2.aspects and z == 0), 'networks with different numbers of aspects differ')


def couplings(S, c):
    ks = ['categorical', 'ordinal', 'none']
    p, q = S.choice(ks, 'p'), S.choice(ks, 'q')
    x, y = S.real('x'), S.real('y')
    a = pymnet.MultiplexNetwork(couplings=[(p, x)])
    b = pymnet.MultiplexNetwork(couplings=[(q, y)])
    for n in (a, b):
        n.add_layer(1)
        n.add_node(2)
    S.check(Iff(a == b, And(p == q, eqt(x, y))), 'equality needs the same couplings')


def hashes(S, c):
    a, b = pymnet.MultilayerNetwork(aspects=0), pymnet.MultilayerNetwork(aspects=0)
    w = S.real('w')
    S.assume(w > 0)
    a[0, 1] = w
    a[1, 2] = w
    b[1, 2] = w
    b[0, 1] = w
    S.check(a == b, 'equal networks')
    S.check(hash(a) == hash(b), 'equal networks have equal hashes')


def instances(add):
    timeline.instances(add, timeline.look_equal)
    timeline.instances(add, timeline.look_equal, steps=3, tier='thorough')
    add('kf-hash', hashes, {})
    for kind in ('multilayer', 'multiplex'):
        for d in (False, True):
            for full in (True, False):
                nm = '%s-%s-%s' % (kind, 'dir' if d else 'undir', 'full' if full else 'nonfull')
                add('graphs-' + nm, graphs, dict(kind=kind, directed=d, full=full, a=1, nl=1 if d else 2, n=2, inter=False), bounds='2 nodes, 2 layers (1 directed)')
                if not d:
                    add('nodesets-' + nm, nodesets, dict(kind=kind, full=full, a=1))
                    add('nodesets2-' + nm, nodesets, dict(kind=kind, full=full, a=2))
    for kind in ('multilayer', 'multiplex'):
        for d in (False, True):
            for n, L in ((2, [2]), (1, [2, 2])):
                add('members-%s-%s-%dx%s' % (kind, 'dir' if d else 'undir', n, len(L)), members, dict(kind=kind, directed=d, n=n, L=L, named=False, again=False), bounds='%d nodes with any membership, %s layers' % (n, L))
    add('graphs-a0', graphs, dict(kind='multilayer', directed=False, full=True, a=0, nl=1, n=3), bounds='3 nodes')
    add('graphs-a0-dir', graphs, dict(kind='multilayer', directed=True, full=True, a=0, nl=1, n=2), bounds='2 nodes')
    add('graphs-inter', graphs, dict(kind='multilayer', directed=False, full=True, a=1, nl=2, n=2, inter=True), bounds='2 nodes, 2 layers, an inter-layer edge')
    add('graphs-inter-dir', graphs, dict(kind='multilayer', directed=True, full=True, a=1, nl=2, n=2, inter=True), tier='thorough')
    add('graphs-mplex-a2', graphs, dict(kind='multiplex', directed=False, full=True, a=2, nl=1, n=3), bounds='3 nodes, 2 aspects')
    add('nodesets-a0', nodesets, dict(kind='multilayer', full=True, a=0))
    for ea in (0, 1, 2):
        add('kinds-%d' % ea, kinds, dict(ea=ea))
    add('couplings', couplings, {})
    add('graphs-a0-n4', graphs, dict(kind='multilayer', directed=False, full=True, a=0, nl=1, n=4), tier='thorough')
