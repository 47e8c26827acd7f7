"""C06 multiplex intra-layer networks: one edge set seen through the network and through A[layer]."""
from .common import *
from . import timeline
ASSUMPTIONS = []


def key(l):
    return l[0] if len(l) == 1 else l


def setup(S, c, prefill=True):
    a = len(c['L'])
    noEdge = S.real('noEdge') if c.get('symNoEdge') else 0
    net = pymnet.MultiplexNetwork(couplings=['categorical'] * a, directed=c.get('directed', False), noEdge=noEdge,
                                  fullyInterconnected=c.get('full', True))
    Ls = [S.labels(n, 'L%d_' % d) for d, n in enumerate(c['L'])]
    for d in range(a):
        for l in Ls[d]:
            net.add_layer(l, d + 1)
    combos = list(itertools.product(*Ls))
    refs = [EdgeHist(noEdge, c.get('directed', False)) for _ in combos]
    return net, combos, refs, noEdge


def compare(S, net, combos, refs, points, noEdge, tag=''):
    for l, ref in zip(combos, refs):
        view = net.A[key(l)]
        for i in points:
            for j in points:
                if i is j:
                    continue
                w = ref.get((i,), (j,))
                S.check(eqt(net[(i, j) + l], w), 'edge read through the network' + tag)
                S.check(eqt(view[i, j], w), 'edge read through A[layer]' + tag)
        for i in points[:2]:
            if bool(In(i, list(view))) :
                out = ref.out_neigh((i,))
                S.check(eqt(view[i].deg_out(), count_distinct(out)), 'degree seen through A[layer]' + tag)


def history(S, c):
    net, combos, refs, noEdge = setup(S, c)
    pts = S.labels(c['n'], 'n')
    for k in range(c['k']):
        l = S.choice(range(len(combos)), 'l%d' % k)
        i = S.choice(range(len(pts)), 'i%d' % k)
        j = S.choice([x for x in range(len(pts)) if x != i], 'j%d' % k)
        w = S.real('w%d' % k)
        how = S.choice(c['how'], 'how%d' % k)
        if how == 'net':
            net[(pts[i], pts[j]) + combos[l]] = w
        elif how == 'fullnet':
            net[link((pts[i],) + combos[l], (pts[j],) + combos[l])] = w
        elif how == 'node':
            net[(pts[i],) + combos[l]][(pts[j],) + combos[l]] = w
        elif how == 'view':
            net.A[key(combos[l])][pts[i], pts[j]] = w
        elif how == 'intranets':
            net.intranets[key(combos[l])][pts[i]][pts[j]] = w
        refs[l].set((pts[i],), (pts[j],), w)
    compare(S, net, combos, refs, pts, noEdge)


def assign(S, c):
    """A[layer] = monoplex network: the layer becomes an independent copy of it"""
    net, combos, refs, noEdge = setup(S, c)
    pts = S.labels(c['n'], 'n')
    d = c.get('directed', False)
    pairs = [(i, j) for i in range(len(pts)) for j in range(len(pts)) if i < j or d and i != j]
    for i, j in pairs[:c.get('old', 2)]:
        for l in range(len(combos)):
            w = S.real('old%d_%d_%d' % (l, i, j))
            net[(pts[i], pts[j]) + combos[l]] = w
            refs[l].set((pts[i],), (pts[j],), w)
    t = S.choice(range(len(combos)), 't')
    mono = pymnet.MultilayerNetwork(aspects=0, directed=d, noEdge=noEdge)
    refs[t] = EdgeHist(noEdge, d)
    extra = S.label('extra')
    S.assume(Distinct(pts + [extra]))
    mono.add_node(extra)
    for i, j in pairs:
        w = S.real('new%d_%d' % (i, j))
        mono[pts[i], pts[j]] = w
        refs[t].set((pts[i],), (pts[j],), w)
    monoref = list(refs[t].ops)
    net.A[key(combos[t])] = mono
    compare(S, net, combos, refs, pts, noEdge, ' after assigning a layer')
    S.check(In(extra, list(net)), 'nodes of an assigned layer are in the network')
    if not c.get('full', True):
        S.check(In(extra, list(net.iter_nodes(key(combos[t])))), 'nodes of an assigned layer are in that layer')
    # independent of the original
    i, j = pairs[0]
    w = S.real('after')
    mono[pts[i], pts[j]] = w
    compare(S, net, combos, refs, pts, noEdge, ' after changing the assigned network')
    w2 = S.real('after2')
    net[(pts[i], pts[j]) + combos[t]] = w2
    S.check(eqt(mono[pts[i], pts[j]], w), 'changing the layer leaves the assigned network alone')


def illegal(S, c):
    net, combos, refs, noEdge = setup(S, c)
    pts = S.labels(2, 'n')
    for l in range(len(combos)):
        w = S.real('w%d' % l)
        net[(pts[0], pts[1]) + combos[l]] = w
        refs[l].set((pts[0],), (pts[1],), w)
    l, m = combos[0], combos[-1]
    w = S.real('bad')
    cases = [((pts[0],) + l, (pts[0],) + m), ((pts[0],) + l, (pts[1],) + m), ((pts[0],) + l, (pts[0],) + l)]
    if len(combos[0]) > 1:
        cases.append(((pts[0],) + l, (pts[0],) + (l[0], m[1])))
    x, y = cases[S.choice(range(len(cases)), 'case')]

    def f():
        net[link(x, y)] = w
    S.raises(KeyError, f, 'writing a coupling edge or self-link raises KeyError')
    compare(S, net, combos, refs, pts, noEdge, ' after a rejected write')
    S.check(len(net) == 2, 'a rejected write adds no nodes')

    z = S.label('z')
    S.assume(Distinct(pts + [z]))

    def f2():
        net[link((z,) + l, (z,) + m)] = w
    S.raises(KeyError, f2, 'writing a coupling edge or self-link of a new node raises KeyError')
    S.check(len(net) == 2, 'a rejected write adds no nodes')
    zl = S.label('zl')
    S.assume(Distinct([zl, l[0], m[0]]))

    def f3():
        net[link((pts[0],) + l, (pts[1], zl) + l[1:])] = w
    S.raises(KeyError, f3, 'writing an inter-layer edge to a new layer raises KeyError')
    S.check(len(net.get_layers()) == c['L'][0], 'a rejected write adds no layers')

    def g():
        net.A[key(combos[0])] = pymnet.MultilayerNetwork(aspects=1)
    S.raises(AssertionError, g, 'assigning a network with layers to a layer is rejected')

    def h():
        net.A[key(combos[0])] = 3
    S.raises(AssertionError, h, 'assigning something else to a layer is rejected')
    o = S.label('o')
    S.assume(Distinct([o] + [k[0] for k in combos[:1]] + [combos[-1][0]]))

    def q():
        net.A[(o,) + combos[0][1:] if len(combos[0]) > 1 else o] = pymnet.MultilayerNetwork(aspects=0)
    S.raises(Exception, q, 'assigning to a layer that does not exist is rejected')
    compare(S, net, combos, refs, pts, noEdge, ' after rejected assignments')


def late_layer(S, c):
    """layers of any aspect may be added after edges exist"""
    a = c['a']
    net = pymnet.MultiplexNetwork(couplings=['categorical'] * a, fullyInterconnected=c.get('full', True))
    pts = S.labels(2, 'n')
    l = tuple(S.label('l%d' % d) for d in range(a))
    w = S.real('w')
    net[(pts[0], pts[1]) + l] = w
    d = S.choice(range(a), 'd')
    m = S.label('m')
    S.assume(Not(eqt(m, l[d])))
    net.add_layer(m, d + 1)
    k = l[:d] + (m,) + l[d + 1:]
    S.check(eqt(net[(pts[0], pts[1]) + k], 0), 'a new layer is empty')
    S.check(eqt(net[(pts[0], pts[1]) + l], w), 'adding a layer leaves the others alone')
    w2 = S.real('w2')
    net.A[key(k)][pts[0], pts[1]] = w2
    S.check(eqt(net[(pts[0], pts[1]) + k], w2), 'a new layer takes edges')
    S.check(eqt(net[(pts[0], pts[1]) + l], w), 'layers are independent')
    S.check(len(net.A) == 2, 'one intra-layer network per layer')
    net.add_layer(l[d], d + 1)
    S.check(eqt(net[(pts[0], pts[1]) + l], w), 'adding an existing layer again changes nothing')


def instances(add):
    timeline.instances(add, timeline.look_views, kinds='mx mxnf mx2 mxnf2', how=('net', 'view'))
    timeline.instances(add, timeline.look_views, kinds='mx mxnf mx2 mxnf2', how=('net', 'view'), steps=3, tier='thorough')
    H = ['net', 'fullnet', 'node', 'view', 'intranets']
    for d in (False, True):
        s = 'dir' if d else 'undir'
        for full in (True, False):
            f = 'full' if full else 'nonfull'
            add('hist-%s-%s' % (s, f), history, dict(L=[2], n=2, k=2, how=H, directed=d, full=full), bounds='2 layers, 2 nodes, any 2 writes')
            add('assign-%s-%s' % (s, f), assign, dict(L=[2], n=3 if not d else 2, directed=d, full=full), bounds='2 layers, 3 nodes (2 directed)')
        add('hist3-%s' % s, history, dict(L=[2], n=3, k=2, how=['net', 'view'], directed=d), bounds='2 layers, 3 nodes, any 2 writes')
        add('hist-noedge-%s' % s, history, dict(L=[2], n=2, k=2, how=['net', 'view'], directed=d, symNoEdge=True), bounds='any noEdge value')
        add('hist-2asp-%s' % s, history, dict(L=[2, 2], n=2, k=1, how=H, directed=d), bounds='2x2 layers')
        add('hist-2asp-nonfull-%s' % s, history, dict(L=[2, 2], n=2, k=1, how=H, directed=d, full=False), bounds='2x2 layers')
    add('assign-noedge', assign, dict(L=[2], n=2, symNoEdge=True))
    add('assign-2asp', assign, dict(L=[1, 2], n=2))
    add('assign-2asp-nonfull', assign, dict(L=[1, 2], n=2, full=False))
    for full in (True, False):
        f = 'full' if full else 'nonfull'
        add('illegal-a1-' + f, illegal, dict(L=[2], full=full))
        add('illegal-a2-' + f, illegal, dict(L=[2, 2], full=full))
        add('illegal-dir-' + f, illegal, dict(L=[2], full=full, directed=True))
        add('late-a1-' + f, late_layer, dict(a=1, full=full))
        add('late-a2-' + f, late_layer, dict(a=2, full=full))
    add('hist-k3', history, dict(L=[2], n=2, k=3, how=H), tier='thorough')
    add('hist-n3-k3', history, dict(L=[2], n=3, k=3, how=['net', 'view']), tier='thorough')
