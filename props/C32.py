"""C32 layouts."""
from .common import *
from fractions import Fraction as Fr
from pymnet.visuals import layouts
ASSUMPTIONS = ['box sizes are positive', 'square roots are exact reals']


SLACK = 1 + Fr(1, 10 ** 9)     # rounding of floats in the replay


def normal(S, c):
    """normalisation maps the coordinates linearly from their range to the box"""
    n = c['n']
    P = {('v%d' % i if c.get('nodes', True) else ('v%d' % i, 'l')): (S.real('x%d' % i), S.real('y%d' % i)) for i in range(n)}
    box = S.real('bx'), S.real('by')
    S.assume(And(box[0] > 0, box[1] > 0))
    old = dict((k, tuple(P[k])) for k in P)
    inp = S.choice([True, False], 'inplace')
    if inp:
        r = layouts.normalize_coordinates(P, box, inplace=True)
        S.check(r is P, 'the given dictionary is changed in place')
    else:
        r = layouts.normalize_coordinates(P, box)
        S.check(list(P) == list(old) and And([And(eqt(P[k][0], old[k][0]), eqt(P[k][1], old[k][1])) for k in old]), 'the given dictionary is kept')
    S.check(set(r) == set(old), 'the same keys')
    for a in (0, 1):
        lo, hi = old[list(old)[0]][a], old[list(old)[0]][a]
        for k in old:
            lo = Ite(old[k][a] < lo, old[k][a], lo)
            hi = Ite(old[k][a] > hi, old[k][a], hi)
        for k in old:
            got, x = r[k][a], old[k][a]
            S.check(Or(And(eqt(lo, hi), eqt(got, 0)), And(hi > lo, eqt(got * (hi - lo), (x - lo) * box[a]))), 'coordinates are mapped linearly to the box')


def get(S, c):
    """get_layout gives coordinates for exactly the nodes, or exactly the node-layers"""
    net, m = anynet(S, c)
    lay, al = c['layout'], c['aligned']
    nc, nlc = layouts.get_layout(lay, net, alignedNodes=al)
    if al is None:
        al = isinstance(net, pymnet.MultiplexNetwork)
    S.check((nlc if al else nc) == {}, 'only one kind of coordinates')
    S.check(set(nc) == set(m.nodes) if al else set(nlc) == set(m.nls), 'every node or node-layer has coordinates')
    for k, (x, y) in (nc if al else nlc).items():
        if lay in ('random', 'fr'):
            S.check(And(x >= 0, x <= 1, y >= 0, y <= 1), 'coordinates are in the unit square')
        else:
            S.check(-1.01 <= x <= 1.01 and -1.01 <= y <= 1.01, 'coordinates are around the unit circle')
    same_as(S, net, m, ' (the network is not changed)')


def bad(S, c):
    net, m = anynet(S, c)
    S.raises(Exception, lambda: layouts.get_layout('nonsense', net, alignedNodes=True), 'unknown layouts are rejected')
    S.raises(Exception, lambda: layouts.get_layout('nonsense', net, alignedNodes=False), 'unknown layouts are rejected')
    S.raises(Exception, lambda: layouts.get_layout('circular', net, alignedNodes=False), 'networkx layouts need aligned nodes')
    S.raises(ValueError, lambda: layouts.get_layout('random', 'net', alignedNodes=None), 'only networks have a layout')
    S.raises(AssertionError, lambda: layouts.get_fruchterman_reingold_multilayer_layout(pymnet.MultilayerNetwork(aspects=0)), 'monoplex networks are rejected')
    S.raises(AssertionError, lambda: layouts.get_fruchterman_reingold_multilayer_layout(net, boxSize=(1, 2, 3)), 'boxes have two sides')
    S.raises(AssertionError, lambda: layouts.get_fruchterman_reingold_multilayer_layout(net, nodeDist=0), 'node distances are positive')


def fr(S, c):
    """Fruchterman-Reingold layout: keys, box, initial and fixed coordinates"""
    net, m = anynet(S, c)
    al, it = c['aligned'], c['it']
    nodes = list(m.nodes)
    init_n, init_nl = {}, {}
    box = (S.real('bx'), S.real('by')) if c.get('box', True) else (1.0, 1.0)
    if c.get('box', True):
        if c.get('square'):
            box = box[0], box[0]
        S.assume(And(box[0] > 0, box[1] > 0))
    num = c.get('num', 'sym')

    def point(h, i):
        if num == 'sym':
            x, y = S.real('x' + h), S.real('y' + h)
            S.assume(And(x >= 0, y >= 0, x <= box[0], y <= box[1]))
            return x, y
        return num[i]
    for i, v in enumerate(nodes):
        if S.choice([True, False] if c.get('partial') else [True], 'n%d' % i):
            init_n[v] = point('n%d' % i, i)
    if not al:
        for i, x in enumerate(m.nls):
            if S.choice([True, False] if c.get('partial') else [i % 2 == 0], 'l%d' % i):
                init_nl[x] = point('l%d' % i, len(nodes) + i)
    keys = nodes if al else list(m.nls)

    def initial(k):
        if al:
            return init_n.get(k)
        return init_nl.get(k, init_n.get(k[0]))
    fixed = [k for i, k in enumerate(keys) if initial(k) is not None and c.get('fix') and S.choice([True, False], 'f%d' % i)]
    kw = {}
    if al:
        kw['fixedNodes'] = set(fixed)
    else:
        kw['fixedNodeLayers'] = set(fixed)
        kw['nodelayerCoords'] = dict(init_nl)
    r = layouts.get_fruchterman_reingold_multilayer_layout(net, boxSize=box, alignedNodes=al, nodeCoords=dict(init_n), iterations=it, **kw)
    S.check(set(r) == set(keys), 'every node or node-layer has coordinates')
    for k in keys:
        x, y = r[k]
        S.check(And(x >= 0, x <= box[0] * SLACK, y >= 0, y <= box[1] * SLACK), 'the coordinates are inside the box')
        w = initial(k)
        if w is not None and (it == 0 or k in fixed):
            S.check(And(eqt(x, w[0]), eqt(y, w[1])), 'without iterations, and for fixed nodes, the initial coordinates are kept')
    same_as(S, net, m, ' (the network is not changed)')
    if fixed or it == 0:
        return
    for a in (0, 1):
        vals = [r[k][a] for k in keys]
        S.check(Or(And(Or([eqt(v, 0) for v in vals]), Or([And(v * SLACK >= box[a], v <= box[a] * SLACK) for v in vals])), And([eqt(v, 0) for v in vals])), 'the layout fills the box')


def shift(S, c):
    """moving all initial coordinates by the same vector does not change the layout"""
    net, m = anynet(S, c)
    al = c['aligned']
    dx, dy = S.real('dx'), S.real('dy')
    keys = list(m.nodes if al else m.nls)
    P = {k: c['num'][i] for i, k in enumerate(keys)}
    Q = {k: (p[0] + dx, p[1] + dy) for k, p in P.items()}

    def run(co):
        kw = dict(nodeCoords=co) if al else dict(nodelayerCoords=co)
        return layouts.get_fruchterman_reingold_multilayer_layout(net, alignedNodes=al, iterations=1, **kw)
    a, b = run(P), run(Q)
    for k in keys:
        S.check(And(a[k][0] - b[k][0] < 1e-6, b[k][0] - a[k][0] < 1e-6, a[k][1] - b[k][1] < 1e-6, b[k][1] - a[k][1] < 1e-6), 'the layout depends on the differences of the initial coordinates')


def forces(S, c):
    """nodes on different layers do not repulse each other; linked ones attract, others on the same layer repulse"""
    net = pymnet.MultilayerNetwork(aspects=1, fullyInterconnected=False)
    la = S.choice(['a', 'b'], 'layer')
    for v, l in (('u', 'a'), ('v', la), ('p', 'c'), ('q', 'd')):
        net.add_node(v, layer=l)
    linked = S.choice([True, False], 'linked')
    if linked:
        w = S.real('w')
        S.assume(w > 0)
        net['u', 'v', 'a', la] = w
    d = S.real('d')
    S.assume(And(d * 2 > 1, d * 10 < 7))
    P = dict(u=(1, 0), v=(1 + d, 0), p=(0, 0), q=(3, 0))
    al = c['aligned']
    kw = dict(nodeCoords=P)
    if not al and S.choice([True, False], 'bynl'):
        kw = dict(nodelayerCoords={x: P[x[0]] for x in net.iter_node_layers()})
    r = layouts.get_fruchterman_reingold_multilayer_layout(net, alignedNodes=al, iterations=1, nodeDist=0.5, boxSize=(3.0, 1.0), **kw)
    X = {k if al else k[0]: v[0] for k, v in r.items()}
    eps = Fr(1, 10 ** 6)
    S.check(And(-eps < X['p'], X['p'] < eps, 3 - eps < X['q'], X['q'] < 3 + eps), 'the nodes at the sides are not moved')
    now = X['v'] - X['u']
    if not linked and la == 'b':
        S.check(And(d - eps < now, now < d + eps), 'nodes on different layers do not repulse each other')
    elif not linked:
        S.check(now > d, 'nodes on the same layer repulse each other')
    elif la == 'b':
        S.check(And(now > 0, now < d), 'linked nodes attract each other')


def instances(add):
    for n in (1, 2, 3, 4):
        add('normal-%d' % n, normal, dict(n=n), tier='quick' if n < 3 else 'thorough', bounds='%d nodes, any coordinates and box' % n)
    add('normal-nl', normal, dict(n=2, nodes=False), bounds='2 node-layers, any coordinates and box')
    one = dict(allowed='inter1', n=2, L=[2], maxedges=3)
    mp = dict(kind='multiplex', couplings=['categorical'], n=2, L=[2])
    for lay in ('random', 'circular', 'shell'):
        for nm, g in (('ml', one), ('mlnf', dict(one, full=False, always=2)), ('mp', mp), ('mpnf', dict(mp, full=False, always=2))):
            add('get-%s-%s' % (lay, nm), get, dict(g, layout=lay, aligned=True), bounds='2 nodes x 2 layers')
            if lay == 'random':
                add('get-%s-%s-free' % (lay, nm), get, dict(g, layout=lay, aligned=False), bounds='2 nodes x 2 layers')
                add('get-%s-%s-auto' % (lay, nm), get, dict(g, layout=lay, aligned=None), bounds='2 nodes x 2 layers')
    add('bad', bad, dict(one, maxedges=1))
    for al in (True, False):
        t = 'al' if al else 'free'
        num = [(0.1, 0.2), (0.7, 0.9), (0.4, 0.3), (0.2, 0.8), (0.6, 0.1), (0.5, 0.5), (0.35, 0.75)]
        for nm, g in (('ml', one), ('mlnf', dict(one, full=False, always=2)), ('mp', mp)):
            add('fr0-%s-%s' % (t, nm), fr, dict(g, aligned=al, it=0, partial=True), bounds='2 nodes x 2 layers, any coordinates, no iterations')
            add('fr1-%s-%s' % (t, nm), fr, dict(g, aligned=al, it=1, num=num, square=True), bounds='2 nodes x 2 layers, coordinates fixed numbers, any square box, one iteration')
            add('frn-%s-%s' % (t, nm), fr, dict(g, aligned=al, it=2, num=num, box=False, fix=True), bounds='2 nodes x 2 layers, two iterations from fixed numbers, any fixed nodes')
        add('forces-%s' % t, forces, dict(aligned=al), bounds='4 nodes on 3 or 4 layers, any distance in (0.5,0.7)')
        add('shift-%s' % t, shift, dict(one, L=[2 if al else 1], aligned=al, num=num), bounds='2 nodes x %d layers, moved by any vector' % (2 if al else 1))
