"""C04 node and layer membership: exactly what was added, explicitly or through edges."""
from .common import *
from . import timeline
ASSUMPTIONS = []


class Ref(object):
    def __init__(self, aspects, full):
        self.a, self.full = aspects, full
        self.nodes, self.layers, self.nls = [], [[] for _ in range(aspects)], []

    def node(self, v):
        self.nodes.append(v)

    def layer(self, l, d):
        self.layers[d - 1].append(l)

    def nl(self, t):
        self.nodes.append(t[0])
        for d in range(1, self.a + 1):
            self.layers[d - 1].append(t[d])
        self.nls.append(t)

    def all_nls(self):
        if self.full:
            return [t for t in itertools.product(self.nodes, *self.layers)]
        return self.nls


def T(xs):
    return [(x, True) for x in xs]


def unique(S, xs):
    """representatives of symbolic values (decides the equalities on this path)"""
    out = []
    for x in xs:
        if not any(bool(eqt(x, y)) for y in out):
            out.append(x)
    return out


def observe(S, net, ref, tag):
    a = ref.a
    S.same_set(list(net), T(ref.nodes), 'iterating the network gives its nodes' + tag)
    S.same_set(list(net.iter_nodes()), T(ref.nodes), 'iter_nodes gives the nodes' + tag)
    S.check(eqt(len(net), count_distinct(T(ref.nodes))), 'len(net) is the number of nodes' + tag)
    for d in range(1, a + 1):
        S.same_set(list(net.get_layers(d)), T(ref.layers[d - 1]), 'get_layers gives the layers' + tag)
        S.same_set(list(net.iter_layers(d)), T(ref.layers[d - 1]), 'iter_layers(aspect) gives the layers' + tag)
    if a == 1:
        S.same_set(list(net.iter_layers()), T(ref.layers[0]), 'iter_layers gives the layers' + tag)
    elif a > 1:
        S.same_set(list(net.iter_layers()), T(itertools.product(*ref.layers)), 'iter_layers gives all layer combinations' + tag)
    nls = ref.all_nls()
    got = list(net.iter_node_layers())
    S.same_set([tuple(t) for t in got], T(nls), 'iter_node_layers gives the node-layers' + tag)
    if a >= 1:
        combos = unique(S, itertools.product(*ref.layers))
        for l in combos:
            want = [(t[0], eqt(t[1:], l)) for t in nls]
            S.same_set(list(net.iter_nodes(l[0] if a == 1 else l)), want, 'iter_nodes(layer) gives the nodes of that layer' + tag)


def history(S, c):
    a, full = c['aspects'], c['full']
    kind = c['kind']
    if kind == 'multilayer':
        net = pymnet.MultilayerNetwork(aspects=a, fullyInterconnected=full, directed=c.get('directed', False))
    else:
        net = pymnet.MultiplexNetwork(couplings=['categorical'] * a, fullyInterconnected=full)
    ref = Ref(a, full)
    for k in range(c['k']):
        op = S.choice(c['ops'], 'op%d' % k)
        if op == 'node':
            v = S.label('v%d' % k)
            net.add_node(v)
            ref.node(v)
        elif op == 'layer':
            d = S.choice(range(1, a + 1), 'asp%d' % k)
            l = S.label('l%d_%d' % (d, k))
            net.add_layer(l, d)
            ref.layer(l, d)
        elif op == 'nl':
            t = nl(S, a, 'n%d' % k)
            lay = t[1] if a == 1 else t[1:]
            if full or kind == 'multiplex' and a > 1:
                for d in range(1, a + 1):
                    net.add_layer(t[d], d)
            net.add_node(t[0], lay)
            ref.nl(t)
        elif op == 'edge':
            x = nl(S, a, 'x%d' % k)
            y = nl(S, a, 'y%d' % k)
            w = S.real('w%d' % k)
            net[link(x, y)] = w
            ref.nl(x)
            ref.nl(y)
        elif op == 'intraedge':
            x = nl(S, a, 'x%d' % k)
            j = S.label('j%d' % k)
            S.assume(Not(eqt(j, x[0])))
            w = S.real('w%d' % k)
            net[(x[0], j) + x[1:]] = w
            ref.nl(x)
            ref.nl((j,) + x[1:])
        elif op == 'viewedge':
            x = nl(S, a, 'x%d' % k)
            j = S.label('j%d' % k)
            S.assume(Not(eqt(j, x[0])))
            for d in range(1, a + 1):
                net.add_layer(x[d], d)
            w = S.real('w%d' % k)
            net.A[x[1] if a == 1 else x[1:]][x[0], j] = w
            ref.nl(x)
            ref.nl((j,) + x[1:])
        elif op == 'viewnode':
            x = nl(S, a, 'x%d' % k)
            for d in range(1, a + 1):
                net.add_layer(x[d], d)
            net.A[x[1] if a == 1 else x[1:]].add_node(x[0])
            ref.nl(x)
    observe(S, net, ref, '')


def instances(add):
    timeline.instances(add, timeline.look_sets, kinds='mono ml nf ml2 nf2 mx mxnf mx2 mxnf2', how=('net', 'view'))
    timeline.instances(add, timeline.look_sets, kinds='mono ml nf ml2 nf2 mx mxnf mx2 mxnf2', how=('net', 'view'), steps=3, tier='thorough')
    add('mono-k3', history, dict(kind='multilayer', aspects=0, full=True, k=3, ops=['node', 'edge']), bounds='any 3 operations')
    for full in (True, False):
        f = 'full' if full else 'nonfull'
        add('ml1-k2-' + f, history, dict(kind='multilayer', aspects=1, full=full, k=2, ops=['node', 'layer', 'nl', 'edge']), bounds='any 2 operations, 1 aspect')
        add('ml1-dir-k2-' + f, history, dict(kind='multilayer', aspects=1, full=full, k=2, ops=['nl', 'edge'], directed=True), bounds='any 2 operations, 1 aspect, directed')
        add('ml2-k1-' + f, history, dict(kind='multilayer', aspects=2, full=full, k=1, ops=['node', 'layer', 'nl', 'edge']), bounds='1 operation, 2 aspects')
        add('ml2-k2-' + f, history, dict(kind='multilayer', aspects=2, full=full, k=2, ops=['node', 'layer', 'nl']), bounds='2 operations, 2 aspects')
        add('mx1-k2-' + f, history, dict(kind='multiplex', aspects=1, full=full, k=2, ops=['node', 'layer', 'nl', 'intraedge', 'viewedge', 'viewnode']),
            bounds='any 2 operations, multiplex')
        add('mx2-k1-' + f, history, dict(kind='multiplex', aspects=2, full=full, k=1, ops=['node', 'layer', 'nl', 'intraedge', 'viewedge', 'viewnode']),
            bounds='1 operation, 2-aspect multiplex')
        add('ml1-k3-' + f, history, dict(kind='multilayer', aspects=1, full=full, k=3, ops=['node', 'layer', 'nl', 'edge']), tier='thorough')
        add('mx1-k3-' + f, history, dict(kind='multiplex', aspects=1, full=full, k=3, ops=['nl', 'intraedge', 'viewedge']), tier='thorough')
        add('mx2-k2-' + f, history, dict(kind='multiplex', aspects=2, full=full, k=2, ops=['nl', 'intraedge', 'viewedge']), tier='thorough')
