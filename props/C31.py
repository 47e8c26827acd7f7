"""C31 drawing: elements drawn and the properties they are given."""
from .common import *
import re
from pymnet import visuals
from pymnet.visuals import drawcore, drawnet, drawassigners
from pymnet.visuals.drawbackends import mpl, threejs
import matplotlib
ASSUMPTIONS = ['networks with one aspect; the plotting itself is replaced: the elements handed to the backend are examined']

LAYER = dict(Color=('color', '#29b7c1'), Alpha=('alpha', 0.75), Label=('label', None), LabelLoc=('labelloc', (1, 1)),
             LabelSize=('size', None), LabelColor=('color', 'k'), LabelStyle=('style', 'normal'), LabelAlpha=('alpha', 1.0))
NODE = dict(Color=('color', 'black'), Label=('label', None), Size=('size', None), LabelSize=('size', None),
            LabelColor=('color', 'k'), LabelStyle=('style', 'normal'), LabelAlpha=('alpha', 1.0))
EDGE = dict(Color=('color', 'gray'), Width=('width', 1.5), Alpha=('alpha', 1), Z=('z', 0), Style=('style', '-'))
TAB = dict(layer=LAYER, node=NODE, edge=EDGE)


class quiet(object):
    """draw() builds its elements but nothing is plotted"""
    def __enter__(self):
        self.old = mpl.NetFigureMPL.draw
        mpl.NetFigureMPL.draw = lambda f, **k: f

    def __exit__(self, *a):
        mpl.NetFigureMPL.draw = self.old
        return False


def read(kind, prop, el):
    at = TAB[kind][prop][0]
    if kind != 'edge' and prop.startswith('Label') and prop not in ('Label', 'LabelLoc'):
        return el.labelArgs[at]
    return getattr(el, at)


def elements(S, nf, m, coords):
    """the drawn layers, nodes and edges by name, after checking that they are the right ones"""
    S.check(len(nf.layers) == len(m.layers[0]), 'one drawn layer for each layer')
    order = list(reversed(nf.layers))
    lay = dict(zip(sorted(m.layers[0]), order))
    S.check(len(nf.nodes) == len(m.nls), 'one drawn node for each node-layer')
    nodes = {}
    for e in nf.nodes:
        hit = [x for x in m.nls if coords[x] == (e.x, e.y)]
        S.check(len(hit) == 1, 'drawn nodes are at the given coordinates')
        nodes[hit[0]] = e
        S.check(e.layer is lay[hit[0][1]], 'a drawn node is on its layer')
    S.check(len(nodes) == len(m.nls), 'every node-layer is drawn')
    edges = {}
    back = {id(e): x for x, e in nodes.items()}
    for e in nf.edges:
        k = back[id(e.node1)], back[id(e.node2)]
        S.check(k not in edges, 'an edge is drawn once in each direction')
        edges[k] = e
    for x in m.nls:
        for y in m.nls:
            if x != y:
                S.check(Iff(m.has(x, y), (x, y) in edges), 'exactly the edges of the network are drawn')
    return lay, nodes, edges


def numeric(prop):
    return prop in ('Alpha', 'LabelAlpha', 'Z', 'Width', 'Size', 'LabelSize')


def value(S, prop, h):
    if numeric(prop):
        v = S.real(h)
        S.assume(And(v >= 0, v <= 1))
        return v
    return ('val', h)


def props(S, c):
    """dictionary, then rule, then default"""
    net, m = anynet(S, dict(c, self=False))
    kind, prop, mode = c['elem'], c['prop'], c['mode']
    names = dict(layer=m.layers[0], node=m.nls)
    coords = {x: (2 * i + 1, 3 * i) for i, x in enumerate(m.nls)}
    kw = {}
    base = kind + prop
    default = TAB[kind][prop][1]
    if mode['default']:
        default = value(S, prop, 'dflt')
        kw['default' + base[0].upper() + base[1:]] = default
    els = names.get(kind) or [(x, y) for x in m.nls for y in m.nls if x != y and bool(m.has(x, y))]
    given = {}
    if mode['dict']:
        for i, e in enumerate(els):
            if kind == 'edge' and not m.directed and (e[1], e[0]) in given:
                continue
            if S.choice([True, False], 'd%d' % i):
                given[e] = value(S, prop, 'v%d' % i)
        kw[base + 'Dict'] = dict(given)
    rule, expect = mode['rule'], lambda e: default
    r = {}
    fmul = None
    if rule:
        name, mods = rule[0], rule[1:]
        r['rule'] = name
        if name == 'name':
            expect = lambda e: e
        elif name == 'nodename':
            expect = lambda e: e[0]
        elif name == 'degree':
            expect = lambda e: Sum([B2I(m.has(e, y)) for y in m.nls if y != e])
        elif name == 'edgeweight':
            expect = lambda e: m.get(*e)
        elif name == 'edgetype':
            kinds = {}
            for t in c['types']:
                kinds[t] = value(S, prop, t)
            r.update(kinds)
            expect = lambda e: kinds.get('intra' if e[0][1] == e[1][1] else 'inter', default)
        elif name == 'layer':
            expect = lambda e: e[1] if kind == 'node' else e[0][1] if e[0][1] == e[1][1] else 'interlayer'
        elif name == 'sourcedestweight':
            expect = lambda e: (e[0], e[1], m.get(*e))
        elif name == 'scaled':
            r['scalecoeff'] = S.real('coeff')
            S.assume(r['scalecoeff'] > 0)
            q = r['scalecoeff']
            expect = ('sqrt', lambda e: q)
        for t in mods:
            old = expect
            if t == 'scaleby':
                r[t] = S.real('by')
                expect = lambda e, o=old, b=r[t]: o(e) * b
            elif t == 'f':
                r[t] = (lambda v: ('f', v)) if not c.get('num') else (lambda v: 3 * v + 1)
                expect = lambda e, o=old, f=r[t]: f(o(e))
            elif t == 'propscale':
                r[t] = S.real('ps')
                expect = ('sqrt', lambda e, o=old, p=r[t]: o(e) * p)
    kw[base + 'Rule'] = r
    for p in ('Label',):
        for other in ('layer', 'node'):
            if other + p != base:
                kw[other + p + 'Rule'] = {}
    if base != 'nodeSize':
        kw['nodeSizeRule'] = {}
    with quiet():
        nf = visuals.draw(net, layout='random', nodelayerCoords=dict(coords), **kw)
    lay, nodes, edges = elements(S, nf, m, coords)
    n = len(m.nodes)
    for e, el in dict(layer=lay, node=nodes, edge=edges)[kind].items():
        got = read(kind, prop, el)
        dv = given.get(e, given.get((e[1], e[0])) if kind == 'edge' and not m.directed else None)
        if dv is not None:
            S.check(eqt(got, dv) if is_sym(dv) else got == dv, 'a value in the dictionary is used')
        elif isinstance(expect, tuple):
            w = expect[1](e)        # got == w / sqrt(n)
            if n in (1, 4):
                S.check(eqt(got * (1 if n == 1 else 2), w), 'value of the rule')
            else:
                S.check(And(eqt(got * got * n, w * w), Iff(got >= 0, w >= 0)) if not is_sym(got) else eqapprox(got, w, n), 'value of the rule')
        else:
            w = expect(e)
            S.check(same(got, w), 'value of the rule, or the default')


def eqapprox(got, w, n):
    """got is w/sqrt(n) up to the rounding of the square root"""
    d = got * got * n - w * w
    return And(d <= w * w / 10 ** 6, -d <= w * w / 10 ** 6, Iff(got >= 0, w >= 0))


def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return And([len(a) == len(b)] + [same(x, y) for x, y in zip(a, b)])
    if is_sym(a) or is_sym(b) or isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return eqt(a, b)
    return a == b


def order(S, c):
    """the order rule hands out the sequence round robin"""
    net, m = anynet(S, dict(c, self=False))
    seq = ['s%d' % i for i in range(S.choice([1, 2, 3], 'len'))]
    coords = {x: (2 * i + 1, 3 * i) for i, x in enumerate(m.nls)}
    kind = c['elem']
    with quiet():
        nf = visuals.draw(net, layout='random', nodelayerCoords=dict(coords), nodeSizeRule={}, **{kind + 'ColorRule': dict(rule='order', sequence=list(seq))})
    lay, nodes, edges = elements(S, nf, m, coords)
    els = dict(layer=list(reversed(nf.layers)), node=nf.nodes, edge=nf.edges)[kind]
    for i, e in enumerate(els):
        S.check(e.color == seq[i % len(seq)], 'the order rule hands out the sequence in order')


def colormap(S, c):
    net, m = anynet(S, dict(c, self=False))
    coords = {x: (2 * i + 1, 3 * i) for i, x in enumerate(m.nls)}
    with quiet():
        nf = visuals.draw(net, layout='random', nodelayerCoords=dict(coords), nodeSizeRule={},
                          nodeColorRule={'rule': 'degree', 'colormap': 'jet', 'scaleby': 0.1})
    lay, nodes, edges = elements(S, nf, m, coords)
    for x, e in nodes.items():
        d = sum(1 for y in m.nls if y != x and bool(m.has(x, y)))
        S.check(e.color == matplotlib.colormaps['jet'](d * 0.1), 'the colormap gives the color')


def unknown(S, c):
    net, m = anynet(S, dict(c, self=False))
    coords = {x: (2 * i + 1, 3 * i) for i, x in enumerate(m.nls)}

    def d(**k):
        with quiet():
            visuals.draw(net, layout='random', nodelayerCoords=dict(coords), **k)
    S.raises(Exception, lambda: d(nodeColorRule={'rule': 'nonsense'}), 'unknown rules are rejected')
    S.raises(Exception, lambda: d(layerColorRule={'rule': 'degree'}), 'unknown rules are rejected')
    S.raises(Exception, lambda: d(nodeColorRule={'f': abs}), 'rule dictionaries without a rule are rejected')
    S.raises(Exception, lambda: d(backend='nonsense'), 'unknown backends are rejected')
    S.raises(Exception, lambda: d(layershape='nonsense'), 'unknown shapes are rejected')
    net2 = pymnet.MultilayerNetwork(aspects=2)
    net2.add_node(1)
    S.raises(AssertionError, lambda: visuals.draw(net2), 'only one aspect can be drawn')


def layerorder(S, c):
    """layers are stacked by their order property, the first on top"""
    net, m = anynet(S, dict(c, self=False))
    L = m.layers[0]
    o = {l: S.real('o%d' % i) for i, l in enumerate(L)}
    S.assume(Distinct(list(o.values())))
    coords = {x: (2 * i + 1, 3 * i) for i, x in enumerate(m.nls)}
    how = c['how']
    kw = dict(layerOrderDict=dict(o)) if how == 'dict' else dict(layerOrderRule=dict(rule='name', f=lambda l: o[l]))
    with quiet():
        nf = visuals.draw(net, layout='random', nodelayerCoords=dict(coords), layergap=S.choice([1, 2], 'gap'), **kw)
        S.check([l.label for l in nf.layers] == sorted(L, key=lambda l: -o[l]), 'the first layer comes on top')
    drawn = []
    old = mpl.LayerMPL.draw, mpl.NodeMPL.draw, mpl.EdgeMPL.draw
    try:
        mpl.LayerMPL.draw = mpl.NodeMPL.draw = mpl.EdgeMPL.draw = lambda s: drawn.append(s)
        nf.draw_elements()
    finally:
        mpl.LayerMPL.draw, mpl.NodeMPL.draw, mpl.EdgeMPL.draw = old
    for i, l in enumerate(nf.layers):
        S.check(eqt(l.z, i * nf.layergap), 'layers are stacked with the gap between them')
    S.check(drawn == nf.layers + nf.nodes + nf.edges, 'layers, nodes and edges are drawn, once each')


def visible(S, c):
    """invisible layers and nodes of size zero are not drawn"""
    fig = drawnet.NetFigure()
    drawn = []

    class L(drawnet.Layer):
        def draw(self): drawn.append(self)

    class N(drawnet.Node):
        def draw(self): drawn.append(self)

    class E(drawnet.Edge):
        def draw(self): drawn.append(self)
    ls = []
    for i in range(c['layers']):
        a = S.real('a%d' % i)
        S.assume(And(a >= 0, a <= 1))
        ls.append(L(fig, alpha=a))
    ns = []
    for i in range(c['nodes']):
        s = S.real('s%d' % i)
        S.assume(s >= 0)
        ns.append(N(ls[i % len(ls)], 0, i, size=s))
    es = [E(a, b) for a in ns for b in ns if a is not b]
    fig.draw_elements()
    for l in ls:
        S.check(Iff(l in drawn, Not(eqt(l.alpha, 0))), 'exactly the layers that are not fully transparent are drawn')
    for n in ns:
        S.check(Iff(n in drawn, n.size > 0), 'exactly the nodes of positive size are drawn')
    S.check(all(e in drawn for e in es), 'all edges are drawn')
    z = S.real('z')
    if bool(And(z >= 0, z <= 1)):
        S.check(eqt(E(ns[0], ns[-1], z=z).z, z), 'edge height modifier')
        S.check(eqt(E(ns[0], ns[-1], alpha=z).alpha, z), 'edge transparency')
    else:
        S.raises(AssertionError, lambda: E(ns[0], ns[-1], z=z), 'edge height modifiers lie between 0 and 1')
        S.raises(AssertionError, lambda: E(ns[0], ns[-1], alpha=z), 'edge transparency lies between 0 and 1')


def normal(S, c):
    """normalize_coords maps the figure affinely onto the unit square with the padding around it"""
    pad = S.real('pad')
    S.assume(pad > 0)
    fig = drawnet.NetFigure(padding=pad)
    l = drawnet.Layer(fig)
    pts = []
    for i in range(c['n']):
        s, x, y = S.real('s%d' % i), S.real('x%d' % i), S.real('y%d' % i)
        S.assume(s >= 0)
        drawnet.Node(l, x, y, size=s)
        pts.append((x, y, s))
    fig.normalize_coords()
    for ax in (0, 1):
        lo, hi = None, None
        for p in pts:
            a, b = p[ax] - p[2] / 2, p[ax] + p[2] / 2
            lo = a if lo is None or bool(a < lo) else lo
            hi = b if hi is None or bool(b > hi) else hi
        w = hi - lo + 2 * pad
        for p, n in zip(pts, fig.nodes):
            got = n.x if ax == 0 else n.y
            S.check(eqt(got * w, p[ax] - lo + pad), 'coordinates are scaled into the unit square')
            S.check(And(got >= 0, got <= 1), 'coordinates are within the unit square')
            S.check(eqt(n.size, p[2]), 'sizes are kept')


def coords(S, c):
    """node-layer coordinates take precedence over node coordinates, which take precedence over the layout"""
    net, m = anynet(S, dict(c, self=False))
    nc, nlc = {}, {}
    for i, v in enumerate(m.nodes):
        if S.choice([True, False], 'n%d' % i):
            nc[v] = (S.real('nx%d' % i), S.real('ny%d' % i))
    for i, x in enumerate(m.nls):
        if S.choice([True, False], 'l%d' % i):
            nlc[x] = (S.real('lx%d' % i), S.real('ly%d' % i))
    with quiet():
        nf = visuals.draw(net, layout='random', nodeCoords=dict(nc), nodelayerCoords=dict(nlc), nodeLabelRule={'rule': 'name'}, alignedNodes=c['aligned'])
    for e in nf.nodes:
        x = e.label
        if x in nlc:
            S.check(And(eqt(e.x, nlc[x][0]), eqt(e.y, nlc[x][1])), 'the coordinates given for a node-layer are used')
        elif x[0] in nc and c['aligned']:
            S.check(And(eqt(e.x, nc[x[0]][0]), eqt(e.y, nc[x[0]][1])), 'the coordinates given for a node are used')
        elif x[0] not in nc:
            S.check(And(e.x >= 0, e.x <= 1, e.y >= 0, e.y <= 1), 'random coordinates are within the unit square')
    if c['aligned']:
        for a in nf.nodes:
            for b in nf.nodes:
                if a.label[0] == b.label[0] and a.label not in nlc and b.label not in nlc:
                    S.check(And(eqt(a.x, b.x), eqt(a.y, b.y)), 'aligned nodes have the same coordinates on all layers')


def redraw(S, c):
    """drawings do not depend on the ones made before, and the dictionaries given are kept"""
    for k in range(2):
        n = S.choice([1, 2, 3], 'n%d' % k)
        net = pymnet.MultilayerNetwork(aspects=1)
        for v in range(n):
            net.add_node(v)
        for l in 'ab':
            net.add_layer(l)
        w = S.real('w%d' % k)
        if n > 1:
            net[0, 1, 'a', 'b'] = w
        given, kw = {}, {}
        for name, keys in (('nodeCoords', [0, 1][:n]), ('nodelayerCoords', [(0, 'a')])):
            if S.choice([False, True], '%s%d' % (name, k)):
                kw[name] = dict((x, (S.real('%s%d%sx' % (name, k, x)), S.real('%s%d%sy' % (name, k, x)))) for x in keys)
                given[name] = dict(kw[name])
        with quiet():
            nf = visuals.draw(net, layout='circular', nodeLabelRule={'rule': 'name'}, **kw)
            want = visuals.layouts.get_layout('circular', net)[0]
        S.check(len(nf.nodes) == 2 * n, 'every node-layer is drawn once')
        for e in nf.nodes:
            x = e.label
            xy = given.get('nodelayerCoords', {}).get(x) or given.get('nodeCoords', {}).get(x[0])
            if xy is None:
                S.check(abs(float(e.x) - float(want[x[0]][0])) < 1e-9 and abs(float(e.y) - float(want[x[0]][1])) < 1e-9 if not is_sym(e.x) and not is_sym(e.y) else False, 'the coordinates are those of the layout of this network')
            else:
                S.check(And(eqt(e.x, xy[0]), eqt(e.y, xy[1])), 'the coordinates given are used')
        for name in kw:
            S.check(list(kw[name]) == list(given[name]) and And([And(eqt(kw[name][x][0], given[name][x][0]), eqt(kw[name][x][1], given[name][x][1])) for x in given[name]]), 'the dictionaries given are kept')


class FakeAxes(object):
    def __init__(self):
        self.calls = []

    def plot(self, xs, ys, **k):
        class Line(object):
            zorder = 0
        l = Line()
        self.calls.append((list(xs), list(ys), k))
        return [l]


def lines(S, c):
    """an edge is drawn as connected segments from one end to the other, one for each layer gap it crosses"""
    gap = c['gap']
    fig = mpl.NetFigureMPL(layergap=gap)
    fig.ax = FakeAxes()
    ls = [mpl.LayerMPL(fig) for _ in range(c['layers'])]
    for i, l in enumerate(ls):
        l.z = i * gap
    a, b = S.choice(range(len(ls)), 'a'), S.choice(range(len(ls)), 'b')
    P = [S.real(h) for h in ('x1', 'y1', 'x2', 'y2')]
    n1, n2 = mpl.NodeMPL(ls[a], P[0], P[1]), mpl.NodeMPL(ls[b], P[2], P[3])
    w = S.real('w')
    e = mpl.EdgeMPL(n1, n2, color='c', width=w, style='s', alpha=0.5)
    e.draw()
    K = fig.ax.calls
    k = max(1, abs(a - b))
    S.check(len(K) == k and len(e.lines) == k, 'one segment for each layer gap crossed')
    for i, (xs, ys, kw) in enumerate(K):
        zs = list(kw['zs'])
        S.check(kw['color'] == 'c' and kw['linestyle'] == 's' and kw['alpha'] == 0.5 and eqt(kw['linewidth'], w) is not False, 'the properties of the edge are used')
        S.check(eqt(kw['linewidth'], w), 'the width of the edge is used')
        for t, (x, y, z) in ((i, (xs[0], ys[0], zs[0])), (i + 1, (xs[-1], ys[-1], zs[-1]))):
            S.check(And(eqt(x * k, P[0] * (k - t) + P[2] * t), eqt(y * k, P[1] * (k - t) + P[3] * t), eqt(z * k, ls[a].z * (k - t) + ls[b].z * t)), 'segments lie on the line between the nodes')


class Patch(object):
    zorder = 0

    def __init__(self, kind, a, k):
        self.kind, self.a, self.k = kind, a, k


class Plot(FakeAxes):
    def __init__(self):
        FakeAxes.__init__(self)
        self.patches, self.texts, self.z = [], [], {}

    def add_patch(self, p):
        self.patches.append(p)

    def text(self, x, y, z, s, **k):
        self.texts.append((x, y, z, s, k))
        return Patch('text', (), k)


def plotted(S, c):
    """nodes are circles at their coordinates on their layer, layers are squares or circles at their height"""
    old = mpl.Circle, mpl.Rectangle, mpl.art3d
    ax = Plot()

    class art(object):
        @staticmethod
        def pathpatch_2d_to_3d(p, z=0, zdir='z'):
            ax.z[id(p)] = z
            S.check(zdir == 'z', 'patches are horizontal')
    mpl.Circle = lambda *a, **k: Patch('circle', a, k)
    mpl.Rectangle = lambda *a, **k: Patch('rectangle', a, k)
    mpl.art3d = art
    try:
        gap = S.real('gap')
        S.assume(gap > 0)
        fig = mpl.NetFigureMPL(layergap=gap)
        fig.ax = ax
        shape = S.choice(['rectangle', 'circle'], 'shape')
        labels = [S.choice([None, 0, 'x'], 'lab%d' % i) for i in range(c['layers'] + c['nodes'])]
        V = [S.real(h) for h in ('x0', 'y0', 'x1', 'y1', 'x2', 'y2')][:2 * c['nodes']]
        Z = [S.real('s%d' % i) for i in range(c['nodes'])]
        A = [S.real('a%d' % i) for i in range(c['layers'])]
        S.assume(And([And(s > 0, s < 1) for s in Z] + [And(a > 0, a <= 1) for a in A]))
        ls = [mpl.LayerMPL(fig, shape=shape, color='lc%d' % i, alpha=A[i], label=labels[i], labelloc=(2 + i, 3 + i), labelArgs={'size': i}) for i in range(c['layers'])]
        ns = [mpl.NodeMPL(ls[S.choice(range(len(ls)), 'on%d' % i)], V[2 * i], V[2 * i + 1], label=labels[c['layers'] + i], size=Z[i], color='nc%d' % i, labelArgs={'size': 10 + i}) for i in range(c['nodes'])]
        fig.draw_elements()
    finally:
        mpl.Circle, mpl.Rectangle, mpl.art3d = old
    arg = lambda p, i, n: p.a[i] if len(p.a) > i else p.k[n]
    by = {}
    for p in ax.patches:
        col = p.k.get('color', p.k.get('facecolor'))
        S.check(col not in by, 'one patch for each layer and node')
        by[col] = p
    S.check(set(by) == set(['lc%d' % i for i in range(c['layers'])] + ['nc%d' % i for i in range(c['nodes'])]), 'one patch of its color for each layer and node')
    height = {id(l): (len(ls) - 1 - i) * gap for i, l in enumerate(ls)}
    texts = list(ax.texts)

    def text(label, args, what, place=None):
        mine = [t for t in texts if t[4].get('size') == args]
        S.check(len(mine) == (label is not None), 'one text for each label, with its properties')
        if mine:
            S.check(mine[0][3] == str(label), 'the label is shown')
            if place is not None:
                S.check(And(eqt(mine[0][0], place[0]), eqt(mine[0][1], place[1])), 'the layer label is at its place')
            S.check(And(mine[0][2] - what >= 0, mine[0][2] - what <= gap / 10 + 0.1), 'the label is on its layer')
    for i, l in enumerate(ls):
        p = by['lc%d' % i]
        S.check(p.kind == shape, 'layers have the shape asked for')
        S.check(eqt(p.k['alpha'], A[i]), 'layers have their transparency')
        S.check(eqt(ax.z[id(p)], height[id(l)]), 'layers are at their height')
        text(labels[i], i, height[id(l)], (2 + i, 3 + i))
        if shape == 'rectangle':
            S.check(And(eqt(arg(p, 0, 'xy')[0], 0), eqt(arg(p, 0, 'xy')[1], 0), eqt(arg(p, 1, 'width'), 1), eqt(arg(p, 2, 'height'), 1)), 'layers are unit squares')
    for i, n in enumerate(ns):
        p = by['nc%d' % i]
        xy = arg(p, 0, 'xy')
        S.check(And(eqt(xy[0], V[2 * i]), eqt(xy[1], V[2 * i + 1]), eqt(2 * arg(p, 1, 'radius'), Z[i])), 'nodes are circles of their size at their coordinates')
        S.check(p.kind == 'circle', 'nodes are circles')
        S.check(eqt(ax.z[id(p)], height[id(n.layer)]), 'nodes are on their layers')
        text(labels[c['layers'] + i], 10 + i, height[id(n.layer)])


def figure(S, c):
    """the whole figure as matplotlib holds it"""
    import matplotlib.pyplot as plt
    net, m = anynet(S, dict(c, self=False))
    kw = {}
    if c.get('labels'):
        kw = dict(nodeLabelRule={'rule': 'nodename'}, layerLabelRule={'rule': 'name'})
    C = {x: (i % 3, i % 2) for i, x in enumerate(m.nls)}
    n = Sum([B2I(m.has(x, y)) for x in m.nls for y in m.nls if x != y])
    own = None
    if c.get('own'):
        f = plt.figure()
        own = f.add_subplot(111, projection='3d')
    fig = visuals.draw(net, layout='random', nodelayerCoords=C, ax=own, azim=-40, elev=30, **kw)
    try:
        S.check(own is None or fig is f, 'the axes given are used')
        S.check(len(fig.axes) == 1, 'one plot')
        ax = fig.axes[0]
        S.check(len(ax.patches) == len(m.nls) + len(m.layers[0]), 'one patch for each layer and node')
        S.check(eqt(len(ax.lines), n), 'one line for each edge and direction')
        S.check((ax.azim, ax.elev) == (-40, 30), 'the view asked for')
        if c.get('labels'):
            T = sorted(t.get_text() for t in ax.texts)
            S.check(T == sorted([str(x[0]) for x in m.nls] + [str(l) for l in m.layers[0]]), 'the labels of nodes and layers')
    finally:
        plt.close('all')


def three(S, c):
    """the three.js page has one element for each node and drawn edge"""
    net, m = anynet(S, dict(c, self=False))
    C = {x: (i, i * i) for i, x in enumerate(m.nls)}
    page = visuals.draw(net, layout='random', nodelayerCoords=C, backend='threejs', layerPadding=0.5)
    S.check(page.count('getNode(') - TEMPLATE.count('getNode(') == len(m.nls), 'one node in the page for each node-layer')
    n = Sum([B2I(m.has(x, y)) for x in m.nls for y in m.nls if x != y])
    S.check(eqt(page.count('getLink(') - TEMPLATE.count('getLink('), n), 'the edges of the network are in the page')
    S.check('@nodes' not in page and '@edges' not in page and '@layers' not in page, 'the placeholders are filled')


def near(a, b):
    return And(a - b <= 1e-6, b - a <= 1e-6)


def threepos(S, c):
    """in the three.js page nodes are at the scaled coordinates and links join their two ends"""
    net, m = anynet(S, dict(c, self=False))
    C = {x: (i, i * i) for i, x in enumerate(m.nls)}
    if c.get('free') is not None:
        x, y = S.real('cx'), S.real('cy')
        S.assume(And(x > 0, x < 3, y > 0, y < 9))
        S.assume(And([Or(x - i > 0.01, i - x > 0.01) for i in range(4)]))     # no two nodes at one place
        C[m.nls[c['free']]] = (x, y)
    page = visuals.draw(net, layout='random', nodelayerCoords=C, backend='threejs', layerPadding=0.5, layergap=c['gap'])

    def calls(name):
        return [[untxt(S, a) for a in t.split(',')] for t in re.findall(name + r'\(([^()]*)\);', page)]
    nodes, links = calls('getNode'), calls('getLink')
    S.check(len(nodes) == len(m.nls), 'one node in the page for each node-layer')
    order = list(net.iter_node_layers())
    pos = {x: nodes[order.index(x)][:3] for x in m.nls}
    # the scaling is affine, and the same one for x and y when both span the unit square
    lo, hi = m.nls[0], m.nls[-1]
    for d in (0, 1):
        span, real = pos[hi][d] - pos[lo][d], C[hi][d] - C[lo][d]
        S.check(span > 0, 'the drawing has an extent')
        for x in m.nls:
            S.check(near((pos[x][d] - pos[lo][d]) * real, (C[x][d] - C[lo][d]) * span), 'nodes are at their coordinates, scaled affinely')
    zs = sorted(set(pos[x][2] for x in m.nls))
    S.check(len(zs) == len(m.layers[0]), 'each layer has its own height')
    S.check(all((pos[x][2] == pos[y][2]) == (x[1] == y[1]) for x in m.nls for y in m.nls), 'nodes are on the height of their layer')
    for x in m.nls:
        for y in m.nls:
            if x != y:
                k = Sum([B2I(And([near(a, b) for a, b in zip(t[:6], pos[x] + pos[y])])) for t in links])
                S.check(eqt(k, B2I(m.has(x, y))), 'links join the positions of their two nodes')
    S.check(all(t[6] > 0 for t in links) and all(t[3] > 0 for t in nodes), 'nodes and links can be seen')


TEMPLATE = open(threejs.TEMPLATE_FILE).read()


def instances(add):
    one = dict(allowed='inter1')
    D = dict(default=True, dict=True, rule=None)
    B = dict(one, n=2, L=[2])
    for kind in TAB:
        for prop in TAB[kind]:
            g = dict(B, elem=kind, prop=prop, maxedges=3 if kind == 'edge' else 1)
            add('%s%s-dict' % (kind, prop), props, dict(g, mode=D), bounds='2 nodes x 2 layers, any part of the elements in the dictionary')
            add('%s%s-plain' % (kind, prop), props, dict(g, mode=dict(default=kind + prop == 'nodeSize', dict=False, rule=None)), bounds='2 nodes x 2 layers, defaults')
            if not numeric(prop) and kind != 'edge':
                add('%s%s-name' % (kind, prop), props, dict(g, mode=dict(default=True, dict=True, rule=['name'])), bounds='2 nodes x 2 layers')
                add('%s%s-namef' % (kind, prop), props, dict(g, mode=dict(default=False, dict=False, rule=['name', 'f'])), bounds='2 nodes x 2 layers')
    for d in (False, True):
        t = 'd' if d else 'u'
        g = dict(one, n=2, L=[2], directed=d, maxedges=4)
        add('edgeColor-dict-' + t, props, dict(g, elem='edge', prop='Color', mode=D), bounds='2 nodes x 2 layers, 4 edges, any part of the edges in the dictionary')
        add('edgeColor-weight-' + t, props, dict(g, elem='edge', prop='Color', mode=dict(default=True, dict=True, rule=['edgeweight'])), bounds='2 nodes x 2 layers, 4 edges')
        add('edgeWidth-weight-' + t, props, dict(g, elem='edge', prop='Width', num=True, mode=dict(default=True, dict=False, rule=['edgeweight', 'f', 'scaleby'])), bounds='2 nodes x 2 layers, 4 edges')
        for types in (('intra', 'inter'), ('intra',), ('inter',)):
            add('edge-type-%s-%s' % ('-'.join(types), t), props, dict(g, elem='edge', prop='Color', types=types, mode=dict(default=True, dict=False, rule=['edgetype'])), bounds='2 nodes x 2 layers, 4 edges')
            add('edgeAlpha-type-%s-%s' % ('-'.join(types), t), props, dict(g, elem='edge', prop='Alpha', types=types, mode=dict(default=True, dict=True, rule=['edgetype'])), bounds='2 nodes x 2 layers, 4 edges')
        add('nodeColor-degree-' + t, props, dict(g, elem='node', prop='Color', mode=dict(default=True, dict=False, rule=['degree', 'f'])) if not d else dict(g, elem='node', prop='Color', mode=D), bounds='2 nodes x 2 layers, 4 edges')
        add('nodeColor-layer-' + t, props, dict(g, elem='node', prop='Color', mode=dict(default=True, dict=True, rule=['layer', 'f']), maxedges=1), bounds='2 nodes x 2 layers')
        add('edgeColor-layer-' + t, props, dict(g, elem='edge', prop='Color', mode=dict(default=True, dict=False, rule=['layer', 'f'])), bounds='2 nodes x 2 layers, 4 edges')
        add('edgeColor-source-' + t, props, dict(g, elem='edge', prop='Color', mode=dict(default=True, dict=False, rule=['sourcedestweight', 'f'])), bounds='2 nodes x 2 layers, 4 edges')
        add('layerorder-' + t, layerorder, dict(one, n=1, L=[3], directed=d, how='dict' if d else 'rule'), bounds='3 layers in any order')
    g = dict(one, n=2, L=[2], maxedges=4)
    add('nodeSize-degree', props, dict(g, elem='node', prop='Size', num=True, mode=dict(default=True, dict=True, rule=['degree', 'f', 'scaleby']), maxedges=2), bounds='2 nodes x 2 layers')
    add('nodeSize-scaled', props, dict(g, elem='node', prop='Size', mode=dict(default=True, dict=True, rule=['scaled']), maxedges=0), bounds='2 nodes x 2 layers')
    add('nodeSize-scaled4', props, dict(g, n=4, L=[1], elem='node', prop='Size', mode=dict(default=True, dict=True, rule=['scaled']), maxedges=0), bounds='4 nodes x 1 layer')
    add('nodeSize-propscale', props, dict(g, n=4, L=[1], elem='node', prop='Size', num=True, mode=dict(default=True, dict=False, rule=['degree', 'scaleby', 'propscale']), maxedges=3), bounds='4 nodes x 1 layer')
    add('nodeLabel-nodename', props, dict(g, elem='node', prop='Label', mode=dict(default=True, dict=True, rule=['nodename', 'f']), maxedges=0), bounds='2 nodes x 2 layers')
    for k in TAB:
        add('order-' + k, order, dict(g, elem=k), bounds='2 nodes x 2 layers, 4 edges, sequences of up to 3 values')
    add('colormap', colormap, g, bounds='2 nodes x 2 layers, 4 edges')
    add('unknown', unknown, dict(g, maxedges=1), bounds='2 nodes x 2 layers')
    add('visible', visible, dict(layers=2, nodes=3), bounds='2 layers, 3 nodes, any sizes and transparencies')
    for n in (1, 2, 3):
        add('normal-%d' % n, normal, dict(n=n), tier='quick' if n < 3 else 'thorough', bounds='%d nodes with any coordinates, sizes and padding' % n)
    for al in (True, False):
        if al is True:
            add('redraw', redraw, dict(), bounds='two drawings of 1-3 nodes x 2 layers, any coordinates given or not')
        add('coords-%s' % al, coords, dict(one, n=2, L=[2], maxedges=1, aligned=al), bounds='2 nodes x 2 layers, any part of the coordinates given')
        add('coords-nf-%s' % al, coords, dict(one, n=2, L=[2], maxedges=1, aligned=al, full=False, always=2), bounds='2 nodes x 2 layers non-fully interconnected')
    add('lines-1', lines, dict(layers=4, gap=1), bounds='4 layers, any coordinates')
    add('lines-2', lines, dict(layers=4, gap=2), bounds='4 layers, any coordinates')
    for t in ('al', 'lab', 'own'):
        add('figure-' + t, figure, dict(g, maxedges=3 if t == 'al' else 1, labels=t == 'lab', own=t == 'own', again=False), bounds='2 nodes x 2 layers, drawn by matplotlib')
    add('figure-d', figure, dict(g, maxedges=2, directed=True, again=False), bounds='2 nodes x 2 layers, drawn by matplotlib')
    add('plotted-1', plotted, dict(layers=1, nodes=1), bounds='1 layer, 1 node, any coordinates, sizes, labels and gap')
    add('plotted-2', plotted, dict(layers=2, nodes=1), bounds='2 layers, 1 node, any coordinates, sizes, labels and gap')
    add('three', three, g, bounds='2 nodes x 2 layers, 4 edges')
    for f in (None, 1, 2):
        add('threepos-%s' % f, threepos, dict(g, free=f, gap=2 if f else 1, maxedges=3), bounds='2 nodes x 2 layers, 3 edges, one node-layer at arbitrary coordinates')
    add('threepos-d', threepos, dict(g, free=None, gap=1, maxedges=3, directed=True), bounds='2 nodes x 2 layers, 3 directed edges')
    add('three-d', three, dict(g, directed=True), bounds='2 nodes x 2 layers, 4 directed edges')
    mp = dict(kind='multiplex', couplings=['categorical'], n=2, L=[2])
    add('plex', props, dict(mp, elem='edge', prop='Color', types=('intra', 'inter'), mode=dict(default=True, dict=True, rule=['edgetype'])), bounds='categorical multiplex, 2 nodes x 2 layers')
    add('nf', props, dict(one, n=2, L=[2], full=False, always=2, maxedges=3, elem='edge', prop='Color', mode=D), bounds='non-fully interconnected, 2 nodes x 2 layers, 3 edges')
