"""C02 degree, strength and neighbour queries agree with the edges after any history."""
from .common import *
from . import timeline

ASSUMPTIONS = ['weights are arbitrary numbers (0 is the absent edge, so deletions and overwrites are included)']


def dims_match(dims, node):
    if dims is None:
        return True
    return And([True if d is None else eqt(d, x) for d, x in zip(dims, node)])


def observe(S, net, ref, p, dims, c, tag):
    """All node queries at node-layer p, restricted to dims."""
    a = c.get('aspects', 0)
    if dims is None:
        node = net[p if a else p[0]]
    else:
        item = []
        for x, d in zip(p, dims):
            item += [x, COLON if d is None else d]
        node = net[tuple(item)]
    unp = (lambda x: (x,)) if a == 0 else (lambda x: x)

    def restr(pairs):
        return [(v, And(cc, dims_match(dims, v))) for v, cc in pairs]
    out, inn, tot = restr(ref.out_neigh(p)), restr(ref.in_neigh(p)), restr(ref.tot_neigh(p))
    w_out = lambda v: ref.get(p, v)
    w_in = lambda v: ref.get(v, p)
    if not c['directed']:
        inn = tot = out
    what = c['what']
    if 'deg' in what:
        S.check(eqt(node.deg_out(), count_distinct(out)), 'out-degree' + tag)
        S.check(eqt(node.deg_in(), count_distinct(inn)), 'in-degree' + tag)
        S.check(eqt(node.deg_total(), count_distinct(tot)), 'total degree' + tag)
        S.check(eqt(node.deg(), count_distinct(tot)), 'degree' + tag)
        S.check(eqt(len(node), count_distinct(tot)), 'len of node' + tag)
    if 'str' in what:
        so, si = ref.wsum(out, w_out), ref.wsum(inn, w_in)
        S.check(eqt(node.str_out(), so), 'out-strength' + tag)
        S.check(eqt(node.str_in(), si), 'in-strength' + tag)
        st = so + si if c['directed'] else so
        S.check(eqt(node.str_total(), st), 'total strength' + tag)
        S.check(eqt(node.str(), st), 'strength' + tag)
    if 'iter' in what:
        S.same_set([unp(x) for x in node.iter_out()], out, 'out-neighbours' + tag)
        S.same_set([unp(x) for x in node.iter_in()], inn, 'in-neighbours' + tag)
        S.same_set([unp(x) for x in node.iter_total()], tot, 'total neighbours' + tag)
        S.same_set([unp(x) for x in node], tot, 'neighbours' + tag)


def history(S, c):
    a = c.get('aspects', 0)
    net = pymnet.MultilayerNetwork(aspects=a, directed=c['directed'], fullyInterconnected=c.get('full', True))
    ref = EdgeHist(0, c['directed'])
    for k in range(c['k']):
        n1, n2 = nl(S, a, 'a%d' % k), nl(S, a, 'b%d' % k)
        v = S.real('w%d' % k)
        net[link(n1, n2)] = v
        ref.set(n1, n2, v)
    if c.get('probe') == 'endpoint':
        p = ref.ops[0][0]
    else:
        p = nl(S, a, 'p')
    if c.get('sliced'):
        for mask in c['sliced']:
            dims = tuple(S.label('dim%d' % i) if m else None for i, m in enumerate(mask))
            observe(S, net, ref, p, dims, c, ' (restricted to given nodes/layers)')
    else:
        observe(S, net, ref, p, None, c, '')


def pool(S, c):
    """Histories over a fixed set of n distinct labels: every write chooses any ordered pair."""
    n = c['n']
    net = pymnet.MultilayerNetwork(aspects=0, directed=c['directed'])
    ref = EdgeHist(0, c['directed'])
    ls = list(range(n))
    pairs = [(i, j) for i in ls for j in ls]
    for i, j in ([] if not c.get('pre') else [p for p in pairs if c['directed'] or p[0] <= p[1]]):
        if (i, j) in c['pre']:
            w = S.real('pre%d_%d' % (i, j))
            net[i, j] = w
            ref.set((i,), (j,), w)
    for k in range(c['k']):
        i, j = S.choice(pairs, 'pair%d' % k)
        w = S.real('w%d' % k)
        net[i, j] = w
        ref.set((i,), (j,), w)
    for i in ls:
        observe(S, net, ref, (i,), None, c, '')


def state(S, c):
    """A larger network, some of its edges written again: all queries at some node-layers, also
    restricted to given nodes and layers."""
    net, m = anynet(S, c)
    stored = sorted(m.w)
    for i in range(c.get('again', 0)):
        x, y = stored[(5 * i + 2) % len(stored)]
        w = S.real('again%d' % i)
        net[link(y, x) if i % 2 and not m.directed else link(x, y)] = w
        m.put(x, y, w)
    ends = sorted(set(x for e in stored for x in e))
    rest = [x for x in m.nls if x not in ends]
    unp = (lambda x: (x,)) if m.a == 0 else (lambda x: x)
    for i, x in enumerate(ends[:c.get('probes', 3)] + rest[:1]):
        near = [y for e in stored for y in e if x in e and y != x] or ends
        masks = [None]
        if m.a:
            for k, mask in enumerate(itertools.product([0, 1], repeat=m.a + 1)):
                if any(mask) and not all(mask):
                    y = (near + [x])[(i + k) % (len(near) + 1)]
                    masks.append(tuple(v if b else None for v, b in zip(y, mask)))
        for dims in masks:
            if dims is None:
                node = net[x if m.a else x[0]]
            else:
                item = []
                for v, d in zip(x, dims):
                    item += [v, COLON if d is None else d]
                node = [lambda: net[tuple(item)], lambda: net[x][tuple(item[1::2])]][(i + masks.index(dims)) % 2]()
            tag = '' if dims is None else ' (restricted to given nodes/layers)'
            V = [y for y in m.nls if dims is None or all(d is None or d == v for v, d in zip(y, dims))]
            out = [(y, m.has(x, y)) for y in V]
            inn = [(y, m.has(y, x)) for y in V]
            tot = [(y, Or(m.has(x, y), m.has(y, x))) for y in V]
            cnt = lambda ps: Sum([B2I(p) for _, p in ps])
            S.check(And(eqt(node.deg_out(), cnt(out)), eqt(node.deg_in(), cnt(inn)), eqt(node.deg_total(), cnt(tot)), eqt(node.deg(), cnt(tot)), eqt(len(node), cnt(tot))), 'degrees' + tag)
            if dims is not None:
                n = net[x]
                S.check(And(eqt(n.deg_out(*dims), cnt(out)), eqt(n.deg_in(*dims), cnt(inn)), eqt(n.deg_total(*dims), cnt(tot)), eqt(n.deg(*dims), cnt(tot))), 'degrees within given nodes/layers')
                S.check(eqt(n.str_out(*dims), Sum([Ite(p, m.get(x, y), 0) for y, p in out])), 'strength within given nodes/layers')
            so, si = Sum([Ite(p, m.get(x, y), 0) for y, p in out]), Sum([Ite(p, m.get(y, x), 0) for y, p in inn])
            st = so + si if m.directed else so
            S.check(And(eqt(node.str_out(), so), eqt(node.str_in(), si), eqt(node.str_total(), st), eqt(node.str(), st)), 'strengths' + tag)
            S.same_set([unp(y) for y in node.iter_out()], out, 'out-neighbours' + tag)
            S.same_set([unp(y) for y in node.iter_in()], inn, 'in-neighbours' + tag)
            S.same_set([unp(y) for y in node.iter_total()], tot, 'total neighbours' + tag)
            S.same_set([unp(y) for y in node], tot, 'neighbours' + tag)


def nodewrite(S, c):
    """Writing through a node object is seen by every other query."""
    a = c.get('aspects', 0)
    net = pymnet.MultilayerNetwork(aspects=a, directed=c['directed'])
    ref = EdgeHist(0, c['directed'])
    p, q = nl(S, a, 'p'), nl(S, a, 'q')
    i = (lambda x: x) if a else (lambda x: x[0])
    for k in range(2):
        w = S.real('w%d' % k)
        net[i(p)][i(q)] = w
        ref.set(p, q, w)
    observe(S, net, ref, q, None, c, ' after writing through a node')


def instances(add):
    timeline.instances(add, timeline.look_nodes)
    timeline.instances(add, timeline.look_nodes, steps=3, tier='thorough')
    for d in (False, True):
        s = 'dir' if d else 'undir'
        add('deg-str-k3-' + s, history, dict(aspects=0, directed=d, k=3, what=('deg', 'str'), probe='endpoint'),
            bounds='any 3 writes over any labels')
        add('all-k2-' + s, history, dict(aspects=0, directed=d, k=2, what=('deg', 'str', 'iter')), bounds='any 2 writes, any probe')
        add('pool3-k3-' + s, pool, dict(n=2, directed=d, k=3, what=('deg', 'str', 'iter'), pre=()),
            bounds='2 nodes, any 3 writes')
        add('pre-' + s, pool, dict(n=3, directed=d, k=1, what=('deg', 'iter'),
                                   pre=((0, 1), (1, 0), (0, 2), (1, 1), (2, 0))), bounds='3 nodes, arbitrary state on 5 pairs, then any write')
        add('a1-k1-' + s, history, dict(aspects=1, directed=d, k=1, what=('deg', 'str', 'iter')), bounds='1 write, 1 aspect, any probe')
        add('a1-k2-' + s, history, dict(aspects=1, directed=d, k=2, what=('deg', 'str'), probe='endpoint'), bounds='2 writes, 1 aspect')
        add('a1-slices-k1-' + s, history, dict(aspects=1, directed=d, k=1, what=('deg', 'str', 'iter'), probe='endpoint',
                                              sliced=[(0, 0), (0, 1), (1, 0)]), bounds='1 write, 1 aspect, sliced node')
        add('a1-slice-k2-' + s, history, dict(aspects=1, directed=d, k=2, what=('deg', 'iter'), probe='endpoint',
                                              sliced=[(0, 1)]), bounds='2 writes, 1 aspect, node seen through one layer')
        add('a2-k1-' + s, history, dict(aspects=2, directed=d, k=1, what=('deg', 'str', 'iter'), probe='endpoint'), bounds='1 write, 2 aspects')
        add('a2-slice-k1-' + s, history, dict(aspects=2, directed=d, k=1, what=('deg', 'iter'), probe='endpoint',
                                              sliced=[(0, 1, 0)]), bounds='1 write, 2 aspects')
        add('a1-nonfull-k2-' + s, history, dict(aspects=1, directed=d, k=2, what=('deg', 'str'), probe='endpoint', full=False),
            bounds='2 writes, not fully interconnected')
        for t, b in shapes(d, k=5) + shapes(d, k=5, small=True):
            add(t, state, dict(b, again=2), bounds='larger networks, arbitrary weights on 5 pairs, 2 of them written again, every restriction')
        add('nodewrite-a0-' + s, nodewrite, dict(aspects=0, directed=d, what=('deg', 'str', 'iter')))
        add('nodewrite-a1-' + s, nodewrite, dict(aspects=1, directed=d, what=('deg', 'str', 'iter')))
        add('deg-k4-' + s, history, dict(aspects=0, directed=d, k=4, what=('deg',), probe='endpoint'), tier='thorough',
            bounds='any 4 writes')
        add('pool3-k4-' + s, pool, dict(n=3, directed=d, k=3, what=('deg', 'str', 'iter'), pre=()), tier='thorough')
