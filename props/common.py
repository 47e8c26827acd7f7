"""Shared reference models, written independently of pymnet's code."""
import itertools
import pymnet
from pymnet import transforms
from pymnet import net as pnet
from symx.core import And, Or, Not, Implies, Iff, Ite, Sum, B2I, eqt, In, Distinct, count_distinct, is_sym, le

COLON = slice(None, None, None)


def link(n1, n2):
    """(i,s,..),(j,r,..) -> (i,j,s,r,..)"""
    out = []
    for a, b in zip(n1, n2):
        out += [a, b]
    return tuple(out)


def nl(S, aspects, hint, domain=None):
    """A symbolic node-layer tuple (node, layer_1, ..)."""
    return tuple(S.label('%s_%d' % (hint, d)) for d in range(aspects + 1))


class EdgeHist(object):
    """Reference edge store: the history of writes; reads are last-write-wins terms."""
    def __init__(self, noEdge, directed):
        self.noEdge, self.directed, self.ops = noEdge, directed, []

    def set(self, n1, n2, v):
        self.ops.append((n1, n2, v))

    def get(self, n1, n2):
        r = self.noEdge
        for a, b, v in self.ops:
            c = And(eqt(a, n1), eqt(b, n2))
            if not self.directed:
                c = Or(c, And(eqt(a, n2), eqt(b, n1)))
            r = Ite(c, v, r)
        return r

    def has(self, n1, n2):
        return Not(eqt(self.get(n1, n2), self.noEdge))

    def endpoints(self):
        """Every node-layer tuple named in the history (possibly equal ones)."""
        out = []
        for a, b, v in self.ops:
            out += [a, b]
        return out

    def out_neigh(self, n):
        return [(e, self.has(n, e)) for e in self.endpoints()]

    def in_neigh(self, n):
        return [(e, self.has(e, n)) for e in self.endpoints()]

    def tot_neigh(self, n):
        return [(e, Or(self.has(n, e), self.has(e, n))) for e in self.endpoints()]

    def wsum(self, pairs, w):
        """sum of w(e) over distinct present e"""
        tot = 0
        for i, (v, c) in enumerate(pairs):
            first = And([Not(And(d, eqt(v, x))) for (x, d) in pairs[:i]])
            tot = tot + Ite(And(c, first), w(v), 0)
        return tot


def key(l):
    """layer tuple -> layer name as used by the one-aspect interface"""
    return l[0] if len(l) == 1 else l


class Model(object):
    """Reference description of a network: nodes, layers, node-layers and edge weights."""
    def __init__(self, aspects, directed, full, kind, noEdge=0):
        self.a, self.directed, self.full, self.kind, self.noEdge = aspects, directed, full, kind, noEdge
        self.nodes, self.layers, self.nls = [], [[] for _ in range(aspects)], []
        self.w = {}        # (x, y) -> weight of stored edges
        self.rules = None  # coupling rules of multiplex networks

    def combos(self):
        return list(itertools.product(*self.layers))

    def put(self, x, y, w):
        self.w[x, y] = w
        if not self.directed:
            self.w[y, x] = w

    def get(self, x, y):
        if (x, y) in self.w:
            return self.w[x, y]
        if self.rules is not None and x[0] == y[0] and x in self.nls and y in self.nls:
            d = [i for i in range(self.a) if x[i + 1] != y[i + 1]]
            if len(d) == 1:
                kind, cw = self.rules[d[0]]
                if kind == 'categorical' or kind == 'ordinal' and abs(x[d[0] + 1] - y[d[0] + 1]) == 1:
                    return cw
        return self.noEdge

    def has(self, x, y):
        return Not(eqt(self.get(x, y), self.noEdge))

    def val(self, x, y):
        """the weight of the edge, 0 when there is none"""
        w = self.get(x, y)
        return w if type(self.noEdge) is int and self.noEdge == 0 else Ite(eqt(w, self.noEdge), 0, w)

    def pairs(self, selfedges=True):
        """all (unordered when undirected) pairs of node-layers"""
        P = self.nls
        for i, x in enumerate(P):
            for j, y in enumerate(P):
                if (i == j and selfedges) or i < j or (self.directed and i != j):
                    yield x, y


# names of nodes and layers: of several types (some false), and strings
NODE_NAMES = {'mixed': ['b', 0, frozenset(), '', -2, 'a', 1.5], 'strings': ['b', '', 'a', 'B', '10', '9']}
LAYER_NAMES = {'mixed': ['y', 0, '', 7, 'b'], 'strings': ['y', '', 'b', '10', '9']}


def anynet(S, c):
    """An arbitrary network within c: every allowed pair carries an arbitrary weight
    (0 = no edge).  Returns (net, Model)."""
    if getattr(S, 'before', None) is not None:
        return visited(S, c)
    kind, d, full = c.get('kind', 'multilayer'), c.get('directed', False), c.get('full', True)
    L = c.get('L', [])
    a = len(L)
    m = Model(a, d, full, kind, c.get('noEdge', 0))
    base = 0 if c.get('overlap') else 10
    m.nodes = list(range(c['n']))
    m.layers = [list(range(base + 10 * k, base + 10 * k + n)) for k, n in enumerate(L)]
    if 'named' in c:
        m.nodes, layers = list(NODE_NAMES[c['named']][:c['n']]), LAYER_NAMES[c['named']]
        assert len(m.nodes) == c['n']
        m.layers = [l if c.get('couplings', ['none'] * a)[k] == 'ordinal' else [x for x in layers[k:] + layers[:k]][:len(l)] for k, l in enumerate(m.layers)]
    if kind == 'multiplex':
        cp = c.get('couplings', ['none'] * a)
        m.rules, spec = [], []
        for k in cp:
            if k == 'none':
                m.rules.append(('none', 0))
                spec.append('none')
            else:
                cw = S.real('cw')
                S.assume(Not(eqt(cw, m.noEdge)))
                if c.get('positive'):
                    S.assume(cw > 0)
                m.rules.append((k, cw))
                spec.append((k, cw))
        net = pymnet.MultiplexNetwork(couplings=spec, directed=d, noEdge=m.noEdge, fullyInterconnected=full)
    else:
        net = pymnet.MultilayerNetwork(aspects=a, directed=d, noEdge=m.noEdge, fullyInterconnected=full)
    for k in range(a):
        for l in m.layers[k]:
            net.add_layer(l, k + 1)
    if full or a == 0:
        for v in m.nodes:
            net.add_node(v)
        m.nls = [(v,) + l for v in m.nodes for l in m.combos()]
    else:
        always = c.get('always', 0)
        free = None
        if 'free' in c:       # these memberships are free, the others fixed (most are in)
            free, seed = c['free']
            r = Lot(seed)
            every = [(v, l) for v in m.nodes for l in m.combos()]
            fixed = {x: r.random() < .7 for x in every}
            free = set(r.sample(every, free))
        loose = [v for v in range(c['n'] - 1, c['n'] - 1 + c.get('loose', 0))]   # nodes added without a layer
        if loose:
            m.nodes = list(range(max([c['n']] + [v + 1 for v in loose])))
        for v in loose:
            net.add_node(v)
        for i, v in enumerate(m.nodes):
            ls = m.combos() if i < c['n'] else []
            for j, l in enumerate(ls):
                if free is not None and (v, l) not in free:
                    here = fixed[v, l]
                else:
                    here = (i * len(ls) + j) < always or S.choice([True, False], 'in%d_%d' % (i, j))
                if here:
                    net.add_node(v, key(l))
                    m.nls.append((v,) + l)
        m.nodes = [v for v in m.nodes if v in loose or any(x[0] == v for x in m.nls)]
    allowed = c.get('allowed', 'all')
    count = 0
    picked = None
    if 'some' in c:           # a fixed selection of the pairs, spread over all of them
        P = [(x, y) for x, y in m.pairs(selfedges=c.get('self', True) and kind != 'multiplex') if kind != 'multiplex' or x[1:] == y[1:]]
        picked = spread(P, *c['some'])
    for x, y in m.pairs(selfedges=c.get('self', True) and kind != 'multiplex'):
        if picked is not None and (x, y) not in picked:
            continue
        intra = x[1:] == y[1:]
        if kind == 'multiplex' and not intra:
            continue
        if allowed == 'intra' and not intra:
            continue
        if allowed == 'inter1' and not intra and (x[0] != y[0]):
            continue
        if callable(allowed) and not allowed(x, y):
            continue
        if count >= c.get('maxedges', 10 ** 9):
            break
        w = anyweight(S, c, 'w%s' % count)
        count += 1
        if not d and c.get('flip') and count % 2:
            net[link(y, x)] = w
        else:
            net[link(x, y)] = w
        m.put(x, y, w)
    if getattr(S, 'seen', None) is not None:
        S.seen.append((net, copy_model(m)))
    return net, m


def anyweight(S, c, name):
    w = S.int(name, min(c['values']), max(c['values'])) if c.get('ints') else S.real(name)
    if c.get('present'):
        S.assume(Not(eqt(w, c.get('noEdge', 0))))
    if c.get('positive'):
        S.assume(Or(w > 0, eqt(w, c['noEdge'])) if c.get('noEdge') else w >= 0)
    if c.get('values'):
        S.assume(Or([eqt(w, v) for v in c['values']]))
    return w


def visited(S, c):
    """The network of an earlier call, after some of its edges got other weights and a node was added."""
    net, m = S.before.pop(0)
    m = copy_model(m)
    E = sorted(e for e in m.w if m.directed or e <= (e[1], e[0]))
    for i, (x, y) in enumerate([E[0], E[-1]] if len(E) > 1 else E):
        w = anyweight(S, c, 'u%d' % i)
        net[link(x, y)] = w
        m.put(x, y, w)
    if c.get('grow') == 'layer':
        l = max(m.layers[-1]) + 1
        net.add_layer(l, m.a)
        m.layers[-1].append(l)
        if m.full:
            m.nls = [(v,) + l for v in m.nodes for l in m.combos()]
        else:
            v = m.nodes[0] if m.nodes else 0
            net.add_node(v, key(m.combos()[-1]))
            m.nls.append((v,) + m.combos()[-1])
            if not m.nodes:
                m.nodes.append(v)
    elif c.get('grow'):
        v = len(m.nodes) and max(m.nodes) + 1
        if m.full or m.a == 0:
            net.add_node(v)
            m.nls += [(v,) + l for l in m.combos()]
        else:
            net.add_node(v, key(m.combos()[0]))
            m.nls.append((v,) + m.combos()[0])
        m.nodes.append(v)
    return net, m


class Again(object):
    """A check made twice: for a network, and for the same network (or another) after it changed."""
    def __init__(self, fn, other=False):
        self.fn, self.other, self.__name__ = fn, other, fn.__name__

    def __call__(self, S, c):
        S.before, S.seen, log = None, [], {}
        choice, perm = S.choice, S.perm

        def first(seq, hint='c'):
            seq = list(seq)
            log.setdefault(hint, []).append(choice(list(range(len(seq))), hint))
            return seq[log[hint][-1]]

        def second(seq, hint='c'):        # what was chosen for the first network is chosen again
            seq = list(seq)
            i = log[hint].pop(0) if log.get(hint) else len(seq)
            return seq[i] if i < len(seq) else choice(seq, hint)
        S.choice = first
        S.perm = lambda seq, hint='p': order(list(seq), hint, first)
        self.fn(S, c)
        if not self.other:
            S.before = S.seen
        S.seen = None
        S.draws = S.shuffles = 0
        from symx import env
        env.POLICY.configure(c)
        S.choice = second
        S.perm = lambda seq, hint='p': order(list(seq), hint, second)
        self.fn(S, c)
        S.choice, S.perm, S.before = choice, perm, None


def order(rest, hint, choice):
    out = []
    while rest:
        out.append(choice(rest, hint))
        rest.remove(out[-1])
    return out


def inlayers(*pairs):
    """intra-layer edges between these nodes in the first, second, .. layer"""
    P = [set(q) | set((j, i) for i, j in q) for q in pairs]
    return lambda x, y: x[1:] == y[1:] and (x[0], y[0]) in P[x[1] % 10]


class Lot(object):
    """a fixed sequence of draws (the random module belongs to the code under test)"""
    def __init__(self, seed):
        self.x = seed * 2654435761 % 2 ** 32 or 1

    def random(self):
        self.x = (self.x * 1664525 + 1013904223) % 2 ** 32
        return (self.x >> 8) / float(2 ** 24)

    def shuffle(self, L):
        for i in range(len(L) - 1, 0, -1):
            j = int(self.random() * (i + 1))
            L[i], L[j] = L[j], L[i]

    def sample(self, L, k):
        L = list(L)
        self.shuffle(L)
        return L[:k]


def shapes(directed=False, kinds='ml nf mx mxnf', k=5, aspects=(1, 2, 3), free=1, small=False):
    """(name, network description): larger networks where a few spread pairs carry arbitrary weights"""
    out = []
    kinds = kinds.split()
    s = 'd' if directed else 'u'
    for i, (n, L) in enumerate([(5, [3]), (3, [4]), (3, [2, 3]), (2, [2, 2, 2])] if not small else [(4, [2]), (3, [3]), (3, [2, 2]), (2, [1, 2, 2])]):
        if len(L) not in aspects:
            continue
        name = '%dx%s' % (n, 'x'.join(map(str, L)))
        base = dict(n=n, L=L, directed=directed, some=(k, 11 + i + 7 * directed))
        cp = [['categorical'], ['ordinal'], ['ordinal', 'categorical'], ['categorical', 'none', 'ordinal']][i]
        if 'ml' in kinds:
            out.append(('big-%s-%s' % (name, s), base))
        if 'nf' in kinds:
            out.append(('big-%s-nf-%s' % (name, s), dict(base, full=False, free=(free, 3 + i), some=(k - free, 31 + i))))
        if 'mx' in kinds:
            out.append(('big-%s-mx-%s' % (name, s), dict(base, kind='multiplex', couplings=cp, some=(k, 51 + i))))
        if 'mxnf' in kinds:
            out.append(('big-%s-mxnf-%s' % (name, s), dict(base, kind='multiplex', couplings=cp, full=False, free=(free, 5 + i), some=(k - free, 71 + i))))
    return out


def spread(P, k, seed):
    """k of the pairs P: a chain of pairs that share ends, then any"""
    r = Lot(seed)
    P = list(P)
    r.shuffle(P)
    out = P[:1]
    while len(out) < min(k, len(P)):
        ends = set(v for e in out for v in e)
        rest = [e for e in P if e not in out]
        near = [e for e in rest if e[0] in ends or e[1] in ends]
        out.append((near if near and r.random() < .7 else rest)[0])
    return set(out)


def only(*pairs):
    """edges between these nodes only (in either order)"""
    P = set(pairs) | set((j, i) for i, j in pairs)
    return lambda x, y: (x[0], y[0]) in P


def same_as(S, net, m, tag, edges=True):
    """Obligations: net is exactly the network described by m (weights, nodes, layers, membership)."""
    S.check(net.aspects == m.a, 'number of aspects' + tag)
    S.check(bool(net.directed) == m.directed, 'directedness' + tag)
    S.same_set(list(net), [(v, True) for v in m.nodes], 'nodes' + tag)
    for k in range(m.a):
        S.same_set(list(net.get_layers(k + 1)), [(l, True) for l in m.layers[k]], 'layers' + tag)
    if m.a > 0:
        S.check(net.fullyInterconnected == m.full, 'interconnectedness' + tag)
        S.same_set([tuple(x) for x in net.iter_node_layers()], [(x, True) for x in m.nls], 'node-layers' + tag)
    if edges:
        for x in m.nls:
            for y in m.nls:
                S.check(eqt(net[link(x, y)], m.get(x, y)), 'edge weights' + tag)
        n = Sum([B2I(m.has(x, y)) for x, y in m.pairs()])
        S.check(eqt(len(net.edges), n), 'number of edges' + tag)
        S.check(eqt(len(list(net.edges)), n), 'number of iterated edges' + tag)


def copy_model(m):
    r = Model(m.a, m.directed, m.full, m.kind, m.noEdge)
    r.nodes, r.layers, r.nls = list(m.nodes), [list(l) for l in m.layers], list(m.nls)
    r.w, r.rules = dict(m.w), m.rules
    return r


# ---- text: symbolic numbers appear in strings as tokens

def txt(S, x):
    """How the value x is written in an input file."""
    if is_sym(x):
        return str(x)
    return repr(float(x)) if not isinstance(x, (int, str)) else str(x)


def untxt(S, s):
    """The number written as s in an output file."""
    t = S.untoken(str(s))
    if t is not None:
        return t
    from fractions import Fraction
    return Fraction(str(s))


def leftover(path):
    """the file exists already, with something else in it"""
    with open(path, 'w') as f:
        f.write('7\t8\t9\n' * 200)


class scratch(object):
    """A scratch directory, removed afterwards."""
    def __enter__(self):
        import tempfile
        self.d = tempfile.mkdtemp(prefix='symx')
        return self.d

    def __exit__(self, *a):
        import shutil
        shutil.rmtree(self.d)
        return False
