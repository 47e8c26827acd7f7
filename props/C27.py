"""C27 isomorphisms, automorphisms and complete invariants."""
from .common import *
import contextlib
from pymnet import isomorphisms as iso
ASSUMPTIONS = ['undirected networks without self-edges; every elementary layer of a fixed aspect contains a node-layer',
               'PyBliss is not installed: the bliss backend runs on a stand-in that decides coloured graph isomorphism by partition refinement']


def moved(v, s):
    """another name"""
    return v if not s else v + s if not isinstance(v, str) else v + 'z'


def make(S, c, k):
    """k-th network: aspects that may be permuted get names of their own when c['rename']."""
    net, m = anynet(S, dict(c, **c.get('second', {})) if k else c)
    sh = [0] * (m.a + 1)
    if k and c.get('rename'):
        for d in range(m.a + 1):
            if d in c['allowed_aspects'] and len(set(x[d] for x in m.nls)):
                sh[d] = 100
    if not any(sh):
        return net, m
    t = copy_model(m)
    r = lambda x: tuple(moved(v, s) for v, s in zip(x, sh))
    t.nodes = [moved(v, sh[0]) for v in m.nodes]
    t.layers = [[moved(l, sh[d + 1]) for l in L] for d, L in enumerate(m.layers)]
    t.nls = [r(x) for x in m.nls]
    t.w = {(r(x), r(y)): w for (x, y), w in m.w.items()}
    if m.kind == 'multiplex':
        return build(t, net.couplings), t
    return build(t, None), t


def build(t, couplings):
    if couplings is not None:
        net = pymnet.MultiplexNetwork(couplings=couplings, noEdge=t.noEdge, fullyInterconnected=t.full)
    else:
        net = pymnet.MultilayerNetwork(aspects=t.a, noEdge=t.noEdge, fullyInterconnected=t.full)
    for d in range(t.a):
        for l in t.layers[d]:
            net.add_layer(l, d + 1)
    for x in t.nls:
        net.add_node(x[0]) if t.full or not t.a else net.add_node(x[0], key(x[1:]))
    for (x, y), w in t.w.items():
        net[link(x, y)] = w
    return net


def maps(m1, m2, allowed):
    """all tuples of bijections (one per aspect, identity on the fixed ones)"""
    out = []
    for d in range(m1.a + 1):
        A, B = ([m1.nodes] + m1.layers)[d], ([m2.nodes] + m2.layers)[d]
        if d not in allowed:
            if sorted(A) != sorted(B):
                return
            out.append([{x: x for x in A}])
        else:
            if len(A) != len(B):
                return
            out.append([dict(zip(A, p)) for p in itertools.permutations(B)])
    for f in itertools.product(*out):
        yield f


def image(f, x):
    return tuple(g[v] for g, v in zip(f, x))


def is_iso(f, m1, m2):
    """term: f maps m1 to m2 (node-layers and edges, whatever the weights)"""
    if set(image(f, x) for x in m1.nls) != set(m2.nls):
        return False
    return And([Iff(m1.has(x, y), m2.has(image(f, x), image(f, y))) for x, y in m1.pairs(selfedges=False)] or [True])


def exists(m1, m2, allowed):
    return Or([is_iso(f, m1, m2) for f in maps(m1, m2, allowed)] or [False])


def spec(S, c):
    al = c['allowed_aspects']
    return 'all' if c.get('all') else S.choice([list(al), tuple(al)], 'form') if c.get('forms') else list(al)


def total(f, m1, m2, fixed):
    """the mapping with omitted elements mapped to themselves"""
    return [{x: g.get(x, x) for x in E} for g, E in zip(f, [m1.nodes] + m1.layers)]


def compare(S, c):
    n1, m1 = make(S, c, 0)
    n2, m2 = make(S, c, 1)
    al = c['allowed_aspects']
    want = bool(exists(m1, m2, al))
    for b in c.get('backends', ['nx', 'bliss']):
        got = iso.is_isomorphic(n1, n2, allowed_aspects=spec(S, c), backend=b)
        S.check(got is want or got == want, 'is_isomorphic iff a permutation of the allowed aspects maps one network to the other')
        for fixed in (False, True):
            f = iso.get_isomorphism(n1, n2, allowed_aspects=spec(S, c), include_fixed=fixed, backend=b)
            S.check((f is not None) == want, 'get_isomorphism returns a mapping iff the networks are isomorphic')
            if f is None:
                continue
            S.check(len(f) == m1.a + 1, 'one permutation for each aspect')
            ok = True
            for d, E in enumerate([m1.nodes] + m1.layers):
                used = set(x[d] for x in m1.nls)
                if fixed:
                    S.check(set(f[d]) == set(E), 'with include_fixed every element is listed')
                else:
                    S.check(set(f[d]) <= set(E) and all(f[d][x] != x for x in f[d]), 'without include_fixed only moved elements are listed')
            S.check(is_iso(total(f, m1, m2, fixed), m1, m2) if well(f, m1, m2) else False, 'the mapping maps the first network to the second')
    i1 = iso.get_complete_invariant(n1, allowed_aspects=spec(S, c))
    i2 = iso.get_complete_invariant(n2, allowed_aspects=spec(S, c))
    S.check((i1 == i2) == want, 'complete invariants are equal iff the networks are isomorphic')
    S.check((str(i1) == str(i2)) == want, 'complete invariants are equal as text iff the networks are isomorphic')
    same_as(S, n1, m1, ' of the first network afterwards', edges=False)


def well(f, m1, m2):
    t = total(f, m1, m2, False)
    for g, E, F in zip(t, [m1.nodes] + m1.layers, [m2.nodes] + m2.layers):
        if set(g[x] for x in E) != set(F):
            return False
    return True


def permuted(S, c):
    """The second network is the first one with the allowed aspects permuted arbitrarily, plus possibly one change."""
    n1, m1 = anynet(S, c)
    al = c['allowed_aspects']
    f = []
    for d, E in enumerate([m1.nodes] + m1.layers):
        f.append(dict(zip(E, S.perm(E, 'p%d' % d))) if d in al else {x: x for x in E})
    t = copy_model(m1)
    t.nls = [image(f, x) for x in m1.nls]
    t.w = {(image(f, x), image(f, y)): w for (x, y), w in m1.w.items()}
    n2 = build(t, getattr(n1, 'couplings', None) if m1.kind == 'multiplex' else None)
    S.check(iso.is_isomorphic(n1, n2, allowed_aspects=spec(S, c)), 'a permuted network is isomorphic to the original')
    g = iso.get_isomorphism(n1, n2, allowed_aspects=spec(S, c))
    S.check(g is not None and well(g, m1, t), 'an isomorphism to a permuted network is found')
    if g is not None:
        S.check(is_iso(total(g, m1, t, False), m1, t), 'the mapping maps the first network to the second')
    S.check(iso.get_complete_invariant(n1, allowed_aspects=spec(S, c)) == iso.get_complete_invariant(n2, allowed_aspects=spec(S, c)),
            'a permuted network has the same complete invariant')


@contextlib.contextmanager
def generators(mode):
    """which generating set the stand-in for PyBliss gives"""
    import PyBliss
    if not hasattr(PyBliss, 'MODE'):
        yield
        return
    PyBliss.MODE = mode
    try:
        yield
    finally:
        PyBliss.MODE = 'all'


def automorphisms(S, c):
    n1, m1 = anynet(S, c)
    al = c['allowed_aspects']
    every = [f for f in maps(m1, m1, al) if bool(is_iso(f, m1, m1))]
    fixed = c.get('fixed', False)
    with generators(S.choice(['all', 'first', 'last'], 'gens')):
        gens = iso.get_automorphism_generators(n1, allowed_aspects=spec(S, c), include_fixed=fixed)
    G = []
    els = [m1.nodes] + m1.layers
    for f in gens:
        S.check(len(f) == m1.a + 1, 'one permutation for each aspect')
        for d, E in enumerate(els):
            S.check(set(f[d]) == set(E) if fixed else (set(f[d]) <= set(E) and all(f[d][x] != x for x in f[d])), 'listed elements')
        t = total(f, m1, m1, fixed)
        S.check(well(f, m1, m1) and bool(is_iso(t, m1, m1)), 'every generator is an automorphism')
        G.append(tuple(tuple(g[x] for x in E) for g, E in zip(t, els)))
    have = {tuple(tuple(E) for E in els)}
    todo = list(have)
    pos = [{x: i for i, x in enumerate(E)} for E in els]
    while todo:
        h = todo.pop()
        for g in G:
            k = tuple(tuple(gd[p[x]] for x in hd) for gd, hd, p in zip(g, h, pos))
            if k not in have:
                have.add(k)
                todo.append(k)
    S.check(have == set(tuple(tuple(g[x] for x in E) for g, E in zip(f, els)) for f in every), 'the generators generate all automorphisms')


def apart(S, c):
    """Different numbers of aspects' elements, or different names in a fixed aspect: never isomorphic."""
    n1, m1 = anynet(S, c)
    c2 = dict(c, **c['second'])
    n2, m2 = anynet(S, c2)
    al = c['allowed_aspects']
    if c.get('shift') is not None:      # other names in the fixed aspect
        d = c['shift']
        t = copy_model(m2)
        r = lambda x: tuple(moved(v, 50 if i == d else 0) for i, v in enumerate(x))
        if d == 0:
            t.nodes = [moved(v, 50) for v in m2.nodes]
        else:
            t.layers[d - 1] = [moved(v, 50) for v in m2.layers[d - 1]]
        t.nls = [r(x) for x in m2.nls]
        t.w = {(r(x), r(y)): w for (x, y), w in m2.w.items()}
        n2, m2 = build(t, None), t
    for b in ('nx', 'bliss'):
        S.check(not iso.is_isomorphic(n1, n2, allowed_aspects=list(al), backend=b), 'networks that cannot match are not isomorphic')
        S.check(iso.get_isomorphism(n1, n2, allowed_aspects=list(al), backend=b) is None, 'no isomorphism between networks that cannot match')
    S.check(iso.get_complete_invariant(n1, allowed_aspects=list(al)) != iso.get_complete_invariant(n2, allowed_aspects=list(al)),
            'networks that cannot match have different complete invariants')


def directed(S, c):
    n1, m1 = anynet(S, dict(c, directed=True))
    S.raises(AssertionError, lambda: iso.is_isomorphic(n1, n1), 'directed networks are rejected')
    S.raises(AssertionError, lambda: iso.get_complete_invariant(n1), 'directed networks are rejected')


def instances(add):
    B = {'self': False}
    def al(*a):
        return dict(allowed_aspects=a)
    # two arbitrary networks
    add('cmp-0-3', compare, dict(B, n=3, L=[], all=True, rename=True, **al(0)), bounds='monoplex, 3 nodes each, all edge sets')
    add('cmp-0-3-fixed', compare, dict(B, n=3, L=[], **al()), bounds='monoplex, 3 nodes, no aspect permuted')
    add('cmp-0-4', compare, dict(B, n=4, L=[], backends=['nx'], **al(0)), tier='thorough', bounds='monoplex, 4 nodes each, all edge sets')
    intra = dict(B, allowed='intra')
    one = dict(B, allowed='inter1')
    for A in ((0,), (1,), (0, 1), ()):
        add('cmp-1-2x2-%s' % ''.join(map(str, A)), compare, dict(one, n=2, L=[2], rename=bool(A), all=A == (0, 1), **al(*A)),
            bounds='2 nodes x 2 layers, intra-layer and same-node edges, all edge sets of both')
        add('perm-1-3x2-%s' % ''.join(map(str, A)), permuted, dict(intra, n=3, L=[2], **al(*A)),
            bounds='3 nodes x 2 layers, all intra-layer edge sets, all permutations of the allowed aspects')
        add('cmp-1-nf-%s' % ''.join(map(str, A)), compare, dict(one, n=2, L=[2], full=False, always=3, rename=bool(A), **al(*A)),
            bounds='2 nodes x 2 layers non-fully interconnected')
        add('cmp-1-2x2x-%s' % ''.join(map(str, A)), compare, dict(B, n=2, L=[2], rename=bool(A), backends=['nx'], **al(*A)), tier='thorough',
            bounds='2 nodes x 2 layers, all edge sets of both')
        add('cmp-1-3x2-%s' % ''.join(map(str, A)), compare, dict(intra, n=3, L=[2], backends=['nx'], **al(*A)), tier='thorough',
            bounds='3 nodes x 2 layers, all intra-layer edge sets of both')
        add('aut-1-3x2-%s' % ''.join(map(str, A)), automorphisms, dict(intra, n=3, L=[2], fixed=A == (0,), **al(*A)),
            bounds='3 nodes x 2 layers, all intra-layer edge sets')
        add('aut-1-2x2-%s' % ''.join(map(str, A)), automorphisms, dict(B, n=2, L=[2], fixed=A != (0,), **al(*A)),
            bounds='2 nodes x 2 layers, all edge sets')
    for A in ((0,), (1,), (2,), (0, 1), (0, 2), (1, 2), (0, 1, 2), ()):
        n = ''.join(map(str, A))
        add('perm-2-%s' % n, permuted, dict(intra, n=2, L=[2, 2], all=len(A) == 3, **al(*A)),
            bounds='2 nodes x 2x2 layers, all intra-layer edge sets, all permutations of the allowed aspects')
        add('aut-2-%s' % n, automorphisms, dict(intra, n=2, L=[2, 2], fixed=len(A) % 2 == 0, **al(*A)), bounds='2 nodes x 2x2 layers, all intra-layer edge sets')
        add('cmp-2-%s' % n, compare, dict(intra, n=2, L=[2, 2], all=len(A) == 3, backends=['nx'], **al(*A)), tier='quick' if n in ('0', '12') else 'thorough',
            bounds='2 nodes x 2x2 layers, all intra-layer edge sets of both')
    cp = dict(kind='multiplex', couplings=['categorical'])
    op = dict(kind='multiplex', couplings=['ordinal'])
    for A in ((0,), (0, 1)):
        n = ''.join(map(str, A))
        add('cmp-plex-%s' % n, compare, dict(B, n=2, L=[2], **al(*A), **cp), bounds='categorical multiplex, 2 nodes x 2 layers')
        add('perm-plex-%s' % n, permuted, dict(B, n=3, L=[2], **al(*A), **cp), bounds='categorical multiplex, 3 nodes x 2 layers')
        add('cmp-ord-%s' % n, compare, dict(B, n=2, L=[3], **al(*A), **op), bounds='ordinal multiplex, 2 nodes x 3 layers')
        add('cmp-plexnf-%s' % n, compare, dict(B, n=2, L=[2], full=False, always=3, **al(*A), **cp), bounds='categorical multiplex, non-fully interconnected')
        add('cmp-kinds-%s' % n, compare, dict(one, n=2, L=[2], second=dict(B, allowed='all', **cp), **al(*A)), bounds='multilayer against multiplex network')
    add('aut-plex', automorphisms, dict(B, n=3, L=[2], fixed=True, **al(0, 1), **cp), bounds='categorical multiplex, 3 nodes x 2 layers')
    add('cmp-size', compare, dict(one, n=2, L=[2], second=dict(n=3, allowed='intra', maxedges=3), **al(0, 1)), bounds='2x2 against 3x2')
    add('cmp-nf-size', compare, dict(intra, n=2, L=[2], full=False, second=dict(n=2), always=2, **al(0, 1)), bounds='any two non-full networks of 2 nodes x 2 layers')
    add('apart-layers', apart, dict(intra, n=2, L=[2], second={}, shift=1, **al(0)), bounds='different layer names, layers fixed')
    add('apart-nodes', apart, dict(intra, n=2, L=[2], second={}, shift=0, **al(1)), bounds='different node names, nodes fixed')
    add('apart-layer', apart, dict(intra, n=3, L=[1], second={}, shift=1, **al(0)), bounds='one layer, different names, layers fixed')
    add('apart-node', apart, dict(one, n=1, L=[3], second={}, shift=0, **al(1)), bounds='one node, different names, nodes fixed')
    add('apart-mono', apart, dict(B, n=2, L=[], second={}, shift=0, **al()), bounds='monoplex, different nodes, nothing permuted')
    add('apart-nlayers', apart, dict(intra, n=2, L=[2], second=dict(L=[3]), **al(0, 1)), bounds='2 layers against 3')
    add('directed', directed, dict(intra, n=2, L=[2]), bounds='directed networks')
