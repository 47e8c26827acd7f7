"""C21 edge files."""
from .common import *
from pymnet import netio
import os, io
ASSUMPTIONS = ['numbers in files are symbolic (written as tokens, read back as the same values)',
               'layer and node files given to read_edge_files are not interpreted (their format is undocumented)']


def read(S, c):
    n, d = c['lines'], c.get('directed', False)
    rows = []
    for i in range(n):
        rows.append((S.int('layer') if c.get('symlayer', True) else 1 + i % 2, S.label('from'), S.label('to'), S.real('w')))
    if not c.get('ignoreSelfLink', True):      # multiplex networks cannot store self-edges
        S.assume(And([Not(eqt(f, t)) for l, f, t, w in rows]))
    text = [c.get('sep', ' ').join(txt(S, x) for x in r) + '\n' for r in rows]
    kw = {k: c[k] for k in ('directed', 'fullyInterconnected', 'couplings', 'ignoreSelfLink') if k in c}
    if c.get('file'):
        with scratch() as tmp:
            p = os.path.join(tmp, 'edges')
            with open(p, 'w') as f:
                f.writelines(text)
            net = netio.read_edge_files(p, **kw)
    else:
        net = netio.read_edge_files(text if not c.get('iter') else iter(text), **kw)
    S.check(type(net) is pymnet.MultiplexNetwork and net.aspects == 1, 'a multiplex network')
    S.check(bool(net.directed) == d and net.fullyInterconnected == c.get('fullyInterconnected', True), 'kind of the network')
    S.check(net.couplings[0][0] == c.get('couplings', 'categorical'), 'couplings')
    skip = c.get('ignoreSelfLink', True)
    keep = [Not(And(eqt(f, t), skip)) for l, f, t, w in rows]
    S.same_set(list(net), [(v, k) for (l, f, t, w), k in zip(rows, keep) for v in (f, t)], 'nodes are those in the file')
    S.same_set(list(net.get_layers(1)), [(l, k) for (l, f, t, w), k in zip(rows, keep)], 'layers are those in the file')
    def want(a, b, l):
        r = 0
        for (l2, f, t, w), k in zip(rows, keep):
            hit = And(eqt(f, a), eqt(t, b))
            if not d:
                hit = Or(hit, And(eqt(f, b), eqt(t, a)))
            r = Ite(And(k, eqt(l, l2), hit), w, r)
        return r
    ends = [v for l, f, t, w in rows for v in (f, t)]
    for lay in net.get_layers(1):
        for a in net:
            for b in net:
                S.check(eqt(net[a, b, lay], want(a, b, lay)), 'edges are those in the file')


def write(S, c):
    net, m = anynet(S, c)
    L = m.layers[0]
    names = {}
    with scratch() as tmp:
        base = os.path.join(tmp, 'out_')
        for l in [str(l) + '.edg' for l in L] + ['.txt'] * bool(c.get('masterFile')):
            leftover(base + l)
        kw = {k: c[k] for k in ('columnSeparator', 'rowSeparator', 'weights', 'masterFile', 'numericNodes') if k in c}
        netio.write_edge_files(net, base, **kw)
        got = {f: open(os.path.join(tmp, f)).read() for f in os.listdir(tmp)}
    want = set('out_%s.edg' % l for l in L) | ({'out_.txt'} if c.get('masterFile') else set())
    S.check(set(got) == want, 'one file for each layer')
    cs, rs = c.get('columnSeparator', '\t'), c.get('rowSeparator', '\n')
    if c.get('masterFile'):
        rows = [r for r in got['out_.txt'].split('\n') if r]
        S.check(sorted(rows) == sorted('out_%s.edg;%s;' % (l, l) for l in L), 'the master file lists the layers and their files')
    number = None
    if c.get('numericNodes'):
        number = {v: i for i, v in enumerate(net)}
    for l in L:
        rows = [r.split(cs) for r in got['out_%s.edg' % l].split(rs) if r]
        cols = 2 if c.get('weights') is False else 3
        S.check(all(len(r) == cols for r in rows), 'number of columns')
        V = [x[0] for x in m.nls if x[1] == l]
        nm = {str(number[v] if number is not None else v): v for v in V}
        S.check(all(r[0] in nm and r[1] in nm for r in rows), 'rows are edges between nodes of the layer')
        E = {}
        for r in rows:
            p = (nm[r[0]], nm[r[1]])
            if not m.directed:
                p = tuple(sorted(p))
            S.check(p not in E, 'each edge is written once')
            E[p] = untxt(S, r[2]) if cols == 3 else None
        for i in V:
            for j in V:
                if m.directed or i <= j:
                    h = m.has((i, l), (j, l))
                    S.check(Iff(h, (i, j) in E), 'exactly the edges of the layer are written')
                    if (i, j) in E and cols == 3:
                        S.check(eqt(E[i, j], m.get((i, l), (j, l))), 'weights are written')


def trip(S, c):
    """What is written for a layer is read back as the same edges."""
    net, m = anynet(S, c)
    text = []
    with scratch() as tmp:
        base = os.path.join(tmp, 'x')
        for l in m.layers[0]:
            leftover(base + '%s.edg' % l)
        netio.write_edge_files(net, base)
        for l in m.layers[0]:
            text += ['%s %s' % (l, r) for r in open(base + '%s.edg' % l)]
    if not S.symbolic:
        text = [' '.join(r.split()[:3] + [repr(float(untxt(S, r.split()[3])))]) for r in text]
    back = netio.read_edge_files(text, directed=m.directed, ignoreSelfLink=False)
    for l in m.layers[0]:
        for i in m.nodes:
            for j in m.nodes:
                S.check(eqt(back[i, j, l], m.get((i, l), (j, l))), 'edges written and read back are the same')


def rejected(S, c):
    S.raises(AssertionError, lambda: netio.write_edge_files(pymnet.MultilayerNetwork(aspects=1), '/nonexistent/x'), 'multilayer networks are rejected')
    S.raises(Exception, lambda: netio.read_edge_files(['1 2 3']), 'a line with a missing column is rejected')
    S.raises(Exception, lambda: netio.read_edge_files(['1 2 3 4 5']), 'a line with too many columns is rejected')


def instances(add):
    for d in (False, True):
        s = 'dir' if d else 'undir'
        add('read-1-' + s, read, dict(lines=1, directed=d), bounds='1 line, any numbers')
        add('read-2-' + s, read, dict(lines=2, directed=d), bounds='2 lines, any numbers')
        add('read-3-' + s, read, dict(lines=3, directed=d, symlayer=False), bounds='3 lines, 2 layers, any nodes')
        add('read-self-' + s, read, dict(lines=2, directed=d, ignoreSelfLink=False), bounds='2 lines between distinct nodes')
        add('read-nonfull-' + s, read, dict(lines=2, directed=d, fullyInterconnected=False, couplings='none'))
        add('write-' + s, write, dict(kind='multiplex', couplings=['categorical'], n=3 if not d else 2, L=[2], directed=d, masterFile=True), bounds='3 nodes, 2 layers')
        add('write-numeric-' + s, write, dict(kind='multiplex', couplings=['none'], n=3, L=[1], directed=d, numericNodes=True), bounds='3 nodes, 1 layer')
        add('write-noweights-' + s, write, dict(kind='multiplex', couplings=['none'], n=2, L=[2], directed=d, weights=False, columnSeparator=';', rowSeparator='|'))
        add('write-nonfull-' + s, write, dict(kind='multiplex', couplings=['ordinal'], n=2, L=[2], directed=d, full=False))
        add('trip-' + s, trip, dict(kind='multiplex', couplings=['categorical'], n=3 if not d else 2, L=[2], directed=d), bounds='3 nodes, 2 layers')
    for d in (False, True):
        for i, (t, b) in enumerate(shapes(d, k=4, kinds='mx mxnf', aspects=(1,))):
            add('write-' + t, write, dict(b, masterFile=i % 2 == 0, numericNodes=i % 2 == 1), bounds='larger networks, arbitrary weights on 4 pairs')
            if 'mxnf' not in t:
                add('trip-' + t, trip, b, bounds='larger networks, arbitrary weights on 4 pairs')
    add('read-0', read, dict(lines=0))
    add('read-file', read, dict(lines=1, file=True))
    add('read-iter', read, dict(lines=2, iter=True, sep='\t', symlayer=False))
    add('rejected', rejected, {})
    add('read-3-sym', read, dict(lines=3), tier='thorough', bounds='3 lines, any numbers')
    add('read-4', read, dict(lines=4, symlayer=False), tier='thorough', bounds='4 lines')
