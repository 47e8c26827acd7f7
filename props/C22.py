"""C22 JSON, web plots, UCINET files and pickled copies."""
from .common import *
from pymnet import netio, visuals
import io, json, os, pickle, copy, re
ASSUMPTIONS = ['symbolic numbers are written as tokens and read back as the same values',
               'names in texts are drawn from a small alphabet that has every character with a meaning in JSON, JavaScript strings or HTML']


class Out(io.StringIO):
    """An output file whose contents survive closing."""
    def close(self):
        self.text = self.getvalue()


def back(S, d):
    """Numbers of a parsed JSON text."""
    return untxt(S, d) if isinstance(d, (int, float)) else d


def decode(S, text, net, m, name=lambda v: v, lname=lambda l: l):
    """Obligations: the JSON text describes the network m."""
    d = json.loads(text)
    S.check(set(d) == {'nodes', 'layers', 'links'}, 'parts of the JSON object')
    N, L = [x['name'] for x in d['nodes']], [x['name'] for x in d['layers']]
    S.check(sorted(N, key=str) == sorted([name(v) for v in m.nodes], key=str), 'nodes in the JSON text')
    S.check(sorted(L, key=str) == sorted([lname(l) for l in m.layers[0]], key=str), 'layers in the JSON text')
    E = {}
    for k in d['links']:
        S.check(set(k) == {'source', 'target', 'value', 'layer'}, 'parts of a link')
        p = (N[k['source']], N[k['target']])
        if not m.directed:
            p = tuple(sorted(p, key=str))
        p += (L[k['layer']],)
        S.check(p not in E, 'each edge once')
        E[p] = back(S, k['value'])
    for l in m.layers[0]:
        V = [x[0] for x in m.nls if x[1] == l]
        for i in V:
            for j in V:
                p = (name(i), name(j))
                if not m.directed:
                    p = tuple(sorted(p, key=str))
                p += (lname(l),)
                S.check(Iff(m.has((i, l), (j, l)), p in E), 'exactly the intra-layer edges are in the JSON text')
                if p in E:
                    S.check(eqt(E[p], m.get((i, l), (j, l))), 'weights in the JSON text')


def js(S, c):
    net, m = anynet(S, c)
    if c.get('file') == 'path':
        with scratch() as tmp:
            p = os.path.join(tmp, 'x.json')
            leftover(p)
            netio.write_json(net, p)
            text = open(p).read()
    elif c.get('file'):
        o = Out()
        netio.write_json(net, o)
        text = o.text
    else:
        text = netio.write_json(net)
    decode(S, text, net, m)


CHARS = ['a', "'", '"', '\\', '\n', '<', '/', '@', 'u']


def names(S, c):
    """Names with special characters."""
    k = c['len']
    s = ''.join(S.choice(CHARS, 'ch') for _ in range(k))
    other = 'zz'
    net = pymnet.MultiplexNetwork('categorical')
    w = S.weight('w', nonzero=True)
    n1, n2, l = ('x' + s, other, 'L') if c['where'] == 'node' else ('n1', 'n2', s + 'x')
    net[n1, n2, l] = w
    m = Model(1, False, True, 'multiplex')
    m.nodes, m.layers, m.nls = [n1, n2], [[l]], [(n1, l), (n2, l)]
    m.put((n1, l), (n2, l), w)
    decode(S, netio.write_json(net), net, m)
    page = pymnet.visuals.webplots.webplot(net)
    decode(S, embedded(S, page), net, m)


def embedded(S, page):
    """The string that JSON.parse gets when a browser runs the page's script."""
    scripts = []
    low, pos = page.lower(), 0
    while True:                       # an HTML parser ends the script at the first </script
        i = low.find('<script', pos)
        if i < 0:
            break
        j = low.find('>', i) + 1
        e = low.find('</script', j)
        scripts.append(page[j:e])
        pos = e + 1
    src = [x for x in scripts if 'JSON.parse(' in x]
    S.check(len(src) == 1, 'the page has the script with the network data')
    i = src[0].index('JSON.parse(') + len('JSON.parse(')
    q = src[0][i]
    S.check(q in '\'"', 'a string literal is parsed')
    out, i = [], i + 1
    while True:
        ch = src[0][i]
        if ch == q:
            break
        S.check(ch != '\n', 'no raw line break in a string literal')
        if ch == '\\':
            i += 1
            e = src[0][i]
            if e == 'u':
                out.append(chr(int(src[0][i + 1:i + 5], 16)))
                i += 4
            elif e == 'x':
                out.append(chr(int(src[0][i + 1:i + 3], 16)))
                i += 2
            elif e == '\n':
                pass
            else:
                out.append({'n': '\n', 't': '\t', 'r': '\r', 'b': '\b', 'f': '\f', 'v': '\v', '0': '\0'}.get(e, e))
        else:
            out.append(ch)
        i += 1
    S.check(src[0][i + 1] == ')', 'the string literal ends at the end of the data')
    return ''.join(out)


def web(S, c):
    net, m = anynet(S, c)
    how = c.get('file')
    if how == 'path':
        with scratch() as tmp:
            p = os.path.join(tmp, 'x.html')
            leftover(p)
            pymnet.webplot(net, p) if callable(pymnet.webplot) else pymnet.visuals.webplots.webplot(net, p)
            text = open(p).read()
    elif how:
        o = Out()
        webplot(net, o)
        text = o.text
    else:
        text = webplot(net)
    decode(S, embedded(S, text), net, m)


def webplot(*a):
    return pymnet.webplot(*a) if callable(pymnet.webplot) else pymnet.visuals.webplots.webplot(*a)


def ucinet(S, c):
    """A full matrix of arbitrary numbers, for every way of giving labels."""
    n, nm = c['n'], c.get('nm', 1)
    lab = c.get('labels')
    low = ['ann', 'bob', 'cay', 'dee'][:n]
    row = list(range(n)) if lab is None else low
    M = []
    for l in range(nm):
        rows = []
        for i in range(n):
            r = []
            for j in range(n):
                if i == j and c.get('zerodiag'):
                    r.append(0)
                elif c.get('fixed') and (l * n * n + i * n + j) not in c['fixed']:
                    r.append(0)
                else:
                    r.append(S.real('m'))
            rows.append(r)
        M.append(rows)
    mixed = ['Ann', 'BOB', 'cay', 'Dee'][:n]
    T = []
    if c.get('header') == 'two':
        T += ['DL', 'N=%d NM = %d' % (n, nm)]
    elif nm == 1 and c.get('header') != 'nm':
        T += ['dl n = %d' % n]
    else:
        T += ['DL N = %d nm=%d' % (n, nm)]
    if c.get('format'):
        T.append('Format = ' + c['format'])
    if lab == 'labels':
        T += ['Labels:', ','.join(mixed)]
    elif lab == 'lines':
        T += ['labels:'] + mixed
    elif lab == 'row-column':
        T += ['row labels:', ', '.join(mixed), 'column labels:', ','.join(x.upper() for x in mixed)]
    elif lab == 'embedded':
        T += ['labels embedded']
    ll = list(range(nm))
    if c.get('levels'):
        ll = ['first', 'second', 'third'][:nm]
        T += ['level labels:', ','.join(x.title() for x in ll)]
    T.append('Data:')
    if lab == 'embedded':
        T.append(' '.join(mixed))
    for l in range(nm):
        for i in range(n):
            cells = [txt(S, x) for x in M[l][i]]
            if lab == 'embedded':
                T.append(' '.join([low[i].upper()] + cells))
            elif c.get('wrap'):
                T += [cells[0], ' '.join(cells[1:])]
            else:
                T.append(' '.join(cells))
    T = [t + '\n' for t in T]
    kw = {k: c[k] for k in ('couplings', 'fullyInterconnected') if k in c}
    if c.get('file'):
        with scratch() as tmp:
            p = os.path.join(tmp, 'x.dl')
            with open(p, 'w') as f:
                f.writelines(T)
            net = pymnet.read_ucinet(p, **kw)
    else:
        net = pymnet.read_ucinet(T, **kw)
    fi = c.get('fullyInterconnected', True)
    S.check(type(net) is (pymnet.MultilayerNetwork if nm == 1 else pymnet.MultiplexNetwork), 'type of the network')
    edge = lambda l, i, j: And(i != j, Or(Not(eqt(M[l][i][j], 0)), Not(eqt(M[l][j][i], 0))))
    if nm == 1:
        A = [net]
    else:
        S.check(tuple(net.couplings[0]) == tuple(c.get('couplings', ('categorical', 1.0))) and net.fullyInterconnected == fi, 'kind of the network')
        S.check(sorted(net.get_layers(1)) == sorted(ll), 'layers of the network')
        A = [net.A[l] if l in net.get_layers(1) else None for l in ll]
    for l in range(nm):
        for i in range(n):
            deg = Or([edge(l, i, j) for j in range(n)])
            inside = A[l] is not None and row[i] in set(A[l])
            S.check(inside if fi else Iff(inside, deg), 'nodes of the network')
            for j in range(n):
                if A[l] is None:
                    S.check(Not(edge(l, i, j)), 'edges are the nonzero cells of the matrix')
                    continue
                v = A[l][row[i], row[j]]
                S.check(Iff(Not(eqt(v, 0)), edge(l, i, j)), 'edges are the nonzero cells of the matrix')
                S.check(Or(eqt(v, 0), eqt(v, M[l][i][j]), eqt(v, M[l][j][i])), 'the value of an edge is from the matrix')
        if A[l] is not None:
            S.check(set(A[l]) <= set(row), 'no other nodes')


def ucirect(S, c):
    """Different labels for rows and columns."""
    n, nm = 2, c['nm']
    rows, cols = ['ann', 'bob'], c['cols']
    M = [[[S.real('m') for j in range(n)] for i in range(n)] for l in range(nm)]
    T = ['dl n=%d nm=%d' % (n, nm)]
    for kind, names in (('row', rows), ('column', cols))[::c.get('step', 1)]:
        T += ['%s labels:' % kind, ','.join(x.title() for x in names)]
    T.append('data:')
    if c.get('embedded'):
        T = ['dl n=%d nm=%d' % (n, nm), 'labels embedded', 'data:', ' '.join(cols)]
    for l in range(nm):
        for i in range(n):
            T.append(' '.join(([rows[i]] if c.get('embedded') else []) + [txt(S, x) for x in M[l][i]]))
    fi = c.get('fullyInterconnected', True)
    net = pymnet.read_ucinet([t + '\n' for t in T], fullyInterconnected=fi)
    A = [net] if nm == 1 else [net.A[l] for l in range(nm)]
    cells = lambda l, u, v: [M[l][i][j] for i in range(n) for j in range(n) if {rows[i], cols[j]} == {u, v}]
    names = sorted(set(rows) | set(cols))
    for l in range(nm):
        some = lambda u, v: Or([Not(eqt(x, 0)) for x in cells(l, u, v)])
        for u in names:
            deg = Or([some(u, v) for v in names if v != u])
            S.check((u in set(A[l])) if fi else Iff(u in set(A[l]), deg), 'nodes of the network with two sets of labels')
            for v in names:
                if u != v:
                    x = A[l][u, v]
                    S.check(Iff(Not(eqt(x, 0)), some(u, v)), 'edges of the network with two sets of labels')
                    S.check(Or([eqt(x, 0)] + [eqt(x, y) for y in cells(l, u, v)]), 'values of the edges of the network with two sets of labels')
        S.check(set(A[l]) <= set(names), 'no other nodes with two sets of labels')


def ucibad(S, c):
    bad = lambda T, l: S.raises(Exception, lambda: pymnet.read_ucinet(T), l)
    bad([], 'an empty file is rejected')
    bad(['foo n=2', 'data:', '0 1', '1 0'], 'a file without the dl header is rejected')
    bad(['dl n=2'], 'a file without data is rejected')
    bad(['dl n=2', 'data:', '0 1'], 'a matrix with too few rows is rejected')
    bad(['dl n=2', 'data:', '0 1', '1 0', '0 1'], 'a matrix with too many rows is rejected')
    bad(['dl n=2', 'data:', '0 1 1', '1 0 1'], 'a matrix with too many columns is rejected')
    bad(['dl n=2', 'format = edgelist1', 'data:', '1 2', '2 1'], 'an unsupported format is rejected')
    bad(['dl n=2', 'labels:', 'a,b', 'labels embedded', 'data:', 'a b', 'a 0 1', 'b 1 0'], 'labels together with embedded labels are rejected')
    bad(['dl n=2', 'labels:', 'a'], 'a file that ends within the labels is rejected')
    bad(['dl m=2', 'data:', '0 1', '1 0'], 'a header without the size is rejected')


def pick(S, c):
    net, m = anynet(S, c)
    got = pickle.loads(pickle.dumps(net)) if c['how'] == 'pickle' else copy.deepcopy(net)
    S.check(type(got) is type(net) and got is not net, 'type of the copy')
    same_as(S, got, m, ' of the copy')
    # the copy is independent
    x, y = m.nls[0], [z for z in m.nls if z[1:] == m.nls[0][1:]][-1]
    if x != y:
        w = S.real('new')
        got[link(x, y)] = w
        S.check(eqt(got[link(x, y)], w), 'writing to the copy')
        S.check(eqt(net[link(x, y)], m.get(x, y)), 'writing to the copy does not change the original')


def instances(add):
    for d in (False, True):
        s = 'dir' if d else 'undir'
        MP = dict(kind='multiplex', couplings=['categorical'], directed=d)
        add('json-' + s, js, dict(MP, n=3 if not d else 2, L=[2]), bounds='3 nodes, 2 layers')
        add('json-nonfull-' + s, js, dict(MP, n=2, L=[2], full=False), bounds='any membership')
        add('json-file-' + s, js, dict(MP, n=2, L=[1], file='object'))
        add('json-path-' + s, js, dict(MP, n=2, L=[1], file='path'))
        add('web-' + s, web, dict(MP, n=2, L=[2]), bounds='2 nodes, 2 layers')
        add('web-file-' + s, web, dict(MP, n=2, L=[1], file='object'))
        add('web-path-' + s, web, dict(MP, n=2, L=[1], file='path'))
        for how in ('pickle', 'deepcopy'):
            add('%s-a0-%s' % (how, s), pick, dict(n=3, directed=d, how=how, maxedges=4))
            add('%s-ml-%s' % (how, s), pick, dict(n=2, L=[2], directed=d, how=how, maxedges=4))
            add('%s-nonfull-%s' % (how, s), pick, dict(n=2, L=[2], directed=d, how=how, maxedges=2, full=False, always=1))
            add('%s-mplex-%s' % (how, s), pick, dict(MP, n=2, L=[2], how=how))
            add('%s-mplex-nonfull-%s' % (how, s), pick, dict(MP, n=2, L=[2], how=how, full=False, always=1))
    for d in (False, True):
        for i, (t, b) in enumerate(shapes(d, k=4, aspects=(1, 2, 3))):
            add(['pickle-', 'deepcopy-'][i % 2] + t, pick, dict(b, how=['pickle', 'deepcopy'][i % 2]), bounds='larger networks, arbitrary weights on 4 pairs')
        for i, (t, b) in enumerate(shapes(d, k=4, kinds='mx mxnf', aspects=(1,))):
            add('json-' + t, js, b, bounds='larger networks, arbitrary weights on 4 pairs')
            if 'nf' not in t:
                add('web-' + t, web, dict(b, some=(3, 9)), bounds='larger networks, arbitrary weights on 3 pairs')
    for wh in ('node', 'layer'):
        add('names-%s-1' % wh, names, dict(len=1, where=wh), bounds='names with 1 special character')
        add('names-%s-2' % wh, names, dict(len=2, where=wh), bounds='names with 2 special characters')
        add('names-%s-3' % wh, names, dict(len=3, where=wh), tier='thorough', bounds='names with 3 special characters')
    for lab in (None, 'labels', 'lines', 'row-column', 'embedded'):
        add('ucinet-%s' % lab, ucinet, dict(n=2, labels=lab), bounds='2 nodes, any matrix')
        add('ucinet-3-%s' % lab, ucinet, dict(n=3, labels=lab, zerodiag=True, fixed=(1, 2, 3, 5, 7)), bounds='3 nodes, 5 free cells')
    add('ucinet-wrap', ucinet, dict(n=2, wrap=True, header='two', format='fullmatrix'))
    add('ucinet-diag', ucinet, dict(n=2, format='fullmatrix diagonal present', file=True))
    add('ucinet-nm1', ucinet, dict(n=2, header='nm'))
    add('ucinet-nonfull-1', ucinet, dict(n=2, fullyInterconnected=False))
    for fi in (True, False):
        add('ucinet-mplex-%s' % fi, ucinet, dict(n=2, nm=2, fullyInterconnected=fi, zerodiag=True), bounds='2 nodes, 2 layers, any matrices')
        add('ucinet-mplex3-%s' % fi, ucinet, dict(n=3, nm=2, labels='labels', levels=True, fullyInterconnected=fi, zerodiag=True, fixed=(1, 3, 2, 14, 16), couplings=('ordinal', 2)), bounds='3 nodes, 2 layers, 5 free cells')
    add('ucinet-mplex-rows', ucinet, dict(n=2, nm=3, labels='row-column', header='two', zerodiag=True, fixed=(1, 6, 9)))
    for nm in (1, 2):
        for fi in (True, False):
            add('ucinet-rect-%d-%s' % (nm, fi), ucirect, dict(nm=nm, cols=['xan', 'yob'], fullyInterconnected=fi, step=(1 if fi else -1)), bounds='2 rows, 2 columns')
        add('ucinet-rect-shared-%d' % nm, ucirect, dict(nm=nm, cols=['bob', 'yob']), bounds='2 rows, 2 columns, one name in both')
    add('ucinet-rect-embedded', ucirect, dict(nm=1, cols=['xan', 'yob'], embedded=True), bounds='2 rows, 2 columns')
    add('ucinet-invalid', ucibad, {})
    add('ucinet-3-full', ucinet, dict(n=3), tier='thorough', bounds='3 nodes, any matrix')
