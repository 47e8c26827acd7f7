"""Stand-in for the PyBliss bindings (not installed here): coloured simple graphs, decided by
plain partition refinement with individualisation.  Only the interface pymnet's bliss backend uses."""


class _Canon(object):
    def __init__(self, names, colors, adj):
        self.names, self.adj = names, adj
        cs = sorted(set(colors.values()))
        self.leaves = []
        self.search([[v for v in names if colors[v] == c] for c in cs])
        self.best = min(c for c, _ in self.leaves)
        self.autos = [o for c, o in self.leaves if c == self.best]

    def refine(self, cells):
        while True:
            where = {v: i for i, cell in enumerate(cells) for v in cell}
            new = []
            for cell in cells:
                sig = {}
                for v in cell:
                    sig.setdefault(tuple(sorted(where[u] for u in self.adj[v])), []).append(v)
                for s in sorted(sig):
                    new.append(sig[s])
            if len(new) == len(cells):
                return new
            cells = new

    def search(self, cells):
        cells = self.refine(cells)
        k = next((i for i, cell in enumerate(cells) if len(cell) > 1), None)
        if k is None:
            order = [c[0] for c in cells]
            pos = {v: i for i, v in enumerate(order)}
            cert = tuple(sorted((min(pos[u], pos[v]), max(pos[u], pos[v])) for v in order for u in self.adj[v]))
            self.leaves.append((cert, order))
            return
        for v in cells[k]:
            self.search(cells[:k] + [[v], [u for u in cells[k] if u != v]] + cells[k + 1:])


_memo = {}


class Graph(object):
    def __init__(self):
        self.colors, self.adj = {}, {}

    def add_vertex(self, name, color=0):
        assert name not in self.colors, "vertex added twice"
        self.colors[name] = color
        self.adj[name] = set()

    def add_edge(self, a, b):
        assert a in self.colors and b in self.colors, "unknown vertex"
        self.adj[a].add(b)
        self.adj[b].add(a)

    def _canon(self):
        key = (tuple(sorted(self.colors.items())), tuple((v, tuple(sorted(self.adj[v]))) for v in sorted(self.adj)))
        if key not in _memo:
            if len(_memo) > 20000:
                _memo.clear()
            _memo[key] = _Canon(sorted(self.colors), self.colors, self.adj)
        return _memo[key]

    def canonical_labeling(self):
        return {v: i for i, v in enumerate(self._canon().autos[0])}

    def relabel(self, lab):
        g = Graph()
        for v in sorted(self.colors, key=lambda v: lab[v]):
            g.add_vertex(lab[v], self.colors[v])
        for v in self.adj:
            for u in self.adj[v]:
                g.add_edge(lab[u], lab[v])
        return g

    def __str__(self):
        return ' '.join('%s:%s' % (v, self.colors[v]) for v in sorted(self.colors)) + ' | ' + \
            ' '.join('%s-%s' % (u, v) for u in sorted(self.adj) for v in sorted(self.adj[u]) if u <= v)

    def get_isomorphism(self, other):
        if str(self.relabel(self.canonical_labeling())) != str(other.relabel(other.canonical_labeling())):
            return None
        a, b = self._canon().autos[0], other._canon().autos[0]
        return dict(zip(a, b))

    def find_automorphisms(self, callback, arg=None):
        """a generating set of the automorphism group; which one is up to MODE"""
        c = self._canon()
        base = c.autos[0]
        perms = [dict(zip(base, o)) for o in c.autos[1:]]
        for p in perms if MODE == 'all' else generating(c, perms, MODE):
            callback(dict(p), arg)


MODE = 'all'


def generating(c, perms, mode):
    """an irredundant selection of perms generating them all, in an order that depends on mode"""
    done = c.__dict__.setdefault('generating', {})
    if mode not in done:
        order = perms[::-1] if mode == 'last' else sorted(perms, key=lambda p: (int(mode) * 7919 + sum((i + 1) * (j + int(mode)) * (p[v] != v) for i, v in enumerate(c.names) for j in [c.names.index(p[v])])) % 101) if mode.isdigit() else perms
        out, group = [], {tuple(c.names)}
        for p in order:
            if tuple(p[v] for v in c.names) in group:
                continue
            out.append(p)
            todo = list(group)
            while todo:
                g = todo.pop()
                for q in out:
                    h = tuple(q[v] for v in g)
                    if h not in group:
                        group.add(h)
                        todo.append(h)
        for p in list(out):       # later ones may have made earlier ones unnecessary
            rest = [q for q in out if q is not p]
            group, todo = {tuple(c.names)}, [tuple(c.names)]
            while todo:
                g = todo.pop()
                for q in rest:
                    h = tuple(q[v] for v in g)
                    if h not in group:
                        group.add(h)
                        todo.append(h)
            if len(group) == len(perms) + 1:
                out = rest
        done[mode] = out
    return done[mode]
