"""C35 independent orbit equations and redundant orbits."""
from .common import *
from fractions import Fraction
import z3
from symx import core
from pymnet import graphlets as gl
G, IE = gl.graphlets_module, gl.independent_equations_module
ASSUMPTIONS = ['orbit counts are arbitrary real numbers (a superset of the counts of real networks)',
               'the equations themselves are decided by C30',
               'PyBliss is not installed: canonical forms and automorphisms come from a stand-in that decides coloured graphs by partition refinement']
_memo = {}


def library(c):
    k = repr((c['size'], c['glayers'], c['n_l'], c['aspects']))
    if k not in _memo:
        n, L = c['size'], list(c['glayers'])
        inds, eqs = gl.independent_equations(n, c['n_l'], L, allowed_aspects=c['aspects'])
        nets, invs = gl.graphlets(n, list(L), n_l=c['n_l'], allowed_aspects=c['aspects'])
        auts = gl.automorphism_orbits(nets, allowed_aspects=c['aspects'])
        num = gl.orbit_numbers(n, nets, auts)
        ol = gl.ordered_orbit_list(num)
        reds = gl.redundant_orbits(inds, eqs, num, ol)
        every = gl.orbit_equations(n, nets, auts, invs, allowed_aspects=c['aspects'])
        sub = {}
        for e in every:
            if not isinstance(e[1], int):
                big, small = sorted([e[0][0], e[1][0]], key=lambda o: -o[0])
                if big[0] > small[0]:
                    sub[e] = G.subtrahend(big, small, nets, auts, invs, allowed_aspects=c['aspects'])
        _memo[k] = inds, eqs, ol, reds, every, sub
    return _memo[k]


def lefts(e):
    """the orbits whose counts are multiplied, the larger first"""
    if isinstance(e[1], int):
        return [e[0]] * e[1]
    return sorted([e[0][0], e[1][0]], key=lambda o: -o[0])


def size(e):
    """number of nodes of the largest orbits of an equation"""
    o = lefts(e)
    return sum(x[0] for x in o) - len(o) + 1


def left(e, sub, X):
    o = lefts(e)
    if isinstance(e[1], int):
        x = X[e[0]]
        return x if e[1] == 1 else x * (x - 1) / 2
    return X[o[0]] * (X[o[1]] - sub.get(e, 0))


def right(terms, X):
    return Sum([exact(q) * X[o] for o, q in terms.items()])


def exact(q):
    q = Fraction(q)
    return int(q) if q.denominator == 1 else q


def rank(rows):
    """number of linearly independent rows (dicts)"""
    piv = {}
    for r in rows:
        r = {o: Fraction(q) for o, q in r.items() if q}
        while r:
            o = max(r)
            if o not in piv:
                piv[o] = r
                break
            f = r[o] / piv[o][o]
            for k, q in piv[o].items():
                r[k] = r.get(k, 0) - f * q
                if not r[k]:
                    del r[k]
    return len(piv)


def form(S, c):
    inds, eqs, ol, reds, every, sub = library(c)
    S.check(dict(eqs) == dict(every), 'all orbit equations')
    S.check(all(e in eqs for e in inds), 'the independent equations are among them')
    names = [str(o) for o in ol]
    S.check(len(set(names)) == len(names) and all(r in names for r in reds) and len(set(reds)) == len(reds), 'redundant orbits are orbits, each named once')
    S.check(len(reds) == len(inds), 'one redundant orbit for each independent equation')
    S.check(gl.redundant_orbits([], eqs, {o: i for i, o in enumerate(ol)}, ol) == [], 'no redundant orbits without equations')


def determined(S, c):
    """Whatever the counts of the other orbits are, the equations leave one value for the redundant ones."""
    inds, eqs, ol, reds, every, sub = library(c)
    red = set(reds)
    for k in range(2, c['size'] + 1):      # products of smaller counts are known from the smaller sizes
        O = [o for o in ol if o[0] == k]
        Y = {o: S.real('y%d' % i) for i, o in enumerate(ol) if o[0] == k and str(o) in red}
        if not Y:
            continue
        X = {o: S.real('x%d' % i) for i, o in enumerate(ol) if o[0] <= k}
        Z = dict(X, **{})
        Z.update(Y)
        for e in inds:
            if size(e) == k:
                S.assume(eqt(right(eqs[e], X), right(eqs[e], Z)))
        for o in O:
            if str(o) in red:
                S.check(eqt(X[o], Y[o]), 'the count of a redundant orbit follows from the others')


def independent(S, c):
    """No equation follows from the others."""
    inds, eqs, ol, reds, every, sub = library(c)
    order = sorted(inds, key=repr)
    if not S.symbolic:
        for k in range(2, c['size'] + 1):
            rows = [{o: q for o, q in eqs[e].items() if o[0] == k} for e in order if size(e) == k]
            S.check(rank(rows) == len(rows), 'independent equations')
        return
    X = {o: S.real('x%d' % i) for i, o in enumerate(ol)}
    E = {}
    for e in order:
        E[e] = eqt(left(e, sub, X), right(eqs[e], X))
    for e in order:
        others = [core.bterm(E[f]) for f in order if f != e]
        no = [core.bterm(Not(E[e]))]
        # first with as few smaller orbits as possible: the equations of the largest orbits become linear
        r = S._nl_check([core.bterm(eqt(X[o], 0)) for o in ol if o[0] < size(e)] + others + no)
        if r != z3.sat:
            r = S._nl_check(others + no)
        if r == z3.unknown:
            raise core.Inconclusive('independence of an equation')
        S.check(r == z3.sat, 'independent equations')


def complete(S, c):
    """Every equation that is left out follows from the independent ones."""
    inds, eqs, ol, reds, every, sub = library(c)
    out = sorted((e for e in every if e not in inds), key=repr)
    if not out:
        S.check(True, 'nothing is left out')
        return
    X = {o: S.real('x%d' % i) for i, o in enumerate(ol)}
    if S.symbolic:
        small = [o for o in ol if o[0] < c['size']]
        E = [(left(e, sub, X), right(eqs[e], X)) for e in inds]
        facts = [core.bterm(eqt(l, r)) for l, r in E]
        facts += [core.bterm(eqt(l * X[o], r * X[o])) for l, r in E for o in small]
    for e in out:
        goal = eqt(left(e, sub, X), right(every[e], X))
        if S.symbolic:
            r = S._nl_check(facts + [core.bterm(Not(goal))])
            if r == z3.unsat:
                S.check(True, 'an equation that is left out follows from the others')
                continue
        # a counterexample among counts without smaller orbits
        for o in ol:
            if o[0] < size(e):
                S.assume(eqt(X[o], 0))
        for f in inds:
            S.assume(eqt(left(f, sub, X), right(eqs[f], X)))
        S.check(goal, 'an equation that is left out follows from the others')
        if S.symbolic:
            S.flush()
            raise core.Inconclusive('an equation that is left out')


def components(S, c):
    """Strongly connected components of every graph, each after the ones it depends on."""
    n = c['n']
    net = {i: set() for i in range(n)}
    for i in range(n):
        for j in range(n):
            if i != j and bool(S.bool('e%d%d' % (i, j))):
                net[i].add(j)
    old = {i: set(x) for i, x in net.items()}
    reach = {i: {i} for i in range(n)}
    for _ in range(n):
        for i in range(n):
            for j in list(reach[i]):
                reach[i] |= net[j]
    got = IE.SCCs(net)
    want = set(frozenset(j for j in reach[i] if i in reach[j]) for i in range(n))
    parts = [frozenset(got[k]) for k in got]
    S.check(set(parts) == want and len(parts) == len(want), 'strongly connected components')
    seen = set()
    for p in parts:
        seen |= p
        S.check(all(j in seen for i in p for j in reach[i]), 'components come after the ones they lead to')
    S.check(net == old and IE.reverse(net) == {i: {j for j in range(n) if i in net[j]} for i in range(n)}, 'reversed graph')


def whole(S, c):
    form(S, c)
    determined(S, c)
    independent(S, c)
    complete(S, c)


def instances(add):
    L1, L2, L3 = ['a'], ['a', 'b'], ['a', 'b', 'c']
    sets = [('3-1', dict(size=3, n_l=1, glayers=L1, aspects='all')), ('3-2', dict(size=3, n_l=2, glayers=L2, aspects='all')),
            ('3-2v', dict(size=3, n_l=2, glayers=L2, aspects=[0])), ('3-2of3', dict(size=3, n_l=2, glayers=L3, aspects='all')),
            ('3-2of3v', dict(size=3, n_l=2, glayers=L3, aspects=[0])), ('4-1', dict(size=4, n_l=1, glayers=L1, aspects='all')),
            ('4-1of2v', dict(size=4, n_l=1, glayers=L2, aspects=[0])), ('4-1of2', dict(size=4, n_l=1, glayers=L2, aspects='all')),
            ('3-3', dict(size=3, n_l=3, glayers=L3, aspects='all')), ('2-2', dict(size=2, n_l=2, glayers=L2, aspects='all')),
            ('4-2', dict(size=4, n_l=2, glayers=L2, aspects='all')), ('4-2v', dict(size=4, n_l=2, glayers=L2, aspects=[0]))]
    for t, c in sets:
        b = 'graphlets of up to %d nodes on %d of %d layers, all counts' % (c['size'], c['n_l'], len(c['glayers']))
        if t.startswith('4-2'):
            add('all-' + t, whole, c, bounds=b)
            continue
        for f in (form, determined, independent, complete) if c['size'] > 2 else (form, complete):
            add('%s-%s' % (f.__name__, t), f, c, bounds=b)
    for n in (1, 2, 3):
        add('scc-%d' % n, components, dict(n=n), bounds='all graphs of %d nodes' % n)
    add('scc-4', components, dict(n=4), bounds='all graphs of 4 nodes')
    add('determined-3-3v', determined, dict(size=3, n_l=3, glayers=L3, aspects=[0]), tier='thorough', bounds='3 nodes, 3 layers')
    add('independent-3-3v', independent, dict(size=3, n_l=3, glayers=L3, aspects=[0]), tier='thorough', bounds='3 nodes, 3 layers')
    add('form-3-3v', form, dict(size=3, n_l=3, glayers=L3, aspects=[0]), tier='thorough', bounds='3 nodes, 3 layers')
    add('complete-3-3v', complete, dict(size=3, n_l=3, glayers=L3, aspects=[0]), tier='thorough', bounds='3 nodes, 3 layers')
