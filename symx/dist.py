"""Exact outcome distributions of randomised code.

Every random draw of the function under test becomes a decision; all decision sequences are
followed, and each outcome gets its probability as a term (a polynomial in the symbolic
probabilities), so "this outcome has probability q" is an obligation for all their values."""
import math
from fractions import Fraction
from . import core, env
from .core import Sym, Ite, to_term


class U(object):
    """A uniform number from [0,1); comparing it with a probability decides a branch."""
    def __init__(self, d, flip=False):
        self.d, self.flip, self.known = d, flip, []

    def _less(self, x):
        """is the underlying number < x"""
        for y, r in self.known:
            if bool(core.eqt(x, y)):
                return r
            if r and bool(x > y):
                return True
            if not r and bool(x < y):
                return False
        lo, hi = 0, 1
        for y, r in self.known:
            if r:
                hi = y
            else:
                lo = y
        if not core.is_sym(x):
            x = Fraction(x).limit_denominator(10 ** 9)
            if x <= lo:
                return False
            if x >= hi:
                return True
        pr = (x - lo) / (hi - lo) if (lo, hi) != (0, 1) else x
        r = self.d.decide([(True, pr), (False, 1 - pr)])
        self.known.append((x, r))
        return r

    def __lt__(self, x): return not self._less(1 - x) if self.flip else self._less(x)
    def __le__(self, x): return self < x
    def __gt__(self, x): return not self < x
    def __ge__(self, x): return not self < x
    def __rsub__(self, x):
        if not core.is_sym(x) and x == 1:
            return U1(self)
        raise core.Inconclusive("arithmetic on a random number")
    def _no(self, *a): raise core.Inconclusive("arithmetic on a random number")
    __add__ = __radd__ = __sub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = __float__ = __int__ = __index__ = _no


class U1(object):
    """1-u of a uniform number u, used in logarithms"""
    def __init__(self, u):
        self.u = u


class ULog(object):
    """log of a uniform number; log(u)/log(q) has P(floor = k) = q**k (1-q)"""
    def __init__(self, u):
        self.u = u

    def __truediv__(self, o):
        if isinstance(o, env.LogVal):
            return Geo(self.u.d, o.x)
        if isinstance(o, (int, float)):
            return Geo(self.u.d, Fraction(math.exp(o)).limit_denominator(10 ** 6))
        raise core.Inconclusive("logarithm of a random number")


class Geo(object):
    def __init__(self, d, q):
        self.d, self.q = d, q

    def __floor__(self):
        opts, pw = [], 1
        for k in range(self.d.cap):
            opts.append((k, pw * (1 - self.q)))
            pw = pw * self.q
        opts.append((self.d.cap, pw))       # this many or more
        return self.d.decide(opts)
    __int__ = __floor__


class Dist(object):
    def __init__(self, cap):
        self.cap, self.prefix = cap, []
        self.seeds = []

    def start(self):
        self.pos, self.prob = 0, 1

    def decide(self, opts):
        opts = [o for o in opts if core.is_sym(o[1]) or o[1] != 0]
        if self.pos == len(self.prefix):
            self.prefix.append([0, len(opts)])
        i = self.prefix[self.pos][0]
        self.pos += 1
        v, pr = opts[i]
        self.prob = self.prob * pr
        return v

    def uniform(self, seq):
        seq = list(seq)
        return self.decide([(v, Fraction(1, len(seq))) for v in seq])

    def next(self):
        while self.prefix:
            self.prefix[-1][0] += 1
            if self.prefix[-1][0] < self.prefix[-1][1]:
                return True
            self.prefix.pop()
        return False

    # the random module
    def random(self):
        return U(self)

    def randint(self, a, b):
        if a > b:
            raise ValueError("empty range")
        return self.uniform(range(a, b + 1))

    def randrange(self, start, stop=None, step=1):
        r = range(start) if stop is None else range(start, stop, step)
        if not len(r):
            raise ValueError("empty range for randrange()")
        return self.uniform(r)

    def choice(self, seq):
        if not len(seq):
            raise IndexError("Cannot choose from an empty sequence")
        return seq[self.uniform(range(len(seq)))]

    def shuffle(self, x):
        rest, out = list(x), []
        while rest:
            out.append(rest.pop(self.uniform(range(len(rest)))))
        x[:] = out

    def sample(self, pop, k, **kw):
        if isinstance(pop, (set, frozenset, dict)):
            raise TypeError("Population must be a sequence.  For dicts or sets, use sorted(d).")
        rest, out = list(pop), []
        if not 0 <= k <= len(rest):
            raise ValueError("Sample larger than population or is negative")
        for _ in range(k):
            out.append(rest.pop(self.uniform(range(len(rest)))))
        return out

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        if weights is None and cum_weights is None:
            return [self.choice(population) for _ in range(k)]
        w = list(weights) if weights is not None else [b - a for a, b in zip([0] + list(cum_weights), cum_weights)]
        t = sum(Fraction(x) for x in w)
        return [self.decide([(p, Fraction(x) / t) for p, x in zip(population, w)]) for _ in range(k)]

    def uniform_(self, a, b):
        raise core.Inconclusive("uniform() in a distribution")

    def seed(self, *a, **k):
        self.seeds.append(a[0] if a else None)


def distribution(S, fn, cap=8, limit=20000):
    """[(probability, outcome)] of fn() over its random draws"""
    d = Dist(cap)
    c = core.CTX
    out = []
    while True:
        d.start()
        old, c.dist = getattr(c, 'dist', None), d
        try:
            r = fn()
        finally:
            c.dist = old
        out.append((d.prob, r))
        if len(out) > limit:
            raise core.Inconclusive("too many random outcomes")
        if not d.next():
            return out


def outcomes(dist, keyf):
    """probability of each (hashable) outcome"""
    r = {}
    for pr, o in dist:
        k = keyf(o)
        r[k] = r[k] + pr if k in r else pr
    return r
