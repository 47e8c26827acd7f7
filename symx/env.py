"""Imports the code under test from /repo and installs the environment stubs.

Stubs are dispatchers: with no symbolic/replay context active they behave as the original.
They are installed in the stdlib modules *before* pymnet is imported, so it does not matter
how pymnet spells its imports, plus a few builtins shadowed in pymnet's module globals.
"""
import random as _random_mod
import os, sys, builtins, random, math, importlib, pkgutil, types

REPO = os.environ.get('SYMX_REPO', '/repo')
Z3_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def import_z3():
    sys.path.append(Z3_SITE)
    try:
        import z3
    finally:
        sys.path.remove(Z3_SITE)
    return z3


import_z3()
from . import core
from .core import Sym, SymBool, to_term
from fractions import Fraction

# ------------------------------------------------------------------ random

_orig_random = {}


class RandomPolicy(object):
    """How the stubs behave in the current harness (set from the instance's cfg)."""
    max_draws = None        # bound on the number of draws of a run
    sym_sample = False      # random.sample of a range gives symbolic integers, not one fork per value
    shuffle_prefix = None   # shuffles that start with these values only
    shuffle_plan = None     # such prefixes for the first, second, .. shuffle of a run
    floor_cap = 8           # floors of logarithm ratios from this on are one symbolic integer

    def configure(self, cfg):
        for k in ('max_draws', 'sym_sample', 'shuffle_prefix', 'shuffle_plan', 'floor_cap'):
            setattr(self, k, cfg.get(k, getattr(RandomPolicy, k)))

POLICY = RandomPolicy()


def _draw():
    c = core.CTX
    c.draws = getattr(c, 'draws', 0) + 1
    if POLICY.max_draws is not None and c.draws > POLICY.max_draws:
        raise core.PathCut("random draws beyond the bound")


def _random():
    c = core.CTX
    _draw()
    r = c.real('rnd')
    cond = core.And(r >= 0, r < 1)
    if not c.symbolic:
        c.assume(cond)
        return r
    c.flush()
    c._push(cond.t)             # a fresh variable: always satisfiable
    lt = (r < 1).t
    c.aux[lt.get_id()] = lt
    c.cache[('c', lt.get_id())] = True
    return r


def _uniform(a, b):
    return a + (b - a) * _random()


def _randint(a, b):
    c = core.CTX
    _draw()
    a, b = c.conc(a), c.conc(b)
    if a > b:
        raise ValueError("empty range for randrange()")
    return c.conc(c.int('rndint', a, b))


def _randrange(start, stop=None, step=1):
    if stop is None:
        start, stop = 0, start
    r = range(start, stop, step)
    if len(r) == 0:
        raise ValueError("empty range for randrange()")
    return r[_randint(0, len(r) - 1)]


def _choice(seq):
    if len(seq) == 0:
        raise IndexError("Cannot choose from an empty sequence")
    return seq[_randint(0, len(seq) - 1)]


def _shuffle(x, *a):
    _draw()
    rest, head = list(x), []
    c = core.CTX
    c.shuffles = getattr(c, 'shuffles', 0) + 1
    pre = POLICY.shuffle_prefix or ()
    if POLICY.shuffle_plan is not None:
        pre = POLICY.shuffle_plan[c.shuffles - 1] if c.shuffles <= len(POLICY.shuffle_plan) else ()
    for v in pre:
        hit = [i for i, u in enumerate(rest) if u is v or (isinstance(u, int) and u == v)]
        if hit:
            head.append(rest.pop(hit[0]))
    x[:] = head + core.CTX.perm(rest, 'shuf')


def _sample(population, k, **kw):
    if isinstance(population, (set, frozenset)) or not hasattr(population, '__getitem__') or not hasattr(population, '__len__') \
            or isinstance(population, dict):
        raise TypeError("Population must be a sequence.  For dicts or sets, use sorted(d).")
    _draw()
    c = core.CTX
    k = c.conc(k)
    if POLICY.sym_sample and isinstance(population, range) and population.step == 1:
        if not 0 <= k <= len(population):
            raise ValueError("Sample larger than population or is negative")
        out = [c.int('smp', population.start, population.stop - 1) for _ in range(k)]
        c.assume(core.Distinct(out))
        return out
    rest = list(population)
    if not 0 <= k <= len(rest):
        raise ValueError("Sample larger than population or is negative")
    out = []
    for _ in range(k):
        i = c.conc(c.int('smp', 0, len(rest) - 1)) if len(rest) > 1 else 0
        out.append(rest.pop(i))
    return out


def _seed(*a, **k):
    return None


def _choices(population, weights=None, *, cum_weights=None, k=1):
    if weights is not None or cum_weights is not None:
        w = list(weights) if weights is not None else [b - a for a, b in zip([0] + list(cum_weights), cum_weights)]
        population = [p for p, x in zip(population, w) if bool(x > 0)]
    return [_choice(population) for _ in range(core.CTX.conc(k))]


class _SymRandom(_random_mod.Random):
    """random.Random objects draw like the module when a context is active."""
    pass


_stubs = dict(choices=_choices, random=_random, uniform=_uniform, randint=_randint, randrange=_randrange, choice=_choice,
              shuffle=_shuffle, sample=_sample, seed=_seed)


def _dispatch(name, stub, orig):
    def f(*a, **k):
        if core.CTX is not None and getattr(core.CTX, 'dist', None) is not None:
            return getattr(core.CTX.dist, 'uniform_' if name == 'uniform' else name)(*a, **k)
        if core.CTX is not None and getattr(core.CTX, 'stub_random', True):
            return stub(*a, **k)
        return orig(*a, **k)
    f.__name__ = name
    return f


class LogVal(object):
    """log(x) of a symbolic x > 0, only usable in quotients of logarithms."""
    def __init__(self, x):
        if not bool(x > 0):
            raise ValueError("math domain error")
        self.x = x

    def __truediv__(self, o):
        if not isinstance(o, LogVal):
            if isinstance(o, (int, float)) and o == math.log(2.0):
                o = LogVal(Sym(core.z3.RealVal(2)))
            else:
                raise core.Inconclusive("logarithm of a symbolic value used outside a quotient of logarithms")
        if bool(core.eqt(o.x, 1)):
            raise ZeroDivisionError("float division by zero")
        return LogRatio(self.x, o.x)


    def __floordiv__(self, o):
        return math.floor(self / o)


class LogRatio(object):
    """log(x)/log(b): its floor is the k with b**(k+1) < x <= b**k (for 0 < b < 1)."""
    def __init__(self, x, b):
        self.x, self.b = x, b

    def __int__(self):
        if not (bool(self.b < 1) and bool(self.x <= 1)):
            raise core.Inconclusive("logarithm ratio outside 0 < x <= 1, 0 < b < 1")
        return self.__floor__()

    __trunc__ = __int__

    def __floor__(self):
        x, b = self.x, self.b
        if not (bool(b < 1) and bool(x <= 1)):
            raise core.Inconclusive("logarithm ratio outside 0 < x <= 1, 0 < b < 1")
        pw = b
        for k in range(POLICY.floor_cap):
            if bool(pw < x):
                return k
            pw = pw * b
        return core.CTX.int('floor', POLICY.floor_cap, None)


def _method(n, s):
    o = getattr(_random_mod.Random, n)
    def f(self, *a, **k):
        if core.CTX is not None and (getattr(core.CTX, 'dist', None) is not None or getattr(core.CTX, 'stub_random', True)):
            return getattr(random, n)(*a, **k)
        return o(self, *a, **k)
    f.__name__ = n
    return f


def install_stdlib():
    for n, s in _stubs.items():
        o = getattr(random, n)
        _orig_random[n] = o
        setattr(random, n, _dispatch(n, s, o))
    for n, s in _stubs.items():
        setattr(_SymRandom, n, _method(n, s))
    random.Random = _SymRandom
    random._inst = _SymRandom()         # what networkx draws from
    def sym1(name, impl):
        o = getattr(math, name)
        def f(x, *a):
            if isinstance(x, (Sym, SymBool)):
                return impl(x, *a)
            return o(x, *a)
        f.__name__ = name
        setattr(math, name, f)
    sym1('sqrt', lambda x: core.CTX.sqrt(x))
    sym1('fabs', lambda x: abs(x))
    sym1('isnan', lambda x: False)
    sym1('isinf', lambda x: False)
    sym1('isfinite', lambda x: True)
    sym1('log', lambda x: LogVal(x))
    olog = math.log
    def ulog(x, *a):
        from . import dist
        if isinstance(x, dist.U):
            return dist.ULog(x)
        if isinstance(x, dist.U1):
            return dist.ULog(x.u)
        return olog(x, *a)
    math.log = ulog
    def anysym(name, impl):
        o = getattr(math, name)
        def f(*a, **k):
            if any(isinstance(x, (Sym, SymBool)) for x in core._flat(a)):
                return impl(*a, **k)
            return o(*a, **k)
        f.__name__ = name
        setattr(math, name, f)
    def isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
        m = core.Ite(abs(a) >= abs(b), abs(a), abs(b)) * rel_tol
        m = core.Ite(m >= abs_tol, m, abs_tol)
        return bool(abs(a - b) <= m)
    anysym('isclose', isclose)
    anysym('fsum', lambda xs: sum(xs))
    anysym('hypot', lambda *xs: core.CTX.sqrt(sum(x * x for x in xs)))
    anysym('dist', lambda p, q: core.CTX.sqrt(sum((x - y) * (x - y) for x, y in zip(p, q))))
    anysym('cbrt', lambda x: core.CTX.cbrt(x))
    anysym('trunc', lambda x: int(x))
    anysym('copysign', lambda x, y: core.Ite(y >= 0, abs(x), -abs(x)))
    olog1p = math.log1p
    math.log1p = lambda x: math.log(1 + x) if isinstance(x, (Sym, SymBool)) or type(x).__module__.endswith('dist') else olog1p(x)
    opow = math.pow
    math.pow = lambda a, b: a ** b if isinstance(a, Sym) or isinstance(b, Sym) else opow(a, b)


# ------------------------------------------------------------------ shadowed builtins

_float, _int, _round = builtins.float, builtins.int, builtins.round


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _float) or isinstance(x, Sym) and x.t.sort().kind() == core.z3.Z3_REAL_SORT

    def __call__(cls, *a):
        if a and isinstance(a[0], (Sym, SymBool)):
            return a[0]
        if a and isinstance(a[0], str) and core.CTX is not None:
            s = core.CTX.untoken(a[0])
            if s is not None:
                return s
        return _float(*a)


class symfloat(_float, metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _int) or isinstance(x, Sym) and x.t.sort().kind() == core.z3.Z3_INT_SORT

    def __call__(cls, *a):
        if a and isinstance(a[0], str) and core.CTX is not None:
            s = core.CTX.untoken(a[0])
            if s is not None:
                if s.t.sort().kind() != core.z3.Z3_INT_SORT:
                    raise ValueError("invalid literal for int()")
                return s
        if a and isinstance(a[0], Sym):
            if a[0].t.sort().kind() == core.z3.Z3_INT_SORT:
                return a[0]
            x = a[0].t
            return Sym(core.z3.If(x >= 0, core.z3.ToInt(x), -core.z3.ToInt(-x)))
        if a and isinstance(a[0], SymBool):
            return a[0]._n()
        return _int(*a)


class symint(_int, metaclass=_IntMeta):
    pass


def symround(x, n=None):
    return _round(x, n) if n is not None else _round(x)


SHADOW = {'float': symfloat, 'int': symint}


def install_shadows():
    for name, m in list(sys.modules.items()):
        if name == 'pymnet' or name.startswith('pymnet.'):
            if m is None or '.tests' in name:
                continue
            for k, v in SHADOW.items():
                m.__dict__.setdefault(k, v)


def remove_shadows():
    for name, m in list(sys.modules.items()):
        if name == 'pymnet' or name.startswith('pymnet.'):
            if m is None:
                continue
            for k, v in SHADOW.items():
                if m.__dict__.get(k) is v:
                    del m.__dict__[k]


# ------------------------------------------------------------------ json

def plain(x):
    """x with symbolic numbers replaced by the numbers that stand for them in texts."""
    if isinstance(x, Sym):
        return _int(core.CTX.token(x))
    if isinstance(x, Fraction):
        return _float(x)
    if isinstance(x, dict):
        return {plain(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def install_json():
    import json
    for n in ('dumps', 'dump'):
        def f(obj, *a, _o=getattr(json, n), **k):
            return _o(plain(obj) if core.CTX is not None else obj, *a, **k)
        setattr(json, n, f)


# ------------------------------------------------------------------ numpy

def install_numpy():
    """numpy arrays that receive symbolic entries are given dtype object."""
    import numpy
    oz = numpy.zeros

    class IntArray(numpy.ndarray):
        """Entries are truncated, as in an array of integers."""
        def __setitem__(self, key, value):
            if core.is_sym(value) or isinstance(value, (_int, _float)):
                value = symint(value)
            numpy.ndarray.__setitem__(self, key, value)

    def zeros(shape, dtype=float, *a, **k):
        if isinstance(core.CTX, core.SymCtx) and dtype in (_float, symfloat, 'float', 'float64', numpy.float64):
            r = oz(shape, dtype=object)
            return r
        if isinstance(core.CTX, core.SymCtx) and dtype in (_int, symint, 'int', 'int64', 'i', numpy.int64, numpy.int32):
            return oz(shape, dtype=object).view(IntArray)
        return oz(shape, dtype, *a, **k)
    numpy.zeros = zeros
    FL = (None, _float, symfloat, 'float', 'float64', 'd', numpy.float64)

    def wrap(name):
        o = getattr(numpy, name)
        def f(*a, **k):
            if isinstance(core.CTX, core.SymCtx) and len(a) <= (2 if name == 'full' else 1) and k.get('dtype') in FL:
                k = dict(k, dtype=object)
            return o(*a, **k)
        f.__name__ = name
        setattr(numpy, name, f)
    for n in ('empty', 'full', 'ones'):
        wrap(n)

    def wrapa(name):
        o = getattr(numpy, name)
        def f(x, *a, **k):
            if isinstance(core.CTX, core.SymCtx) and (k.get('dtype') in FL) and not a and core.is_seq_sym(x):
                k = dict(k, dtype=object)
            return o(x, *a, **k)
        f.__name__ = name
        setattr(numpy, name, f)
    for n in ('array', 'asarray', 'fromiter'):
        wrapa(n)
    ol = numpy.linspace

    def linspace(start, stop, num=50, *a, **k):
        if isinstance(core.CTX, core.SymCtx) and (core.is_sym(start) or core.is_sym(stop)) and not a and not k:
            r = numpy.empty(num, dtype=object)
            for i in range(num):
                r[i] = start + (stop - start) * i / (num - 1) if num > 1 else start
            return r
        return ol(start, stop, num, *a, **k)
    numpy.linspace = linspace


def load():
    install_stdlib()
    install_json()
    install_numpy()
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter('ignore')
    import importlib.util
    if importlib.util.find_spec('PyBliss') is None:
        from . import pybliss
        sys.modules['PyBliss'] = pybliss
    import pymnet
    got = os.path.dirname(os.path.abspath(pymnet.__file__))
    assert got == os.path.join(REPO, 'pymnet'), got
    for m in pkgutil.walk_packages(pymnet.__path__, 'pymnet.', onerror=lambda n: None):
        if m.name.startswith(('pymnet.tests', 'pymnet.benchmarks')):
            continue
        importlib.import_module(m.name)
    return pymnet
