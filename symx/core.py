"""Symbolic values, path exploration and obligations.

The code under test runs natively in CPython.  Its inputs are proxy objects around z3
terms: arithmetic builds terms, comparisons build SymBool terms, and whenever the code
asks for the truth value of a SymBool the engine asks z3 which outcomes are feasible
under the current path condition and explores each feasible one (depth-first, by
re-execution along a recorded decision prefix).  Obligations are discharged by z3 over
all values that follow the path; a satisfiable negation gives a model, which is replayed
with ordinary python values on the same harness.
"""
import sys, time, signal
from fractions import Fraction
import z3

z3.set_param('smt.random_seed', 0)


class EngineSignal(BaseException):
    pass


class PathCut(EngineSignal):
    """The rest of this path is outside the stated bounds."""


class PathInfeasible(EngineSignal):
    pass


class PathTimeout(EngineSignal):
    pass


class CheckFailed(EngineSignal):
    """Raised in concrete replay when an obligation is false."""
    def __init__(self, label, detail=""):
        self.label = label
        self.detail = detail


class Inconclusive(EngineSignal):
    def __init__(self, why):
        self.why = why


# ---------------------------------------------------------------- values

CTX = None  # current context: SymCtx, ConcreteCtx or None


def _is_num(x):
    return isinstance(x, (int, float, Fraction)) and not isinstance(x, complex)


def _numpy_scalar(x):
    return type(x).__module__ == 'numpy' and hasattr(x, 'item') and getattr(x, 'shape', None) == ()


def to_term(x):
    """z3 arithmetic term for x, or None when x is not numeric."""
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return None
        f = Fraction(x)
        g = f.limit_denominator(10 ** 6)
        if abs(float(g) - x) < 1e-12:  # 0.1 means one tenth: floats stand for reals
            f = g
        return z3.RealVal(f)
    if _numpy_scalar(x):
        return to_term(x.item())
    return None


def _coerce(a, b):
    if a.sort() == b.sort():
        return a, b
    if a.sort().kind() == z3.Z3_INT_SORT:
        a = z3.ToReal(a)
    if b.sort().kind() == z3.Z3_INT_SORT:
        b = z3.ToReal(b)
    return a, b


def _is_zero(t):
    return z3.is_int_value(t) and t.as_long() == 0 or z3.is_rational_value(t) and t.numerator_as_long() == 0


def _is_one(t):
    return z3.is_int_value(t) and t.as_long() == 1 or \
        z3.is_rational_value(t) and t.numerator_as_long() == 1 and t.denominator_as_long() == 1


class SymBool(object):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return CTX.branch(self.t)

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.t == o.t)
        if isinstance(o, bool):
            return SymBool(self.t if o else z3.Not(self.t))
        t = to_term(o)
        if t is None:
            return NotImplemented
        return _cmp('==', to_term(self), t)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else SymBool(z3.Not(r.t))

    def __and__(self, o):
        return And(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        return Or(And(self, Not(o)), And(Not(self), o))
    __rxor__ = __xor__

    def __invert__(self):
        return Not(self)

    def _n(self):
        return Sym(to_term(self))

    def __add__(self, o): return self._n() + o
    def __radd__(self, o): return o + self._n()
    def __sub__(self, o): return self._n() - o
    def __rsub__(self, o): return o - self._n()
    def __mul__(self, o): return self._n() * o
    __rmul__ = __mul__
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __float__(self): return float(bool(self))
    def __lt__(self, o): return self._n() < o
    def __le__(self, o): return self._n() <= o
    def __gt__(self, o): return self._n() > o
    def __ge__(self, o): return self._n() >= o
    def __str__(self): return str(bool(self))
    def __repr__(self): return 'SymBool(%s)' % self.t


def _cmp(op, a, b):
    a, b = _coerce(a, b)
    if op == '==':
        return SymBool(a == b)
    if op == '<':
        return SymBool(a < b)
    return SymBool(a <= b)


def _untoken(tok):
    """A symbolic value pickled on this path."""
    return CTX.tokens[tok]


class Sym(object):
    """A symbolic int (Int sort) or number (Real sort)."""
    __slots__ = ('t',)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    # comparisons -------------------------------------------------
    def __eq__(self, o):
        if self is o:
            return True
        b = to_term(o)
        if b is None:
            return NotImplemented
        if self.t.eq(b):
            return True
        return CTX.eq_cached(self.t, b)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        if isinstance(r, bool):
            return not r
        return SymBool(z3.Not(r.t))

    def __hash__(self):
        return 7

    def _c(self, o, f):
        b = to_term(o)
        if b is None:
            if isinstance(o, float) and o == o:  # +-inf
                return f(0, 1) if o > 0 else f(0, -1)
            return NotImplemented
        a, b = _coerce(self.t, b)
        return SymBool(f(a, b))

    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)

    def __bool__(self):
        return CTX.branch(self.t != (z3.IntVal(0) if self.t.sort().kind() == z3.Z3_INT_SORT else z3.RealVal(0)))

    # arithmetic --------------------------------------------------
    def __add__(self, o):
        b = to_term(o)
        if b is None:
            return NotImplemented
        if _is_zero(b):
            return self
        a, b = _coerce(self.t, b)
        return Sym(a + b)

    def __radd__(self, o):
        b = to_term(o)
        if b is None:
            return NotImplemented
        if _is_zero(b):
            return self
        a, b = _coerce(self.t, b)
        return Sym(b + a)

    def __sub__(self, o):
        b = to_term(o)
        if b is None:
            return NotImplemented
        if _is_zero(b):
            return self
        a, b = _coerce(self.t, b)
        return Sym(a - b)

    def __rsub__(self, o):
        b = to_term(o)
        if b is None:
            return NotImplemented
        a, b = _coerce(self.t, b)
        return Sym(b - a)

    def __mul__(self, o):
        b = to_term(o)
        if b is None:
            return NotImplemented
        if _is_one(b):
            return self
        if _is_zero(b):
            return 0
        a, b = _coerce(self.t, b)
        return Sym(a * b)
    __rmul__ = __mul__

    @staticmethod
    def _div(a, b):
        if CTX.branch(b == 0):
            raise ZeroDivisionError("division by zero")
        if a.sort().kind() == z3.Z3_INT_SORT:
            a = z3.ToReal(a)
        if b.sort().kind() == z3.Z3_INT_SORT:
            b = z3.ToReal(b)
        return Sym(a / b)

    def __truediv__(self, o):
        b = to_term(o)
        if b is None:
            return NotImplemented
        if _is_one(b):
            return self
        return Sym._div(self.t, b)

    def __rtruediv__(self, o):
        b = to_term(o)
        if b is None:
            return NotImplemented
        return Sym._div(b, self.t)

    @staticmethod
    def _floordiv(a, b):
        if CTX.branch(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if a.sort().kind() == z3.Z3_INT_SORT and b.sort().kind() == z3.Z3_INT_SORT:
            # z3 div rounds so that the remainder is nonnegative; python floors
            q = z3.If(b > 0, a / b, (-a) / (-b))
            return q
        a, b = _coerce(a, b)
        return z3.ToReal(z3.ToInt(a / b))

    def __floordiv__(self, o):
        b = to_term(o)
        if b is None:
            return NotImplemented
        return Sym(Sym._floordiv(self.t, b))

    def __rfloordiv__(self, o):
        b = to_term(o)
        if b is None:
            return NotImplemented
        return Sym(Sym._floordiv(b, self.t))

    def __mod__(self, o):
        b = to_term(o)
        if b is None:
            return NotImplemented
        q = Sym._floordiv(self.t, b)
        a, b2 = _coerce(self.t, b)
        q, b2 = _coerce(q, b2)
        return Sym(a) - Sym(q * b2)

    def __rmod__(self, o):
        b = to_term(o)
        if b is None:
            return NotImplemented
        return Sym(b).__mod__(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if isinstance(o, float) and o == int(o):
            o = int(o)
        if isinstance(o, int):
            if o == 0:
                return 1
            r = self
            for _ in range(abs(o) - 1):
                r = r * self
            return r if o > 0 else 1 / r
        if o == 0.5:
            return CTX.sqrt(self)
        if isinstance(o, Fraction) or isinstance(o, float):
            f = Fraction(o).limit_denominator(100)
            if f == Fraction(1, 3):
                return CTX.cbrt(self)
        raise Inconclusive("power with exponent %r" % (o,))

    def __neg__(self): return Sym(-self.t)
    def __pos__(self): return self
    def __abs__(self): return Sym(z3.If(self.t >= 0, self.t, -self.t))

    # conversions -------------------------------------------------
    def __index__(self):
        if self.t.sort().kind() != z3.Z3_INT_SORT:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return CTX.concretise(self.t)

    def __int__(self):
        if self.t.sort().kind() == z3.Z3_INT_SORT:
            return CTX.concretise(self.t)
        x = self.t
        return CTX.concretise(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))

    __trunc__ = __int__

    def __float__(self):
        v = CTX.pin(self.t)
        return float(v)

    def __floor__(self):
        if self.t.sort().kind() == z3.Z3_INT_SORT:
            return self
        return Sym(z3.ToInt(self.t))

    def __ceil__(self):
        if self.t.sort().kind() == z3.Z3_INT_SORT:
            return self
        return Sym(-z3.ToInt(-self.t))

    def __round__(self, n=None):
        if n is None:         # half to even
            f = Sym(z3.ToInt(self.t))
            r = self - f
            return Ite(Or(r < 0.5, And(eqt(r, 0.5), eqt(f % 2, 0))), f, f + 1) if self.t.sort().kind() != z3.Z3_INT_SORT else self
        v = CTX.pin(self.t)
        return round(v, n) if n is not None else round(v)

    def conjugate(self):
        return self

    def sqrt(self):           # numpy.sqrt of an array of these
        return CTX.sqrt(self)

    def __str__(self):
        return CTX.token(self)

    def __format__(self, spec):
        return CTX.token(self)

    def __repr__(self):
        if CTX is not None and isinstance(CTX, SymCtx):
            return CTX.token(self)
        return 'Sym(%s)' % self.t

    def __reduce__(self):
        return _untoken, (CTX.token(self),)

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


# ---------------------------------------------------------------- generic logic helpers
# They work on python values (replay) and on symbolic values alike.

def is_sym(x):
    return isinstance(x, (Sym, SymBool))


def bterm(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, Sym):
        return x.t != 0
    return z3.BoolVal(bool(x))


def _flat(xs):
    if len(xs) == 1 and not isinstance(xs[0], (bool, SymBool)) and hasattr(xs[0], '__iter__'):
        return list(xs[0])
    return list(xs)


def is_seq_sym(x, depth=3):
    if is_sym(x):
        return True
    return depth > 0 and isinstance(x, (list, tuple)) and any(is_seq_sym(y, depth - 1) for y in x)


def And(*xs):
    out = []
    for x in _flat(xs):
        if isinstance(x, SymBool):
            out.append(x.t)
        elif not x:
            return False
    if not out:
        return True
    return SymBool(out[0] if len(out) == 1 else z3.And(out))


def Or(*xs):
    out = []
    for x in _flat(xs):
        if isinstance(x, SymBool):
            out.append(x.t)
        elif x:
            return True
    if not out:
        return False
    return SymBool(out[0] if len(out) == 1 else z3.Or(out))


def Not(x):
    if isinstance(x, SymBool):
        return SymBool(z3.Not(x.t))
    return not x


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if not is_sym(a) and not is_sym(b):
        return bool(a) == bool(b)
    return SymBool(bterm(a) == bterm(b))


def Ite(c, a, b):
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return SymBool(z3.If(c.t, bterm(a), bterm(b)))
    ta, tb = to_term(a), to_term(b)
    ta, tb = _coerce(ta, tb)
    if ta.eq(tb):
        return a
    return Sym(z3.If(c.t, ta, tb))


def Sum(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


def B2I(x):
    """0/1 value of a condition."""
    if isinstance(x, SymBool):
        return Sym(to_term(x))
    return int(bool(x))


def eqt(a, b):
    """Pure equality condition (never forks, no caching); tuples elementwise."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return And([eqt(x, y) for x, y in zip(a, b)])
    if not is_sym(a) and not is_sym(b):
        if isinstance(a, float) or isinstance(b, float) or _numpy_scalar(a) or _numpy_scalar(b):
            try:
                a, b = float(a), float(b)
            except (TypeError, ValueError):
                return bool(a == b)
            if a == b:
                return True
            return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))
        try:
            return bool(a == b)
        except Exception:
            return False
    if isinstance(a, SymBool) and isinstance(b, (SymBool, bool)) or isinstance(b, SymBool) and isinstance(a, bool):
        return Iff(a, b)
    ta, tb = to_term(a), to_term(b)
    if ta is None or tb is None:
        return False
    if ta.eq(tb):
        return True
    if CTX is not None and CTX.symbolic:
        v = CTX.known_eq(ta, tb)
        if v is not None:
            return v
    return _cmp('==', ta, tb)


def le(a, b):
    if not is_sym(a) and not is_sym(b):
        if isinstance(a, float) or isinstance(b, float):
            return a <= b + 1e-7 * max(1.0, abs(a), abs(b))
        return a <= b
    return a <= b


def Distinct(xs):
    xs = list(xs)
    return And([Not(eqt(xs[i], xs[j])) for i in range(len(xs)) for j in range(i)])


def In(x, xs):
    return Or([eqt(x, y) for y in xs])


def count_distinct(items):
    """Number of distinct values among (value, present-condition) pairs, as a term."""
    items = list(items)
    tot = 0
    for i, (v, c) in enumerate(items):
        first = And([Not(And(d, eqt(v, w))) for (w, d) in items[:i]])
        tot = tot + B2I(And(c, first))
    return tot


# ---------------------------------------------------------------- contexts

class Stats(object):
    FIELDS = ('paths', 'branches', 'forks', 'obligations', 'solver_obligations', 'trivial_obligations',
              'queries', 'inconclusive', 'cut', 'infeasible', 'pins', 'unknown', 'replays')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d['solver_s'] = self.solver_s
        return d


class BaseCtx(object):
    symbolic = False

    def fresh_name(self, hint):
        k = self.names.get(hint, 0)
        self.names[hint] = k + 1
        return '%s!%d' % (hint, k) if k else hint

    # ---- API used by harnesses in both modes
    And = staticmethod(And)
    Or = staticmethod(Or)
    Not = staticmethod(Not)
    Implies = staticmethod(Implies)
    Iff = staticmethod(Iff)
    Ite = staticmethod(Ite)
    Sum = staticmethod(Sum)
    B2I = staticmethod(B2I)
    eq = staticmethod(eqt)
    le = staticmethod(le)
    In = staticmethod(In)
    Distinct = staticmethod(Distinct)
    count_distinct = staticmethod(count_distinct)

    def label(self, hint='v', lo=None, hi=None):
        return self.int(hint, lo, hi)

    def labels(self, n, hint='n'):
        """n pairwise distinct labels."""
        ls = [self.label('%s%d' % (hint, i)) for i in range(n)]
        self.assume(Distinct(ls))
        return ls

    def ordered_labels(self, n, hint='n'):
        """n labels in increasing order (distinct; symmetry-reduced)."""
        ls = [self.label('%s%d' % (hint, i)) for i in range(n)]
        for a, b in zip(ls, ls[1:]):
            self.assume(a < b)
        return ls

    def weight(self, hint='w', positive=False, nonzero=False):
        w = self.real(hint)
        if positive:
            self.assume(w > 0)
        if nonzero:
            self.assume(Not(eqt(w, 0)))
        return w

    def choice(self, seq, hint='c'):
        seq = list(seq)
        i = self.int(hint, 0, len(seq) - 1)
        return seq[self.conc(i)]

    def perm(self, seq, hint='p'):
        """An arbitrary permutation of seq (a fork per outcome)."""
        rest = list(seq)
        out = []
        while rest:
            i = self.conc(self.int(hint, 0, len(rest) - 1)) if len(rest) > 1 else 0
            out.append(rest.pop(i))
        return out

    def same_set(self, got, want, label):
        """got (list, library output) and want: list of (value, present-condition).

        Obligation: the values in got are pairwise distinct, each wanted value that is
        present occurs in got, and each value in got is a wanted present one."""
        got = list(got)
        conds = [Distinct(got)]
        for v, c in want:
            conds.append(Implies(c, In(v, got)))
        for g in got:
            conds.append(Or([And(c, eqt(g, v)) for v, c in want]))
        self.check(And(conds), label)

    def raises(self, exc, fn, label):
        try:
            fn()
        except exc:
            self.check(True, label)
            return True
        self.check(False, label)
        return False


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, stats, deadline=None, obligation_timeout=8000):
        self.stats = stats
        self.solver = z3.Solver()
        self.solver.set('timeout', 4000)
        self.stack_n = 0  # entries currently pushed on the solver
        self.deadline = deadline
        self.ob_timeout = obligation_timeout
        self.violations = []
        self.notes = []

    # ---- path life cycle
    def start_path(self, prefix, keep):
        """prefix: decisions to follow; keep: solver entries to retain."""
        while self.stack_n > keep:
            self.solver.pop()
            self.stack_n -= 1
        self.pos = 0          # constraint entries seen on this path
        self.keep = keep
        self.prefix = prefix
        self.trace = []       # decisions: (kind, value, has_alternative)
        self.dpos_entry = []  # solver entries before each decision
        self.names = {}
        self.vars = []
        self.cache = {}
        self.uf = {}
        self.diseq = set()
        self.tokens = {}
        self.tokens_by_id = {}
        self.aux = {}
        self.pinned = 0
        self.path_obl = 0
        self.pending = []
        self.draws = self.shuffles = 0
        self.trusted = False   # becomes True once the prefix is exhausted

    def _push(self, c):
        if self.pos >= self.keep:
            self.solver.push()
            self.solver.add(c)
            self.stack_n += 1
        self.pos += 1

    def _check(self, *extra):
        self.stats.queries += 1
        t = time.time()
        if extra:
            self.solver.push()
            self.solver.add(*extra)
            r = self.solver.check()
            self.solver.pop()
        else:
            r = self.solver.check()
        self.stats.solver_s += time.time() - t
        return r

    def _feasible(self, c):
        r = self._check(c)
        if r == z3.unknown:
            self.stats.unknown += 1
            r = self._nl_check([c])
            if r == z3.unknown:
                return True  # explore it: sound, an infeasible path proves nothing wrong by itself
        return r == z3.sat

    def _nl_check(self, extra):
        s = z3.Solver()
        s.set('timeout', self.ob_timeout)
        s.add(self.solver.assertions())
        s.add(*extra)
        self.stats.queries += 1
        t = time.time()
        r = s.check()
        self.stats.solver_s += time.time() - t
        self._last_solver = s
        return r

    def assume(self, c):
        if isinstance(c, SymBool):
            self.flush()
            self._push(c.t)
            if self.pos > self.keep and len(self.trace) >= len(self.prefix):
                if self._check() == z3.unsat:
                    raise PathInfeasible()
        elif not c:
            raise PathInfeasible()

    def _find(self, t):
        i = t.get_id()
        while i in self.uf:
            i = self.uf[i]
        return i

    def known_eq(self, a, b):
        ra, rb = self._find(a), self._find(b)
        if ra == rb:
            return True
        if ((ra, rb) if ra < rb else (rb, ra)) in self.diseq:
            return False
        v = self.cache.get(('c', (a == b).get_id())) if a.sort() == b.sort() else None
        return v

    def eq_cached(self, a, b):
        """a == b, using what this path already decided."""
        ra, rb = self._find(a), self._find(b)
        if ra == rb:
            return True
        k = (ra, rb) if ra < rb else (rb, ra)
        if k in self.diseq:
            return False
        # keep the operands alive: ids are only unique among live terms
        self.aux[a.get_id()] = a
        self.aux[b.get_id()] = b
        r = _cmp('==', a, b)
        return SymEq(r.t, a, b)

    def _note_eq(self, a, b, v):
        ra, rb = self._find(a), self._find(b)
        if v:
            if ra != rb:
                lo, hi = min(ra, rb), max(ra, rb)
                self.uf[hi] = lo
                for k in [k for k in self.diseq if hi in k]:
                    o = k[0] if k[1] == hi else k[1]
                    self.diseq.add((min(o, lo), max(o, lo)))
        else:
            self.diseq.add((min(ra, rb), max(ra, rb)))

    def branch(self, c):
        self.stats.branches += 1
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        cid = ('c', c.get_id())
        v = self.cache.get(cid)
        if v is not None:
            return v
        self.aux[c.get_id()] = c
        n = len(self.trace)
        if n < len(self.prefix):
            kind, v, alt = self.prefix[n]
            assert kind == 'b', "nondeterministic harness"
            self.trace.append((kind, v, alt))
            self.dpos_entry.append(self.pos)
            self._push(c if v else z3.Not(c))
        else:
            if self.deadline and time.time() > self.deadline:
                raise PathTimeout("deadline")
            ft = self._feasible(c)
            ff = self._feasible(z3.Not(c)) if ft else True
            if ft and ff:
                self.stats.forks += 1
                v, alt = True, True
            else:
                v, alt = ft, False
            self.trace.append(('b', v, alt))
            self.dpos_entry.append(self.pos)
            self._push(c if v else z3.Not(c))
        self.cache[cid] = v
        return v

    def concretise(self, t):
        """Fork over every feasible value of an integer term."""
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        cid = ('k', t.get_id())
        if cid in self.cache:
            return self.cache[cid]
        self.aux[t.get_id()] = t
        tried = []
        while True:
            n = len(self.trace)
            if n < len(self.prefix):
                kind, v, alt = self.prefix[n]
                assert kind in ('k', 'x'), "nondeterministic harness"
                self.trace.append((kind, v, alt))
                self.dpos_entry.append(self.pos)
                if kind == 'k':
                    self._push(t == v)
                    self.cache[cid] = v
                    return v
                self._push(t != v)
                continue
            r = self._check()
            if r == z3.unsat:
                raise PathInfeasible()
            if r == z3.unknown:
                raise Inconclusive("solver gave no value for a term used as a concrete integer")
            v = self.solver.model().eval(t, model_completion=True).as_long()
            alt = self._feasible(t != v)
            if alt:
                self.stats.forks += 1
            self.trace.append(('k', v, alt))
            self.dpos_entry.append(self.pos)
            self._push(t == v)
            self.cache[cid] = v
            return v

    def conc(self, x):
        if isinstance(x, Sym):
            return self.concretise(x.t)
        return x

    def pin(self, t):
        """A value the code turned into a native float: the path continues for one
        value only and is reported as incomplete."""
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return Fraction(t.numerator_as_long(), t.denominator_as_long())
        self.stats.pins += 1
        self.pinned += 1
        n = len(self.trace)
        if n < len(self.prefix):
            kind, v, alt = self.prefix[n]
            assert kind == 'p'
        else:
            if self._check() != z3.sat:
                raise Inconclusive("solver gave no value for a term converted to float")
            v = _pyval(self.solver.model().eval(t, model_completion=True))
        self.trace.append(('p', v, False))
        self.dpos_entry.append(self.pos)
        self._push(t == to_term(v))
        return v

    def sqrt(self, x):
        k = ('sqrt', x.t.get_id())
        if k in self.cache:
            return self.cache[k]
        self.aux[x.t.get_id()] = x.t
        if bool(x < 0):
            raise ValueError("math domain error")
        r = z3.Real(self.fresh_name('sqrt'))
        xt = x.t if x.t.sort().kind() == z3.Z3_REAL_SORT else z3.ToReal(x.t)
        self._push(z3.And(r >= 0, r * r == xt))
        self.cache[k] = Sym(r)
        return self.cache[k]

    def cbrt(self, x):
        k = ('cbrt', x.t.get_id())
        if k in self.cache:
            return self.cache[k]
        self.aux[x.t.get_id()] = x.t
        if bool(x < 0):
            raise Inconclusive("cube root of a negative number")
        r = z3.Real(self.fresh_name('cbrt'))
        xt = x.t if x.t.sort().kind() == z3.Z3_REAL_SORT else z3.ToReal(x.t)
        self._push(z3.And(r >= 0, r * r * r == xt))
        self.cache[k] = Sym(r)
        return self.cache[k]

    def token(self, x):
        i = x.t.get_id()
        if i not in self.tokens_by_id:
            tok = '%d%04d' % (990000 + (7 if x.t.sort().kind() == z3.Z3_INT_SORT else 8), len(self.tokens))
            self.tokens_by_id[i] = tok
            self.tokens[tok] = x
            self.aux[i] = x.t
        return self.tokens_by_id[i]

    def untoken(self, s):
        """Sym for a string that is exactly a token, else None."""
        return self.tokens.get(s.strip()) if isinstance(s, str) else None

    # ---- inputs
    def int(self, hint='i', lo=None, hi=None):
        name = self.fresh_name(hint)
        v = z3.Int(name)
        self.vars.append((name, v))
        if lo is not None and lo == hi:
            self._push(v == lo)
            return Sym(v)
        if lo is not None:
            self._push(v >= lo)
        if hi is not None:
            self._push(v <= hi)
        return Sym(v)

    def real(self, hint='r'):
        name = self.fresh_name(hint)
        v = z3.Real(name)
        self.vars.append((name, v))
        return Sym(v)

    def bool(self, hint='b'):
        name = self.fresh_name(hint)
        v = z3.Bool(name)
        self.vars.append((name, v))
        return SymBool(v)

    def model_values(self, m):
        out = {}
        for name, v in self.vars:
            out[name] = _pyval(m.eval(v, model_completion=True))
        return out

    # ---- obligations
    def check(self, c, label):
        """Record an obligation.  Obligations are discharged in batches at the end of the path."""
        self.path_obl += 1
        self.stats.obligations += 1
        if not is_sym(c):
            self.stats.trivial_obligations += 1
            if c:
                return
            self.pending.append((z3.BoolVal(False), label))
            self.flush()
            return
        self.stats.solver_obligations += 1
        t = bterm(c)
        if z3.is_eq(t) and t.arg(0).sort().kind() == z3.Z3_REAL_SORT and z3.is_true(z3.simplify(t, som=True)):
            return              # equal as polynomials
        self.pending.append((t, label))
        if len(self.pending) >= 40:
            self.flush()

    def flush(self):
        p, self.pending = self.pending, []
        if not p:
            return
        if self._discharge(p) == z3.unknown:
            for one in p:
                if self._discharge([one]) == z3.unknown:
                    if self._discharge([one], True) == z3.unknown:
                        self.stats.unknown += 1
                        raise Inconclusive("solver gave up on obligation '%s'" % one[1])

    def _discharge(self, p, hard=False):
        self.stats.queries += 1
        t = time.time()
        nc = z3.Not(p[0][0]) if len(p) == 1 else z3.Not(z3.And([c for c, l in p]))
        if hard:
            s = z3.Solver()
            s.set('timeout', self.ob_timeout)
            s.add(self.solver.assertions())
            s.add(nc)
        else:
            s = self.solver
            s.push()
            s.add(nc)
        r = s.check()
        m = s.model() if r == z3.sat else None
        if not hard:
            s.pop()
        self.stats.solver_s += time.time() - t
        if r == z3.sat:
            label = p[0][1]
            for c, l in p:
                if not z3.is_true(m.eval(c, model_completion=True)):
                    label = l
                    break
            self.violations.append((label, self.model_values(m)))
            raise PathCut("violated")
        return r

    def witness(self):
        """Any model of the path condition (used to replay odd paths)."""
        r = self._check()
        if r == z3.sat:
            return self.model_values(self.solver.model())
        r = self._nl_check([])
        if r == z3.sat:
            return self.model_values(self._last_solver.model())
        return None


class SymEq(SymBool):
    __slots__ = ('a', 'b')

    def __init__(self, t, a, b):
        self.t = t
        self.a = a
        self.b = b

    def __bool__(self):
        v = CTX.branch(self.t)
        CTX._note_eq(self.a, self.b, v)
        return v


def _pyval(v):
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        return int(f) if f.denominator == 1 else f
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return 0


class ConcreteCtx(BaseCtx):
    """Replays a harness with ordinary python values on the unpatched code."""
    symbolic = False

    def __init__(self, values):
        self.values = values
        self.names = {}
        self.path_obl = 0
        self.used = []

    def _get(self, hint, default):
        name = self.fresh_name(hint)
        v = self.values.get(name, default)
        self.used.append((name, v))
        return v

    def int(self, hint='i', lo=None, hi=None):
        v = self._get(hint, lo if lo is not None else (hi if hi is not None else 0))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            v = lo if lo is not None else hi
        return v

    def real(self, hint='r'):
        return self._get(hint, 0)

    def bool(self, hint='b'):
        return self._get(hint, False)

    def conc(self, x):
        return x

    def assume(self, c):
        if not c:
            raise PathInfeasible()

    def check(self, c, label):
        self.path_obl += 1
        if not c:
            raise CheckFailed(label)

    def untoken(self, s):
        return None

    def sqrt(self, x):
        import math
        return math.sqrt(x)
