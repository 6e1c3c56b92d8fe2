"""pyvc core: symbolic values, path exploration, obligations.

Integers and floats of the verified code are mathematical integers and reals.
"""
import z3, time, itertools, threading
from fractions import Fraction

z3.set_param('smt.random_seed', 0)


class Unsupported(BaseException):
    """A construct outside the verifier's reach (never an alarm by itself)."""


SERIAL = itertools.count(1)


def born():
    return next(SERIAL)


class PathEnd(BaseException):
    """This path is infeasible or deliberately cut."""


class Failed(Exception):
    pass


# ---------------------------------------------------------------- numbers
def is_conc(x):
    return isinstance(x, (int, Fraction, float, bool))


def to_frac(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite float')
        return Fraction(repr(x))
    return x


def zval(x):
    """z3 arithmetic term of a number."""
    if isinstance(x, Num):
        return x.z
    if isinstance(x, SymBool):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    x = to_frac(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    try:
        import numpy as np
        if isinstance(x, np.generic):
            return zval(x.item())
    except ImportError:
        pass
    raise Unsupported('not a number: %r' % (x,))


def num_like(x):
    if isinstance(x, (Num, int, float, Fraction, SymBool)):
        return True
    try:
        import numpy as np
        return isinstance(x, np.generic) and not isinstance(x, np.ndarray)
    except ImportError:
        return False


def real(z):
    return z3.ToReal(z) if z.is_int() else z


def wrap(z):
    """Num from a z3 term (constants become Python numbers where exact)."""
    if z3.is_int_value(z):
        return z.as_long()
    if z3.is_rational_value(z):
        return Num(z)
    return Num(z)


def const_of(x):
    """Concrete int/Fraction of a number if it is one, else None."""
    if isinstance(x, Num):
        z = x.z
        if z3.is_int_value(z):
            return z.as_long()
        if z3.is_rational_value(z):
            return Fraction(z.numerator_as_long(), z.denominator_as_long())
        return None
    if is_conc(x):
        return to_frac(x)
    return None


UF = {}


def uf(name, *sorts):
    key = (name,) + tuple(str(s) for s in sorts)
    if key not in UF:
        UF[key] = z3.Function(name, *sorts)
    return UF[key]


R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()


def _arith(a, b):
    az, bz = zval(a), zval(b)
    if az.is_int() and bz.is_int():
        return az, bz
    return real(az), real(bz)


def _fold(op, a, b):
    ca, cb = const_of(a), const_of(b)
    if ca is None or cb is None:
        return None
    r = op(ca, cb)
    isint = isinstance(ca, int) and isinstance(cb, int) and isinstance(r, int)
    if isint:
        return r
    return Num(z3.RealVal(str(Fraction(r))))


class Num:
    __slots__ = ('z',)
    __array_priority__ = -1

    def __init__(self, z):
        self.z = z

    @property
    def is_int(self):
        return self.z.is_int()

    # -- arithmetic
    def __add__(self, o):
        if not num_like(o):
            return NotImplemented
        f = _fold(lambda x, y: x + y, self, o)
        if f is not None:
            return f
        if const_of(o) == 0:
            return self if not (self.is_int and not zval(o).is_int()) else Num(real(self.z))
        if const_of(self) == 0:
            return Num(zval(o)) if not (zval(o).is_int() and not self.is_int) else Num(real(zval(o)))
        a, b = _arith(self, o)
        return wrap(a + b)
    __radd__ = __add__

    def __sub__(self, o):
        if not num_like(o):
            return NotImplemented
        f = _fold(lambda x, y: x - y, self, o)
        if f is not None:
            return f
        a, b = _arith(self, o)
        return wrap(a - b)

    def __rsub__(self, o):
        if not num_like(o):
            return NotImplemented
        f = _fold(lambda x, y: x - y, o, self)
        if f is not None:
            return f
        a, b = _arith(o, self)
        return wrap(a - b)

    def __mul__(self, o):
        if not num_like(o):
            from . import seq
            if isinstance(o, seq.SList) or isinstance(o, list):
                return seq.rep(o, self)
            return NotImplemented
        f = _fold(lambda x, y: x * y, self, o)
        if f is not None:
            return f
        a, b = _arith(self, o)
        for x, y in ((self, b), (o, a)):
            c = const_of(x)
            if c == 1:
                return Num(y)
            if c == 0:
                return 0 if a.is_int() else Num(z3.RealVal(0))
        return wrap(a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if not num_like(o):
            return NotImplemented
        return div(self, o)

    def __rtruediv__(self, o):
        if not num_like(o):
            return NotImplemented
        return div(o, self)

    def __floordiv__(self, o):
        if not num_like(o):
            return NotImplemented
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        if not num_like(o):
            return NotImplemented
        return floordiv(o, self)

    def __mod__(self, o):
        if not num_like(o):
            return NotImplemented
        return mod(self, o)

    def __rmod__(self, o):
        if not num_like(o):
            return NotImplemented
        return mod(o, self)

    def __divmod__(self, o):
        return floordiv(self, o), mod(self, o)

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        return sabs(self)

    def __pow__(self, p):
        return power(self, p)

    def __rpow__(self, b):
        return power(b, self)

    # -- comparison
    def _cmp(self, o, f, g):
        if not num_like(o):
            return NotImplemented
        ca, cb = const_of(self), const_of(o)
        if ca is not None and cb is not None:
            return g(ca, cb)
        a, b = _arith(self, o)
        return sbool(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __hash__(self):
        return self.z.hash()

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        c = const_of(self)
        if isinstance(c, int):
            return c
        raise Unsupported('symbolic value used as a native index')

    def __int__(self):
        c = const_of(self)
        if c is not None:
            return int(c)
        raise Unsupported('native int() of a symbolic value')

    def __float__(self):
        c = const_of(self)
        if c is not None:
            return float(c)
        raise Unsupported('native float() of a symbolic value')

    def __round__(self, n=None):
        return sround(self, n)

    def __floor__(self):
        return sfloor(self)

    def __ceil__(self):
        return sceil(self)

    def __trunc__(self):
        return sint(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')

    def __repr__(self):
        return 'Num(%s)' % self.z

    def __str__(self):
        raise Unsupported('str() of a symbolic number outside of the model')

    def __format__(self, spec):
        raise Unsupported('format of a symbolic number')

    # numpy object-array protocol and numpy scalar methods
    def tolist(self):
        return self

    item = tolist

    def copy(self):
        return self

    def astype(self, *_a, **_k):
        return self

    @property
    def size(self):
        return 1

    def is_integer(self):
        if self.is_int:
            return True
        return sbool(z3.IsInt(self.z))

    def log(self):
        return fn('log', self)

    def exp(self):
        return fn('exp', self)

    def sqrt(self):
        return sqrt(self)

    def cos(self):
        return fn('cos', self)

    def sin(self):
        return fn('sin', self)

    def rint(self):
        return sround(self)

    def floor(self):
        return sfloor(self)

    def ceil(self):
        return sceil(self)

    def sign(self):
        z = self.z
        return wrap(z3.If(z > 0, z3.IntVal(1), z3.If(z < 0, z3.IntVal(-1), z3.IntVal(0))))

    def isnan(self):
        return False

    def isfinite(self):
        return True


def sbool(z):
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


class SymBool:
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return ctx().branch(self.z)

    def __and__(self, o):
        return sbool(z3.And(self.z, bz(o)))
    __rand__ = __and__

    def __or__(self, o):
        return sbool(z3.Or(self.z, bz(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return sbool(z3.Xor(self.z, bz(o)))

    def __invert__(self):
        return sbool(z3.Not(self.z))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return sbool(self.z == bz(o))
        return Num(zval(self)) == o

    def __ne__(self, o):
        return snot(self == o)

    def __hash__(self):
        return self.z.hash()

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return 'SymBool(%s)' % self.z

    def _n(self):
        return Num(zval(self))

    def __add__(self, o): return self._n() + o
    __radd__ = __add__
    def __sub__(self, o): return self._n() - o
    def __rsub__(self, o): return o - self._n()
    def __mul__(self, o): return self._n() * o
    __rmul__ = __mul__
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))


def bz(x):
    if z3.is_expr(x):
        return x
    if isinstance(x, SymBool):
        return x.z
    if isinstance(x, Num):
        return x.z != 0
    return z3.BoolVal(bool(x))


def snot(x):
    if isinstance(x, SymBool):
        return sbool(z3.Not(x.z))
    return not x


def sand(*xs):
    return sbool(z3.simplify(z3.And([bz(x) for x in xs]))) if xs else True


def ite(c, a, b):
    """Numeric if-then-else without forking."""
    if not isinstance(c, SymBool):
        return a if c else b
    za, zb = _arith(a, b)
    if za.eq(zb):
        return a
    return wrap(z3.If(c.z, za, zb))


def div(a, b):
    """Python true division; a zero divisor raises like the code would."""
    cb = const_of(b)
    if cb is not None:
        if cb == 0:
            raise ZeroDivisionError('division by zero')
        ca = const_of(a)
        if ca is not None:
            return Num(z3.RealVal(str(Fraction(ca) / Fraction(cb))))
        if cb == 1:
            return Num(real(zval(a)))
        return wrap(real(zval(a)) / real(zval(b)))
    zb = zval(b)
    c = _cur()
    if c is not None and c.checked_div and c.branch(zb == 0):
        raise ZeroDivisionError('division by zero')
    return wrap(real(zval(a)) / real(zb))


def floordiv(a, b):
    ca, cb = const_of(a), const_of(b)
    if ca is not None and cb is not None:
        if cb == 0:
            raise ZeroDivisionError()
        return ca // cb if isinstance(ca, int) and isinstance(cb, int) else Num(z3.RealVal(str(Fraction(ca // cb))))
    za, zb = zval(a), zval(b)
    if za.is_int() and isinstance(cb, int) and cb > 0:
        return wrap(za / zb)
    if za.is_int() and zb.is_int():
        if _cur() is not None and ctx().branch(zb == 0):
            raise ZeroDivisionError()
    q = div(a, b)
    r = sfloor(q)
    return r if za.is_int() and zb.is_int() else Num(real(zval(r)))


def mod(a, b):
    ca, cb = const_of(a), const_of(b)
    if ca is not None and cb is not None:
        if cb == 0:
            raise ZeroDivisionError()
        r = ca % cb
        return r if isinstance(r, int) else Num(z3.RealVal(str(Fraction(r))))
    za, zb = zval(a), zval(b)
    if za.is_int() and isinstance(cb, int) and cb > 0:
        return wrap(za % zb)
    return a - b * floordiv(a, b)


def sabs(x):
    c = const_of(x)
    if c is not None:
        return abs(c) if isinstance(c, int) else Num(z3.RealVal(str(abs(c))))
    z = zval(x)
    return wrap(z3.If(z >= 0, z, -z))


def sfloor(x):
    c = const_of(x)
    if c is not None:
        import math
        return math.floor(c)
    z = zval(x)
    return wrap(z) if z.is_int() else wrap(z3.ToInt(z))


def sceil(x):
    c = const_of(x)
    if c is not None:
        import math
        return math.ceil(c)
    z = zval(x)
    return wrap(z) if z.is_int() else wrap(-z3.ToInt(-z))


def sint(x):
    """int(): truncation towards zero."""
    c = const_of(x)
    if c is not None:
        return int(c)
    z = zval(x)
    if z.is_int():
        return wrap(z)
    # float value of an integer term
    if z.decl().kind() == z3.Z3_OP_TO_REAL:
        return wrap(z.arg(0))
    return wrap(z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z)))


def sfloat(x):
    if isinstance(x, str):
        return Num(z3.RealVal(str(Fraction(x))))
    c = const_of(x)
    if c is not None:
        return Num(z3.RealVal(str(Fraction(c))))
    return wrap(real(zval(x)))


def sround(x, n=None):
    z = zval(x)
    if n is not None:
        return Num(uf('round_%s' % n, R, R)(real(z)))
    c = const_of(x)
    if c is not None:
        return round(c)
    if z.is_int():
        return wrap(z)
    f = z3.ToInt(z)
    d = z - z3.ToReal(f)
    half = z3.Q(1, 2)
    return wrap(z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1))))


def smax2(a, b):
    ca, cb = const_of(a), const_of(b)
    if ca is not None and cb is not None:
        return a if ca >= cb else b
    x, y = _arith(a, b)
    return wrap(z3.If(y > x, y, x))


def smin2(a, b):
    ca, cb = const_of(a), const_of(b)
    if ca is not None and cb is not None:
        return a if ca <= cb else b
    x, y = _arith(a, b)
    return wrap(z3.If(y < x, y, x))


def power(a, p):
    cp, ca = const_of(p), const_of(a)
    if cp is not None and ca is not None and isinstance(cp, int):
        r = Fraction(ca) ** cp
        if isinstance(ca, int) and cp >= 0:
            return int(r)
        return Num(z3.RealVal(str(r)))
    if cp is not None and cp == int(cp):
        n = int(cp)
        if 0 <= n <= 6:
            if n == 0:
                return 1
            r = a
            for _ in range(n - 1):
                r = r * a
            return r
        if -6 <= n < 0:
            return div(1, power(a, -n))
    if cp == Fraction(1, 2):
        return sqrt(a)
    return Num(uf('pow', R, R, R)(real(zval(a)), real(zval(p))))


def sqrt(x):
    c = _cur()
    z = real(zval(x))
    s = uf('sqrt', R, R)(z)
    if c is not None:
        c.axiom(z3.Implies(z >= 0, z3.And(s >= 0, s * s == z)))
    return Num(s)


def fn(name, x):
    """Uninterpreted elementary function with a few sound axioms."""
    z = real(zval(x))
    t = uf(name, R, R)(z)
    c = _cur()
    if c is not None:
        if name == 'exp':
            c.axiom(t > 0)
            c.axiom(z3.And(z3.Implies(z > 0, t > 1), z3.Implies(z < 0, t < 1), z3.Implies(z == 0, t == 1)))
        elif name == 'log':
            c.axiom(z3.And(z3.Implies(z > 1, t > 0), z3.Implies(z == 1, t == 0),
                           z3.Implies(z3.And(z > 0, z < 1), t < 0)))
            c.log_monotone(z, t)
        elif name in ('cos', 'sin'):
            c.axiom(z3.And(t >= -1, t <= 1))
            cs, sn = uf('cos', R, R)(z), uf('sin', R, R)(z)
            c.axiom(cs * cs + sn * sn == 1)
    return Num(t)


# ---------------------------------------------------------------- context
_tls = threading.local()
ENV = []        # substitutions under which a value is being read (innermost last)


def there(f):
    """A formula met while a value of a generic iteration is read at another
    index is about that index."""
    for pairs in reversed(ENV):
        f = z3.substitute(f, *pairs)
    return f



def _cur():
    st = getattr(_tls, 'stack', None)
    return st[-1] if st else None


def ctx():
    c = _cur()
    if c is None:
        raise Unsupported('no verification context')
    return c


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.by = {}

    def add(self, backend, dt):
        self.queries += 1
        self.solver_s += dt
        self.by[backend] = self.by.get(backend, 0) + 1


STATS = Stats()
ASSUMED = []   # contracts assumed on code that is not verified here
FEAS_RLIMIT = 400000
FEAS_MS = 2000


class Ctx:
    """One path: condition, decisions, undo log, obligations."""

    def __init__(self, prefix=(), parent=None, report=None):
        self.parent = parent
        self.prefix = list(prefix)
        self.decisions = []
        self.pending = []
        self.pc = []
        self.pch = 0
        self.axioms = set()
        self.axioms_keep = []
        self.solver = z3.Solver()
        self.solver.set('rlimit', FEAS_RLIMIT)
        self.solver.set('timeout', FEAS_MS)
        self.solver.set('mbqi', False)
        self.counter = parent.counter if parent else itertools.count()
        self.loopvars = list(parent.loopvars) if parent else []
        self.conds = []
        self.assumed = []
        self.known = set()
        self.report = report if report is not None else (parent.report if parent else None)
        self.undo = parent.undo if parent else []
        self.checked_div = parent.checked_div if parent else True
        self.loopcache = parent.loopcache if parent else {}
        self.logterms = list(parent.logterms) if parent else []
        self.sums = list(parent.sums) if parent else []
        self.foralls = list(parent.foralls) if parent else []
        self.cfg = parent.cfg if parent else {}
        self.quiet = parent.quiet if parent else False
        self.trace = list(parent.trace) if parent else []
        self.store = dict(parent.store) if parent else {}
        if parent:
            for f in parent.pc:
                self._assert(f)
            for f in parent.axioms_keep:
                self.axiom(f)

    # -- facts
    def _assert(self, f):
        self.pc.append(f)
        self.pch = hash((self.pch, f.hash()))
        self.solver.add(f)

    def assume(self, f):
        f = bz(f) if not z3.is_expr(f) else f
        f = there(f)
        if z3.is_true(f):
            return
        k = f.get_id()
        if k in self.known:
            return
        self.known.add(k)
        self.assumed.append((len(self.conds), f))
        self._assert(f)

    def axiom(self, f):
        f = there(f)
        k = f.get_id()
        if k not in self.axioms:
            self.axioms.add(k)
            self.axioms_keep.append(f)
            self.solver.add(f)

    def log_monotone(self, z, t):
        for (z2, t2) in self.logterms:
            if z2.eq(z):
                return
        for (z2, t2) in self.logterms[-6:]:
            self.axiom(z3.Implies(z3.And(z > 0, z2 > 0), z3.And((z < z2) == (t < t2), (z == z2) == (t == t2))))
        self.logterms.append((z, t))

    def facts(self):
        return self.pc + self.axioms_keep

    # -- fresh symbols (deterministic per path)
    def fresh(self, name, sort=R):
        nm = '%s!%s' % (name, next(self.counter))
        if self.loopvars:
            # a function of the enclosing generic iterations
            return uf(nm, *([I] * len(self.loopvars) + [sort]))(*self.loopvars)
        return z3.Const(nm, sort)

    def freshfun(self, name, *sorts):
        """A fresh function (also of the enclosing generic iterations)."""
        nm = '%s!%s' % (name, next(self.counter))
        lv = list(self.loopvars)
        f = uf(nm, *(list(sorts[:-1]) + [I] * len(lv) + [sorts[-1]]))
        return lambda *a: f(*(list(a) + lv))

    def real(self, name):
        return Num(self.fresh(name, R))

    def int(self, name):
        return Num(self.fresh(name, I))

    # -- branching
    def feasible(self, f):
        return self.possible(there(f))

    def possible(self, f):
        t0 = time.time()
        self.solver.push()
        self.solver.add(f)
        r = self.solver.check()
        self.solver.pop()
        STATS.add('z3(path)', time.time() - t0)
        if r == z3.unknown and nonlinear(simple(f))[2] and linear(self.facts() + [f], 300, only_floors=True):
            return False
        return r != z3.unsat

    def key(self):
        return (getattr(self.counter, 'prefix', ''), tuple(self.decisions)) + (self.parent.key() if self.parent is not None else ())

    def branch(self, cond):
        cond = z3.simplify(there(cond))
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        n = len(self.decisions)
        if n < len(self.prefix):
            d = self.prefix[n]
        else:
            # (replays are deterministic: what was found is kept)
            key = ('branch', len(self.pc), self.pch, cond.hash(), self.key()) if self.parent is not None else None
            d = self.loopcache.get(key) if key is not None else None
            if d is None:
                if not self.possible(cond):
                    d = ('f',)
                elif not self.possible(z3.Not(cond)):
                    d = ('t',)
                else:
                    d = (True,)
                if key is not None:
                    self.loopcache[key] = d
            if d == (True,):
                self.pending.append(self.decisions + [(False,)])
                if len(self.decisions) > 400:
                    raise Unsupported('too many branches on one path')
        self.decisions.append(d)
        val = d[0] in (True, 't')
        if len(d) == 1 and d[0] in (True, False):
            lit = cond if val else z3.Not(cond)
            self.conds.append(lit)
            self._assert(lit)
        return val

    def choose(self, n, label=''):
        """Non-deterministic choice among n alternatives."""
        k = len(self.decisions)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            d = ('c', 0)
            for j in range(1, n):
                self.pending.append(self.decisions + [('c', j)])
        self.decisions.append(d)
        if self.loopvars:
            lit = self.fresh('choice', I) == d[1]
            self.conds.append(lit)
            self._assert(lit)
        return d[1]

    # -- obligations
    def prove(self, name, f, hint=None, facts=()):
        f = bz(f) if not z3.is_expr(f) else f
        if self.quiet or self.report is None:
            return
        self.report.check(self, name, there(f), list(facts))

    def valid(self, f, ms=3000, facts=()):
        """Used inside the engine for inference; True only if proved."""
        f = bz(f) if not z3.is_expr(f) else f
        f = z3.simplify(there(f))
        if z3.is_true(f):
            return True
        r, _, _ = solve(self.facts() + list(facts), z3.Not(f), ms, quick=True)
        return r == 'unsat'


def solve(facts, negated_goal, ms=10000, quick=False):
    """Portfolio. Returns (result, backend, model)."""
    plain = [f for f in facts if not quantified(f)]
    nl = any(nonlinear(f)[1] for f in plain + [negated_goal])
    if nl or len(plain) < len(facts):
        # without the quantified facts; with products as unknowns
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', min(ms, 250 if nl and len(plain) == len(facts) else 800))
        s.add(plain)
        s.add(negated_goal)
        r = s.check()
        STATS.add('z3', time.time() - t0)
        if r == z3.unsat:
            return 'unsat', 'z3', None
        if r == z3.sat and len(plain) == len(facts):
            return 'sat', 'z3', s.model()
        if r == z3.unknown and nl and linear(plain + [negated_goal], min(ms, 600)):
            return 'unsat', 'z3', None
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', min(ms, 2500 if not quick else ms))
    s.add(facts)
    s.add(negated_goal)
    r = s.check()
    STATS.add('z3', time.time() - t0)
    if r == z3.unsat:
        return 'unsat', 'z3', None
    if r == z3.sat:
        return 'sat', 'z3', s.model()
    if quick:
        t0 = time.time()
        r2 = relaxed_nlsat(facts, negated_goal, min(ms, 1500))
        STATS.add('z3-nlsat', time.time() - t0)
        if r2 == 'unsat':
            return 'unsat', 'z3-nlsat', None
        return 'unknown', 'z3', None
    t0 = time.time()
    r2 = relaxed_nlsat(facts, negated_goal, ms)
    STATS.add('z3-nlsat', time.time() - t0)
    if r2 == 'unsat':
        return 'unsat', 'z3-nlsat', None
    t0 = time.time()
    r3 = cvc5_check(facts, negated_goal, ms)
    STATS.add('cvc5', time.time() - t0)
    if r3 == 'unsat':
        return 'unsat', 'cvc5', None
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', ms)
    s.set('random_seed', 7)
    s.set('arith.solver', 6)
    s.add(facts)
    s.add(negated_goal)
    r = s.check()
    STATS.add('z3', time.time() - t0)
    if r == z3.unsat:
        return 'unsat', 'z3', None
    if r == z3.sat:
        return 'sat', 'z3', s.model()
    return 'unknown', 'portfolio', None


NONLIN = {}


def nonlinear(f):
    """(products or quotients of unknowns?, floors of such?)"""
    k = f.get_id()
    r = NONLIN.get(k)
    if r is None or not r[0].eq(f):
        seen, todo, nl, fl = set(), [f], False, False
        while todo:
            x = todo.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            kind, ch = x.decl().kind(), x.children()
            val = lambda y: z3.is_rational_value(y) or z3.is_int_value(y)
            if kind == z3.Z3_OP_MUL and len([y for y in ch if not val(y)]) >= 2 or kind in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not val(ch[1]):
                nl = True
            if kind == z3.Z3_OP_TO_INT and nonlinear(ch[0])[1]:
                fl = True
            todo.extend(ch)
        NONLIN[k] = r = (f, nl, fl)
    return r


SIMPLE = {}


def simple(f):
    k = f.get_id()
    r = SIMPLE.get(k)
    if r is None or not r[0].eq(f):
        SIMPLE[k] = r = (f, z3.simplify(f))
    return r[1]


def linear(fs, ms, only_floors=False):
    """Is it infeasible already with products as unknowns?"""
    t0 = time.time()
    fs = [simple(f) for f in fs if not quantified(f)]
    how = [nonlinear(f) for f in fs]
    if not any(h[2] if only_floors else h[1] for h in how):
        return False
    lin = Linear()
    ps = [lin.of(f) for f in fs]
    fl = floors(ps) if any(h[2] for h in how) else []
    s = z3.Solver()
    s.set('timeout', ms)
    s.add(ps + fl)
    r = s.check()
    STATS.add('z3', time.time() - t0)
    return r == z3.unsat


class Linear:
    """Products and quotients of unknowns as unknowns of their own (sound
    for unsat)."""

    def __init__(self):
        self.memo = {}
        self.vars = {}
        self.used = False

    def var(self, key, sort):
        if key not in self.vars:
            self.used = True
            self.vars[key] = z3.Const('!nl%d' % len(self.vars), sort)
        return self.vars[key]

    def of(self, t):
        k = t.get_id()
        if k in self.memo:
            return self.memo[k][1]
        r = self._of(t)
        self.memo[k] = (t, r)
        return r

    def _of(self, t):
        if not z3.is_app(t) or t.num_args() == 0:
            return t
        kind = t.decl().kind()
        ch = t.children()
        if kind == z3.Z3_OP_MUL:
            num = [x for x in ch if z3.is_rational_value(x) or z3.is_int_value(x)]
            rest = [x for x in ch if not (z3.is_rational_value(x) or z3.is_int_value(x))]
            if len(rest) >= 2:
                v = self.var(('*',) + tuple(sorted(self.of(x).get_id() for x in rest)), t.sort())
                return z3.Product(num + [v]) if num else v
        if kind in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not (z3.is_rational_value(ch[1]) or z3.is_int_value(ch[1])):
            return self.var((kind, self.of(ch[0]).get_id(), self.of(ch[1]).get_id()), t.sort())
        new = [self.of(x) for x in ch]
        if all(a is b or a.eq(b) for a, b in zip(new, ch)):
            return t
        if kind == z3.Z3_OP_AND:
            return z3.And(new)
        if kind == z3.Z3_OP_OR:
            return z3.Or(new)
        if kind == z3.Z3_OP_ADD:
            return z3.Sum(new)
        if kind == z3.Z3_OP_MUL:
            return z3.Product(new)
        return t.decl()(*new)


def floors(fs):
    """floor(x) >= n iff x >= n, for the floors and whole numbers that occur."""
    seen, todo, fl, ns = set(), list(fs), {}, {}
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        k = x.decl().kind()
        if k == z3.Z3_OP_TO_INT:
            fl[x.get_id()] = x
        elif k == z3.Z3_OP_TO_REAL and not z3.is_int_value(x.arg(0)):
            ns[x.arg(0).get_id()] = x.arg(0)
        todo.extend(x.children())
    out = []
    for x in list(fl.values())[:12]:
        for n in list(ns.values())[:12]:
            if n.get_id() != x.get_id():
                out.append((x >= n) == (x.arg(0) >= z3.ToReal(n)))
                out.append((x >= -n) == (x.arg(0) >= -z3.ToReal(n)))
    return out


QUANT = {}


def quantified(f):
    k = f.get_id()
    r = QUANT.get(k)
    if r is None or not r[0].eq(f):
        seen, todo, q = set(), [f], False
        while todo and not q:
            x = todo.pop()
            if z3.is_quantifier(x):
                q = True
            elif x.get_id() not in seen:
                seen.add(x.get_id())
                todo.extend(x.children())
        QUANT[k] = r = (f, q)
    return r[1]


def relaxed_nlsat(facts, ng, ms):
    """Sound for unsat: integers relaxed to reals (strict integer
    inequalities tightened first), floors and UFs replaced by variables."""
    try:
        g = z3.Goal()
        purify = Purify()
        for f in list(facts) + [ng]:
            g.add(purify.form(f))
        for s in purify.side:
            g.add(s)
        s = z3.Tactic('qfnra-nlsat').solver()
        s.set('timeout', ms)
        for f in g:
            s.add(f)
        r = s.check()
        return str(r)
    except (z3.Z3Exception, Unsupported, RecursionError):
        return 'unknown'


class Purify:
    def __init__(self):
        self.memo = {}
        self.side = []
        self.ufs = {}
        self.n = 0

    def var(self, p='u'):
        self.n += 1
        return z3.Real('!%s%d' % (p, self.n))

    def term(self, t):
        k = t.get_id()
        if k in self.memo:
            return self.memo[k][1]
        r = self._term(t)
        self.memo[k] = (t, r)
        return r

    def _term(self, t):
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        if z3.is_rational_value(t):
            return t
        d = t.decl()
        kind = d.kind()
        ch = t.children()
        if kind == z3.Z3_OP_TO_REAL:
            return self.term(ch[0])
        if kind == z3.Z3_OP_UNINTERPRETED and not ch:
            return z3.Real('!v_' + d.name())
        if kind == z3.Z3_OP_TO_INT:
            x = self.term(ch[0])
            v = self.var('fl')
            self.side += [v <= x, x < v + 1]
            return v
        if kind == z3.Z3_OP_ITE:
            c = self.form(ch[0])
            v = self.var('ite')
            self.side += [z3.Implies(c, v == self.term(ch[1])), z3.Implies(z3.Not(c), v == self.term(ch[2]))]
            return v
        if kind in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            a = [self.term(c) for c in ch]
            if kind == z3.Z3_OP_ADD:
                return z3.Sum(a)
            if kind == z3.Z3_OP_MUL:
                return z3.Product(a)
            if kind == z3.Z3_OP_UMINUS:
                return -a[0]
            r = a[0]
            for x in a[1:]:
                r = r - x
            return r
        if kind == z3.Z3_OP_DIV:
            a, b = self.term(ch[0]), self.term(ch[1])
            v = self.var('q')
            self.side.append(z3.Implies(b != 0, v * b == a))
            return v
        # everything else: a variable per distinct term, with congruence
        if not z3.is_arith(t):
            raise Unsupported('purify')
        args = [self.term(c) if z3.is_arith(c) else None for c in ch]
        v = self.var('f')
        if all(a is not None for a in args):
            for (a2, v2) in self.ufs.setdefault(d.name() + str(kind), []):
                self.side.append(z3.Implies(z3.And([x == y for x, y in zip(args, a2)]), v == v2))
            self.ufs[d.name() + str(kind)].append((args, v))
        return v

    def form(self, f):
        if z3.is_quantifier(f):
            return z3.BoolVal(True)   # dropped as a fact; never a goal
        d = f.decl()
        kind = d.kind()
        ch = f.children()
        if kind == z3.Z3_OP_TRUE or kind == z3.Z3_OP_FALSE:
            return f
        if kind == z3.Z3_OP_AND:
            return z3.And([self.form(c) for c in ch])
        if kind == z3.Z3_OP_OR:
            return z3.Or([self.form(c) for c in ch])
        if kind == z3.Z3_OP_NOT:
            c = ch[0]
            if z3.is_arith(c.arg(0)) if c.num_args() else False:
                k2 = c.decl().kind()
                a = c.children()
                if k2 == z3.Z3_OP_LE:
                    return self.form(a[0] > a[1])
                if k2 == z3.Z3_OP_GE:
                    return self.form(a[0] < a[1])
                if k2 == z3.Z3_OP_LT:
                    return self.form(a[0] >= a[1])
                if k2 == z3.Z3_OP_GT:
                    return self.form(a[0] <= a[1])
                if k2 == z3.Z3_OP_EQ and a[0].is_int() and a[1].is_int():
                    x, y = self.term(a[0]), self.term(a[1])
                    return z3.Or(x <= y - 1, x >= y + 1)
            return z3.Not(self.form(ch[0]))
        if kind == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.form(ch[0]), self.form(ch[1]))
        if kind == z3.Z3_OP_ITE:
            return z3.If(self.form(ch[0]), self.form(ch[1]), self.form(ch[2]))
        if kind == z3.Z3_OP_UNINTERPRETED and not ch:
            return z3.Bool('!b_' + d.name())
        if kind in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            if not z3.is_arith(ch[0]):
                if kind == z3.Z3_OP_EQ and z3.is_bool(ch[0]):
                    return self.form(ch[0]) == self.form(ch[1])
                raise Unsupported('purify: ' + str(d))
            ints = all(c.is_int() for c in ch)
            a, b = self.term(ch[0]), self.term(ch[1])
            if kind == z3.Z3_OP_LE:
                return a <= b
            if kind == z3.Z3_OP_GE:
                return a >= b
            if kind == z3.Z3_OP_LT:
                return a <= b - 1 if ints else a < b
            if kind == z3.Z3_OP_GT:
                return a >= b + 1 if ints else a > b
            if kind == z3.Z3_OP_EQ:
                return a == b
            return a != b
        v = z3.Bool('!p%d' % f.get_id())
        return v


def cvc5_check(facts, ng, ms):
    import subprocess, tempfile, os
    s = z3.Solver()
    s.add(facts)
    s.add(ng)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % ms, '-'], input=txt, text=True,
                           capture_output=True, timeout=ms / 1000 + 5)
    except (OSError, subprocess.SubprocessError):
        return 'unknown'
    o = p.stdout.strip().split('\n')[0] if p.stdout else 'unknown'
    return o if o in ('sat', 'unsat') else 'unknown'


def sx(v):
    return v.sexpr() if hasattr(v, 'sexpr') else str(v)[:300]


class Obligation:
    __slots__ = ('name', 'status', 'backend', 'time', 'model', 'goal', 'target')

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))


class Report:
    """Collects the obligations of one verification target."""

    def __init__(self, target, ms=12000, cross=False):
        self.target = target
        self.ms = ms
        self.obls = []
        self.cache = {}
        self.paths = 0
        self.reached = 0
        self.cross = cross
        self.fail_fast = 6

    def check(self, c, name, f, extra=()):
        f = z3.simplify(f)
        t0 = time.time()
        if z3.is_true(f):
            self.obls.append(Obligation(name=name, status='proved', backend='simplifier', time=0.0, target=self.target))
            return True
        facts = c.facts() + list(extra)
        if sum(o.status != 'proved' for o in self.obls) >= self.fail_fast:
            self.obls.append(Obligation(name=name, status='skipped', backend='', time=0.0, target=self.target, goal=f.sexpr()[:2000]))
            return False
        r = None
        if name.startswith('lemma: '):
            # about fresh numbers: first without anything known of the path
            r, be, m = solve(list(extra), z3.Not(f), min(self.ms, 3000), quick=True)
            if r == 'unsat':
                facts = list(extra)
        if r != 'unsat':
            r, be, m = solve(facts, z3.Not(f), self.ms)
        if r == 'unsat' and self.cross and be != 'cvc5':
            t1 = time.time()
            r2 = cvc5_check(facts, z3.Not(f), 8000)
            STATS.add('cvc5(cross)', time.time() - t1)
            if r2 == 'unsat':
                be += '+cvc5'
        st = {'unsat': 'proved', 'sat': 'failed', 'unknown': 'unknown'}[r]
        self.obls.append(Obligation(name=name, status=st, backend=be, time=time.time() - t0,
                                    target=self.target, goal=f.sexpr()[:3000],
                                    model={d.name(): sx(m[d])[:300] for d in m.decls()} if m is not None else None))
        return st == 'proved'


def explore(fn, report=None, parent=None, max_paths=2000, cfg=None, setup=None):
    """Run fn() on every path. fn sees ctx(). Returns the list of results
    (ctx, value) of the completed paths."""
    if not hasattr(_tls, 'stack'):
        _tls.stack = []
    work = [[]]
    out = []
    n = 0
    base = next(parent.counter) if parent is not None else None
    cache = {}
    share = (cfg or {}).get('_share') if parent is None else None
    if parent is None and (cfg or {}).get('_start'):
        work = [list(p) for p in cfg['_start']]
    while work:
        if share is not None and len(work) > 1:
            # another process takes some of the open paths
            k = share(work)
            if k:
                del work[:k]
        prefix = work.pop()
        c = Ctx(prefix, parent=parent, report=report)
        if parent is None:
            c.counter = itertools.count()
            c.undo = []
            c.loopcache = cache
            c.cfg = dict(cfg or {})
        else:
            # deterministic names in replays of a nested exploration
            c.counter = SubCounter(str(base))
        mark = len(c.undo)
        start = born()
        _tls.stack.append(c)
        n += 1
        if n > max_paths:
            _tls.stack.pop()
            raise Unsupported('path limit')
        try:
            v = fn()
            out.append((c, v))
        except PathEnd:
            pass
        finally:
            _tls.stack.pop()
            rollback(c.undo, mark, start)
        work.extend(c.pending)
    if report is not None and parent is None:
        report.paths += n
        report.reached += len(out)
    return out


class SubCounter:
    def __init__(self, prefix):
        self.prefix = prefix
        self.n = 0

    def __next__(self):
        self.n += 1
        return '%s.%d' % (self.prefix, self.n)


def rollback(log, mark, start=None):
    """Undo; objects made since start keep their state (nothing older refers to them)."""
    while len(log) > mark:
        u = log.pop()
        if start is not None and born_of(getattr(u, 'obj', None)) > start:
            continue
        u()


def born_of(o):
    if o is None:
        return 0
    try:
        return object.__getattribute__(o, '__dict__').get('_born', 0)
    except AttributeError:
        return getattr(o, '_born', 0)
