"""Models of the Python built-ins, numpy, scipy, copy, ... used by the
verified code, and the run-time interface (_vc) of the translated code."""
import z3, builtins, itertools, types, copy as _copy, math as _math
from fractions import Fraction
from . import core, seq
from .core import (Num, SymBool, Unsupported, PathEnd, ctx, _cur, zval, wrap, real, num_like, const_of, sbool, bz, ite,
                   smax2, smin2, sabs, sint, sfloat, sround, sfloor, sceil, uf, fn, I, R, B, sand, snot, div, floordiv, mod, power, sqrt)
from .seq import SList, SDict, Elems, Comp, Flat, Unknown, Undo, as_list, pick, subst, mentions, eq_val

from .core import born


def log_undo(loc, obj, f):
    c = _cur()
    if c is not None:
        c.undo.append(Undo(loc, obj, f))


class Poison(Unsupported):
    """A value that cannot be known here was read."""


class _Unset:
    def __repr__(self):
        return 'UNSET'


UNSET = _Unset()


class PoisonVal:
    """Placeholder stored in a havocked location."""

    def __init__(self, why):
        self.why = why


class Lazy:
    """Value computed when first read."""

    def __init__(self, f):
        self.f = f


def resolve(owner, name, v):
    if type(v) is PoisonVal:
        raise Poison('reads %s, which depends on earlier iterations' % v.why)
    if type(v) is Lazy:
        d, lazy = object.__getattribute__(owner, '__dict__'), v
        v = v.f()
        log_undo(('lazy', id(owner), name), owner, lambda: d.__setitem__(name, lazy))
        d[name] = v
    return v


# ------------------------------------------------------------------ objects
class Frame:
    def __init__(self, _name, /, **params):
        d = object.__getattribute__(self, '__dict__')
        d['_name_'] = _name
        d['_born'] = born()
        d.update(params)

    def __getattribute__(self, name):
        d = object.__getattribute__(self, '__dict__')
        if name == '__dict__':
            return d
        if name in d:
            v = d[name]
            if type(v) is PoisonVal or type(v) is Lazy:
                return resolve(self, name, v)
            return v
        raise UnboundLocalError('local variable %r referenced before assignment' % name)


class Obj:
    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        object.__getattribute__(o, '__dict__')['_born'] = born()
        return o

    def __getattribute__(self, name):
        v = object.__getattribute__(self, name)
        if type(v) is PoisonVal or type(v) is Lazy:
            return resolve(self, name, v)
        return v

    def __setattr__(self, name, v):
        setattr_(self, name, v)

    def __delattr__(self, name):
        d = object.__getattribute__(self, '__dict__')
        old = d.pop(name)
        log_undo(('attr', id(self), name), self, lambda: d.__setitem__(name, old))


def setattr_(o, name, v):
    if isinstance(o, Obj) or isinstance(o, Frame):
        p = getattr(type(o), name, None)
        if isinstance(p, property):
            if p.fset is None:
                raise AttributeError(name)
            p.fset(o, v)
            return
        d = object.__getattribute__(o, '__dict__')
        old = d.get(name, UNSET)

        def restore():
            if old is UNSET:
                d.pop(name, None)
            else:
                d[name] = old
        log_undo(('attr', id(o), name), o, restore)
        d[name] = v
        return
    if isinstance(o, (types.ModuleType, type)):
        old = o.__dict__.get(name, UNSET)
        log_undo(('attr', id(o), name), o, lambda: setattr(o, name, old) if old is not UNSET else delattr(o, name))
        setattr(o, name, v)
        return
    setattr(o, name, v)


class Opaque:
    """Something of a library that is not modelled."""

    def __init__(self, name):
        self.__dict__['_name'] = name

    def __getattr__(self, a):
        if a.startswith('__') and a not in ('__name__',):
            raise AttributeError(a)
        return Opaque(self._name + '.' + a)

    def __call__(self, *a, **k):
        raise Unsupported('calls %s' % self._name)

    def __mro_entries__(self, bases):
        return (Obj,)

    def __iter__(self):
        raise Unsupported('iterates %s' % self._name)

    def __repr__(self):
        return '<%s>' % self._name


class SymStr:
    """A string with numbers in it: a list of str and Num pieces."""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SymStr):
                for q in p.parts:
                    self._add(out, q)
            else:
                self._add(out, p)
        self.parts = out

    @staticmethod
    def _add(out, p):
        if p == '' and isinstance(p, str):
            return
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)

    def __hash__(self):
        return 7

    def __eq__(self, o):
        if isinstance(o, str):
            return False
        if not isinstance(o, SymStr) or len(o.parts) != len(self.parts):
            return False
        fs = []
        for a, b in zip(self.parts, o.parts):
            if isinstance(a, str) != isinstance(b, str):
                return False
            if isinstance(a, str):
                if a != b:
                    return False
            else:
                fs.append(a == b)
        return bool(sand(*fs)) if fs else True

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        return SymStr([self, o])

    def __radd__(self, o):
        return SymStr([o, self])

    def split(self, sep=None):
        out = [[]]
        for p in self.parts:
            if isinstance(p, str):
                q = p.split(sep)
                out[-1].append(q[0])
                for x in q[1:]:
                    out.append([x])
            else:
                out[-1].append(p)
        return SList([SymStr(x) if any(not isinstance(y, str) for y in x) else ''.join(x) for x in out])

    def number(self):
        if len(self.parts) == 1 and not isinstance(self.parts[0], str):
            return self.parts[0]
        raise ValueError('could not convert string to float')

    def vc_subst(self, pairs):
        return SymStr([p if isinstance(p, str) else subst(p, pairs) for p in self.parts])

    def vc_mentions(self, names):
        return any(mentions(p, names) for p in self.parts if not isinstance(p, str))

    def lower(self):
        return self

    def ljust(self, *a):
        return self

    rjust = center = ljust


def to_str(v, spec=None):
    if isinstance(v, str):
        return v
    if isinstance(v, SymStr):
        return v
    if isinstance(v, (Num, SymBool)):
        if spec:
            return SymStr([SymStr(['<']), '>'])
        return SymStr([v])
    if isinstance(v, (int, bool)) or v is None:
        return str(v) if not spec else format(v, spec)
    if isinstance(v, type):
        return str(v)
    if isinstance(v, Obj):
        f = type(v).__dict__.get('__str__') or getattr(v, '__repr__')
        return f() if getattr(f, '__self__', None) is not None else f(v)
    return SymStr(['<%s>' % type(v).__name__])


# ------------------------------------------------------------------ ranges
class SRange:
    def __init__(self, a, b=None, step=1):
        if b is None:
            a, b = 0, a
        for x in (a, b, step):
            if isinstance(x, Num) and not x.is_int or isinstance(x, (float, SList)) or not num_like(x):
                raise TypeError('range() argument is not an integer')
        self.a, self.b, self.step = a, b, step
        self._n = None
        if const_of(step) == 0:
            raise ValueError('range() arg 3 must not be zero')

    @property
    def concrete(self):
        return all(isinstance(const_of(x), int) for x in (self.a, self.b, self.step))

    def native(self):
        return range(const_of(self.a), const_of(self.b), const_of(self.step))

    def length(self):
        if self.concrete:
            return len(self.native())
        if self._n is None:
            s = const_of(self.step)
            if s == 1:
                n = self.b - self.a
            elif isinstance(s, int) and s > 0:
                n = floordiv(self.b - self.a + (s - 1), s)
            elif isinstance(s, int) and s < 0:
                n = floordiv(self.a - self.b + (-s - 1), -s)
            else:
                if not (self.step > 0):
                    raise Unsupported('range with a symbolic step that may be negative')
                c = ctx()
                # q = ceil((b-a)/step)
                q = Num(c.fresh('rlen', I))
                d = self.b - self.a
                c.assume(z3.If(bz(d > 0) if not isinstance(d > 0, bool) else z3.BoolVal(d > 0),
                               z3.And(zval((q - 1) * self.step) < zval(d), zval(q * self.step) >= zval(d), zval(q) >= 1), zval(q) == 0))
                self._n = q
                return q
            c = _cur()
            if c is not None and c.valid(zval(n) >= 0, 2000):
                self._n = n
            else:
                self._n = smax2(n, 0)
        return self._n

    def at(self, i):
        return self.a + i * self.step

    def vc_list(self):
        if self.concrete:
            return SList(list(self.native()))
        return SList.of(Comp(self.length(), lambda t: self.at(t)))

    def __iter__(self):
        if self.concrete:
            return iter(self.native())
        raise Unsupported('native iteration over a symbolic range')

    def __getitem__(self, i):
        return self.vc_list()[i]

    def __len__(self):
        n = const_of(self.length())
        if isinstance(n, int):
            return n
        raise Unsupported('native len of a symbolic range')

    def __contains__(self, v):
        return bool(seq.contains(self.vc_list(), v))


# ------------------------------------------------------------------ sums, extremes
LAM = z3.ArraySort(I, R)
SUMF = z3.Function('Sum', I, LAM, R)
_bv = itertools.count()


def bound_value(f, n):
    """(s, f(s)) for a bound 0 <= s < n: the paths of f are merged into one
    term, symbols fresh in f become functions of s."""
    cc = ctx()
    depth = sum(1 for v in cc.loopvars if str(v).startswith('?s'))
    s = z3.Int('?s' + (str(depth) if depth else ''))

    def once():
        c = ctx()
        c.loopvars = c.loopvars + [s]
        c._assert(z3.And(s >= 0, s < zval(n)))
        c.conds = []
        c.quiet = True
        v = f(Num(s))
        if not num_like(v):
            raise Unsupported('sum of values which are not numbers')
        return list(c.conds), real(zval(v))
    res = [v for _, v in core.explore(once, report=None, parent=cc, max_paths=40)]
    if not res:
        return s, z3.RealVal(0)
    r = res[-1][1]
    for conds, v in reversed(res[:-1]):
        r = z3.If(z3.And(conds) if conds else z3.BoolVal(True), v, r)
    return s, r


def ssum_n(n, f):
    """Sum of f(0..n-1)."""
    c = const_of(n)
    if isinstance(c, int) and c <= 600:
        t = 0
        for k in range(c):
            t = t + f(k)
        return t
    s, v = bound_value(f, n)
    if not mentions(Num(v), {str(s)}):
        return Num(v) * smax2(n, 0)
    return Num(SUMF(zval(n), z3.Lambda([s], v)))


def sum_terms(z, out=None, seen=None):
    """The Sum terms of z outside of other Sums."""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if z.get_id() in seen:
        return out
    seen.add(z.get_id())
    if z3.is_quantifier(z):
        return out
    if z3.is_app(z) and z.decl().eq(SUMF):
        out.append(z)
        return out
    for x in z.children():
        sum_terms(x, out, seen)
    return out


def is_whole(z):
    if z.is_int() or z3.is_rational_value(z) and z.denominator_as_long() == 1:
        return True
    k = z.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return True
    if k == z3.Z3_OP_ITE:
        return is_whole(z.arg(1)) and is_whole(z.arg(2))
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        return all(is_whole(x) for x in z.children())
    return False


def prove_linear_sum(c, name, value, rest, n, f):
    """Proves value == rest + sum of f(0..n-1), where value is linear in the
    sums in it: by linearity of finite sums it suffices that the constant
    parts agree and the terms do, index by index. A sum may start one index
    later or lack the first or the last terms when those are in the constant part."""
    value = z3.simplify(real(zval(value))) if not z3.is_expr(value) else value
    ts = sum_terms(value)
    # a sum of whole numbers is whole
    whole = []
    for t in ts:
        b = z3.simplify(z3.Select(t.arg(1), z3.Int('?w')))
        if is_whole(b):
            whole.append((z3.ToReal(z3.ToInt(t)), t))
    if whole:
        value = z3.simplify(z3.substitute(value, *whole))
        ts = sum_terms(value)
    vars_ = [z3.Real('?T%d' % i) for i in range(len(ts))]
    sub = lambda vals: z3.substitute(value, *zip(ts, vals)) if ts else value
    zero = sub([z3.RealVal(0)] * len(ts))
    coef = []
    for i in range(len(ts)):
        one = sub([z3.RealVal(1 if j == i else 0) for j in range(len(ts))])
        coef.append(one - zero)
    if ts:
        c.prove(name + ' (linear)', sub(vars_) == zero + z3.Sum([a * v for a, v in zip(coef, vars_)]))
    nz, rz = zval(n), real(zval(rest))
    k = Num(c.fresh('term', I))
    fz = lambda t: real(zval(f(t)))
    for lo, hi in ((0, 0), (1, 0), (0, 1), (1, 1)):
        if all(c.valid(t.arg(0) == nz - lo - hi) for t in ts) and ts:
            break
    else:
        lo, hi = 0, 0
        for t in ts:
            c.prove(name + ' (as many terms)', t.arg(0) == nz)
    m = nz - lo - hi
    if not ts:
        # no sums: possible only if the number of terms is known
        cn = const_of(n)
        if not isinstance(cn, int):
            c.prove(name + ' (the sum is formed)', z3.Implies(z3.And(k.z >= 0, k.z < nz), fz(k) == 0))
            c.prove(name + ' (remaining terms)', zero == rz)
            return
        c.prove(name, zero == rz + sum([fz(j) for j in range(cn)], z3.RealVal(0)))
        return
    edge = z3.RealVal(0)
    if lo:
        edge = edge + fz(0)
    if hi:
        edge = edge + fz(Num(nz - 1))
    c.prove(name + ' (remaining terms)', zero == rz + edge)
    g = z3.And(k.z >= 0, k.z < m)
    body = z3.Sum([a * z3.simplify(z3.Select(t.arg(1), k.z)) for a, t in zip(coef, ts)])
    c.prove(name + ' (term by term)', z3.Implies(g, body == fz(k + lo)))


def sum_eq(c, name, s1, s2):
    """(n1, f1), (n2, f2): proves lengths and terms equal; returns None."""
    (n1, f1), (n2, f2) = s1, s2
    c.prove(name + ' (as many terms)', zval(n1) == zval(n2))
    k = Num(c.fresh('term', I))
    g = z3.And(k.z >= 0, k.z < zval(n1))
    c.prove(name + ' (term by term)', z3.Implies(g, real(zval(f1(k))) == real(zval(f2(k)))))


def s_sum(x, start=0):
    l = to_list(x)
    t = start
    for s in l.segs:
        if isinstance(s, Elems):
            for v in s.vals:
                t = t + v
        elif isinstance(s, Comp) and s.cond is None:
            t = t + ssum_n(s._n, s.f)
        elif isinstance(s, Comp):
            t = t + ssum_n(s._n, lambda k, s=s: ite(s.cond(k), s.f(k), 0))
        else:
            raise Unsupported('sum of this list')
    return t


def extreme(l, which, key=None):
    """max / min of a non-empty symbolic list of numbers."""
    l = to_list(l)
    c = ctx()
    n = l.length()
    if not (n > 0):
        raise ValueError('%s() arg is an empty sequence' % which)
    op = (lambda a, b: a <= b) if which == 'max' else (lambda a, b: a >= b)
    for (w, l2, m, wit) in c.store.get('extremes', []):
        if w == which and same_list(l, l2):
            return m
    m = Num(c.fresh(which, R if not all_int(l) else I))
    wit = Num(c.fresh('at', I))
    c.assume(z3.And(wit.z >= 0, wit.z < zval(n)))
    c.store['extremes'] = c.store.get('extremes', []) + [(which, SList(l), m, wit)]
    try:
        v = seq.pure_at(l, wit)
    except Unsupported:
        v = l.at(wit)
    if not num_like(v):
        raise Unsupported('extreme of a list of objects')
    c.assume(zval(m) == zval(v))
    try:
        q = seq.forall_list(l, lambda x, t: zval(op(x, m)) if not isinstance(op(x, m), (bool, SymBool)) else bz(op(x, m)))
        c.assume(q)
    except Unsupported:
        pass
    return m


def same_list(a, b):
    if len(a.segs) != len(b.segs):
        return False
    for s, t in zip(a.segs, b.segs):
        if s is t:
            continue
        if isinstance(s, Elems) and isinstance(t, Elems) and len(s.vals) == len(t.vals):
            if all(x is y or (num_like(x) and num_like(y) and zval(x).eq(zval(y))) for x, y in zip(s.vals, t.vals)):
                continue
        if isinstance(s, Comp) and isinstance(t, Comp) and s.cond is None and t.cond is None:
            k = Num(z3.Int('?k'))
            try:
                x, y = s.f(k), t.f(k)
                if num_like(x) and num_like(y) and z3.simplify(zval(x)).eq(z3.simplify(zval(y))) and z3.simplify(zval(s._n)).eq(z3.simplify(zval(t._n))):
                    continue
            except Unsupported:
                pass
        return False
    return True


def all_int(l):
    for s in l.segs:
        if isinstance(s, Elems):
            if not all(zval(v).is_int() for v in s.vals):
                return False
        elif isinstance(s, Comp):
            v = s.f(Num(z3.Int('?k')))
            if not num_like(v) or not zval(v).is_int():
                return False
        else:
            return False
    return True


def bound_by_extreme(c, which, m, i):
    """Instantiate: element i of the list m is the extreme of is bounded by m."""
    for (w, l, mm, wit) in c.store.get('extremes', []):
        if w == which and mm is m:
            n = l.length()
            x = seq.pure_at(l, i)
            g = z3.And(zval(i) >= 0, zval(i) < zval(n))
            c.assume(z3.Implies(g, bz(x <= m if which == 'max' else x >= m)))
            return l, wit
    raise KeyError


def _minmax(which, args, key=None, default=UNSET):
    if len(args) == 1:
        l = to_list(args[0])
        if l.concrete_len() and key is None:
            vals = l.vals()
            if not vals:
                if default is not UNSET:
                    return default
                raise ValueError('%s() arg is an empty sequence' % which)
            if all(num_like(v) for v in vals):
                r = vals[0]
                for v in vals[1:]:
                    r = (smax2 if which == 'max' else smin2)(r, v)
                return r
            return getattr(builtins, which)(vals)
        if key is not None:
            raise Unsupported('%s with a key' % which)
        if default is not UNSET and not (l.length() > 0):
            return default
        return extreme(l, which)
    r = args[0]
    for v in args[1:]:
        if num_like(r) and num_like(v):
            r = (smax2 if which == 'max' else smin2)(r, v)
        else:
            raise Unsupported(which)
    return r


def s_max(*a, key=None, default=UNSET):
    return _minmax('max', a, key, default)


def s_min(*a, key=None, default=UNSET):
    return _minmax('min', a, key, default)


# ------------------------------------------------------------------ built-ins
def to_list(x):
    """Any iterable as an SList (not a copy when it is one)."""
    if isinstance(x, SList):
        return x
    if isinstance(x, dict):
        if isinstance(x, SDict) and x.arr is not None:
            return seq.DictKeys(x).vc_list()
        return SList(list(dict.keys(x)))
    if hasattr(x, 'vc_list'):
        return x.vc_list()
    if isinstance(x, (tuple, list, range, str)):
        return SList(list(x))
    if isinstance(x, Opaque):
        raise Unsupported('iterates %s' % x._name)
    if is_nd(x):
        return SList([nd_item(v) for v in x])
    if hasattr(x, '__iter__') or hasattr(x, '__next__'):
        return SList(list(x))
    raise TypeError('%r object is not iterable' % type(x).__name__)


def s_len(x):
    if isinstance(x, (SList, SRange, SArr)):
        return x.length()
    if isinstance(x, SDict):
        return x.length()
    if hasattr(x, 'vc_len'):
        return x.vc_len()
    if hasattr(x, 'vc_list'):
        return x.vc_list().length()
    if num_like(x):
        raise TypeError('object of type number has no len()')
    return builtins.len(x)


def s_enumerate(x, start=0):
    l = to_list(x)
    if l.concrete_len():
        return SList([(start + i, v) for i, v in builtins.enumerate(l.vals())])
    me = SList(l)
    return SList.of(Comp(l.length(), lambda t: (start + t, me.at(t))))


def s_zip(*xs):
    ls = [SList(to_list(x)) for x in xs]
    if all(l.concrete_len() for l in ls):
        return SList(list(builtins.zip(*[l.vals() for l in ls])))
    n = ls[0].length()
    c = ctx()
    for l in ls[1:]:
        m = l.length()
        if c.valid(zval(n) == zval(m), 2000):
            continue
        n = smin2(n, m)
    return SList.of(Comp(n, lambda t: tuple(l.at(t) for l in ls)))


def s_map(f, *xs):
    if len(xs) == 1:
        return VC.comp(None, xs[0], f, None, False)
    return VC.comp(None, s_zip(*xs), lambda t: f(*t), None, False)


def s_filter(f, x):
    return VC.comp(None, x, lambda v: v, f or (lambda v: v), False)


def s_any(x):
    l = to_list(x)
    if l.concrete_len():
        for v in l.vals():
            if v:
                return True
        return False
    return sbool(z3.Not(seq.forall_list(l, lambda v, t: z3.Not(bz(v)))))


def s_all(x):
    l = to_list(x)
    if l.concrete_len():
        for v in l.vals():
            if not v:
                return False
        return True
    return sbool(seq.forall_list(l, lambda v, t: bz(v)))


def s_sorted(x, key=None, reverse=False):
    c = ctx()
    if isinstance(x, seq.DictKeys) and key is None and not reverse:
        return x.vc_list(ordered=True)
    l = to_list(x)
    if l.concrete_len():
        vals = l.vals()
        ks = [key(v) if key else v for v in vals]
        if all(isinstance(const_of(k), (int, Fraction)) if num_like(k) else isinstance(k, str) for k in ks):
            o = builtins.sorted(range(len(vals)), key=lambda i: const_of(ks[i]) if num_like(ks[i]) else ks[i], reverse=reverse)
            return SList([vals[i] for i in o])
        if len(vals) <= 6:
            out = []
            for i in range(len(vals)):
                j = len(out)
                while j > 0 and ((ks[i] < ks[out[j - 1]]) if not reverse else (ks[i] > ks[out[j - 1]])):
                    j -= 1
                out.insert(j, i)
            return SList([vals[i] for i in out])
    # permutation of a list of symbolic length
    n = l.length()
    p = c.freshfun('perm', I, I)
    q = c.freshfun('perminv', I, I)
    i, j = z3.Int('?i'), z3.Int('?j')
    rng = lambda v: z3.And(v >= 0, v < zval(n))
    c.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(p(i)), q(p(i)) == i)), patterns=[p(i)]))
    c.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(q(i)), p(q(i)) == i)), patterns=[q(i)]))
    me = SList(l)
    r = SList.of(Comp(n, lambda t: me.at(Num(p(zval(t))))))
    kf = lambda t: (key(me.at(Num(p(t)))) if key else me.at(Num(p(t))))
    srt = lambda a, b: bz((kf(a) <= kf(b)) if not reverse else (kf(a) >= kf(b)))
    r.ghost['sorted'] = dict(src=me, p=p, q=q, n=n, le=srt, key=key, reverse=bool(reverse))
    try:
        c.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < zval(n)), srt(i, j)), patterns=[z3.MultiPattern(p(i), p(j))]))
        # stability
        c.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < zval(n), bz(kf(i) == kf(j))), p(i) < p(j)),
                           patterns=[z3.MultiPattern(p(i), p(j))]))
    except (Unsupported, z3.Z3Exception):
        pass
    return r


def s_reversed(x):
    l = SList(to_list(x))
    if l.concrete_len():
        return SList(l.vals()[::-1])
    return l.stride(slice(None, None, -1))


def s_iter(x):
    return iter(to_list(x).vals())


def s_next(it, *d):
    return builtins.next(it, *d)


def s_print(*a, **k):
    return None


class Handle:
    """An open file of the model: files hold the values dumped into them."""

    def __init__(self, path, mode):
        files = ctx().store.setdefault('files', [])
        self.path, self.mode, self.closed, self.at = path, mode, False, 0
        f = [x for x in files if x['path'] is path or (type(x['path']) is type(path) and x['path'] == path)]
        kind = mode.replace('b', '').replace('t', '').replace('+', '')
        if kind not in ('r', 'w', 'a', 'x') or len(mode) - len(kind) > 2:
            raise ValueError('invalid mode')
        if not f:
            if kind == 'r':
                raise FileNotFoundError(2, 'No such file')
            f = [{'path': path, 'data': []}]
            files.append(f[0])
        elif kind == 'x':
            raise FileExistsError(17, 'File exists')
        self.file = f[0]
        if kind == 'w':
            self.file['data'] = []
        self.writes, self.reads = kind != 'r' or '+' in mode, kind == 'r' or '+' in mode
        self.binary = 'b' in mode
        self.file.setdefault('open', []).append(self)

    def put(self, kind, v, binary):
        if self.closed or not self.writes or self.binary != binary:
            raise Unsupported('writing %s to this file' % kind)
        self.file['data'].append((kind, v))

    def get(self, kind, binary):
        if self.closed or not self.reads or self.binary != binary:
            raise Unsupported('reading %s from this file' % kind)
        if any(h.writes for h in self.file['open'] if h is not self):
            raise Unsupported('reading a file still being written')
        if self.at >= len(self.file['data']):
            raise EOFError('Ran out of input')
        k, v = self.file['data'][self.at]
        self.at += 1
        if k != kind:
            raise Unsupported('reading %s as %s' % (k, kind))
        return v

    def close(self):
        if not self.closed:
            self.closed = True
            self.file['open'].remove(self)

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def s_open(file, mode='r', *a, **k):
    if not isinstance(file, (str, SymStr)) or not isinstance(mode, str):
        raise Unsupported('opens a file')
    return Handle(file, mode)


def default_state(x, seen, path='it'):
    """Do all objects reachable use the default state of pickle?"""
    if id(x) in seen:
        return
    seen[id(x)] = x
    if isinstance(x, Obj):
        for n in ('__getstate__', '__setstate__', '__reduce__', '__reduce_ex__', '__getnewargs__', '__getnewargs_ex__', '__deepcopy__', '__copy__', '__slots__'):
            for k in type(x).__mro__:
                if k is not object and k is not Obj and n in vars(k):
                    raise Unsupported('%s defines %s' % (k.__name__, n))
        for k, v in object.__getattribute__(x, '__dict__').items():
            default_state(v, seen)
    elif isinstance(x, SList):
        for s in x.segs:
            if isinstance(s, Elems):
                for v in s.vals:
                    default_state(v, seen)
    elif isinstance(x, dict):
        for v in dict.values(x):
            default_state(v, seen)
    elif isinstance(x, tuple):
        for v in x:
            default_state(v, seen)
    elif isinstance(x, types.FunctionType):
        if '<' in getattr(x, '__qualname__', '<'):
            raise Unsupported('pickles a local function')


def pickle_dump(obj, file, protocol=None, **k):
    default_state(obj, {})
    file.put('pickle', s_deepcopy(obj), True)


def pickle_load(file, **k):
    return s_deepcopy(file.get('pickle', True))


class PickleBytes:
    def __init__(self, v):
        self.v = v


def pickle_dumps(obj, protocol=None, **k):
    default_state(obj, {})
    return PickleBytes(s_deepcopy(obj))


def pickle_loads(b, **k):
    if not isinstance(b, PickleBytes):
        raise Unsupported('unpickles something else')
    return s_deepcopy(b.v)


def json_value(x):
    """What json writes for x."""
    if x is None or isinstance(x, (str, bool, int, float, Num, SymBool, SymStr, Fraction)):
        return x
    if isinstance(x, SDict):
        r = s_deepcopy(x)
        for k in dict.keys(x):
            dict.__setitem__(r, k, json_value(dict.__getitem__(x, k)))
        return r
    if isinstance(x, tuple):
        return SList([json_value(v) for v in x])
    if isinstance(x, SList):
        for s in x.segs:
            if isinstance(s, Elems):
                for v in s.vals:
                    json_value(v)
        return s_deepcopy(x)
    raise TypeError('Object of type %s is not JSON serializable' % type(x).__name__)


def json_dump(obj, fp, **k):
    h = ctx().cfg.get('json.dump')
    if h is not None:
        return h(obj, fp, **k)
    fp.put('json', json_value(obj), False)


def json_load(fp, **k):
    return s_deepcopy(fp.get('json', False))


def s_round(x, n=None):
    if not num_like(x):
        if is_nd(x) and x.ndim == 0:
            x = x.item()
        else:
            raise TypeError('round')
    if n is None:
        return sround(x)
    return sround(x, n)


def s_pow(a, b, m=None):
    if m is not None:
        raise Unsupported('pow with a modulus')
    return power(a, b)


def s_abs(x):
    if isinstance(x, SArr) or is_nd(x):
        return np_unary(sabs)(x)
    return sabs(x)


def s_divmod(a, b):
    return floordiv(a, b), mod(a, b)


class _Meta(type):
    def __instancecheck__(cls, x):
        return cls._is(x)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, cls._native)

    def __call__(cls, *a, **k):
        return cls._make(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._native

    def __hash__(cls):
        return hash(cls._native)


class s_int(metaclass=_Meta):
    _native = builtins.int
    _is = staticmethod(lambda x: isinstance(x, builtins.int) or isinstance(x, Num) and x.is_int)

    @staticmethod
    def _make(x=0, *a):
        if isinstance(x, SymStr):
            return sint(x.number())
        if isinstance(x, str):
            return builtins.int(x, *a)
        if is_nd(x):
            x = x.item() if x.size == 1 else x
        if x is None or not num_like(x):
            raise TypeError('int() argument')
        return sint(x)


class s_float(metaclass=_Meta):
    _native = builtins.float
    _is = staticmethod(lambda x: isinstance(x, builtins.float) or isinstance(x, Num) and not x.is_int)

    @staticmethod
    def _make(x=0):
        if isinstance(x, SymStr):
            return sfloat(x.number())
        if is_nd(x):
            x = x.item() if x.size == 1 else x
        if isinstance(x, str):
            if x.strip().lower() in ('inf', '+inf', 'infinity', '-inf', 'nan'):
                raise Unsupported('non-finite float')
            return sfloat(x)
        if x is None or not num_like(x):
            raise TypeError('float() argument')
        return sfloat(x)


class s_bool(metaclass=_Meta):
    _native = builtins.bool
    _is = staticmethod(lambda x: isinstance(x, (builtins.bool, SymBool)))

    @staticmethod
    def _make(x=False):
        if isinstance(x, SymBool):
            return x
        if isinstance(x, Num):
            return x != 0
        return truth(x)


class s_list(metaclass=_Meta):
    _native = builtins.list
    _is = staticmethod(lambda x: isinstance(x, (builtins.list, SList)))

    @staticmethod
    def _make(x=()):
        l = to_list(x)
        r = SList(l)
        return r


class s_tuple(metaclass=_Meta):
    _native = builtins.tuple
    _is = staticmethod(lambda x: isinstance(x, builtins.tuple))

    @staticmethod
    def _make(x=()):
        if isinstance(x, builtins.tuple):
            return x
        l = to_list(x)
        if l.concrete_len():
            return builtins.tuple(l.vals())
        r = SList(l)
        r.frozen = True
        return r


class s_dict(metaclass=_Meta):
    _native = builtins.dict
    _is = staticmethod(lambda x: isinstance(x, builtins.dict))

    @staticmethod
    def _make(*a, **k):
        d = SDict()
        for x in a:
            if isinstance(x, builtins.dict):
                for q in (x.keys() if not isinstance(x, SDict) or x.arr is None else [][0]):
                    d[q] = x[q]
            else:
                for p in to_list(x).vals():
                    q, v = VC.unpack(None, p, 2)
                    d[q] = v
        for q, v in k.items():
            d[q] = v
        return d


class s_str(metaclass=_Meta):
    _native = builtins.str
    _is = staticmethod(lambda x: isinstance(x, (builtins.str, SymStr)))

    @staticmethod
    def _make(x=''):
        return to_str(x)

    format = builtins.str.format
    join = builtins.str.join


class s_set(metaclass=_Meta):
    _native = builtins.set
    _is = staticmethod(lambda x: isinstance(x, (builtins.set, SSet)))

    @staticmethod
    def _make(x=()):
        return SSet(x)


class SSet:
    """A set, kept as the list it was built from."""

    def __init__(self, x=()):
        l = to_list(x)
        self.l = SList(l)
        self._born = born()

    def vc_list(self):
        if self.l.concrete_len():
            out = []
            for v in self.l.vals():
                if not any(bool(eq_val(v, w)) for w in out):
                    out.append(v)
            return SList(out)
        raise Unsupported('iterates a symbolic set')

    def add(self, v):
        self.l.append(v)

    def update(self, x):
        self.l.extend(to_list(x))

    def __contains__(self, v):
        return bool(seq.contains(self.l, v))

    def vc_contains(self, v):
        return seq.contains(self.l, v)

    def vc_len(self):
        return self.vc_list().length()

    def __or__(self, o):
        return SSet(self.l + to_list(o.l if isinstance(o, SSet) else o))

    def __sub__(self, o):
        raise Unsupported('set difference')


def s_type(x, *a):
    if a:
        raise Unsupported('type()')
    if isinstance(x, SList):
        return s_list
    if isinstance(x, SDict):
        return s_dict
    if isinstance(x, Num):
        return s_int if x.is_int else s_float
    if isinstance(x, SymBool) or isinstance(x, bool):
        return s_bool
    if isinstance(x, SymStr) or isinstance(x, str):
        return s_str
    if isinstance(x, builtins.tuple):
        return s_tuple
    if isinstance(x, builtins.int):
        return s_int
    return builtins.type(x)


def s_isinstance(x, t):
    if isinstance(t, builtins.tuple):
        return builtins.any(s_isinstance(x, y) for y in t)
    if isinstance(t, Opaque):
        return False
    if t in (builtins.int, builtins.float, builtins.list, builtins.dict, builtins.str, builtins.tuple, builtins.bool, builtins.set):
        t = {builtins.int: s_int, builtins.float: s_float, builtins.list: s_list, builtins.dict: s_dict, builtins.str: s_str,
             builtins.tuple: s_tuple, builtins.bool: s_bool, builtins.set: s_set}[t]
    return isinstance(x, t)


def s_getattr(o, n, *d):
    if d:
        try:
            return getattr(o, n)
        except (AttributeError, UnboundLocalError):
            return d[0]
    return getattr(o, n)


BUILTINS = dict(len=s_len, range=SRange, enumerate=s_enumerate, zip=s_zip, sum=s_sum, max=s_max, min=s_min, abs=s_abs, round=s_round,
                sorted=s_sorted, reversed=s_reversed, any=s_any, all=s_all, map=s_map, filter=s_filter, print=s_print, open=s_open, pow=s_pow,
                divmod=s_divmod, int=s_int, float=s_float, bool=s_bool, list=s_list, tuple=s_tuple, dict=s_dict, str=s_str, set=s_set,
                frozenset=s_set, type=s_type, isinstance=s_isinstance, iter=s_iter, next=s_next, setattr=setattr_, getattr=s_getattr)


# ------------------------------------------------------------------ arrays
def _np():
    import numpy
    return numpy


import numpy as NP


class ND(NP.ndarray):
    """Concrete-shape object array; item assignment is undoable."""

    def __setitem__(self, i, v):
        i = nd_index(i)
        if isinstance(v, (SList, SArr)):
            v = nd(v)
        base = self if self.base is None or not isinstance(self.base, NP.ndarray) else self.base
        view = NP.ndarray.view(self, NP.ndarray)
        old = view[i]
        if isinstance(old, NP.ndarray):
            old = old.copy()

            def restore():
                view[i] = old
        else:
            def restore():
                view[i] = old
        log_undo(('nd', id(base)), base, restore)
        if isinstance(v, NP.ndarray):
            v = NP.ndarray.view(v, NP.ndarray)
        view[i] = v

    def __getitem__(self, i):
        r = NP.ndarray.__getitem__(self, nd_index(i))
        return r

    def __bool__(self):
        if self.size == 1:
            return bool(self.item())
        raise ValueError('truth value of an array')

    def __hash__(self):
        return id(self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method != '__call__' or kw:
            raise Unsupported('numpy %s.%s' % (ufunc.__name__, method))
        f = UFUNC.get(ufunc.__name__)
        if f is None:
            raise Unsupported('numpy ' + ufunc.__name__)
        return nd_apply(f, *inputs)

    def tolist(self):
        v = NP.ndarray.view(self, NP.ndarray)
        if v.ndim == 0:
            return v.item()

        def conv(x):
            return SList([conv(y) if isinstance(y, NP.ndarray) else y for y in x])
        return conv(v)

    def vc_list(self):
        return SList([nd_item(v) for v in NP.ndarray.view(self, NP.ndarray)])

    def dot(self, o):
        a = [x for x in NP.ndarray.view(self, NP.ndarray)]
        b = to_list(o).vals()
        if len(a) != len(b):
            raise ValueError('shapes')
        t = 0
        for x, y in zip(a, b):
            t = t + x * y
        return t

    def sum(self, *a, **k):
        return s_sum(SList(list(NP.ndarray.view(self, NP.ndarray).ravel())))

    def max(self, *a, **k):
        return s_max(SList(list(NP.ndarray.view(self, NP.ndarray).ravel())))

    def min(self, *a, **k):
        return s_min(SList(list(NP.ndarray.view(self, NP.ndarray).ravel())))

    def __deepcopy__(self, memo):
        return self.copy()


def nd_index(i):
    if isinstance(i, tuple):
        return tuple(nd_index(x) for x in i)
    if isinstance(i, slice):
        return slice(*[None if x is None else _ci(x) for x in (i.start, i.stop, i.step)])
    if isinstance(i, Num):
        return _ci(i)
    return i


def _ci(x):
    c = const_of(x)
    if isinstance(c, int):
        return c
    raise Unsupported('symbolic index into a concrete array')


def is_nd(x):
    return isinstance(x, NP.ndarray)


def nd_item(v):
    if isinstance(v, NP.ndarray) and not isinstance(v, ND):
        return v.view(ND)
    return v


def nd(x):
    """Object array of a nested concrete list."""
    if isinstance(x, ND):
        return x
    if isinstance(x, NP.ndarray):
        a = NP.empty(x.shape, dtype=object)
        for i in NP.ndindex(x.shape):
            a[i] = sfloat(x[i].item()) if isinstance(x[i], NP.floating) else (x[i].item() if hasattr(x[i], 'item') else x[i])
        return a.view(ND)

    def lst(v):
        if isinstance(v, (SList, list, tuple)) or is_nd(v) or hasattr(v, 'vc_list'):
            return [lst(w) for w in to_list(v).vals()]
        return v
    l = lst(x)

    def shape(v):
        return (len(v),) + (shape(v[0]) if v else ()) if isinstance(v, list) else ()
    sh = shape(l)
    a = NP.empty(sh, dtype=object)
    for i in NP.ndindex(sh):
        v = l
        for j in i:
            v = v[j]
        a[i] = v
    return a.view(ND)


def nd_apply(f, *xs):
    ys = []
    for x in xs:
        if isinstance(x, NP.ndarray):
            ys.append(NP.ndarray.view(x, NP.ndarray))
        elif isinstance(x, (SList, SArr)):
            ys.append(NP.ndarray.view(nd(x), NP.ndarray))
        else:
            b = NP.empty((), dtype=object)
            b[()] = x
            ys.append(b)
    bs = NP.broadcast_arrays(*ys)
    out = NP.empty(bs[0].shape, dtype=object)
    for i in NP.ndindex(out.shape):
        out[i] = f(*[b[i] for b in bs])
    if out.ndim == 0:
        return out.item()
    return out.view(ND)


UFUNC = {'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b, 'multiply': lambda a, b: a * b, 'divide': lambda a, b: div(a, b),
         'true_divide': lambda a, b: div(a, b), 'negative': lambda a: 0 - a, 'power': power, 'less': lambda a, b: a < b,
         'less_equal': lambda a, b: a <= b, 'greater': lambda a, b: a > b, 'greater_equal': lambda a, b: a >= b,
         'equal': lambda a, b: a == b, 'not_equal': lambda a, b: a != b, 'absolute': sabs, 'maximum': smax2, 'minimum': smin2,
         'log': lambda a: fn('log', a), 'exp': lambda a: fn('exp', a), 'sqrt': sqrt, 'square': lambda a: a * a,
         'cos': lambda a: fn('cos', a), 'sin': lambda a: fn('sin', a), 'floor_divide': floordiv, 'remainder': mod, 'positive': lambda a: a}


class SArr:
    """One-dimensional array of symbolic length."""
    vc_array = True
    __array_ufunc__ = None

    def __init__(self, l):
        self.l = SList(l) if not isinstance(l, SList) else l
        self._born = born()

    def length(self):
        return self.l.length()

    @property
    def size(self):
        return self.l.length()

    @property
    def shape(self):
        return (self.l.length(),)

    ndim = 1
    dtype = None

    def vc_list(self):
        return self.l

    def tolist(self):
        return SList(self.l)

    def copy(self):
        return SArr(SList(self.l))

    def astype(self, *a, **k):
        return self.copy()

    def at(self, i):
        return self.l.at(i)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SArr(self.l.slice(i))
        if isinstance(i, tuple) and len(i) == 1:
            i = i[0]
        if isinstance(i, (SList, SArr)):
            raise Unsupported('fancy indexing')
        return self.l[i]

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            if num_like(v):
                n = self.l.length()
                a = seq.clamp(0 if i.start is None else i.start, n)
                b = seq.clamp(n if i.stop is None else i.stop, n)
                v = SList.of(Comp(smax2(b - a, 0), lambda t: v))
            self.l[i] = to_list(v)
            return
        self.l[i] = v

    def _ew(self, o, f):
        me = self.l
        if num_like(o):
            return SArr(map_list(me, lambda x: f(x, o)))
        if isinstance(o, SymBool):
            o = o._n()
            return SArr(map_list(me, lambda x: f(x, o)))
        ol = to_list(o)
        return SArr(zip_list(me, ol, f))

    def __add__(self, o): return self._ew(o, lambda a, b: a + b)
    def __radd__(self, o): return self._ew(o, lambda a, b: b + a)
    vc_radd = __radd__
    def __sub__(self, o): return self._ew(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._ew(o, lambda a, b: b - a)
    def __mul__(self, o): return self._ew(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._ew(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._ew(o, nodiv0)
    def __rtruediv__(self, o): return self._ew(o, lambda a, b: nodiv0(b, a))
    def __pow__(self, o): return self._ew(o, power)
    def __neg__(self): return SArr(map_list(self.l, lambda x: 0 - x))
    def __pos__(self): return self
    def __abs__(self): return SArr(map_list(self.l, sabs))
    def __lt__(self, o): return self._ew(o, lambda a, b: a < b)
    def __le__(self, o): return self._ew(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._ew(o, lambda a, b: a > b)
    def __ge__(self, o): return self._ew(o, lambda a, b: a >= b)

    def dot(self, o):
        me, ol = self.l, to_list(o)
        n, m = me.length(), ol.length()
        if not (n == m):
            raise ValueError('shapes not aligned')
        z = zip_list(me, ol, lambda a, b: a * b)
        return s_sum(z)

    def sum(self, *a):
        return s_sum(self.l)

    def max(self, *a):
        return s_max(self.l)

    def min(self, *a):
        return s_min(self.l)

    def mean(self):
        return div(s_sum(self.l), self.l.length())

    def cumsum(self):
        me = SList(self.l)
        return SArr(SList.of(Comp(self.l.length(), lambda t: ssum_n(t + 1, lambda k: me.at(k)))))

    def __iter__(self):
        return iter(self.l.vals())

    def __len__(self):
        return len(self.l)

    def __deepcopy__(self, memo):
        return self.copy()

    def vc_subst(self, pairs):
        return SArr(subst(self.l, pairs))

    def vc_mentions(self, names):
        return mentions(self.l, names)


class Grown:
    """A one-element zero-dimensional array, or the one-dimensional array
    it was appended to: it may only be appended to."""

    def __init__(self, l):
        self.__dict__.update(l=l, _born=born())

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('an array of no or one dimension is used')

    def vc_list(self):
        raise Unsupported('an array of no or one dimension is used')

    def vc_subst(self, pairs):
        return Grown(subst(self.l, pairs))

    def vc_mentions(self, names):
        return mentions(self.l, names)

    def _no(self, *a):
        raise Unsupported('an array of no or one dimension is used')

    __iter__ = __len__ = __getitem__ = __setitem__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __bool__ = __neg__ = __abs__ = __float__ = __int__ = __pow__ = _no
    __hash__ = object.__hash__


def nodiv0(a, b):
    """numpy division: no exception on zero (the value is then arbitrary)."""
    cb = const_of(b)
    if cb is not None and cb == 0:
        return Num(uf('div0', R, R)(real(zval(a))))
    if cb is not None:
        return div(a, b)
    return wrap(real(zval(a)) / real(zval(b)))


def map_list(l, f):
    segs = []
    for s in l.segs:
        if isinstance(s, Elems):
            segs.append(Elems([f(v) for v in s.vals]))
        elif isinstance(s, Comp):
            g = s.f
            nf = (lambda g: lambda t: f(g(t)))(g)
            r = Comp(s._n, nf, s.cond)
            if s.cond is not None:
                r._cnt = s.n()
            segs.append(r)
        elif isinstance(s, Flat):
            g = s.f
            segs.append(Flat(s._n, (lambda g: lambda t: map_list(g(t), f))(g), s.m))
        else:
            raise Unsupported('maps an untracked list')
    return SList.of(*segs)


def zip_list(a, b, f):
    c = ctx()
    if a.concrete and b.concrete:
        x, y = a.vals(), b.vals()
        if len(x) != len(y):
            raise ValueError('operands could not be broadcast together')
        return SList([f(p, q) for p, q in zip(x, y)])
    n, m = a.length(), b.length()
    if not (n == m):
        raise ValueError('operands could not be broadcast together')
    # segment-wise when aligned
    if len(a.segs) == len(b.segs) and all(isinstance(s, Elems) == isinstance(t, Elems) and
                                          (zval(s.n()).eq(zval(t.n()))) for s, t in zip(a.segs, b.segs)) and \
            all(getattr(s, 'cond', None) is None for s in a.segs + b.segs) and not any(isinstance(s, (Flat, Unknown)) for s in a.segs + b.segs):
        segs = []
        for s, t in zip(a.segs, b.segs):
            if isinstance(s, Elems):
                segs.append(Elems([f(p, q) for p, q in zip(s.vals, t.vals)]))
            else:
                segs.append(Comp(s._n, (lambda p, q: lambda k: f(p(k), q(k)))(s.f, t.f)))
        return SList.of(*segs)
    x, y = SList(a), SList(b)
    return SList.of(Comp(n, lambda k: f(el(x, k), el(y, k))))


def el(l, k):
    try:
        return seq.pure_at(l, k)
    except Unsupported:
        return l.at(k)


def np_unary(f):
    def g(x, *a, **k):
        if k.pop('out', None) is not None:
            raise Unsupported('out=')
        if num_like(x):
            return f(x)
        if isinstance(x, SArr):
            return SArr(map_list(x.l, f))
        if is_nd(x):
            return nd_apply(f, x)
        if isinstance(x, (SList, list, tuple)):
            l = to_list(x)
            if l.concrete_len():
                return nd_apply(f, nd(l))
            return SArr(map_list(l, f))
        if hasattr(x, 'vc_list'):
            return g(x.vc_list())
        raise TypeError('numpy function of %s' % type(x).__name__)
    return g


def np_binary(f):
    def g(x, y, *a, **k):
        if num_like(x) and num_like(y):
            return f(x, y)
        if isinstance(x, SArr):
            return x._ew(y, f)
        if isinstance(y, SArr):
            return y._ew(x, lambda p, q: f(q, p))
        for v in (x, y):
            if isinstance(v, SList) and not v.concrete_len():
                return g(np_array(x) if not num_like(x) else x, np_array(y) if not num_like(y) else y)
        return nd_apply(f, x if num_like(x) else nd(x), y if num_like(y) else nd(y))
    return g


def np_array(x=(), dtype=None, copy=True, **k):
    if num_like(x):
        return x
    if isinstance(x, ND):
        return x.copy()
    if isinstance(x, SArr):
        return x.copy()
    if isinstance(x, SRange) and not x.concrete:
        return SArr(x.vc_list())
    l = to_list(x)
    if l.concrete_len():
        return nd(l)
    v = l.at(Num(z3.Int('?k'))) if len(l.segs) == 1 and isinstance(l.segs[0], Comp) else None
    if v is not None and not num_like(v):
        if isinstance(v, tuple) and all(num_like(x) for x in v):
            return Rows(l, len(v), isinstance(dtype, str) and 'int' in dtype)
        raise Unsupported('array of tuples of symbolic length')
    return SArr(SList(l))


class Rows:
    """An array of any number of rows of a fixed width; only handed on."""

    def __init__(self, l, width, whole):
        self.rows, self.shape, self.whole = l, (l.length(), width), whole

    def vc_list(self):
        if not self.whole:
            return self.rows
        return map_list(self.rows, lambda p: tuple(truncated(v) for v in p))

    def vc_len(self):
        return self.shape[0]

    def vc_subst(self, pairs):
        return Rows(subst(self.rows, pairs), self.shape[1], self.whole)

    def vc_mentions(self, names):
        return seq.mentions(self.rows, names)


def truncated(v):
    v = zval(v)
    return Num(v if v.is_int() else z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))


def np_arange(a, b=None, step=1, dtype=None):
    if b is None:
        a, b = 0, a
    if all(isinstance(const_of(v), int) for v in (a, b, step)):
        return nd(list(range(const_of(a), const_of(b), const_of(step))))
    if all(zval(v).is_int() for v in (a, b, step)):
        return np_array(SRange(a, b, step))
    # real: ceil((b-a)/step) values
    n = sceil(div(b - a, step))
    n = smax2(n, 0)
    if isinstance(const_of(n), int):
        return nd([a + i * step for i in range(const_of(n))])
    return SArr(SList.of(Comp(n, lambda t: a + t * step)))


def np_zeros(shape, dtype=None, **k):
    return np_full(shape, Num(z3.RealVal(0)))


def np_full(shape, v, dtype=None, **k):
    if isinstance(shape, (SList, list)):
        shape = tuple(to_list(shape).vals())
    if not isinstance(shape, tuple):
        shape = (shape,)
    if all(isinstance(const_of(s), int) for s in shape):
        a = NP.empty([const_of(s) for s in shape], dtype=object)
        a.fill(v)
        return a.view(ND)
    if len(shape) == 1:
        return SArr(SList.of(Comp(shape[0], lambda t: v)))
    raise Unsupported('array of symbolic shape')


def np_zeros_like(x, **k):
    if is_nd(x):
        return np_full(x.shape, Num(z3.RealVal(0)))
    n = to_list(x).length()
    return np_full((n,), Num(z3.RealVal(0)))


def np_ones(shape, **k):
    return np_full(shape, Num(z3.RealVal(1)))


def arr_of(l):
    return nd(l) if l.concrete_len() else SArr(l)


def np_append(a, v, axis=None):
    l = SList([a]) if num_like(a) else SList(a.l) if isinstance(a, Grown) else SList(to_list(a))
    if num_like(v):
        l2 = SList([v])
    else:
        l2 = to_list(v)
    r = SList()
    r.segs = seq.join(l.segs, l2.segs)
    r.ghost = dict(l.ghost)
    if isinstance(a, (SArr, Grown)):
        return SArr(r)
    return arr_of(r)


def np_insert(a, i, v, axis=None):
    l = to_list(a)
    if const_of(i) != 0:
        raise Unsupported('np.insert')
    l2 = SList([v]) if num_like(v) else to_list(v)
    r = SList()
    r.segs = seq.join(l2.segs, l.segs)
    return arr_of(r)


def np_hstack(t, **k):
    if isinstance(t, (SArr, ND)):
        return t.copy() if not isinstance(t, SArr) else SArr(SList(t.l))
    parts = to_list(t).vals() if not isinstance(t, tuple) else t
    r = SList()
    for p in parts:
        l = SList([p]) if num_like(p) else to_list(p)
        r.segs = seq.join(r.segs, l.segs)
    return arr_of(r)


def np_diff(a, **k):
    x = np_array(a)
    if isinstance(x, SArr):
        return x[1:] - x[:-1]
    return x[1:] - x[:-1]


def np_dot(a, b):
    return np_array(a).dot(b)


def np_where(c, a=None, b=None):
    if a is None:
        raise Unsupported('np.where')
    f = lambda q, x, y: ite(q, x, y)
    if isinstance(c, (bool, SymBool)):
        return ite(c, a, b) if num_like(a) and num_like(b) else (a if c else b)
    if isinstance(c, SArr) or isinstance(a, SArr) or isinstance(b, SArr):
        cl = c.l
        g = lambda v, t: v if num_like(v) else el(to_list(v), t)
        return SArr(SList.of(Comp(cl.length(), lambda t: ite(el(cl, t), g(a, t), g(b, t)))))
    return nd_apply(f, c, a, b)


def np_clip(x, lo, hi):
    r = x
    if lo is not None:
        r = np_binary(smax2)(r, lo)
    if hi is not None:
        r = np_binary(smin2)(r, hi)
    return r


def np_isclose(*a, **k):
    raise Unsupported('np.isclose')


def sgn(x):
    c = const_of(x)
    if c is not None:
        return (c > 0) - (c < 0)
    return Num(zval(x)).sign()


PI = Num(z3.Const('pi', R))


def pi_axiom():
    c = _cur()
    if c is not None:
        z = PI.z
        c.axiom(z3.And(z > z3.Q(314159265, 100000000), z < z3.Q(314159266, 100000000)))


class _PiModule(types.ModuleType):
    def __getattribute__(self, a):
        if a == 'pi':
            pi_axiom()
        return types.ModuleType.__getattribute__(self, a)

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        return Opaque('%s.%s' % (self.__name__, a))


def module(name, **k):
    m = _PiModule(name)
    m.__dict__.update(k)
    return m


# ------------------------------------------------------------------ interp1d
class Interp1D(Obj):
    """scipy.interpolate.interp1d; contract: values at the given points are
    the given values, a function of its argument elsewhere; for kind linear
    the value lies between those of the neighbouring points."""

    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=None, assume_sorted=False):
        self.x = np_array(x)
        self.y = np_array(y)
        self.kind = kind
        self.fill_value = fill_value
        hook = ctx().cfg.get('interp_new')
        if hook:
            hook(self)
        nx, ny = s_len(to_list(self.x)), s_len(to_list(self.y))
        if not (nx == ny):
            raise ValueError('x and y arrays must be equal in length along interpolation axis.')
        object.__getattribute__(self, '__dict__')['uid'] = str(ctx().fresh('interp', I))

    def __call__(self, q):
        hook = ctx().cfg.get('interp_call')
        if hook:
            r = hook(self, q)
            if r is not None:
                return r
        f = uf(self.uid, R, R)
        if num_like(q):
            return interp_result(self.value(q))
        return np_unary(lambda v: Num(f(real(zval(v)))))(q)

    def value(self, q):
        """Contract instantiated at q."""
        f = uf(self.uid, R, R)
        v = Num(f(real(zval(q))))
        return v


def interp_result(v):
    return v


# ------------------------------------------------------------------ copying
def s_deepcopy(x, memo=None):
    if memo is None:
        memo = {}
    if isinstance(x, (Num, SymBool, int, str, float, type(None), bool, SymStr, Fraction, type, types.FunctionType, types.MethodType, types.ModuleType, Opaque)):
        return x
    if id(x) in memo:
        return memo[id(x)][1]
    if isinstance(x, tuple):
        r = tuple(s_deepcopy(v, memo) for v in x)
        memo[id(x)] = (x, r)
        return r
    if isinstance(x, SList):
        r = SList()
        memo[id(x)] = (x, r)
        r.segs = [Elems([s_deepcopy(v, memo) for v in s.vals]) if isinstance(s, Elems) else s for s in x.segs]
        r.ghost = dict(x.ghost)
        return r
    if isinstance(x, SDict):
        r = SDict()
        memo[id(x)] = (x, r)
        for k, v in dict.items(x):
            dict.__setitem__(r, k, s_deepcopy(v, memo))
        r.arr = x.arr
        r.ghost = dict(x.ghost)
        return r
    if isinstance(x, ND):
        r = x.copy()
        memo[id(x)] = (x, r)
        return r
    if isinstance(x, SArr):
        r = x.copy()
        memo[id(x)] = (x, r)
        return r
    if isinstance(x, SSet):
        return SSet(x.l)
    if isinstance(x, Obj):
        r = type(x).__new__(type(x))
        memo[id(x)] = (x, r)
        d = object.__getattribute__(r, '__dict__')
        for k, v in object.__getattribute__(x, '__dict__').items():
            if k != '_born':
                d[k] = s_deepcopy(v, memo)
        return r
    if hasattr(x, 'vc_deepcopy'):
        return x.vc_deepcopy(memo)
    raise Unsupported('deepcopy of %s' % type(x).__name__)


def s_copy(x):
    if isinstance(x, SList):
        return SList(x)
    if isinstance(x, SDict):
        return x.copy()
    if isinstance(x, (ND, SArr)):
        return x.copy()
    if isinstance(x, Obj):
        r = type(x).__new__(type(x))
        d = object.__getattribute__(r, '__dict__')
        b = d['_born']
        d.update(object.__getattribute__(x, '__dict__'))
        d['_born'] = b
        return r
    return x


def warn(msg=None, *a, **k):
    c = _cur()
    if c is not None:
        c.store['warns'] = c.store.get('warns', []) + [msg]


def brentq(f, a, b, args=(), xtol=2e-12, rtol=8.9e-16, maxiter=100, full_output=False, disp=True):
    hook = ctx().cfg.get('brentq')
    if hook is None:
        raise Unsupported('calls scipy.optimize.brentq')
    return hook(f, a, b, xtol, rtol, maxiter)


def dgtsv(*a, **k):
    hook = ctx().cfg.get('dgtsv')
    if hook is None:
        raise Unsupported('calls lapack dgtsv')
    return hook(*a, **k)


def hooked(name):
    def f(*a, **k):
        h = ctx().cfg.get(name)
        if h is None:
            raise Unsupported('calls ' + name)
        return h(*a, **k)
    f.__name__ = name.split('.')[-1]
    return f


def sfloor_f(x):
    return sfloat(sfloor(x))


def fakes():
    e = lambda f: np_unary(f)
    npm = module(
        'numpy', pi=PI, array=np_array, asarray=np_array, arange=np_arange, zeros=np_zeros, ones=np_ones, full=np_full, zeros_like=np_zeros_like,
        append=np_append, insert=np_insert, hstack=np_hstack, concatenate=np_hstack, diff=np_diff, dot=np_dot, where=np_where, clip=np_clip,
        ceil=e(lambda x: sfloat(sceil(x))), floor=e(lambda x: sfloat(sfloor(x))), sqrt=e(sqrt), log=e(lambda x: fn('log', x)),
        exp=e(lambda x: fn('exp', x)), cos=e(lambda x: fn('cos', x)), sin=e(lambda x: fn('sin', x)), abs=e(sabs), absolute=e(sabs), fabs=e(sabs),
        sign=e(sgn), maximum=np_binary(smax2), minimum=np_binary(smin2), multiply=np_binary(lambda a, b: a * b),
        add=np_binary(lambda a, b: a + b), subtract=np_binary(lambda a, b: a - b), divide=np_binary(nodiv0), power=np_binary(power), square=e(lambda a: a * a),
        rint=e(lambda x: sfloat(sround(x))), trunc=e(lambda x: sfloat(sint(x))), sum=lambda x, **k: s_sum(x), max=lambda x, **k: s_max(x), min=lambda x, **k: s_min(x),
        amax=lambda x, **k: s_max(x), amin=lambda x, **k: s_min(x), mean=lambda x, **k: div(s_sum(x), to_list(x).length()),
        cumsum=lambda x: np_array(x).cumsum(), hypot=np_binary(lambda a, b: sqrt(a * a + b * b)),
        float64='float64', double='double', int64='int64', uint64='uint64', ndarray=Opaque('numpy.ndarray'), dtype=Opaque('numpy.dtype'), inf=Opaque('inf'), nan=Opaque('nan'),
        isclose=np_isclose, allclose=np_isclose)
    mathm = module('math', pi=PI, floor=sfloor, ceil=sceil, sqrt=sqrt, log=lambda x, *b: fn('log', x) if not b else div(fn('log', x), fn('log', b[0])),
                   exp=lambda x: fn('exp', x), cos=lambda x: fn('cos', x), sin=lambda x: fn('sin', x), fabs=sabs, trunc=sint, pow=power,
                   hypot=lambda a, b: sqrt(a * a + b * b))
    interp = module('scipy.interpolate', interp1d=Interp1D, lagrange=hooked('lagrange'))
    optim = module('scipy.optimize', brentq=brentq)
    optim.optimize = optim
    lapack = module('scipy.linalg.lapack', dgtsv=dgtsv)
    linalg = module('scipy.linalg', lapack=lapack)
    scipy = module('scipy', interpolate=interp, optimize=optim, linalg=linalg)
    copym = module('copy', deepcopy=s_deepcopy, copy=s_copy)
    warnm = module('warnings', warn=warn)
    tw = module('textwrap', TextWrapper=lambda **k: types.SimpleNamespace(wrap=lambda text: SList([])), wrap=lambda *a, **k: SList([]),
                dedent=lambda x: x, fill=lambda x, *a, **k: x)
    jsonm = module('json', dump=json_dump, load=json_load, dumps=hooked('json.dumps'), loads=hooked('json.loads'))
    picklem = module('pickle', dump=pickle_dump, load=pickle_load, dumps=pickle_dumps, loads=pickle_loads, HIGHEST_PROTOCOL=5, DEFAULT_PROTOCOL=4)
    cv2 = module('cv2', pointPolygonTest=hooked('cv2.pointPolygonTest'))
    from . import gt_model
    d = {'numpy': npm, 'math': mathm, 'scipy': scipy, 'scipy.interpolate': interp, 'scipy.optimize': optim, 'scipy.optimize.optimize': optim,
         'scipy.linalg': linalg, 'scipy.linalg.lapack': lapack, 'copy': copym, 'warnings': warnm, 'textwrap': tw, 'json': jsonm, 'pickle': picklem, 'cv2': cv2,
         'pygfunction': gt_model.build()}
    return d


# ------------------------------------------------------------------ run-time interface
def truth(v):
    if isinstance(v, SList):
        return bool(v.length() > 0)
    if isinstance(v, SDict):
        n = v.length()
        return bool(n > 0)
    if isinstance(v, SRange):
        return bool(v.length() > 0)
    return bool(v)


class Ret:
    __slots__ = ('value',)

    def __init__(self, v):
        self.value = v


class _Brk:
    def __repr__(self):
        return 'BRK'


BRK = _Brk()


def native_ok(a, b):
    return True


class VC:
    Obj = Obj
    Ret = Ret
    BRK = BRK
    Frame = Frame

    def __init__(self):
        pass

    @staticmethod
    def F(s):
        return Num(z3.RealVal(str(Fraction(s))))

    @staticmethod
    def is_ret(v):
        return type(v) is Ret

    # arithmetic
    @staticmethod
    def add(a, b):
        if isinstance(a, (str, SymStr)) and isinstance(b, SymStr):
            return SymStr([a, b])
        return a + b

    @staticmethod
    def sub(a, b):
        return a - b

    @staticmethod
    def mul(a, b):
        if isinstance(a, Num) and isinstance(b, (SList, list)):
            return seq.rep(b, a)
        if isinstance(b, (Num, int)) and isinstance(a, SList):
            return seq.rep(a, b)
        if isinstance(a, tuple) or isinstance(b, tuple):
            if isinstance(a, Num) or isinstance(b, Num):
                raise Unsupported('tuple repetition')
        return a * b

    @staticmethod
    def div(a, b):
        if num_like(a) and num_like(b):
            return div(a, b)
        return a / b

    @staticmethod
    def floordiv(a, b):
        if num_like(a) and num_like(b):
            return floordiv(a, b)
        if is_nd(a) or is_nd(b) or isinstance(a, SArr) or isinstance(b, SArr):
            return np_binary(floordiv)(a, b)
        return a // b

    @staticmethod
    def mod_(a, b):
        if isinstance(a, str):
            return VC.strcall(None, a, 'format')
        if num_like(a) and num_like(b):
            return mod(a, b)
        return np_binary(mod)(a, b)

    @staticmethod
    def pow_(a, b):
        if num_like(a) and num_like(b):
            return power(a, b)
        if isinstance(a, SArr):
            return a ** b
        return np_binary(power)(a, b)

    # comparison
    @staticmethod
    def lt(a, b): return a < b

    @staticmethod
    def le(a, b): return a <= b

    @staticmethod
    def gt(a, b): return a > b

    @staticmethod
    def ge(a, b): return a >= b

    @staticmethod
    def eq(a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return eq_val(a, b)
        return a == b

    @staticmethod
    def ne(a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return snot(eq_val(a, b))
        return a != b

    @staticmethod
    def in_(a, b):
        if isinstance(b, SSet):
            return b.vc_contains(a)
        if isinstance(b, SList) or isinstance(b, SRange) or isinstance(b, tuple):
            if isinstance(b, tuple) and not num_like(a) and not isinstance(a, (tuple, SymStr)):
                return a in b
            return seq.contains(to_list(b), a)
        return a in b

    @staticmethod
    def notin(a, b):
        return snot(VC.in_(a, b))

    @staticmethod
    def is_(a, b):
        if isinstance(a, type) or isinstance(b, type):
            return a == b
        return a is b

    @staticmethod
    def isnot(a, b):
        return not VC.is_(a, b)

    @staticmethod
    def chain(vals, ops):
        fs = []
        for i, op in enumerate(ops.split(',')):
            f = getattr(VC, op)(vals[i], vals[i + 1])
            if f is False:
                return False
            fs.append(f)
        return sand(*fs) if all(isinstance(f, (bool, SymBool)) for f in fs) else all(fs)

    @staticmethod
    def and_(v, t):
        return t() if truth(v) else v

    @staticmethod
    def or_(v, t):
        return v if truth(v) else t()

    @staticmethod
    def not_(v):
        if isinstance(v, SymBool):
            return snot(v)
        return not truth(v)

    @staticmethod
    def ifexp(c, a, b):
        return a() if truth(c) else b()

    # containers
    @staticmethod
    def list_(*x):
        return SList(x)

    @staticmethod
    def set_(*x):
        return SSet(list(x))

    @staticmethod
    def dict_(*kv):
        d = SDict()
        for k, v in kv:
            d[k] = v
        return d

    @staticmethod
    def dictmerge(*ds):
        r = SDict()
        for d in ds:
            for k in d.keys():
                r[k] = d[k]
        return r

    @staticmethod
    def set_of(l):
        return SSet(l)

    @staticmethod
    def dict_of(l):
        d = SDict()
        if not l.concrete_len():
            raise Unsupported('dict comprehension of symbolic length')
        for k, v in l.vals():
            d[k] = v
        return d

    @staticmethod
    def comp(_, it, body=None, cond=None, nested=False):
        raise NotImplementedError

    @staticmethod
    def getitem(o, i):
        if isinstance(o, tuple):
            if isinstance(i, slice):
                return o[slice(*[None if x is None else _ci(x) for x in (i.start, i.stop, i.step)])]
            c = const_of(i)
            if isinstance(c, int):
                return o[c]
            if isinstance(i, Num) and not i.is_int:
                raise TypeError('tuple indices must be integers')
            return SList(list(o))[i]
        if isinstance(o, SList):
            if isinstance(i, Num) and not i.is_int or i is None or isinstance(i, (str, SymStr)):
                raise TypeError('list indices must be integers or slices')
            return o[i]
        if isinstance(o, str):
            return o[nd_index(i)]
        return o[i]

    @staticmethod
    def setitem(o, i, v):
        if isinstance(o, SList) and (isinstance(i, Num) and not i.is_int):
            raise TypeError('list indices must be integers or slices')
        o[i] = v

    @staticmethod
    def delitem(o, i):
        del o[i]

    @staticmethod
    def delattr_(o, n):
        delattr(o, n)

    @staticmethod
    def slice(a, b, c):
        return slice(a, b, c)

    setattr = staticmethod(setattr_)

    @staticmethod
    def aug_attr(o, n, op, v):
        setattr_(o, n, VC.iop(op, getattr(o, n), v))

    @staticmethod
    def aug_item(o, i, op, v):
        VC.setitem(o, i, VC.iop(op, VC.getitem(o, i), v))

    @staticmethod
    def iop(op, old, v):
        if op == 'add' and isinstance(old, SList):
            old += v
            return old
        if isinstance(old, ND) and op in ('add', 'sub', 'mul', 'div', 'pow_', 'floordiv', 'mod_'):
            old[...] = getattr(VC, op)(old, v)
            return old
        if isinstance(old, SArr) and op in ('add', 'sub', 'mul', 'div'):
            r = getattr(VC, op)(old, v)
            old.l[slice(None, None, None)] = r.l
            return old
        if hasattr(VC, op):
            return getattr(VC, op)(old, v)
        if op == 'BitAnd':
            return old & v
        if op == 'BitOr':
            return old | v
        raise Unsupported('augmented ' + op)

    @staticmethod
    def unpack(v, n):
        if isinstance(v, tuple):
            if len(v) != n:
                raise ValueError('unpack')
            return v
        l = to_list(v)
        if l.concrete_len():
            x = l.vals()
            if len(x) != n:
                raise ValueError('not enough/too many values to unpack (expected %d)' % n)
            return tuple(x)
        if not (l.length() == n):
            raise ValueError('unpack')
        return tuple(l.at(i) for i in range(n))

    @staticmethod
    def unpack_star(v, a, b):
        l = to_list(v)
        n = l.length()
        if not (n >= a + b):
            raise ValueError('not enough values to unpack')
        if l.concrete_len():
            x = l.vals()
            return tuple(x[:a]) + (SList(x[a:len(x) - b]),) + tuple(x[len(x) - b:])
        return tuple(l.at(i) for i in range(a)) + (l.slice(slice(a, n - b)),) + tuple(l.at(n - b + i) for i in range(b))

    @staticmethod
    def native(t, i):
        return t[i]

    @staticmethod
    def unstar(v):
        if isinstance(v, tuple):
            return v
        return to_list(v).vals()

    @staticmethod
    def fset(frame, name, v):
        d = frame.__dict__
        c = _cur()
        if c is not None:
            old = d.get(name, UNSET)

            def restore():
                if old is UNSET:
                    d.pop(name, None)
                else:
                    d[name] = old
            c.undo.append(Undo(('attr', id(frame), name), frame, restore))
        d[name] = v
        return v

    @staticmethod
    def fdel(frame, name):
        d = frame.__dict__
        old = d.pop(name)
        log_undo(('attr', id(frame), name), frame, lambda: d.__setitem__(name, old))

    @staticmethod
    def vararg(t):
        return t

    @staticmethod
    def kwarg(d):
        return SDict(d)

    @staticmethod
    def strcall(o, m, *a, **k):
        if isinstance(o, SymStr) or isinstance(o, str):
            if m == 'format':
                return sformat(o, a, k)
            if m == 'join':
                out = []
                for i, p in enumerate(to_list(a[0]).vals()):
                    if i:
                        out.append(o)
                    out.append(p)
                if all(isinstance(x, str) for x in out):
                    return ''.join(out)
                return SymStr(out)
            if isinstance(o, SymStr):
                return getattr(o, m)(*a, **k)
            r = getattr(o, m)(*a, **k)
            return SList(r) if isinstance(r, list) else r
        return getattr(o, m)(*a, **k)

    @staticmethod
    def fmt(v, conv, spec):
        return to_str(v, spec if isinstance(spec, str) and spec else None)

    @staticmethod
    def fstr(*parts):
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        return SymStr(parts)

    @staticmethod
    def mkexc(cls, args):
        if isinstance(cls, Opaque):
            raise Unsupported('raises %s' % cls._name)
        try:
            a = args()
        except Unsupported:
            a = ('message not modelled',)
        if isinstance(cls, type) and issubclass(cls, BaseException):
            return cls(*[x if isinstance(x, str) else '<message>' for x in a])
        return cls(*a)

    @staticmethod
    def native_iter(x):
        return iter(to_list(x).vals())

    @staticmethod
    def for_(it, body, frame, lineno):
        from . import loops
        return loops.for_(it, body, frame, lineno)

    @staticmethod
    def while_(test, body, frame, lineno):
        from . import loops
        return loops.while_(test, body, frame, lineno)


def _comp(it, body=None, cond=None, nested=False, *rest):
    from . import loops
    return loops.comp(it, body, cond, nested)


VC.comp = staticmethod(lambda *a: _comp(*(a[1:] if a and a[0] is None and len(a) == 5 else a)))
_vu = VC.unpack
VC.unpack = staticmethod(lambda *a: _vu(*(a[1:] if len(a) == 3 else a)))


def sformat(o, a, k):
    import string
    if isinstance(o, SymStr):
        return o
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(o):
        out.append(lit)
        if field is None:
            continue
        if field == '':
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in k:
            v = k[field]
        else:
            v = '<%s>' % field
        out.append(to_str(v, spec))
    if all(isinstance(p, str) for p in out):
        return ''.join(out)
    return SymStr(out)
