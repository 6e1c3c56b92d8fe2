"""Symbolic Python lists, tuples-of-unknown-length and dictionaries."""
import z3, copy
from . import core
from .core import (Num, SymBool, Unsupported, PathEnd, ctx, _cur, zval, wrap, real, num_like, const_of,
                   sbool, bz, ite, smax2, smin2, uf, I, R, B, sand, born)


# ------------------------------------------------------------- substitution
def subst(v, pairs):
    """Replace z3 constants in a value (structure preserving)."""
    if isinstance(v, Num):
        return wrap(z3.substitute(v.z, *pairs))
    if isinstance(v, SymBool):
        return sbool(z3.simplify(z3.substitute(v.z, *pairs)))
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, SList):
        r = SList.__new__(SList)
        r._born = born()
        r.segs = [s.subst(pairs) for s in v.segs]
        r.ghost = {k: subst(x, pairs) for k, x in v.ghost.items()}
        r.frozen = True
        return r
    if isinstance(v, dict) and not isinstance(v, SDict):
        return {k: subst(x, pairs) for k, x in v.items()}
    if hasattr(v, 'vc_subst'):
        return v.vc_subst(pairs)
    if z3.is_expr(v):
        return z3.substitute(v, *pairs)
    return v


def mentions(v, names):
    """Does the value contain one of the z3 constants (set of names)?"""
    if isinstance(v, (Num, SymBool)):
        return bool(consts(v.z) & names)
    if isinstance(v, (tuple, list)):
        return any(mentions(x, names) for x in v)
    if isinstance(v, SList):
        return any(s.mentions(names) for s in v.segs) or any(mentions(x, names) for x in v.ghost.values())
    if isinstance(v, dict) and not isinstance(v, SDict):
        return any(mentions(x, names) for x in v.values())
    if hasattr(v, 'vc_mentions'):
        return v.vc_mentions(names)
    if z3.is_expr(v):
        return bool(consts(v) & names)
    return False


_cc = {}


def consts(z):
    k = z.get_id()
    if k in _cc:
        return _cc[k][1]
    out, seen, st = set(), set(), [z]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            st.append(t.body())
            continue
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(t.decl().name())
        st.extend(t.children())
    _cc[k] = (z, out)
    return out


# ------------------------------------------------------------- segments
class Elems:
    def __init__(self, vals):
        self.vals = vals

    def n(self):
        return len(self.vals)

    def at(self, i):
        c = const_of(i)
        if isinstance(c, int):
            return self.vals[c]
        if len(self.vals) == 1:
            return self.vals[0]
        if all(num_like(v) for v in self.vals):
            r = self.vals[-1]
            for j in range(len(self.vals) - 2, -1, -1):
                r = ite(i == j, self.vals[j], r)
            return r
        for j in range(len(self.vals) - 1):
            if i == j:
                return self.vals[j]
        return self.vals[-1]

    def subst(self, p):
        return Elems([subst(v, p) for v in self.vals])

    def mentions(self, names):
        return any(mentions(v, names) for v in self.vals)


class Comp:
    """n elements f(0..n-1); with cond, only those k with cond(k)."""

    def __init__(self, n, f, cond=None, tag=None):
        self._n, self.f, self.cond = n, f, cond
        self.tag = tag
        self._cnt = None
        self.dep = None

    def n(self):
        if self.cond is None:
            return self._n
        if self._cnt is None:
            c = ctx()
            z = c.fresh('cnt', I)
            c.assume(z3.And(z >= 0, z <= zval(self._n)))
            self._cnt = Num(z)
            # empty iff no index satisfies the condition (skolem witness)
            w = c.fresh('wit', I)
            c.assume(z3.Implies(z > 0, z3.And(w >= 0, w < zval(self._n))))
        return self._cnt

    def at(self, i):
        if self.cond is None:
            return self.f(i)
        c = ctx()
        w = Num(c.fresh('sel', I))
        c.assume(z3.And(w.z >= 0, w.z < zval(self._n)))
        c.assume(self.cond(w))
        return self.f(w)

    def subst(self, p):
        q = list(p)
        n2 = subst(self._n, q)
        f, cond = self.f, self.cond
        r = Comp(n2, lambda t: subst_keep(f, t, q), None if cond is None else (lambda t: subst_keep(cond, t, q)))
        if self._cnt is not None:
            r._cnt = subst(self._cnt, q)
        return r

    def mentions(self, names):
        k = Num(z3.Int('?k'))
        if mentions(self._n, names):
            return True
        cur = _cur()
        try:
            return mentions(self.f(k), names) or (self.cond is not None and mentions(self.cond(k), names))
        except (Exception, Unsupported):
            return True


def subst_keep(f, t, q):
    """f(t) with q applied, keeping the argument t itself untouched."""
    k = z3.Int('?arg')
    core.ENV.append([(k, zval(t))])
    core.ENV.append(q)
    try:
        v = f(Num(k))
    finally:
        del core.ENV[-2:]
    v = subst(v, q)
    return subst(v, [(k, zval(t))])


class Flat:
    """Concatenation over k < n of the lists f(k)."""

    def __init__(self, n, f, m=None):
        self._n, self.f, self.m = n, f, m   # m: common inner length if any

    def n(self):
        if self.m is not None:
            return self.m * self._n
        c = ctx()
        if not hasattr(self, '_cnt'):
            z = c.fresh('flatlen', I)
            c.assume(z >= 0)
            self._cnt = Num(z)
        return self._cnt

    def at(self, i):
        m = self.m
        if isinstance(m, int):
            k, r = i // m, i % m
            rc = const_of(r)
            if rc is None:
                for j in range(m - 1):
                    if r == j:
                        return self.f(k).at(j)
                return self.f(k).at(m - 1)
            return self.f(k).at(rc)
        c = ctx()
        if m is None and c.cfg.get('flat_numbers'):
            # an array of numbers: the entry as a function of the index
            if not hasattr(self, '_entry'):
                self._entry = c.freshfun('entry', I, R)
            return Num(self._entry(zval(i)))
        k = Num(c.fresh('fk', I))
        r = Num(c.fresh('fr', I))
        c.assume(z3.And(k.z >= 0, k.z < zval(self._n), r.z >= 0))
        inner = self.f(k)
        c.assume(zval(r) < zval(inner.length()))
        if m is not None:
            c.assume(zval(i) == zval(k * m + r))
        return inner.at(r)

    def subst(self, p):
        f = self.f
        return Flat(subst(self._n, p), lambda t: subst_keep(f, t, p), subst(self.m, p))

    def mentions(self, names):
        k = Num(z3.Int('?k'))
        try:
            return mentions(self._n, names) or mentions(self.f(k), names)
        except (Exception, Unsupported):
            return True


class Unknown:
    """Contents not tracked (elements only through ghosts)."""

    def __init__(self, n, elem=None):
        self._n, self.elem = n, elem

    def n(self):
        return self._n

    def at(self, i):
        if self.elem is not None:
            return self.elem(i)
        raise Unsupported('reads a list whose contents are not tracked')

    def subst(self, p):
        return Unknown(subst(self._n, p), self.elem)

    def mentions(self, names):
        return mentions(self._n, names)


# ------------------------------------------------------------- lists
class SList:
    def __init__(self, vals=()):
        self._born = born()
        self.segs = []
        self.ghost = {}
        self.frozen = False
        if isinstance(vals, SList):
            self.segs = list(vals.segs)
            self.ghost = dict(vals.ghost)
        else:
            vals = list(vals)
            if vals:
                self.segs = [Elems(vals)]
            mon = monitor()
            if mon is not None:
                for v in vals:
                    mon.add(self, v)

    @staticmethod
    def of(*segs):
        r = SList()
        r.segs = [s for s in segs if not (isinstance(s, Elems) and not s.vals)]
        return r

    @staticmethod
    def sym(name, n, sort=R):
        f = z3.Function(name, I, sort)
        return SList.of(Comp(n, lambda t: Num(f(zval(t))), tag=name))

    # -- observation
    def length(self):
        t = 0
        for s in self.segs:
            t = t + s.n()
        return t

    @property
    def concrete(self):
        return all(isinstance(s, Elems) for s in self.segs)

    def concrete_len(self):
        for s in self.segs:
            if isinstance(s, Elems):
                continue
            if isinstance(s, Comp) and s.cond is None and isinstance(const_of(s._n), int):
                continue
            return False
        return True

    def vals(self):
        if not self.concrete:
            # tiny comprehensions of concrete length
            out = []
            for s in self.segs:
                if isinstance(s, Elems):
                    out += s.vals
                elif isinstance(s, Comp) and s.cond is None and isinstance(const_of(s._n), int):
                    out += [s.f(k) for k in range(const_of(s._n))]
                else:
                    raise Unsupported('native iteration over a list of symbolic length')
            return out
        out = []
        for s in self.segs:
            out += s.vals
        return out

    def at(self, i):
        """Element i, index already known to be in range."""
        off = 0
        segs = self.segs
        for j, s in enumerate(segs):
            if j == len(segs) - 1:
                return s.at(i - off)
            n = s.n()
            if i - off < n:
                return s.at(i - off)
            off = off + n
        raise IndexError('list index out of range')

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.slice(i)
        n = self.length()
        c = const_of(i)
        if isinstance(c, int) and c < 0:
            # from the end, when the last segment is concrete
            k = -c
            for s in reversed(self.segs):
                if isinstance(s, Elems):
                    if k <= len(s.vals):
                        return s.vals[-k]
                    k -= len(s.vals)
                else:
                    break
            i = n + c
            if not (i >= 0):
                raise IndexError('list index out of range')
            return self.at(i)
        if c is None:
            if i < 0:
                i = i + n
                if not (i >= 0):
                    raise IndexError('list index out of range')
                return self.at(i)
        if not (i < n):
            raise IndexError('list index out of range')
        return self.at(i)

    def slice(self, sl):
        n = self.length()
        if sl.step is not None and const_of(sl.step) != 1:
            return self.stride(sl)
        a = 0 if sl.start is None else sl.start
        b = n if sl.stop is None else sl.stop
        a, b = clamp(a, n), clamp(b, n)
        if self.concrete and isinstance(const_of(a), int) and isinstance(const_of(b), int):
            return SList(self.vals()[const_of(a):const_of(b)])
        m = smax2(b - a, 0)
        mc = const_of(m)
        if mc is None:
            if ctx().valid(zval(b) >= zval(a), 1000):
                m = b - a
                if not num_like(m):
                    raise Unsupported('slice')
        me = SList(self)
        me.frozen = True
        return SList.of(Comp(m, lambda t: me.at(t + a)))

    def stride(self, sl):
        if self.concrete:
            return SList(self.vals()[slice(const_of(sl.start) if sl.start is not None else None,
                                           const_of(sl.stop) if sl.stop is not None else None, const_of(sl.step))])
        st = const_of(sl.step)
        if st == -1 and sl.start is None and sl.stop is None:
            n = self.length()
            me = SList(self)
            return SList.of(Comp(n, lambda t: me.at(n - 1 - t)))
        n = self.length()
        a = clamp(0 if sl.start is None else sl.start, n)
        b = clamp(n if sl.stop is None else sl.stop, n)
        from .models import SRange
        r = SRange(a, b, sl.step)
        me = SList(self)
        return SList.of(Comp(r.length(), lambda t: me.at(r.at(t))))

    # -- mutation (recorded for undo)
    def _touch(self):
        if self.frozen:
            raise Unsupported('mutates a summarised list')
        c = _cur()
        if c is not None:
            old, g = list(self.segs), dict(self.ghost)
            c.undo.append(Undo(('list', id(self)), self, lambda: self._restore(old, g)))
        self.ghost = {}

    def _restore(self, segs, ghost):
        self.segs, self.ghost = segs, ghost

    def append(self, v):
        self._touch()
        mon = monitor()
        if mon is not None:
            mon.add(self, v)
        if self.segs and isinstance(self.segs[-1], Elems):
            self.segs = self.segs[:-1] + [Elems(self.segs[-1].vals + [v])]
        else:
            self.segs = self.segs + [Elems([v])]

    def extend(self, o):
        o = as_list(o)
        self._touch()
        mon = monitor()
        if mon is not None:
            mon.join(self, self, o)
        self.segs = join(self.segs, o.segs)

    def insert(self, i, v):
        if const_of(i) == 0:
            self._touch()
            mon = monitor()
            if mon is not None:
                mon.front(self, v)
            self.segs = join([Elems([v])], self.segs)
            return
        if self.concrete and isinstance(const_of(i), int):
            l = self.vals()
            l.insert(const_of(i), v)
            self._touch()
            self.segs = [Elems(l)]
            return
        raise Unsupported('insert')

    def pop(self, i=-1):
        if self.concrete:
            l = self.vals()
            r = l.pop(const_of(i))
            self._touch()
            self.segs = [Elems(l)] if l else []
            return r
        raise Unsupported('pop')

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            return self.setslice(i, v)
        n = self.length()
        c = const_of(i)
        if isinstance(c, int):
            if c < 0:
                i = n + c
        elif i < 0:
            i = i + n
            if i < 0:
                raise IndexError('list assignment index out of range')
        if not (i < n):
            raise IndexError('list assignment index out of range')
        self._touch()
        ci = const_of(i)
        if isinstance(ci, int) and self.segs and isinstance(self.segs[0], Elems) and ci < len(self.segs[0].vals):
            l = list(self.segs[0].vals)
            l[ci] = v
            self.segs = [Elems(l)] + self.segs[1:]
            return
        c = _cur()
        if c is not None:
            c.undo[-1].effect = ('set', i, v)
        old = SList(self)
        self.segs = [Comp(n, lambda t: pick(t == i, lambda: v, lambda: old.at(t)))]

    def setslice(self, sl, v):
        n = self.length()
        a = clamp(0 if sl.start is None else sl.start, n)
        b = clamp(n if sl.stop is None else sl.stop, n)
        v = as_list(v)
        m = v.length()
        if not (m == b - a):
            raise Unsupported('slice assignment that changes the length')
        self._touch()
        old, new = SList(self), SList(v)
        self.segs = [Comp(n, lambda t: pick(sand(t >= a, t < b), lambda: new.at(t - a), lambda: old.at(t)))]

    def __delitem__(self, i):
        raise Unsupported('del on a list')

    def sort(self, key=None, reverse=False):
        from .models import s_sorted
        r = s_sorted(self, key=key, reverse=reverse)
        self._touch()
        self.segs = list(r.segs)
        self.ghost = dict(r.ghost)

    def reverse(self):
        n = self.length()
        old = SList(self)
        self._touch()
        if old.concrete:
            self.segs = [Elems(list(reversed(old.vals())))] if old.segs else []
        else:
            self.segs = [Comp(n, lambda t: old.at(n - 1 - t))]

    def copy(self):
        return SList(self)

    def clear(self):
        self._touch()
        self.segs, self.ghost = [], {}

    # -- operators
    def __add__(self, o):
        o = as_list(o)
        r = SList()
        r.segs = join(self.segs, o.segs)
        mon = monitor()
        if mon is not None:
            r.ghost = dict(self.ghost)
            mon.join(r, self, o)
        return r

    def __radd__(self, o):
        return as_list(o) + self

    def __iadd__(self, o):
        if isinstance(o, SList) or isinstance(o, (list, tuple)):
            self.extend(o)
            return self
        if hasattr(o, 'vc_array'):
            return o.vc_radd(self)
        self.extend(o)
        return self

    def __mul__(self, n):
        return rep(self, n)
    __rmul__ = __mul__

    def __iter__(self):
        return iter(self.vals())

    def __reversed__(self):
        r = SList(self)
        r.reverse()
        return iter(r.vals())

    def __len__(self):
        n = const_of(self.length())
        if isinstance(n, int):
            return n
        raise Unsupported('native len() of a list of symbolic length')

    def __bool__(self):
        return bool(self.length() > 0)

    def __contains__(self, v):
        return bool(contains(self, v))

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, (SList, list)):
            return list_eq(self, as_list(o))
        return False

    def __ne__(self, o):
        r = self == o
        return not r

    __hash__ = object.__hash__

    def index(self, v):
        return index_of(self, v)

    def count(self, v):
        if self.concrete:
            t = 0
            for x in self.vals():
                t = t + ite(x == v, 1, 0)
            return t
        raise Unsupported('count')

    def tolist(self):
        return SList(self)

    def __deepcopy__(self, memo):
        if id(self) in memo:
            return memo[id(self)]
        r = SList.__new__(SList)
        r._born = born()
        r.ghost = dict(self.ghost)
        r.frozen = False
        r.segs = [Elems([copy.deepcopy(v, memo) for v in s.vals]) if isinstance(s, Elems) else s for s in self.segs]
        memo[id(self)] = r
        return r

    def __repr__(self):
        return 'SList(%s)' % ', '.join(type(s).__name__ for s in self.segs)


class Undo:
    __slots__ = ('loc', 'obj', 'fn', 'effect')

    def __init__(self, loc, obj, fn):
        self.loc, self.obj, self.fn, self.effect = loc, obj, fn, None

    def __call__(self):
        self.fn()


def monitor():
    c = _cur()
    return c.cfg.get('monitor') if c is not None else None


def join(a, b):
    if a and b and isinstance(a[-1], Elems) and isinstance(b[0], Elems):
        return list(a[:-1]) + [Elems(a[-1].vals + b[0].vals)] + list(b[1:])
    return list(a) + list(b)


def pick(c, a, b):
    """Lazy if-then-else: numeric values merge, others fork."""
    if not isinstance(c, SymBool):
        return a() if c else b()
    va, vb = a(), b()
    if num_like(va) and num_like(vb):
        return ite(c, va, vb)
    if c:
        return va
    return vb


def clamp(i, n):
    c, m = const_of(i), const_of(n)
    if isinstance(c, int) and isinstance(m, int):
        if c < 0:
            c = max(0, c + m)
        return min(c, m)
    if isinstance(c, int) and c == 0:
        return 0
    if i is n:
        return n
    if isinstance(c, int) and c < 0:
        return smax2(n + c, 0)
    cx = ctx()
    if cx.valid(z3.And(zval(i) >= 0, zval(i) <= zval(n)), 1500):
        return i
    if isinstance(i, Num) and i < 0:
        i = i + n
    return smin2(smax2(i, 0), n)


def as_list(o):
    if isinstance(o, SList):
        return o
    if isinstance(o, (list, tuple)):
        return SList(o)
    if hasattr(o, 'vc_list'):
        return o.vc_list()
    if hasattr(o, '__iter__'):
        return SList(list(o))
    raise Unsupported('not a list: %s' % type(o).__name__)


def rep(l, n):
    l = as_list(l)
    c = const_of(n)
    if isinstance(c, int) and l.concrete and len(l) * c <= 20000:
        return SList(l.vals() * c)
    m = l.length()
    mc = const_of(m)
    n0 = smax2(n, 0)
    if _cur() is not None and ctx().valid(zval(n) >= 0, 1000):
        n0 = n
    if mc == 1:
        v = l.at(0)
        return SList.of(Comp(n0, lambda t: v))
    me = SList(l)
    return SList.of(Comp(m * n0, lambda t: me.at(mod_(t, m))))


def mod_(t, m):
    from .core import mod
    c = const_of(m)
    if isinstance(c, int):
        return mod(t, c)
    q = uf('moddiv', I, I, I)(zval(t), zval(m))
    r = uf('modrem', I, I, I)(zval(t), zval(m))
    cx = ctx()
    cx.axiom(z3.Implies(zval(m) > 0, z3.And(r >= 0, r < zval(m), zval(t) == q * zval(m) + r)))
    return Num(r)


def eq_val(a, b):
    """Equality of two values as a formula (or bool)."""
    if num_like(a) and num_like(b):
        r = a == b
        return r
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return sand(*[eq_val(x, y) for x, y in zip(a, b)])
    if isinstance(a, SList) and isinstance(b, SList):
        return list_eq(a, b)
    return a == b


def contains(l, v):
    l = as_list(l)
    out = []
    for s in l.segs:
        if isinstance(s, Elems):
            out += [bz(eq_val(x, v)) for x in s.vals]
        elif isinstance(s, Comp):
            # f injective identity: decide exactly; otherwise unsupported
            k = Num(z3.Int('?m'))
            fk = s.f(k)
            if isinstance(fk, Num) and fk.z.eq(k.z) and num_like(v):
                g = z3.And(zval(v) >= 0, zval(v) < zval(s._n))
                if s.cond is not None:
                    g = z3.And(g, bz(s.cond(v)))
                out.append(g)
            else:
                raise Unsupported('membership in a symbolic list')
        elif isinstance(s, Unknown):
            raise Unsupported('membership in an untracked list')
        else:
            raise Unsupported('membership')
    return sbool(z3.simplify(z3.Or(out))) if out else False


def list_eq(a, b):
    na, nb = a.length(), b.length()
    if a.concrete and b.concrete:
        if na != nb:
            return False
        return sand(*[eq_val(x, y) for x, y in zip(a.vals(), b.vals())])
    raise Unsupported('equality of symbolic lists')


def index_of(l, v):
    l = as_list(l)
    c = ctx()
    n = l.length()
    if l.concrete_len() and len(l.vals()) <= 12:
        for j, x in enumerate(l.vals()):
            if c.branch(bz(eq_val(x, v))):
                return j
        raise ValueError('not in list')
    p = Num(c.fresh('index', I))
    found = c.fresh('found', B)
    k = z3.Int('?ix')
    if not c.branch(found):
        c.assume(forall_list(l, lambda x, t: z3.Not(bz(eq_val(x, v)))))
        raise ValueError('not in list')
    c.assume(z3.And(p.z >= 0, p.z < zval(n)))
    c.assume(bz(eq_val(l.at(p), v)))
    try:
        c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < p.z), z3.Not(bz(eq_val(pure_at(l, Num(k)), v))))))
    except Unsupported:
        pass
    return p


def pure_at(l, t):
    """Element t without forking (single symbolic segment or numeric)."""
    if len(l.segs) == 1:
        s = l.segs[0]
        if isinstance(s, Comp) and s.cond is None:
            return s.f(t)
        if isinstance(s, Elems) and all(num_like(x) for x in s.vals):
            return s.at(t)
        raise Unsupported('pure_at')
    r = None
    offs, off = [], 0
    for s in l.segs:
        offs.append(off)
        off = off + s.n()
    for s, o in reversed(list(zip(l.segs, offs))):
        if isinstance(s, Comp) and s.cond is not None or isinstance(s, (Flat, Unknown)):
            raise Unsupported('pure_at')
        v = s.at(t - o) if not isinstance(s, Elems) else Elems(s.vals).at(t - o)
        if not num_like(v):
            raise Unsupported('pure_at')
        r = v if r is None else ite(t < o + s.n(), v, r)
    return r


def forall_list(l, pred):
    """ForAll elements x at position t of l: pred(x, t) (a z3 formula)."""
    k = z3.Int('?fa')
    out = []
    off = 0
    for s in l.segs:
        if isinstance(s, Elems):
            out += [pred(x, off + j) for j, x in enumerate(s.vals)]
        elif isinstance(s, Comp):
            g = z3.And(k >= 0, k < zval(s._n))
            if s.cond is not None:
                g = z3.And(g, bz(s.cond(Num(k))))
            out.append(z3.ForAll([k], z3.Implies(g, pred(s.f(Num(k)), off + Num(k)))))
        elif isinstance(s, Unknown):
            raise Unsupported('quantifies over an untracked list')
        else:
            raise Unsupported('quantifies over a nested list')
        off = off + s.n()
    return z3.And(out) if out else z3.BoolVal(True)


# ------------------------------------------------------------- dictionaries
class SDict(dict):
    """Dictionary. Concrete keys behave natively; integer symbolic keys
    switch to an array model (domain, values)."""

    def __init__(self, *a, **k):
        dict.__init__(self, *a, **k)
        self._born = born()
        self.arr = None        # (dom, val) once symbolic
        self.ghost = {}
        self.frozen = False

    def vc_mentions(self, names):
        return any(mentions(x, names) for kv in dict.items(self) for x in kv) or (self.arr is not None and any(mentions(x, names) for x in self.arr)) \
            or any(mentions(x, names) for x in self.ghost.values())

    def vc_subst(self, pairs):
        if not self.vc_mentions({a.decl().name() for a, _ in pairs}):
            return self
        r = SDict()
        for k, v in dict.items(self):
            dict.__setitem__(r, subst(k, pairs), subst(v, pairs))
        r.arr = None if self.arr is None else tuple(z3.substitute(a, *pairs) for a in self.arr)
        r.ghost = {k: subst(x, pairs) for k, x in self.ghost.items()}
        r.frozen = True
        return r

    def _touch(self):
        if self.frozen:
            raise Unsupported('change of a dictionary kept in a list')
        c = _cur()
        if c is not None:
            old, arr, g = {k: v for k, v in dict.items(self)}, self.arr, dict(self.ghost)

            def restore():
                dict.clear(self)
                dict.update(self, old)
                self.arr = arr
                self.ghost = g
            c.undo.append(Undo(('dict', id(self)), self, restore))

    def to_array(self):
        if self.arr is None:
            dom = z3.K(I, z3.BoolVal(False))
            val = z3.K(I, z3.RealVal(0))
            for k, v in dict.items(self):
                if not num_like(k) or not num_like(v):
                    raise Unsupported('dictionary with symbolic and other keys')
                dom = z3.Store(dom, zval(k), z3.BoolVal(True))
                val = z3.Store(val, zval(k), real(zval(v)))
            self.arr = (dom, val)
            dict.clear(self)

    def __setitem__(self, k, v):
        self._touch()
        if isinstance(k, Num) and const_of(k) is not None:
            k = const_of(k)
        c = _cur()
        if isinstance(k, Num) and k.is_int and self.arr is None and (c is not None and c.cfg.get('assoc')):
            # an association list: the keys are told apart one by one
            for q in dict.keys(self):
                if num_like(q) and (q is k or bool(k == q)):
                    dict.__setitem__(self, q, v)
                    return
            dict.__setitem__(self, k, v)
            return
        if self.arr is not None or (isinstance(k, Num) and k.is_int):
            if not num_like(v):
                raise Unsupported('symbolic dictionary of objects')
            self.to_array()
            d, a = self.arr
            self.arr = (z3.Store(d, zval(k), z3.BoolVal(True)), z3.Store(a, zval(k), real(zval(v))))
            return
        if isinstance(k, Num):
            for q in dict.keys(self):
                if num_like(q) and (q is k or k == q):
                    k = q
                    break
        elif not isinstance(k, str) and hasattr(k, 'parts'):
            q = self.find_str(k)
            k = q[0] if q else k
        dict.__setitem__(self, k, v)

    def __getitem__(self, k):
        if isinstance(k, Num) and const_of(k) is not None:
            k = const_of(k)
        if self.arr is None and isinstance(k, Num) and k.is_int and len(self) and all(num_like(x) for x in dict.keys(self)):
            for q in dict.keys(self):
                if k == q:
                    return dict.__getitem__(self, q)
            raise KeyError(k)
        if self.arr is not None:
            d, a = self.arr
            if not sbool(z3.simplify(z3.Select(d, zval(k)))):
                raise KeyError(k)
            return Num(z3.simplify(z3.Select(a, zval(k))))
        if isinstance(k, Num):
            for q in dict.keys(self):
                if q is k or (isinstance(q, Num) and q.z.eq(k.z)):
                    return dict.__getitem__(self, q)
            for q in dict.keys(self):
                if num_like(q) and k == q:
                    return dict.__getitem__(self, q)
            raise KeyError(k)
        if not isinstance(k, str) and hasattr(k, 'parts'):
            q = self.find_str(k)
            if q is None:
                raise KeyError(k)
            return dict.__getitem__(self, q[0])
        return dict.__getitem__(self, k)

    def find_str(self, k):
        for q in dict.keys(self):
            if q is k or (hasattr(q, 'parts') and q == k):
                return (q,)
        return None

    def get(self, k, default=None):
        try:
            return self[k]
        except KeyError:
            return default

    def __contains__(self, k):
        if self.arr is not None:
            return bool(sbool(z3.simplify(z3.Select(self.arr[0], zval(k)))))
        if isinstance(k, Num):
            for q in dict.keys(self):
                if num_like(q) and k == q:
                    return True
            return False
        return dict.__contains__(self, k)

    def keys(self):
        if self.arr is None:
            return dict.keys(self)
        return DictKeys(self)

    def values(self):
        if self.arr is None:
            return dict.values(self)
        k = DictKeys(self).vc_list()
        a = self.arr[1]
        f = k.segs[0].f
        return SListView(SList.of(Comp(k.segs[0]._n, lambda t: Num(z3.Select(a, zval(f(t)))))))

    def items(self):
        if self.arr is None:
            return dict.items(self)
        k = DictKeys(self).vc_list()
        a = self.arr[1]
        f = k.segs[0].f
        return SListView(SList.of(Comp(k.segs[0]._n, lambda t: (f(t), Num(z3.Select(a, zval(f(t))))))))

    def __iter__(self):
        if self.arr is None:
            return dict.__iter__(self)
        raise Unsupported('iterates a symbolic dictionary')

    def length(self):
        if self.arr is None:
            return dict.__len__(self)
        return DictKeys(self).vc_list().length()

    def __len__(self):
        if self.arr is None:
            return dict.__len__(self)
        raise Unsupported('len of a symbolic dictionary')

    def __deepcopy__(self, memo):
        r = SDict()
        for k, v in dict.items(self):
            dict.__setitem__(r, k, copy.deepcopy(v, memo))
        r.arr = self.arr
        r.ghost = dict(self.ghost)
        return r

    def copy(self):
        r = SDict(dict.items(self))
        r.arr = self.arr
        return r

    def update(self, *a, **k):
        for d in a:
            for q in (d.keys() if hasattr(d, 'keys') else []):
                self[q] = d[q]
        for q, v in k.items():
            self[q] = v


class SListView:
    def __init__(self, l):
        self.l = l

    def vc_list(self):
        return SList(self.l)

    def __iter__(self):
        return iter(self.l.vals())


class DictKeys:
    """keys() of an array-modelled dictionary."""

    def __init__(self, d):
        self.d = d

    def __iter__(self):
        raise Unsupported('iterates symbolic keys natively')

    def vc_list(self, ordered=False):
        c = ctx()
        dom = self.d.arr[0]
        key = ('keys', dom.get_id(), ordered)
        if key in c.store:
            n, f, pos = c.store[key]
        else:
            n = c.fresh('nkeys', I)
            f = c.freshfun('key', I, I)
            pos = c.freshfun('keypos', I, I)
            j, q = z3.Int('?j'), z3.Int('?q')
            c.assume(n >= 0)
            c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(z3.Select(dom, f(j)), pos(f(j)) == j)),
                               patterns=[f(j)]))
            c.assume(z3.ForAll([q], z3.Implies(z3.Select(dom, q), z3.And(pos(q) >= 0, pos(q) < n, f(pos(q)) == q)),
                               patterns=[pos(q)]))
            c.store[key] = (n, f, pos)
            c.store.setdefault('dictkeys', [])
            c.store['dictkeys'] = c.store['dictkeys'] + [(dom, n, f, pos)]
            if ordered:
                i = z3.Int('?i')
                c.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), f(i) < f(j)),
                                   patterns=[z3.MultiPattern(f(i), f(j))]))
        return SList.of(Comp(Num(n), lambda t: Num(f(zval(t)))))
