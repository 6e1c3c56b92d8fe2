"""Loops and comprehensions of the translated code.

A loop over something of concrete length is run as it is. A loop of symbolic
length is summarised: one generic iteration k (0 <= k < n) is executed
symbolically, and the state before iteration k is derived from what the
iteration does to each location (left alone, increased by an amount, appended
to, overwritten). The derivation is by induction on k and never trusts the
guess: a location is only summarised when the values the generic iteration
leaves in it are free of every havocked (not yet summarised) value.
Loops the derivation cannot summarise use invariants (cfg['loopspecs'])."""
import z3, types
from fractions import Fraction
from . import core, seq, models
from .core import (Num, SymBool, Unsupported, PathEnd, ctx, _cur, zval, wrap, real, num_like, const_of, sbool, bz, ite, uf, fn, I, R, B,
                   sand, snot, explore, rollback, Ctx, born)
from .seq import SList, SDict, Elems, Comp, Flat, Unknown, Undo, as_list, subst, mentions, consts, pick
from .models import (Frame, Obj, SArr, ND, Grown, SRange, Ret, BRK, UNSET, Poison, PoisonVal, Lazy, SymStr, SSet, to_list, truth, SUMF, setattr_, log_undo)

UNROLL = 700
RAISE = object()


def tabulate(vals):
    """Numbers as a function of a symbolic position."""
    if all(isinstance(const_of(v), int) for v in vals) and len(vals) > 1:
        cs = [const_of(v) for v in vals]
        d = cs[1] - cs[0]
        if all(b - a == d for a, b in zip(cs, cs[1:])):
            return lambda k: cs[0] + d * k

    def f(k):
        ck = const_of(k)
        if isinstance(ck, int) and 0 <= ck < len(vals):
            return vals[ck]
        r = vals[-1]
        for j in range(len(vals) - 2, -1, -1):
            r = ite(k == j, vals[j], r)
        return r
    return f


def rolled(vals):
    """A short list of numbers (or equal tuples of them) as a generic one."""
    if not 2 <= len(vals) <= 64:
        return None
    if all(num_like(v) for v in vals):
        f = tabulate(vals)
    elif all(isinstance(v, tuple) and len(v) == len(vals[0]) and all(num_like(x) for x in v) for v in vals):
        fs = [tabulate([v[j] for v in vals]) for j in range(len(vals[0]))]
        f = lambda k: tuple(g(k) for g in fs)
    else:
        return None
    return [Comp(len(vals), f, None)]


# ------------------------------------------------------------- entry points
def for_(it, body, frame, lineno):
    roll = _cur().cfg.get('rolled') if _cur() is not None else None
    if roll and frame is not None and object.__getattribute__(frame, '__dict__').get('_name_') in roll:
        src = it.native() if isinstance(it, SRange) and it.concrete else it
        try:
            l = to_list(src) if not isinstance(src, types.GeneratorType) else None
        except TypeError:
            l = None
        if l is not None and l.concrete_len():
            segs = rolled(l.vals())
            if segs is not None:
                return loop(segs[0]._n, lambda k, f=segs[0].f: body(f(k)), frame, lineno)
    if isinstance(it, SRange) and it.concrete and len(it.native()) <= UNROLL:
        return native_for(it.native(), body)
    if isinstance(it, (list, tuple, range, str, dict)) and not isinstance(it, SDict) or isinstance(it, types.GeneratorType):
        return native_for(it, body)
    if isinstance(it, SDict) and it.arr is None:
        return native_for(list(dict.keys(it)), body)
    if isinstance(it, ND):
        return native_for(it.vc_list().vals(), body)
    if isinstance(it, SArr):
        it = it.vc_list()
    if hasattr(it, '__next__') and not hasattr(it, 'vc_list'):
        return native_for(it, body)
    l = to_list(it)
    if l.concrete:
        if isinstance(it, SList):
            return live_for(it, body)
        return native_for(l.vals(), body)
    return seg_for(list(l.segs), body, frame, lineno, src=it)


def native_for(it, body):
    for x in it:
        r = body(x)
        if r is BRK:
            return BRK
        if r is not None:
            return r
    return None


def live_for(l, body):
    """Python semantics: the list is read as it is while iterating."""
    i = 0
    n0 = len(l)
    while True:
        if not l.concrete:
            raise Unsupported('a list grows symbolically while iterated')
        v = l.vals()
        if i >= len(v):
            return None
        if i > n0 + 5000:
            raise Unsupported('iteration does not end')
        r = body(v[i])
        if r is BRK:
            return BRK
        if r is not None:
            return r
        i += 1


def seg_for(segs, body, frame, lineno, src=None):
    for s in segs:
        if isinstance(s, Elems):
            r = native_for(s.vals, body)
        elif isinstance(s, Comp):
            n = const_of(s._n)
            if isinstance(n, int) and n <= UNROLL and s.cond is None:
                r = native_for((s.f(k) for k in range(max(0, n))), body)
            elif s.cond is not None:
                cond, f = s.cond, s.f

                def guarded(k, f=f, cond=cond):
                    if not truth(cond(k)):
                        return None
                    return body(f(k))
                r = loop(s._n, guarded, frame, lineno)
            else:
                f = s.f
                r = loop(s._n, lambda k, f=f: body(f(k)), frame, lineno)
        elif isinstance(s, Flat):
            f = s.f
            n = const_of(s._n)

            def inner(k, f=f):
                return seg_for(list(f(k).segs), body, frame, lineno)
            if isinstance(n, int) and n <= UNROLL:
                r = native_for(range(max(0, n)), inner)
            else:
                r = loop(s._n, inner, frame, lineno)
        elif isinstance(s, Unknown) and s.elem is not None:
            r = loop(s._n, lambda k, s=s: body(s.elem(k)), frame, lineno)
        else:
            raise Unsupported('iterates a list whose contents are not tracked')
        if r is not None:
            return r
    return None


def while_(test, body, frame, lineno):
    c = ctx()
    hook = c.cfg.get('while_hook')
    if hook is not None:
        r = hook(test, body, frame, lineno)
        if r is not NotImplemented:
            return r
    steps = 0
    while True:
        mark = len(c.undo)
        v = test()
        if isinstance(v, Num):
            v = v != 0
        if isinstance(v, SymBool):
            # forced one way by what is known?
            v = z3.simplify(v.z)
            if z3.is_true(v):
                v = True
            elif z3.is_false(v):
                v = False
            elif steps < c.cfg.get('ahead', 3) and not c.feasible(v):
                v = False
            elif steps < c.cfg.get('ahead', 3) and not c.feasible(z3.Not(v)):
                v = True
            elif steps < (unroll_limit(c, frame) or 0):
                v = sbool(v)
            elif unroll_limit(c, frame):
                raise Unsupported('line %s: more than %d iterations' % (lineno, steps))
            else:
                break
        if not truth(v):
            return None
        r = body()
        if r is BRK:
            return BRK
        if r is not None:
            return r
        steps += 1
        if steps > UNROLL:
            raise Unsupported('a while loop runs more than %d times' % UNROLL)
    return loop(None, lambda k: body(), frame, lineno, test=test)


def comp(it, body, cond, nested):
    """[body(x) for x in it if cond(x)]; nested: body gives a list."""
    l = it if isinstance(it, SList) else to_list(it)
    out = SList()
    mon = seq.monitor()
    for s in l.segs:
        if isinstance(s, Elems):
            vals = s.vals
        elif isinstance(s, Comp) and s.cond is None and isinstance(const_of(s._n), int) and const_of(s._n) <= UNROLL:
            vals = [s.f(k) for k in range(max(0, const_of(s._n)))]
        else:
            vals = None
        if vals is not None:
            for v in vals:
                if cond is not None and not truth(cond(v)):
                    continue
                r = body(v)
                if nested:
                    out.segs = seq.join(out.segs, as_list(r).segs)
                else:
                    out.segs = seq.join(out.segs, [Elems([r])])
                    if mon is not None:
                        mon.add(out, r)
            continue
        acc = SList()

        def step(v):
            if cond is not None and not truth(cond(v)):
                return None
            r = body(v)
            if nested:
                acc.extend(as_list(r))
            else:
                acc.append(r)
            return None
        fr = Frame('<comprehension>')
        seg_for([s], step, fr, 0)
        out.segs = seq.join(out.segs, acc.segs)
        if mon is not None:
            mon.join(out, out, acc)
    return out


# ------------------------------------------------------------- locations
class Loc:
    """A mutable place: attribute, list, dictionary or array."""

    def __init__(self, key, obj):
        self.key, self.obj = key, obj
        self.kind = key[0]

    def born(self):
        o = self.obj
        if isinstance(o, (Frame, Obj)):
            return object.__getattribute__(o, '__dict__').get('_born', 0)
        return getattr(o, '_born', 0)

    def get(self):
        o = self.obj
        if self.kind == 'attr':
            if isinstance(o, (Frame, Obj)):
                return object.__getattribute__(o, '__dict__').get(self.key[2], UNSET)
            return o.__dict__.get(self.key[2], UNSET)
        if self.kind == 'list':
            return (list(o.segs), dict(o.ghost))
        if self.kind == 'dict':
            return (dict(dict.items(o)), o.arr, dict(o.ghost))
        raise Unsupported('location %s' % self.kind)

    def set(self, v):
        """(undoable)"""
        o = self.obj
        if self.kind == 'attr':
            if isinstance(o, (Frame, Obj)):
                d = object.__getattribute__(o, '__dict__')
            else:
                d = o.__dict__
                if not isinstance(d, dict):
                    raise Unsupported('class attribute changed in a loop')
            name = self.key[2]
            old = d.get(name, UNSET)

            def restore():
                if old is UNSET:
                    d.pop(name, None)
                else:
                    d[name] = old
            log_undo(self.key, o, restore)
            if v is UNSET:
                d.pop(name, None)
            else:
                d[name] = v
        elif self.kind == 'list':
            o._touch()
            o.segs, o.ghost = list(v[0]), dict(v[1])
        elif self.kind == 'dict':
            o._touch()
            dict.clear(o)
            dict.update(o, v[0])
            o.arr, o.ghost = v[1], dict(v[2])
        else:
            raise Unsupported('location %s' % self.kind)

    def name(self):
        return self.key[2] if self.kind == 'attr' else '%s of %s' % (self.kind, type(self.obj).__name__)


class Path:
    __slots__ = ('conds', 'assumed', 'final', 'effects', 'result', 'exc', 'pc', 'axioms', 'touched', 'poison', 'test')


class Gen:
    """What one generic iteration does: its paths, as functions of k."""

    def __init__(self, k, n, paths, start):
        self.k, self.n, self.paths, self.start = k, n, paths, start
        self.ks = [k]
        self.extra = None

    def facts(self, t):
        """Assumptions the paths made about their fresh values, at t."""
        c = _cur()
        if c is None:
            return
        zt = zval(t)
        pr = [(self.k, zt)]
        rng = z3.And(zt >= 0, zt < zval(self.n)) if self.n is not None else zt >= 0
        out = []
        for p in self.paths:
            for (m, f) in p.assumed:
                if not (consts(f) - {self.k.decl().name()}) and not self.k.decl().name() in consts(f):
                    continue
                g = z3.Implies(z3.And([rng] + p.conds[:m]), f)
                out.append(z3.substitute(g, *pr))
        if self.extra is not None:
            out += self.extra(t)
        if not out:
            return
        free = [x for x in consts(zt) if x.startswith('?') and not (x == '?arg' and core.ENV)]
        if free:
            bound = [z3.Int(x) for x in free]
            for f in out:
                c.assume(z3.ForAll(bound, f))
        else:
            for f in out:
                c.assume(f)

    def value(self, t, get, paths=None):
        """get(path) at t, merged over the paths."""
        paths = paths if paths is not None else self.paths
        self.facts(t)
        pr = [(self.k, zval(t))]
        vals = [get(p) for p in paths]
        if len(vals) == 1:
            return iter_subst(vals[0], pr, self.start)
        if all(num_like(v) for v in vals):
            r = subst(vals[-1], pr)
            for p, v in list(zip(paths, vals))[-2::-1]:
                g = sbool(z3.simplify(z3.substitute(z3.And(p.conds) if p.conds else z3.BoolVal(True), *pr)))
                r = ite(g, subst(v, pr), r)
            return r
        if all(isinstance(v, tuple) and len(v) == len(vals[0]) for v in vals) and all(num_like(x) for v in vals for x in v):
            return tuple(self.value(t, lambda p, j=j: get(p)[j], paths) for j in range(len(vals[0])))
        for p, v in list(zip(paths, vals))[:-1]:
            g = z3.substitute(z3.And(p.conds) if p.conds else z3.BoolVal(True), *pr)
            if ctx().branch(g):
                return iter_subst(v, pr, self.start)
        return iter_subst(vals[-1], pr, self.start)

    def cond(self, t, paths):
        """Some of the paths is taken at t."""
        self.facts(t)
        f = z3.Or([z3.And(p.conds) if p.conds else z3.BoolVal(True) for p in paths]) if paths else z3.BoolVal(False)
        return sbool(z3.simplify(z3.substitute(f, (self.k, zval(t)))))


def iter_subst(v, pairs, start, memo=None):
    """subst, copying the objects the iteration made."""
    memo = {} if memo is None else memo
    if isinstance(v, Obj):
        d = object.__getattribute__(v, '__dict__')
        if d.get('_born', 0) <= start:
            return v
        if id(v) in memo:
            return memo[id(v)]
        r = type(v).__new__(type(v))
        memo[id(v)] = r
        rd = object.__getattribute__(r, '__dict__')
        for k, x in d.items():
            if k != '_born':
                rd[k] = iter_subst(x, pairs, start, memo)
        return r
    if isinstance(v, SList):
        if v._born <= start:
            return v
        if id(v) in memo:
            return memo[id(v)]
        if any(isinstance(s, Elems) and any(isinstance(x, (Obj, SList)) for x in s.vals) for s in v.segs):
            r = SList.__new__(SList)
            r._born = born()
            memo[id(v)] = r
            r.segs = [Elems([iter_subst(x, pairs, start, memo) for x in s.vals]) if isinstance(s, Elems) else s.subst(pairs) for s in v.segs]
            r.ghost = {k: subst(x, pairs) for k, x in v.ghost.items()}
            r.frozen = True
            return r
    if isinstance(v, tuple):
        return tuple(iter_subst(x, pairs, start, memo) for x in v)
    return subst(v, pairs)


class ListLoc:
    kind = 'list'


def havoc_value(c, loc, init, key, tag, key_start=1 << 60):
    """A value about which nothing is known, and the names it introduces."""
    names = set()

    def freshn(sort):
        # constant names of the outer context (not functions of this loop)
        z = c.fresh('havoc_%s' % tag, sort)
        names.update(hnames(z))
        return z
    if loc.kind == 'attr':
        if isinstance(init, bool) or isinstance(init, SymBool):
            return sbool(freshn(B)), names
        if num_like(init):
            return Num(freshn(I if zval(init).is_int() else R)), names
        if isinstance(init, tuple) and init and all(num_like(x) for x in init):
            return tuple(Num(freshn(I if zval(x).is_int() else R)) for x in init), names
        if isinstance(init, ND) and init.ndim == 1:
            init = SArr(SList(to_list(init)))
        if isinstance(init, Grown):
            (segs, _), names = havoc_value(c, ListLoc, (init.l.segs, {}), key, tag)
            l = SList.of(*segs)
            l.frozen = True
            return Grown(l), names
        if isinstance(init, SArr) or isinstance(init, SList) and init._born <= key_start:
            (segs, _), names = havoc_value(c, ListLoc, (init.l.segs if isinstance(init, SArr) else init.segs, {}), key, tag)
            l = SList.of(*segs)
            l.frozen = True
            return (SArr(l) if isinstance(init, SArr) else l), names
        return PoisonVal(loc.name()), names
    if loc.kind == 'list':
        n = freshn(I)
        c.assume(n >= 0)
        u = Unknown(Num(n))
        if all_num(init[0]):
            g = c.freshfun('havoc_elem', I, R)
            nm = g(z3.IntVal(0)).decl().name()
            u.elem = lambda i: Num(g(zval(i)))
            names.add(nm)
        u.names = names
        return ([u], {}), names
    if loc.kind == 'dict':
        return None, names
    raise Unsupported('havoc')


def all_num(segs):
    for s in segs:
        if isinstance(s, Elems):
            if not all(num_like(v) for v in s.vals):
                return False
        elif isinstance(s, Comp):
            try:
                if not num_like(s.f(Num(z3.Int('?k')))):
                    return False
            except (Unsupported, Exception):
                return False
        else:
            return False
    return True


def hnames(z):
    """Names identifying a fresh value (constant or function name)."""
    return {z.decl().name()}


def names_in(z):
    """All uninterpreted symbol names (constants and functions)."""
    k = z.get_id()
    if k in _nc:
        return _nc[k][1]
    out, seen, st = set(), set(), [z]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            st.append(t.body())
            continue
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(t.decl().name())
        st.extend(t.children())
    _nc[k] = (z, out)
    return out


_nc = {}


def uses(v, names, seen=None):
    """Does the value contain one of the symbols?"""
    if not names:
        return False
    seen = set() if seen is None else seen
    if isinstance(v, (Num, SymBool)):
        return bool(names_in(v.z) & names)
    if z3.is_expr(v):
        return bool(names_in(v) & names)
    if v is None or isinstance(v, (int, str, float, Fraction, type)):
        return False
    if id(v) in seen:
        return False
    seen.add(id(v))
    if isinstance(v, (tuple, list)):
        return any(uses(x, names, seen) for x in v)
    if isinstance(v, SymStr):
        return any(uses(x, names, seen) for x in v.parts)
    if isinstance(v, SList):
        return any(seg_uses(s, names, seen) for s in v.segs)
    if isinstance(v, (SArr, Grown)):
        return uses(v.l, names, seen)
    if isinstance(v, SDict):
        if v.arr is not None:
            return uses(v.arr[0], names) or uses(v.arr[1], names)
        return any(uses(k, names, seen) or uses(x, names, seen) for k, x in dict.items(v))
    if isinstance(v, dict):
        return any(uses(x, names, seen) for x in v.values())
    if isinstance(v, (Obj, Frame)):
        return any(uses(x, names, seen) for k, x in object.__getattribute__(v, '__dict__').items())
    if isinstance(v, ND):
        import numpy as np
        return any(uses(x, names, seen) for x in np.ndarray.view(v, np.ndarray).ravel().tolist())
    if isinstance(v, (PoisonVal, Lazy)):
        return True
    if hasattr(v, 'vc_parts'):
        return any(uses(x, names, seen) for x in v.vc_parts())
    return False


def seg_uses(s, names, seen=None):
    if isinstance(s, Elems):
        return any(uses(v, names, seen) for v in s.vals)
    if isinstance(s, Unknown):
        return bool(getattr(s, 'names', set()) & names) or uses(s._n, names, seen)
    k = Num(z3.Int('?k'))
    if uses(s._n, names, seen):
        return True
    probe = Probe()
    try:
        with probe:
            v = s.f(k)
            if uses(v, names, seen):
                return True
            if isinstance(s, Comp) and s.cond is not None and uses(s.cond(k), names, seen):
                return True
    except (Exception, Unsupported, PathEnd):
        return True
    return False


class Probe:
    """Evaluate closures on a scratch path (facts and forks discarded)."""

    def __enter__(self):
        p = _cur()
        c = Ctx([], parent=p, report=None)
        c.counter = core.SubCounter(str(next(p.counter)))
        c.quiet = True
        self.mark = len(c.undo)
        self.c = c
        core._tls.stack.append(c)

    def __exit__(self, *a):
        core._tls.stack.pop()
        rollback(self.c.undo, self.mark)
        return False


# ------------------------------------------------------------- the loop rule
def unroll_limit(c, frame):
    d = c.cfg.get('unroll')
    return d.get(object.__getattribute__(frame, '__dict__').get('_name_')) if d and frame is not None else None


def spec_free(L):
    return L.find_spec() is None


def loop(n, body, frame, lineno, test=None, peeled=0):
    c = ctx()
    lim = unroll_limit(c, frame)
    if lim and n is not None:
        # (complete: the path is refused if it may run longer)
        k = 0
        while truth(k < n):
            if k >= lim:
                raise Unsupported('line %s: more than %d iterations' % (lineno, lim))
            r = body(k)
            if r is not None:
                return r
            k += 1
        return None
    start = born()
    L = Loop(c, n, body, frame, lineno, test, start)
    L.peeled = peeled
    spec = L.find_spec()
    if spec is not None and spec.get('first'):
        return L.by_invariant(spec)
    try:
        L.derive()
    except FirstDiffers:
        # the first iteration on its own
        if test is not None:
            if not truth(test()):
                return None
        elif not truth(n > 0):
            return None
        r = body(0)
        if r is not None:
            return r
        return loop(None if n is None else n - 1, lambda k: body(k + 1), frame, lineno, test, peeled + 1)
    except CannotDerive as e:
        if spec is not None:
            return L.by_invariant(spec)
        raise Unsupported('line %s: %s' % (lineno, e))
    return L.finish()


class CannotDerive(Exception):
    pass


class FirstDiffers(Exception):
    pass


class Loop:
    def __init__(self, c, n, body, frame, lineno, test, start):
        self.c, self.n, self.body, self.frame, self.lineno, self.test, self.start = c, n, body, frame, lineno, test, start
        self.locs = {}       # key -> Loc
        self.init = {}       # key -> initial value
        self.exact = {}      # key -> pre(t): value before iteration t
        self.kinds = {}
        self.havocs = {}
        self.samelen = set()
        self.unknown = set()
        self.grown = set()
        self.reals = set()
        self.alike = {}
        self.recs = {}
        self.recx = None
        self.alive = None
        self.peeled = 0
        self.inside = False

    def find_spec(self):
        specs = self.c.cfg.get('loopspecs') or {}
        name = object.__getattribute__(self.frame, '__dict__').get('_name_') if self.frame is not None else None
        l = specs.get(name)
        if callable(l):
            l = l(self)
        if isinstance(l, list):
            for s in l:
                if s['when'](self):
                    return s
            return None
        return l

    def outer_touched(self, mark):
        """Locations changed since mark which existed before the loop."""
        out = {}
        for u in self.c.undo[mark:]:
            k = tuple(u.loc)
            if k in out or k[0] == 'lazy':
                continue
            if k[0] == 'nd':
                if getattr(u.obj, '_born', 0) > self.start:
                    continue
                raise CannotDerive('an array is changed element by element')
            loc = Loc(k, u.obj)
            if loc.born() > self.start:
                continue
            out[k] = loc
        return out

    def run(self, k, state, quiet, nonneg=True, post=None):
        """The generic iteration from the given pre-state."""
        paths = []
        report = None if quiet else self.c.report

        def once():
            cc = ctx()
            cc.loopvars = cc.loopvars + [k]
            # facts about k are not assumptions of the iteration
            cc._assert(k >= 0)
            if self.n is not None:
                cc._assert(k < zval(self.n))
            if quiet:
                cc.quiet = True
            if self.recs and self.alive:
                for f in self.alive_at(lambda key: Num(self.recs[key](k)), Num(k)):
                    cc._assert(f)
            cc.conds, cc.assumed = [], []
            mark0 = len(cc.undo)
            for key, v in state.items():
                if v is not None:
                    self.locs[key].set(v)
            p = Path()
            p.exc = p.result = p.poison = p.test = None
            mark = len(cc.undo)
            try:
                if self.test is not None:
                    tv = self.test()
                    tz = bz(tv) if isinstance(tv, (SymBool, Num)) else z3.BoolVal(truth(tv))
                    p.test = tz
                    cc.conds, keep = [], list(cc.conds)
                    if not cc.feasible(tz):
                        raise PathEnd()
                    cc._assert(tz)
                    cc.conds = keep
                p.result = self.body(Num(k))
            except Poison as e:
                p.poison = str(e)
            except Unsupported as e:
                if not quiet:
                    raise
                p.poison = str(e)
            except PathEnd:
                raise
            except Exception as e:
                p.exc = e
            p.touched = self.outer_touched(mark)
            p.final = {kk: l.get() for kk, l in {**p.touched, **self.locs}.items()}
            p.effects = {}
            for u in cc.undo[mark:]:
                p.effects.setdefault(tuple(u.loc), []).append(u.effect)
            p.conds, p.assumed = list(cc.conds), list(cc.assumed)
            paths.append(p)
            if post is not None:
                post(p)
            return p
        explore(once, report=report, parent=self.c, max_paths=400)
        return paths

    def prestate(self, k, quiet=True):
        self.inside = True
        try:
            return self.prestate_(k)
        finally:
            self.inside = False

    def prestate_(self, k):
        st = {}
        for key, loc in self.locs.items():
            if key in self.exact:
                st[key] = self.exact[key](Num(k))
            else:
                if key not in self.havocs:
                    self.havocs[key] = havoc_value(self.c, loc, Grown(SList([self.init[key]])) if key in self.grown else Num(real(zval(self.init[key]))) if key in self.reals else self.init[key], key, 'x')
                    if key in self.samelen:
                        # (only entries are set; checked again in classify)
                        u = self.havocs[key][0][0][0]
                        u._n = SList.of(*self.init[key][0]).length()
                        self.havocs[key] = (self.havocs[key][0], {x for x in self.havocs[key][1] if 'elem' in x})
                st[key] = self.havocs[key][0]
        return st

    def fresh_k(self):
        return z3.Const('k!%s' % next(self.c.counter), I)

    def derive(self):
        c = self.c
        why = 'no progress'
        for rnd in range(16):
            k = self.fresh_k()
            # the pre-state is built inside of the run (it may assume facts)
            st = self.prestate(k)
            paths = self.run(k, st, True)
            new = {}
            for p in paths:
                for key, loc in p.touched.items():
                    if key not in self.locs:
                        new[key] = loc
            if new:
                for key, loc in new.items():
                    self.locs[key] = loc
                    self.init[key] = loc.get()
                    if loc.kind == 'list' and only_sets(paths, key):
                        self.samelen.add(key)
                continue
            drop = [key for key in self.samelen if not only_sets(paths, key)]
            if drop:
                self.samelen -= set(drop)
                self.havocs.clear()
                self.exact.clear()
                continue
            grow = [key for key, loc in self.locs.items() if loc.kind == 'attr' and key not in self.grown and key not in self.exact and num_like(self.init[key])
                    and any(isinstance(p.final.get(key), (SArr, ND)) for p in paths if not p.poison)]
            if grow:
                # a zero-dimensional array that is appended to
                self.grown |= set(grow)
                for key in grow:
                    self.havocs.pop(key, None)
                continue
            more = [key for key, loc in self.locs.items() if loc.kind == 'attr' and key in self.havocs and key not in self.exact and key not in self.reals and
                    whole_number(self.havocs[key][0]) and any(num_like(p.final.get(key)) and not isinstance(p.final[key], SymBool) and
                                                              zval(p.final[key]).is_real() for p in paths if not p.poison)]
            if more:
                # no whole number just because it starts as one
                self.reals |= set(more)
                for key in more:
                    self.havocs.pop(key, None)
                continue
            bad = set()
            for key, (v, names) in self.havocs.items():
                if key not in self.exact:
                    bad |= names
            todo = [key for key in self.locs if key not in self.exact]
            poisoned = [p for p in paths if p.poison]
            if poisoned:
                why = poisoned[0].poison
            progress = False
            gen = Gen(k, self.n, [p for p in paths if not p.poison], self.start)
            gen.extra = lambda t: self.recx(t) if self.recx is not None else []
            if not poisoned:
                # exits must be decided without unknown values
                go = [p for p in paths if p.exc is None and p.result is None]
                for key in todo:
                    r = self.classify(key, go, gen, bad)
                    if r is not None:
                        self.exact[key] = r
                        progress = True
                    else:
                        why = '%s is not summarised' % self.locs[key].name()
                if len(self.exact) == len(self.locs):
                    self.gen = gen
                    return
            if not progress and not poisoned and spec_free(self):
                if self.peeled < 1 and self.first_differs(paths, bad):
                    raise FirstDiffers()
                new = self.recurrences(todo, paths, bad)
                if new:
                    for key in new:
                        self.recs[key] = self.c.freshfun('rec', I, R if key in self.reals else zval(self.init[key]).sort())
                        self.kinds[key] = 'recurrence'
                        self.exact[key] = self.recurrence(key)
                    continue
            if not progress:
                # locals set on some paths only: unknown from here on
                # (reading them ends the derivation)
                some = [key for key in todo if self.locs[key].kind == 'attr' and key not in self.unknown]
                some = [key for key in some if isinstance(self.locs[key].obj, Frame)] or some
                if not poisoned and some:
                    for key in some:
                        self.unknown.add(key)
                        self.kinds[key] = 'unknown'
                        self.exact[key] = lambda t, nm=self.locs[key].name(): PoisonVal(nm)
                    continue
                raise CannotDerive(why)
        raise CannotDerive(why)

    def classify(self, key, go, gen, bad):
        loc, init = self.locs[key], self.init[key]
        n = self.n
        if not go:
            return lambda t: init
        finals = [p.final[key] for p in go]
        hv = self.havocs[key][0] if key in self.havocs else None
        if all(same_value(loc, v, hv) for v in finals):
            self.kinds[key] = 'unchanged'
            return lambda t: init
        condbad = any(uses(f, bad) for p in go for f in p.conds)
        own = self.havocs[key][1] if key in self.havocs else set()
        if loc.kind == 'attr':
            if isinstance(hv, (SArr, SList, Grown)):
                # reassigned to something longer: like appending
                lst = lambda v: v.l if isinstance(v, (SArr, Grown)) else SList(to_list(v)) if isinstance(v, ND) else v
                if all(type(v) is type(hv) or isinstance(hv, Grown) and type(v) is SArr for v in finals):
                    i1 = Grown(SList([init])) if isinstance(hv, Grown) else init
                    r = self.classify_list(key, ListLoc, (lst(i1).segs, {}), go, gen, bad, condbad,
                                           [(lst(v).segs, {}) for v in finals], (list(lst(hv).segs), {}), attr=True)
                    if r is not None:
                        if isinstance(hv, Grown):
                            def grown(t):
                                l = SList.of(*r(t)[0])
                                return SArr(l) if not self.inside and ctx().valid(t >= 1) else Grown(l)
                            return grown
                        mk = SArr if isinstance(hv, SArr) else (lambda l: l)
                        return lambda t: mk(SList.of(*r(t)[0]))
            if num_like(hv) and all(num_like(v) for v in finals):
                # additive
                ds = [z3.simplify(zval(v) - zval(hv)) if zval(v).is_int() == zval(hv).is_int() else None for v in finals]
                if all(d is not None for d in ds) and not any(uses(d, bad) for d in ds) and (not condbad or len(set(str(d) for d in ds)) == 1):
                    dn = [Num(d) for d in ds]
                    consts_ = [const_of(d) for d in dn]
                    free = not any(gen.k.decl().name() in names_in(d) for d in ds)
                    if len(set(str(d) for d in ds)) == 1 and free:
                        d = dn[0]
                        self.kinds[key] = 'linear'
                        return lambda t: init + d * t
                    self.kinds[key] = 'sum'
                    by = {id(p): d for p, d in zip(go, dn)}

                    def delta(t):
                        return gen.value(t, lambda p: by[id(p)], go[:1] if condbad else go)
                    cn = const_of(n) if n is not None else None
                    if isinstance(cn, int) and cn <= 64 and len(set(str(d) for d in ds)) == 1:
                        # known increments
                        inc = [const_of(Num(z3.simplify(z3.substitute(ds[0], (gen.k, z3.IntVal(j)))))) for j in range(cn)]
                        if all(x is not None for x in inc):
                            cum = [init]
                            for x in inc:
                                cum.append(cum[-1] + x)
                            self.kinds[key] = 'known'
                            return tabulate(cum)
                    if hv.is_int:
                        return lambda t: init + core.sfloor(models.ssum_n(t, delta))
                    return lambda t: init + models.ssum_n(t, delta)
            if num_like(hv) and all(num_like(v) for v in finals) and any(uses(v, own) for v in finals):
                # unchanged where it already has the new value
                news = [v for v in finals if not uses(v, bad | own)]
                if news and all(str(zval(v)) == str(zval(news[0])) for v in news):
                    T = news[0]
                    if all(any(v is x for x in news) or self.same_there(p, v, T) for p, v in zip(go, finals)):
                        finals, condbad = [T] * len(go), False
            if num_like(hv) and num_like(init) and all(num_like(v) for v in finals):
                r = self.running(key, go, gen, bad, own, finals, hv, init)
                if r is not None:
                    return r
            if not condbad and not any(uses(v, bad | own) for v in finals) and all(not isinstance(v, (PoisonVal,)) and v is not UNSET for v in finals):
                self.kinds[key] = 'last'
                table = {id(p): v for p, v in zip(go, finals)}

                def after(t):
                    return gen.value(t, lambda p: table[id(p)], go)

                def pre(t):
                    ct = const_of(t)
                    if ct == 0:
                        return init
                    if num_like(init) and all(num_like(v) for v in finals):
                        return ite(t == 0, init, after(t - 1))

                    def late():
                        if t == 0:
                            if init is UNSET:
                                raise UnboundLocalError('variable set in a loop that did not run')
                            return init
                        return after(t - 1)
                    return Lazy(late)
                return pre
            return None
        if loc.kind == 'list':
            return self.classify_list(key, loc, init, go, gen, bad, condbad, finals, hv)
        return None

    def running(self, key, go, gen, bad, own, finals, hv, init):
        """The largest (smallest) of the first value and one of every iteration."""
        h = zval(hv)
        new = [v for v in finals if not zval(v).eq(h)]
        if not own or not new or len(new) == len(finals) or isinstance(hv, (bool, SymBool)):
            return None
        T = z3.simplify(real(zval(new[0])))
        if uses(T, bad | own) or not all(z3.simplify(real(zval(v))).eq(T) for v in new):
            return None
        c = self.c
        whole = all(zval(v).is_int() for v in new + [init, hv])
        hn = real(h)
        for which in ('max', 'min'):
            def holds(p, v):
                base = c.facts() + list(p.conds) + [f for _, f in p.assumed]
                up = T >= hn if which == 'max' else T <= hn
                goal = z3.Not(up) if not zval(v).eq(h) else z3.Not(T <= hn if which == 'max' else T >= hn)
                return core.solve(base, goal, 1500, quick=True)[0] == 'unsat'
            if all(holds(p, v) for p, v in zip(go, finals)):
                break
        else:
            return None
        F, W = c.freshfun('running', I, I if whole else R), c.freshfun('reached', I, I)
        at = lambda j: z3.simplify(z3.substitute(T, (gen.k, j)))
        t, j = z3.Int('?t'), z3.Int('?j')
        i0 = real(zval(init))
        ge = (lambda a, b: real(a) >= real(b)) if which == 'max' else (lambda a, b: real(a) <= real(b))
        c.axiom(z3.ForAll([t], z3.Implies(t >= 0, z3.And(ge(F(t), i0), z3.Or(real(F(t)) == i0, z3.And(W(t) >= 0, W(t) < t, real(F(t)) == at(W(t)))))), patterns=[F(t)]))
        c.axiom(z3.ForAll([t, j], z3.Implies(z3.And(j >= 0, j < t), ge(F(t), at(j)))))
        c.axiom(F(z3.IntVal(0)) == (zval(init) if whole else i0))
        self.kinds[key] = 'running ' + which

        def pre(t):
            ct = const_of(t)
            return init if ct is not None and ct == 0 else Num(F(zval(t)))
        return pre

    def same_there(self, p, v, T):
        r, _, _ = core.solve(self.c.facts() + p.conds + [f for _, f in p.assumed], real(zval(v)) != real(zval(T)), 1500, quick=True)
        return r == 'unsat'

    def classify_list(self, key, loc, init, go, gen, bad, condbad, finals, hv, attr=False):
        pre0 = hv[0][0] if hv is not None else None
        apps = []
        for v in finals:
            segs = v[0]
            if not segs or segs[0] is not pre0:
                apps = None
                break
            apps.append(segs[1:])
        if apps is not None:
            if condbad or any(seg_uses(s, bad) for a in apps for s in a):
                return None
            i0 = list(init[0])
            conc = all(all(isinstance(s, Elems) for s in a) for a in apps)
            lens = [sum(len(s.vals) for s in a) if conc else None for a in apps]
            if conc and all(x == 1 for x in lens):
                table = {id(p): a[0].vals[0] for p, a in zip(go, apps)}
                self.kinds[key] = 'append'
                f = lambda t: gen.value(t, lambda p: table[id(p)], go)
                return lambda t: (i0 + nonempty(Comp(t, f)), {})
            if conc and set(lens) <= {0, 1}:
                table = {id(p): a[0].vals[0] for p, a in zip(go, apps) if a}
                some = [p for p in go if id(p) in table]
                self.kinds[key] = 'filter'
                f = lambda t: gen.value(t, lambda p: table[id(p)], some)
                cond = lambda t: gen.cond(t, some)
                return lambda t: (i0 + nonempty(Comp(t, f, cond)), {})
            table = {id(p): SList.of(*a) for p, a in zip(go, apps)}
            for l in table.values():
                l._born = born()
            m = lens[0] if conc and len(set(lens)) == 1 else None
            if m is None:
                ls = [l.length() for l in table.values()]
                if all(num_like(x) and not uses(x, {gen.k.decl().name()}) for x in ls) and len(set(str(zval(x)) for x in ls)) == 1:
                    m = ls[0]
            self.kinds[key] = 'flat'
            f = lambda t: gen.value(t, lambda p: table[id(p)], go)
            F = None
            if m is None and conc:
                # lists which grow alike have the same length
                F = self.alike.get(tuple(lens))
                if F is None:
                    F = self.alike[tuple(lens)] = self.c.freshfun('flatlen', I, I)

            def flat(t):
                s = Flat(t, f, m)
                if F is not None:
                    s._cnt = Num(F(zval(t)))
                    ctx().assume(s._cnt.z >= zval(t) * min(lens))
                return (i0 + nonempty(s), {})
            return flat
        # written at the indices m*k + r
        if condbad or attr:
            return None
        table, steps = {}, set()
        kz = gen.k
        own = self.havocs[key][1]
        for p, v in zip(go, finals):
            effs = [e for e in p.effects.get(key, [])]
            if not effs:
                if len(v[0]) != 1 or v[0][0] is not hv[0][0]:
                    return None
                continue
            for e in effs:
                if e is None or e[0] != 'set':
                    return None
                _, i, val = e
                m = z3.simplify(z3.substitute(zval(i), (kz, kz + 1)) - zval(i))
                if not z3.is_int_value(m) or m.as_long() < 1:
                    return None
                m = m.as_long()
                r = z3.simplify(zval(i) - m * kz)
                if not z3.is_int_value(r):
                    return None
                if uses(val, bad - own) or uses(val, own):
                    return None
                steps.add(m)
                table.setdefault(r.as_long(), {})[id(p)] = val
        if len(steps) > 1:
            return None
        m = steps.pop() if steps else 1
        if len(set(r % m for r in table)) != len(table):
            return None
        i0 = SList.of(*init[0])
        self.kinds[key] = 'indexed'
        ln = i0.length()

        def pre(t):
            def f(j):
                def at(rs):
                    if not rs:
                        return i0.at(j)
                    r = rs[0]
                    vals = table[r]
                    some = [p for p in go if id(p) in vals]
                    q = j - r if r else j
                    if m > 1:
                        q, hit = q // m, q % m == 0
                    else:
                        hit = True
                    return pick(sand(hit, q >= 0, q < t, gen.cond(q, some)), lambda: gen.value(q, lambda p: vals[id(p)], some), lambda: at(rs[1:]))
                return at(sorted(table))
            return ([Comp(ln, f)], {})
        return pre

    # -- after the loop
    def finish(self):
        c = self.c
        k = self.fresh_k()
        st = self.prestate(k)
        self.exact_run = True
        if self.recs:
            self.houdini_recs(k, st)
        paths = self.run(k, st, False, post=self.keeps(k) if self.recs else None)
        for p in paths:
            for key in p.touched:
                if key not in self.locs:
                    raise Unsupported('line %s: the summarised loop changes %s' % (self.lineno, p.touched[key].name()))
        gen = Gen(k, self.n, paths, self.start)
        if self.recs:
            gen.extra = self.recx = self.rec_facts(gen)
        exits = [p for p in paths if p.exc is not None or p.result is not None]
        if self.test is not None:
            return self.finish_while(k, paths, gen, exits)
        n = self.n
        if exits:
            if c.choose(2, 'loop exit') == 1:
                t = Num(c.fresh('exit_at', I))
                c.assume(z3.And(t.z >= 0, t.z < zval(n)))
                c.assume(bz(gen.cond(t, exits)))
                self.forall_not(gen, exits, t)
                gen.facts(t)
                for key, loc in self.locs.items():
                    loc.set(self.exact[key](t))
                r = self.body(t)
                if r is None:
                    raise PathEnd()
                return r
            self.forall_not(gen, exits, n)
        if self.recs:
            gen.ending(n)
        for key, loc in self.locs.items():
            loc.set(self.exact[key](n))
        if c.cfg.get('after_loop'):
            c.cfg['after_loop'](self)
        return None

    # -- numbers carried from one iteration to the next
    def first_differs(self, paths, bad):
        """A carried number is compared with a constant."""
        own = {next(iter(self.havocs[key][1])): key for key in self.havocs if key not in self.exact and len(self.havocs[key][1]) == 1}

        def atoms(f):
            if z3.is_eq(f):
                yield f
            elif z3.is_bool(f):
                for x in f.children():
                    yield from atoms(x)
        for p in paths:
            for f in p.conds:
                for a in atoms(f):
                    x, y = a.children()
                    if z3.is_int_value(x):
                        x, y = y, x
                    if z3.is_int_value(y) and z3.is_app(x) and x.decl().name() in own and const_of(self.init[own[x.decl().name()]]) == y.as_long():
                        return True
        return False

    def recurrences(self, todo, paths, bad):
        cand = {}
        for key in todo:
            loc = self.locs[key]
            if loc.kind == 'attr' and key not in self.recs and key in self.havocs and num_like(self.init[key]) and num_like(self.havocs[key][0]) and \
                    not isinstance(self.init[key], (bool, SymBool)) and len(self.havocs[key][1]) == 1 and \
                    all(num_like(p.final[key]) for p in paths if p.exc is None and p.result is None):
                cand[next(iter(self.havocs[key][1]))] = key
        used = set()
        for p in paths:
            for f in p.conds + ([p.test] if p.test is not None else []):
                used |= names_in(f)
        out = [nm for nm in cand if nm in used]
        for nm in out:
            for p in paths:
                if p.exc is None and p.result is None:
                    for x in names_in(zval(p.final[cand[nm]])):
                        if x in cand and x not in out:
                            out.append(x)
        if not out:
            out = list(cand)
        return [cand[nm] for nm in out]

    def recurrence(self, key):
        init, F = self.init[key], self.recs[key]
        sort = zval(init).sort()

        def pre(t):
            ct = const_of(t)
            if ct is not None and ct == 0:
                return init
            return Num(F(zval(t)))
        return pre

    def candidates(self):
        """Facts about the carried whole numbers worth trying: bounds by
        other numbers of the function and sums with the iteration number."""
        keys = [k for k in self.recs if zval(self.init[k]).is_int()]
        out = []
        terms = []
        if isinstance(self.frame, Frame):
            d = object.__getattribute__(self.frame, '__dict__')
            for nm in sorted(d):
                v = d[nm]
                if ('attr', id(self.frame), nm) in self.locs or nm.startswith('_'):
                    continue
                if isinstance(v, SList):
                    # (as long as an index is used, it is inside)
                    terms.append(('len ' + nm, v.length() - 1, True))
                elif num_like(v) and not isinstance(v, (bool, SymBool)) and zval(v).is_int():
                    for d_ in (0, 1, 2):
                        terms.append(('%s-%d' % (nm, d_), v - d_, False))
        for a in keys:
            ia = self.init[a]
            nm = a[2] if a[0] == 'attr' else str(a)
            out.append(('%s >= its first value' % nm, lambda val, t, a=a, ia=ia: zval(val(a)) >= zval(ia)))
            for tn, tv, inside in terms:
                if inside and self.n is not None:
                    out.append(('%s <= %s while it runs' % (nm, tn), lambda val, t, a=a, tv=tv: z3.Implies(zval(t) < zval(self.n), zval(val(a)) <= zval(tv))))
                else:
                    out.append(('%s <= %s' % (nm, tn), lambda val, t, a=a, tv=tv: zval(val(a)) <= zval(tv)))
            for b in keys:
                if str(b) > str(a):
                    nb = b[2] if b[0] == 'attr' else str(b)
                    out.append(('%s + %s grows by one' % (nm, nb), lambda val, t, a=a, b=b: zval(val(a)) + zval(val(b)) == zval(self.init[a]) + zval(self.init[b]) + zval(t)))
        extra = self.c.cfg.get('recinv')
        if extra:
            out += extra(self) or []
        return out

    def alive_at(self, val, t):
        return [z3.simplify(f(val, t)) for _, f in self.alive]

    def houdini_recs(self, k, st):
        c = self.c
        init = lambda key: self.init[key]
        self.alive = [(nm, f) for nm, f in self.candidates() if c.valid(f(init, Num(z3.IntVal(0))), 1500)]
        while self.alive:
            drop = set()

            def post(p):
                if p.exc is not None or p.result is not None or p.poison:
                    return
                cc = ctx()
                for nm, f in self.alive:
                    if nm not in drop and not cc.valid(f(lambda key: p.final[key], Num(k) + 1), 1500):
                        drop.add(nm)
            self.run(k, st, True, post=post)
            if not drop:
                break
            self.alive = [(nm, f) for nm, f in self.alive if nm not in drop]
        for nm, f in self.alive:
            c.prove('loop invariant at entry: ' + nm, f(init, Num(z3.IntVal(0))))

    def keeps(self, k):
        def post(p):
            if p.exc is not None or p.result is not None or p.poison:
                return
            for nm, f in self.alive:
                ctx().prove('loop invariant kept: ' + nm, f(lambda key: p.final[key], Num(k) + 1))
        return post

    def rec_facts(self, gen):
        go = [p for p in gen.paths if p.exc is None and p.result is None]
        steps = []
        for key, F in self.recs.items():
            for p in go:
                v = zval(p.final[key])
                if self.init[key] is not None and zval(self.init[key]).sort() != v.sort():
                    v = real(v) if zval(self.init[key]).is_real() else v
                g = z3.And(p.conds) if p.conds else z3.BoolVal(True)
                steps.append(z3.Implies(g, F(gen.k + 1) == v))
        zero = [F(z3.IntVal(0)) == zval(self.init[key]) for key, F in self.recs.items()]

        def at(t):
            val = lambda t: (lambda key: Num(self.recs[key](zval(t))))
            rng = z3.And(zval(t) >= 0, zval(t) < zval(gen.n)) if gen.n is not None else zval(t) >= 0
            fs = [z3.substitute(f, (gen.k, zval(t))) for f in steps]
            if gen.n is not None:
                fs += self.alive_at(val(t), t) + self.alive_at(val(Num(zval(t) + 1)), Num(zval(t) + 1))
            return zero + [z3.Implies(rng, z3.And(fs))]

        def ending(n):
            """What holds after n iterations."""
            c = ctx()
            for f in zero:
                c.assume(f)
            for f in self.alive_at(lambda key: Num(self.recs[key](zval(n))), n):
                c.assume(f)
            for key, F in self.recs.items():
                c.assume(z3.Implies(zval(n) == 0, F(zval(n)) == zval(self.init[key])))
        gen.ending = ending
        return at

    def forall_not(self, gen, exits, t):
        """No iteration before t leaves the loop."""
        c = self.c
        j = z3.Int('?ne')
        f = gen.cond(Num(j), exits)
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zval(t)), z3.Not(bz(f)))))
        c.store['noexit'] = c.store.get('noexit', []) + [(t, lambda i: snot(gen.cond(i, exits)), self)]

    def finish_while(self, k, paths, gen, exits):
        c = self.c
        N = Num(c.fresh('iterations', I))
        c.assume(N.z >= 0)
        if self.recs:
            gen.n = N
            gen.ending(N)
        leave = bool(exits) and c.choose(2, 'loop exit') == 1
        if exits:
            # the iterations before did not leave
            self.forall_not(gen, exits, N)
            c.assume(z3.Implies(N.z >= 1, z3.Not(bz(gen.cond(N - 1, exits)))))
        # the test held before
        if all(p.test is not None for p in paths) and len(set(p.test.get_id() for p in paths)) == 1:
            j = z3.Int('?wh')
            f = z3.substitute(paths[0].test, (k, j))
            c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < N.z), f)))
            c.assume(z3.Implies(N.z >= 1, z3.substitute(paths[0].test, (k, N.z - 1))))
        for key, loc in self.locs.items():
            loc.set(self.exact[key](N))
        v = self.test()
        if leave:
            if not truth(v):
                raise PathEnd()
            r = self.body(N)
            if r is None:
                raise PathEnd()
            return r
        if truth(v):
            raise PathEnd()
        return None

    # -- invariants
    def by_invariant(self, spec):
        """spec: inv(loop, k) -> list of (name, formula) on the current state;
        havoc(loop, loc) optional; types optional."""
        c = self.c
        self.discover(spec)
        inv = spec['inv']
        zero = 0
        # the path so far determines everything here: proved once per prefix
        key = ('inv', self.lineno, tuple(c.decisions)) if c.parent is None else None
        memo = c.loopcache.get(key) if key is not None else None
        if 'cands' in spec:
            if memo is not None:
                self.kept = memo
                keep, base_ = set(memo), inv
                inv = lambda L, k: list(base_(L, k)) + [(cid, f) for cid, f in spec['cands'](L, k) if cid in keep]
            else:
                inv = self.houdini(spec)
        if memo is None:
            for nm, f in inv(self, zero):
                c.prove('loop invariant at entry: ' + nm, bz(f))

        def havoc_all(cc, k):
            self.havoc_all(spec, cc)

        def once():
            cc = ctx()
            k = Num(cc.fresh('k', I))
            cc.assume(k.z >= 0)
            if self.n is not None:
                cc.assume(k.z < zval(self.n))
            havoc_all(cc, k)
            for nm, f in inv(self, k):
                cc.assume(bz(f))
            if self.test is not None and not truth(self.test()):
                raise PathEnd()
            old = spec['measure'](self) if 'measure' in spec else None
            r = self.body(k)
            if r is not None:
                raise PathEnd()     # handled below
            for nm, f in inv(self, k + 1):
                cc.prove('loop invariant kept: ' + nm, bz(f))
            if old is not None:
                new = spec['measure'](self)
                cc.prove('loop measure decreases', z3.And(zval(old) >= 0, zval(new) < zval(old)))
            for key in self.outer_touched(0):
                pass
        # exceptions and exits of the body are explored in the caller
        def safe():
            try:
                once()
            except (PathEnd, Unsupported):
                raise
            except Exception:
                raise PathEnd()
        if memo is None:
            explore(safe, report=c.report, parent=c, max_paths=600)
            if key is not None:
                c.loopcache[key] = getattr(self, 'kept', [])
        K = Num(c.fresh('iterations', I))
        c.assume(K.z >= 0)
        if self.n is not None:
            c.assume(K.z <= zval(self.n))
        havoc_all(c, K)
        leave = c.choose(2, 'loop exit') == 1
        for nm, f in inv(self, K):
            c.assume(bz(f))
        if leave:
            if self.n is not None:
                c.assume(K.z < zval(self.n))
            if self.test is not None and not truth(self.test()):
                raise PathEnd()
            r = self.body(K)
            if r is None:
                raise PathEnd()
            if c.cfg.get('after_loop'):
                c.cfg['after_loop'](self)
            return r
        if self.n is not None:
            c.assume(K.z == zval(self.n))
        elif truth(self.test()):
            raise PathEnd()
        if c.cfg.get('after_loop'):
            c.cfg['after_loop'](self)
        return None

    def houdini(self, spec):
        """The largest inductive subset of the candidates (each kept one is
        proved like any other invariant)."""
        c = self.c
        base, cands = spec['inv'], spec['cands']
        alive = {}
        # (candidates which failed on another path are not tried again)
        out = c.loopcache.setdefault(('houdini', self.lineno), set())
        for cid, f in cands(self, 0):
            if cid not in out and c.valid(f, 1500):
                alive[cid] = True
        while True:
            drop = set()

            def once():
                cc = ctx()
                cc.quiet = True
                k = Num(cc.fresh('k', I))
                cc.assume(k.z >= 0)
                if self.n is not None:
                    cc.assume(k.z < zval(self.n))
                self.havoc_all(spec, cc)
                for nm, f in base(self, k):
                    cc.assume(bz(f))
                for cid, f in cands(self, k):
                    if cid in alive:
                        cc.assume(bz(f))
                if self.test is not None and not truth(self.test()):
                    raise PathEnd()
                if self.body(k) is not None:
                    raise PathEnd()
                now = dict(cands(self, k + 1))
                for cid in alive:
                    if cid not in drop and (cid not in now or not cc.valid(now[cid], 1500)):
                        drop.add(cid)

            def safe():
                try:
                    once()
                except (PathEnd, Unsupported):
                    raise
                except Exception:
                    raise PathEnd()
            explore(safe, report=None, parent=c, max_paths=600)
            if not drop:
                break
            for d in drop:
                del alive[d]
            out |= drop
        self.kept = sorted(alive)
        return lambda L, k: list(base(L, k)) + [(cid, f) for cid, f in cands(L, k) if cid in alive]

    def ints(self):
        """The integer locations of the function's own frame: name -> term."""
        out = {}
        for key, loc in self.locs.items():
            if loc.kind == 'attr' and isinstance(loc.obj, Frame):
                v = loc.get()
                if num_like(v) and not isinstance(v, (bool, SymBool)) and zval(v).is_int():
                    out[key[2]] = zval(v)
        return out

    def havoc_all(self, spec, cc):
        for key, loc in self.locs.items():
            v = spec['havoc'](self, loc, cc) if 'havoc' in spec else None
            if v is None:
                v = havoc_value(cc, loc, self.init[key], key, 'inv')[0]
                if v is None:
                    v = havoc_dict(cc, self.init[key])
            loc.set(v)

    def discover(self, spec):
        """The locations the body changes (fixpoint over havocked runs)."""
        for rnd in range(10):
            k = self.fresh_k()
            st = {}
            for key, loc in self.locs.items():
                v = spec['havoc'](self, loc, self.c) if 'havoc' in spec else None
                if v is None:
                    v = havoc_value(self.c, loc, self.init[key], key, 'd')[0]
                    if v is None:
                        v = havoc_dict(self.c, self.init[key])
                st[key] = v
            paths = self.run(k, st, True)
            new = {}
            for p in paths:
                if p.poison:
                    raise Unsupported('line %s: %s' % (self.lineno, p.poison))
                for key, loc in p.touched.items():
                    if key not in self.locs:
                        new[key] = loc
            if not new:
                return
            for key, loc in new.items():
                self.locs[key] = loc
                self.init[key] = loc.get()
        raise Unsupported('line %s: the changed locations do not settle' % self.lineno)


def whole_number(v):
    return num_like(v) and not isinstance(v, (bool, SymBool)) and zval(v).is_int()


def only_sets(paths, key):
    return all(e is not None and e[0] == 'set' for p in paths for e in p.effects.get(key, []))


def havoc_dict(c, init):
    items, arr, ghost = init
    if arr is None and any(not (num_like(k) and num_like(v)) for k, v in items.items()):
        raise Unsupported('a dictionary of objects is changed in a loop')
    d = z3.Const('dom!%s' % next(c.counter), z3.ArraySort(I, B))
    a = z3.Const('val!%s' % next(c.counter), z3.ArraySort(I, R))
    return ({}, (d, a), {})


def nonempty(s):
    return [] if const_of(s._n) == 0 else [s]


def same_value(loc, v, hv):
    if loc.kind == 'attr':
        if v is hv:
            return True
        if num_like(v) and num_like(hv):
            return z3.simplify(zval(v)).eq(z3.simplify(zval(hv)))
        if isinstance(v, SymBool) and isinstance(hv, SymBool):
            return v.z.eq(hv.z)
        if isinstance(v, (str, bool, type(None))) and type(v) is type(hv):
            return v == hv
        if isinstance(v, SArr) and isinstance(hv, SArr):
            return len(v.l.segs) == 1 and v.l.segs[0] is hv.l.segs[0]
        if isinstance(v, Grown) and isinstance(hv, Grown):
            return v is hv
        return False
    if loc.kind == 'list':
        return len(v[0]) == 1 and hv is not None and v[0][0] is hv[0][0]
    return False
