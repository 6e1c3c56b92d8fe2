"""Specification helpers."""
import z3
from pyvc import core, seq, models, loops
from pyvc.core import (Num, SymBool, Unsupported, PathEnd, ctx, zval, real, num_like, const_of, sbool, bz, ite, uf, fn, I, R, B, sand, snot, explore)
from pyvc.seq import SList, SDict, Elems, Comp, Flat, Unknown, subst
from pyvc.models import to_list, Obj, SArr, ND, SymStr
from pyvc.runner import Target


class GE:
    """A generic element of a list: make() gives (vars, guard, value) with
    fresh index variables."""

    def __init__(self, make, label):
        self.make, self.label = make, label


def generic(l, label='e', depth=0):
    """The generic elements of a (nested) symbolic list."""
    l = to_list(l)
    out = []
    for n, s in enumerate(l.segs):
        lab = '%s%d' % (label, n)
        if isinstance(s, Elems):
            for j, v in enumerate(s.vals):
                out.append(GE(lambda v=v: ([], z3.BoolVal(True), v), '%s.%d' % (lab, j)))
        elif isinstance(s, Comp):
            def mk(s=s):
                k = ctx().fresh('g', I)
                g = z3.And(k >= 0, k < zval(s._n))
                if s.cond is not None:
                    g = z3.And(g, bz(s.cond(Num(k))))
                return ([k], g, s.f(Num(k)))
            out.append(GE(mk, lab))
        elif isinstance(s, Flat):
            k = ctx().fresh('g', I)
            with loops.Probe():
                probe = generic(s.f(Num(k)), lab, depth + 1)
            for q in range(len(probe)):
                def mk(s=s, q=q, count=len(probe)):
                    k = ctx().fresh('g', I)
                    inner = generic(s.f(Num(k)), lab, depth + 1)
                    if len(inner) != count:
                        raise Unsupported('blocks of different shape')
                    vs, g, v = inner[q].make()
                    return ([k] + vs, z3.And(k >= 0, k < zval(s._n), g), v)
                out.append(GE(mk, probe[q].label))
        else:
            raise Unsupported('a list whose contents are not tracked')
    return out


def pair(v):
    if isinstance(v, tuple) and len(v) == 2:
        return v
    l = to_list(v)
    if l.concrete_len() and len(l.vals()) == 2:
        return tuple(l.vals())
    raise Unsupported('not a point')


def Rz(x):
    return real(zval(x))


def poseq(c, z1, z2):
    """Polynomial identity, decided by normalisation first."""
    d = z3.simplify(z1 - z2, som=True)
    return z3.simplify(d == 0)


def witness(c, x, scale, cands):
    """An integer term u with x == u * scale, or None."""
    for u in cands:
        f = real(zval(x)) == z3.ToReal(u) * scale
        d = z3.simplify(real(zval(x)) - z3.ToReal(u) * scale, som=True)
        if z3.is_rational_value(d) and d.numerator_as_long() == 0:
            return u
    for u in cands:
        if c.valid(real(zval(x)) == z3.ToReal(u) * scale, 1500):
            return u
    return None


def intpart(z):
    """The integer term z is the real value of, or None."""
    z = z3.simplify(z, som=True)
    if z.is_int():
        return z
    if z3.is_rational_value(z):
        return z3.IntVal(z.numerator_as_long()) if z.denominator_as_long() == 1 else None
    k = z.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return z.arg(0)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
        a = [intpart(x) for x in z.children()]
        if any(x is None for x in a):
            return None
        return z3.simplify(z3.Sum(a) if k == z3.Z3_OP_ADD else z3.Product(a))
    return None


def grid_index(c, x, axes, vs):
    """u with x == u * axes[...] for the scale given: the value of x at scale 1."""
    scale = axes
    z = real(zval(x))
    cands = []
    if z3.is_const(scale):
        u = intpart(z3.substitute(z, (scale, z3.RealVal(1))))
        if u is not None:
            cands.append(u)
    for v in vs:
        cands += [v, v + 1, v + 2, v - 1]
    cands += [z3.IntVal(0), z3.IntVal(1)]
    return witness(c, x, scale, cands)


def exact_grid(c, name, l, parts, count):
    """The list holds exactly the points of the parts, each once.
    parts: list of (label, sx, sy, member(u, v), (ox, oy)): the points
    (ox + u sx, oy + v sy) with member(u, v), pairwise disjoint parts."""
    l = to_list(l)
    ges = generic(l)
    c.prove(name + ': number of boreholes', zval(l.length()) == count)
    found = []
    for g in ges:
        hit = None
        vs, guard, v = g.make()
        x, y = pair(v)
        c2 = len(c.pc)
        for pi, (lab, sx, sy, member, (ox, oy)) in enumerate(parts):
            with Assume(c, guard):
                u = grid_index(c, x - ox, sx, vs)
                w = grid_index(c, y - oy, sy, vs)
                if u is None or w is None:
                    continue
                ok = z3.Implies(guard, z3.And(Rz(x - ox) == z3.ToReal(u) * sx, Rz(y - oy) == z3.ToReal(w) * sy))
                mem = z3.Implies(guard, member(u, w))
                if len(parts) == 1 or c.valid(mem, 3000):
                    hit = (pi, vs, guard, u, w, ok, mem)
                    break
        if hit is None:
            c.prove('%s: every borehole is a point of the shape (%s)' % (name, g.label), z3.Not(guard))
            continue
        c.prove('%s: borehole on the grid (%s)' % (name, g.label), hit[5])
        c.prove('%s: borehole belongs to the shape (%s)' % (name, g.label), hit[6])
        found.append(hit)
    # no point twice
    for i, a in enumerate(found):
        for b in found[:i + 1]:
            if a[0] != b[0]:
                continue
            if a is b:
                ren = [(v, c.fresh('g2', I)) for v in a[1]]
                if not ren:
                    continue
                g2, u2, w2 = (z3.substitute(z, *ren) for z in (b[2], b[3], b[4]))
                diff = z3.Or([v != r for v, r in ren])
            else:
                ren = [(v, c.fresh('g2', I)) for v in b[1]]
                g2, u2, w2 = (z3.substitute(z, *ren) if ren else z for z in (b[2], b[3], b[4]))
                diff = z3.BoolVal(True)
            c.prove('%s: no borehole twice' % name, z3.Implies(z3.And(a[2], g2, diff), z3.Or(a[3] != u2, a[4] != w2)))
    # none missing
    for pi, (lab, sx, sy, member, o) in enumerate(parts):
        a, b = c.fresh('u', I), c.fresh('v', I)
        alts = []
        for f in found:
            if f[0] != pi:
                continue
            body = z3.And(f[2], f[3] == a, f[4] == b)
            if f[1]:
                body = eliminate(f[1], body, a, b, f)
            alts.append(body)
        c.prove('%s: no point of the %s missing' % (name, lab), z3.Implies(member(a, b), z3.Or(alts) if alts else z3.BoolVal(False)))


def eliminate(vs, body, a, b, f):
    """exists vs. body, by solving u = a, v = b for the index variables."""
    sub = []
    left = list(vs)
    for term, val in ((f[3], a), (f[4], b)):
        for v in list(left):
            # term = v + rest ?
            rest = z3.simplify(z3.substitute(term, (v, z3.IntVal(0))))
            one = z3.simplify(z3.substitute(term, (v, z3.IntVal(1))) - rest)
            two = z3.simplify(z3.substitute(term, (v, z3.IntVal(2))) - rest)
            if z3.is_int_value(one) and one.as_long() in (1, -1) and z3.is_int_value(two) and two.as_long() == 2 * one.as_long():
                if any(x.eq(v) for x in left):
                    sol = (val - rest) if one.as_long() == 1 else (rest - val)
                    sub.append((v, sol))
                    left.remove(v)
                    break
    r = body
    for s in sub:
        r = z3.substitute(r, s)
    if left:
        r = z3.Exists(left, r)
    return r


class Assume:
    """Temporarily assume a formula (for engine queries)."""

    def __init__(self, c, f):
        self.c, self.f = c, f

    def __enter__(self):
        self.n = len(self.c.pc)
        self.c.solver.push()
        self.c.pc.append(self.f)
        self.c.solver.add(self.f)
        return self

    def __exit__(self, *a):
        # axioms and definitions added meanwhile stay
        self.c.pc.remove(self.f) if self.f in self.c.pc[self.n:self.n + 1] else None
        self.c.solver.pop()
        for f in self.c.pc[self.n:]:
            self.c.solver.add(f)
        return False


def raises(c, f, cls):
    """Runs f; True if it raises cls."""
    try:
        f()
    except cls:
        return True
    return False


class Stub(Obj):
    """A stand-in for an object under its own contract."""

    def __init__(self, **k):
        for a, v in k.items():
            setattr(self, a, v)


def blank(cls, **k):
    """An instance of a class of the code, its attributes given (constructor not run)."""
    o = cls.__new__(cls)
    for a, v in k.items():
        setattr(o, a, v)
    return o


def symlist(c, name, n, sort=R):
    """A list of n arbitrary numbers and the function giving them."""
    f = c.freshfun(name, I, sort)
    return SList.of(Comp(n, lambda t: Num(f(zval(t))))), (lambda i: f(zval(i)))


def index(c, n, name='i'):
    i = Num(c.fresh(name, I))
    c.assume(z3.And(i.z >= 0, i.z < zval(n)))
    return i


def recorder(fnc, act, skip_self=False):
    """A stand-in for fnc: act gets the arguments by name (defaults applied)."""
    import inspect
    sig = inspect.signature(fnc)

    def f(*a, **k):
        try:
            b = sig.bind(*(((None,) if skip_self else ()) + a), **k)
        except TypeError as e:
            raise Unsupported('call of %s: %s' % (getattr(fnc, '__name__', fnc), e))
        b.apply_defaults()
        return act(dict(b.arguments))
    return f


def class_recorder(cls, act):
    return recorder(cls.__init__, act, skip_self=True)


def same(c, a, b, depth=0):
    """A formula saying that two values are the same (identical objects, equal
    numbers, lists with equal elements, objects with the same attributes)."""
    if a is b:
        return z3.BoolVal(True)
    if num_like(a) and num_like(b):
        return Rz(a) == Rz(b)
    if a is None or b is None or isinstance(a, (str, type)) or isinstance(b, (str, type)):
        return z3.BoolVal(type(a) is type(b) and a == b)
    if depth > 6:
        raise Unsupported('comparing deep values')
    if isinstance(a, Obj) and isinstance(b, Obj):
        if type(a) is not type(b):
            return z3.BoolVal(False)
        da, db = (object.__getattribute__(x, '__dict__') for x in (a, b))
        ks = set(da) - {'_born', 'uid'}
        if ks != set(db) - {'_born', 'uid'}:
            return z3.BoolVal(False)
        return z3.And([z3.BoolVal(True)] + [same(c, da[k], db[k], depth + 1) for k in sorted(ks)])
    try:
        la, lb = to_list(a), to_list(b)
    except (TypeError, Unsupported):
        return z3.BoolVal(False)
    n, m = zval(la.length()), zval(lb.length())
    if la.concrete_len() and lb.concrete_len() and max(len(la.segs), len(lb.segs)) <= 64 and all(isinstance(x, Elems) for x in la.segs + lb.segs):
        if len(la.vals()) != len(lb.vals()):
            return z3.BoolVal(False)
        return z3.And([z3.BoolVal(True)] + [same(c, x, y, depth + 1) for x, y in zip(la.vals(), lb.vals())])
    if not c.valid(n == m):
        return n == m
    k = Num(c.fresh('same', I))
    g = z3.And(k.z >= 0, k.z < n)
    with Assume(c, g):
        f = same(c, la[k], lb[k], depth + 1)
    return z3.And(n == m, z3.Implies(g, f))


def points(c, n, name='p'):
    """A list of n points."""
    X, Y = c.freshfun(name + 'x', I, R), c.freshfun(name + 'y', I, R)
    return SList.of(Comp(n, lambda t: (Num(X(zval(t))), Num(Y(zval(t)))))), X, Y


def cases(c, fn):
    """fn under every case it distinguishes, without running the code again."""
    core.explore(lambda: fn(ctx()), report=c.report, parent=c, max_paths=4000)


# -- lemmas: proved for fresh reals, used at the terms at hand
def lemma(c, name, n, f):
    """f(x1..xn): proved for all reals (whole numbers: n is None) once per
    path; returns f as a maker of facts."""
    whole, n = n is None, n or f.__code__.co_argcount
    known = c.store.setdefault('lemmas', set())
    if name not in known:
        known.add(name)
        xs = [c.fresh('x', I if whole else R) for _ in range(n)]
        c.prove('lemma: ' + name, f(*xs))
    return lambda *a: f(*[term(x) if whole else real(term(x)) for x in a])


def term(x):
    return x if z3.is_expr(x) else zval(x)


def quotient(b):
    """The L and D of a term L/D."""
    z = real(term(b))
    if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_DIV:
        return z.arg(0), z.arg(1)
    return None


def part_of_side(c, k, b):
    """k spacings b = L/D, at most D of them, fit in L."""
    q = quotient(b)
    if q is None:
        return []
    f = lemma(c, 'k <= D spacings L/D stay within L', 3, lambda k, L, D: z3.Implies(z3.And(D > 0, L >= 0, k <= D), k * (L / D) <= L))
    return [f(k, *q)]


def spacing_limit(c, b, B):
    """L/D against B is L/B against D."""
    q = quotient(b)
    if q is None:
        return []
    f = lemma(c, 'L/D >= B iff L/B >= D', 3, lambda L, D, B: z3.Implies(z3.And(D > 0, B > 0), z3.And((L / D >= B) == (L / B >= D), (L / D <= B) == (L / B <= D))))
    return [f(q[0], q[1], B)]
