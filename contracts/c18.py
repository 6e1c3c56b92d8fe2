"""C18: the short-time model."""
from .lib import *

RN = 'ghedt.peak_load_analysis_tool.radial_numerical_borehole'
ROWS = ('type', 'inner-radius', 'center-radius', 'outer-radius', 'thickness', 'conductivity', 'heat-capacity', 'initial-temperature', 'volume')


class Vec:
    """A one-dimensional array: n numbers f(i); everything elementwise."""
    vc_array = True
    __array_ufunc__ = None
    ndim = 1

    def __init__(self, n, f):
        self.n, self.f = Num(zval(n)), f

    def vc_len(self):
        return self.n

    def vc_list(self):
        return SList.of(Comp(self.n, lambda t: self.f(zval(t))))

    @property
    def size(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)

    def copy(self):
        return Vec(self.n, self.f)

    def span(self, s):
        n = zval(self.n)
        if s.step is not None and const_of(s.step) != 1:
            raise Unsupported('steps')
        out = []
        for v, d in ((s.start, 0), (s.stop, n)):
            v = z3.simplify(term(d) if v is None and z3.is_expr(d) else z3.IntVal(d) if v is None else zval(v))
            if z3.is_int_value(v) and v.as_long() < 0:
                v = z3.simplify(n + v)
            if not holds(z3.And(v >= 0, v <= n)):
                raise Unsupported('a part outside of the array')
            out.append(v)
        return out

    def index(self, i):
        z = z3.simplify(zval(i))
        if z3.is_int_value(z) and z.as_long() < 0:
            z = z3.simplify(zval(self.n) + z)
        if not holds(z3.And(z >= 0, z < zval(self.n))):
            raise IndexError('index out of bounds')
        return z

    def __getitem__(self, s):
        if isinstance(s, slice):
            a, b = self.span(s)
            f = self.f
            # (what is read of it is read at once)
            return Part(Num(z3.simplify(b - a)), lambda i: f(z3.simplify(i + a)))
        return self.f(self.index(s))

    def __setitem__(self, s, v):
        f = self.f
        if not isinstance(s, slice):
            z = self.index(s)
            self.f = lambda i: Num(pickz(i == z, lambda: Rz(v), lambda: Rz(f(i))))
            return
        a, b = self.span(s)
        if isinstance(v, Vec):
            if not holds(zval(v.n) == b - a):
                raise ValueError('could not broadcast')
            g = v.f
        elif num_like(v):
            g = lambda i: v
        else:
            l = to_list(v)
            g = lambda i: l.at(Num(i))
        self.f = lambda i: Num(pickz(z3.And(i >= a, i < b), lambda: Rz(g(z3.simplify(i - a))), lambda: Rz(f(i))))

    def _ew(self, o, op):
        f = self.f
        if num_like(o):
            return Vec(self.n, lambda i: op(f(i), o))
        if not isinstance(o, Vec):
            raise Unsupported('arithmetic of arrays')
        if not holds(zval(self.n) == zval(o.n)):
            raise ValueError('operands could not be broadcast together')
        g = o.f
        return Vec(self.n, lambda i: op(f(i), g(i)))

    def __add__(self, o): return self._ew(o, lambda a, b: Num(Rz(a) + Rz(b)))
    __radd__ = __add__
    vc_radd = __add__
    def __sub__(self, o): return self._ew(o, lambda a, b: Num(Rz(a) - Rz(b)))
    def __rsub__(self, o): return self._ew(o, lambda a, b: Num(Rz(b) - Rz(a)))
    def __mul__(self, o): return self._ew(o, lambda a, b: Num(Rz(a) * Rz(b)))
    __rmul__ = __mul__
    def __truediv__(self, o): return self._ew(o, lambda a, b: Num(Rz(a) / Rz(b)))
    def __rtruediv__(self, o): return self._ew(o, lambda a, b: Num(Rz(b) / Rz(a)))
    def __neg__(self): return self._ew(0, lambda a, b: Num(-Rz(a)))
    def __pos__(self): return self


def pickz(t, a, b):
    if holds(t):
        return a()
    if holds(z3.Not(t)):
        return b()
    return z3.If(t, a(), b())


WHOLE = {}


def whole(f):
    """Is f about whole numbers only?"""
    r = WHOLE.get(f.get_id())
    if r is None or not r[0].eq(f):
        r = WHOLE[f.get_id()] = (f, not z3.is_quantifier(f) and not z3.is_var(f) and f.sort() in (I, B) and all(whole(x) for x in f.children()))
    return r[1]


def holds(f):
    """By what is known of indices."""
    f = z3.simplify(f)
    if z3.is_true(f) or z3.is_false(f):
        return z3.is_true(f)
    s = z3.Solver()
    s.set('timeout', 1000)
    s.add([g for g in ctx().facts() if whole(g)])
    s.add(z3.Not(f))
    return s.check() == z3.unsat


class Matrix:
    """A two-dimensional array by its rows."""
    vc_array = True
    __array_ufunc__ = None
    ndim = 2

    def __init__(self, rows, n, base=None, off=0):
        self.rows, self.n, self.base, self.off = rows, n, base, off

    @property
    def shape(self):
        return (len(self.rows), self.n)

    def row(self, r):
        r = const_of(r)
        if not isinstance(r, int) or not -len(self.rows) <= r < len(self.rows):
            raise Unsupported('row')
        return self.rows[r]

    def __getitem__(self, k):
        if not isinstance(k, tuple) or len(k) != 2:
            return self.row(k)
        r, s = k
        if isinstance(r, slice):
            if r.start is not None or r.stop is not None or not isinstance(s, slice):
                raise Unsupported('part of a matrix')
            a, b = self.rows[0].span(s)
            # (views of the columns)
            return Matrix([View(v, a, Num(z3.simplify(b - a))) for v in self.rows], Num(z3.simplify(b - a)))
        return self.row(r)[s]

    def __setitem__(self, k, v):
        r, s = k
        self.row(r)[s] = v


class Part(Vec):
    def __setitem__(self, s, v):
        raise Unsupported('writes to a part of an array')


class View(Part):
    def __init__(self, v, a, n):
        self.n, self.v, self.a = n, v, a

    @property
    def f(self):
        f = self.v.f
        return lambda i: f(z3.simplify(i + self.a))


# -- rational functions: e1 == e2 by cross-multiplication, where no divisor is zero
def positive(c, e, memo=None):
    """e > 0, by the signs of its parts."""
    memo = {} if memo is None else memo
    if e.get_id() in memo:
        return memo[e.get_id()][1]
    k = e.decl().kind() if z3.is_app(e) else None
    if z3.is_rational_value(e):
        r = e.as_fraction() > 0
    elif k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DIV):
        r = all(positive(c, x, memo) for x in e.children())
    else:
        r = False
    if not r:
        r = c.valid(e > 0, 3000)
    memo[e.get_id()] = (e, r)
    return r


def frac(c, e, memo):
    if e.get_id() in memo:
        return memo[e.get_id()][1:]
    k = e.decl().kind() if z3.is_app(e) else None
    one = z3.RealVal(1)
    if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB or k == z3.Z3_OP_MUL:
        n, d = frac(c, e.arg(0), memo)
        for x in e.children()[1:]:
            p, q = frac(c, x, memo)
            if k == z3.Z3_OP_MUL:
                n, d = n * p, d * q
            elif d.eq(q):
                n = n + p if k == z3.Z3_OP_ADD else n - p
            else:
                n, d = (n * q + p * d if k == z3.Z3_OP_ADD else n * q - p * d), d * q
    elif k == z3.Z3_OP_UMINUS:
        n, d = frac(c, e.arg(0), memo)
        n = -n
    elif k == z3.Z3_OP_DIV:
        x, y = e.children()
        if not positive(c, y) and not positive(c, z3.simplify(-y)):
            c.prove('no division by zero', y != 0)
        n, d = frac(c, x, memo)
        p, q = frac(c, y, memo)
        n, d = n * q, d * p
    else:
        n, d = e, one
    n, d = z3.simplify(n, som=True), z3.simplify(d, som=True)
    memo[e.get_id()] = (e, n, d)
    return n, d


def field_equal(c, name, a, b):
    memo = {}
    (n, d), (p, q) = frac(c, a, memo), frac(c, b, memo)
    z = z3.simplify(n * q - p * d, som=True)
    c.prove(name, z == 0)


class Shim:
    """numpy with arrays of the kind above."""

    def __init__(self, np, made):
        self.np, self.made = np, made

    def __getattr__(self, k):
        return getattr(self.np, k)

    def zeros(self, shape, dtype=None):
        sh = [shape] if num_like(shape) else list(shape) if isinstance(shape, tuple) else to_list(shape).vals()
        z = lambda: Vec(sh[-1], lambda i: Num(z3.RealVal(0)))
        r = z() if len(sh) == 1 else Matrix([z() for _ in range(const_of(sh[0]))], sh[-1])
        self.made.append(r)
        return r

    empty = zeros

    def zeros_like(self, v, dtype=None):
        return self.zeros(v.n)

    empty_like = zeros_like

    def log(self, v):
        if isinstance(v, Vec):
            return Vec(v.n, lambda i, f=v.f: core.fn('log', f(i)))
        return self.np.log(v)

    def insert(self, a, i, v, axis=None):
        return self.np.insert(a, i, v)


def tube(w, c, name):
    """An exchanger: what the model reads of it."""
    p = lambda n: positive1(c, n + name)
    H, rb, ri, ro, ks, rcs = p('H'), p('r_b'), p('r_in'), p('r_out'), p('k_s'), p('rhoCp_s')
    # two legs next to each other fit the borehole, no thicker than half of their radius
    c.assume(z3.And(ri.z < ro.z, ro.z <= 2 * ri.z, 2 * ro.z <= rb.z, rb.z < 5))
    Rb = p('Rb')
    Rf, Rp = p('R_f'), p('R_p')
    # (the effective resistance exceeds its convective part)
    c.assume(Rb.z > Rf.z / 2)
    t = Stub(name='tube' + name, b=Stub(H=H, r_b=rb), soil=Stub(k=ks, rhoCp=rcs), k_s=ks, R_f=Rf, R_p=Rp,
             pipe=Stub(r_in=ri, r_out=ro, rhoCp=p('rhoCp_p')), grout=Stub(rhoCp=p('rhoCp_g')), fluid=Stub(rho=p('rho_f'), cp=p('cp_f')))
    setattr(t, 'compute_effective_borehole_resistance', lambda *a, **k: Rb)
    t.own = dict(Rb=Rb, Rf=Rf, Rp=Rp, ks=ks, H=H, rcs=rcs)
    return t


def positive1(c, n):
    x = c.real(n)
    c.assume(x.z > 0)
    return x


def cells(c, n, init):
    """What fill_radial_cell gives (t_fill): positive cells at the first temperature."""
    F = {r: c.freshfun(r, I, R) for r in ROWS if r != 'initial-temperature'}
    i = z3.Int('?i')
    ri, rc, ro, k, cp, v = (F[r] for r in ('inner-radius', 'center-radius', 'outer-radius', 'conductivity', 'heat-capacity', 'volume'))

    def facts(i):
        return z3.And(ri(i) > 0, ri(i) <= rc(i), z3.Implies(i >= 1, ri(i) < rc(i)), rc(i) < ro(i), k(i) > 0, cp(i) > 0, v(i) > 0)
    return F, facts


def t_march(w, c):
    mod = w.load(RN)
    made = []
    mod.np = Shim(mod.np, made)
    cls = mod.RadialNumericalBH
    new = tube(w, c, '')
    stale = c.choose(2)
    rad = cls(tube(w, c, ' old') if stale else new)
    own = new.own
    PI = models.PI.z if hasattr(models.PI, 'z') else Rz(models.PI)
    Rb, ks = own['Rb'].z, own['ks'].z
    got = {}

    def fill(a):
        m = a['radial_cell']
        if not isinstance(m, Matrix) or 'F' in got:
            raise Unsupported('cells')
        c.prove('the convective resistance of two legs', Rz(a['R_f_eq']) == own['Rf'].z / 2)
        c.prove('the pipe resistance of two legs', Rz(a['R_p_eq']) == own['Rp'].z / 2)
        c.prove('the grout takes the rest of the effective resistance', Rz(a['R_TG_eq']) == Rb - own['Rf'].z / 2)
        n = m.n
        init = Rz(rad.init_temp)
        F, facts = cells(c, n, init)
        got.update(F=F, facts=facts, m=m, n=zval(n), init=init)
        c.prove('there are cells', got['n'] >= 3)
        for r, nm in enumerate(ROWS):
            if r >= len(m.rows):
                raise Unsupported('rows of the cells')
            m.rows[r].f = (lambda i: Num(init)) if nm == 'initial-temperature' else (lambda i, f=F[nm]: Num(f(i)))
    rad.fill_radial_cell = recorder(lambda radial_cell, R_p_eq, R_f_eq, R_TG_eq: None, fill)
    T = c.freshfun('T', I, I, R)
    spec = {}

    def parts_of():
        F = got['F']
        ri, rc, ro, kk, cp, vol = (lambda q, f=F[r]: f(z3.simplify(q)) for r in ('inner-radius', 'center-radius', 'outer-radius', 'conductivity', 'heat-capacity', 'volume'))
        log = lambda a, b: Rz(core.fn('log', Num(a / b)))
        over1 = lemma(c, 'a larger over a smaller is more than one', 2, lambda a, b: z3.Implies(z3.And(b > 0, a > b), a / b > 1))
        posdiv = lemma(c, 'quotients of positive numbers', 2, lambda a, b: z3.Implies(z3.And(a > 0, b > 0), a / b > 0))
        posmul = lemma(c, 'products of positive numbers', 2, lambda a, b: z3.Implies(z3.And(a > 0, b > 0), a * b > 0))
        cancel = lemma(c, 'd / k times k is d', 2, lambda d, k: z3.Implies(k != 0, d / k * k == d))

        def resist(q):
            """Outer half of cell q and inner half of cell q + 1."""
            q1 = z3.simplify(q + 1)
            a, b_ = log(ro(q), rc(q)), log(rc(q1), ri(q1))
            ka, kb = 2 * PI * kk(q), 2 * PI * kk(q1)
            fs = [over1(ro(q), rc(q)), over1(rc(q1), ri(q1)), posmul(PI, kk(q)), posmul(PI, kk(q1)), posdiv(a, ka), posdiv(b_, kb)]
            return a / ka + b_ / kb, fs

        return ri, rc, ro, kk, cp, vol, resist, posdiv, posmul

    def while_(test, body, frame, lineno):
        if 'F' not in got or spec:
            return NotImplemented
        if not c.valid(bz(truthy(test()))):
            raise Unsupported('the march has another test')
        d = object.__getattribute__(frame, '__dict__')
        for nm in ('g', 'lntts', 'time'):
            if nm not in d:
                raise Unsupported('no %s in the march' % nm)
        g, x = d['g'], d['lntts']
        if not (isinstance(g, SList) and isinstance(x, SList) and g.concrete_len() and x.concrete_len() and not g.vals() and not x.vals()):
            raise Unsupported('the responses are not lists')
        t0 = Rz(d['time'])
        k = Num(c.fresh('steps', I))
        c.assume(k.z >= 0)
        time = lambda j: t0 + 120 * z3.ToReal(j)
        n, F, facts, init = got['n'], got['F'], got['facts'], got['init']
        ts = Rz(rad.t_s)
        G = lambda j: Num(2 * PI * ks * ((T(j + 1, z3.IntVal(0)) - init) / 1 - Rb))
        X = lambda j: core.fn('log', Num(time(j + 1) / ts))
        # any number of steps were taken
        temp = got['m'].rows[ROWS.index('initial-temperature')]
        for v in made:
            if isinstance(v, Matrix):
                if v is not got['m']:
                    raise Unsupported('another matrix')
                continue
            z = c.freshfun('before', I, R)
            v.f = lambda i, z=z: Num(z(i))
        fixed = {r: row.f for r, row in enumerate(got['m'].rows) if row is not temp}
        temp.f = lambda i: Num(T(k.z, i))
        g.segs, x.segs = [Comp(k, lambda j: G(zval(j)))], [Comp(k, lambda j: X(zval(j)))]
        frame.time = Num(time(k.z))
        spec.update(k=k, t0=t0, time=time, G=G, X=X, g=g, x=x)
        # (the first cell, whose numbers are single ones)
        for q in (0, 1):
            c.assume(facts(z3.IntVal(q)))
        _, _, _, _, cp, vol, resist, _, posmul = parts_of()
        for f in resist(z3.IntVal(0))[1] + [posmul(cp(z3.IntVal(0)), vol(z3.IntVal(0)))]:
            c.assume(f)
        r = body()
        c.prove('the cells themselves do not change', z3.BoolVal(all(got['m'].rows[q].f is f for q, f in fixed.items())))
        if 'solved' not in spec:
            raise Unsupported('a step without a solution')
        i = index(c, Num(n), 'cell')
        c.prove('the new temperatures are those of the solution', Rz(temp.f(i.z)) == T(k.z + 1, i.z))
        c.prove('a step takes 120 s', Rz(object.__getattribute__(frame, '__dict__')['time']) == time(k.z + 1))
        for nm, l, f in (('response', g, G), ('time', x, X)):
            c.prove('one more %s each step' % nm, zval(l.length()) == k.z + 1)
            c.prove('%s of this step' % nm, Rz(l.at(k)) == Rz(f(k.z)))
        if r is None:
            # the next step starts like this one
            raise PathEnd()
        if r is loops.BRK:
            return None
        return r

    def solve(dl, d, du, b, overwrite_dl=0, overwrite_d=0, overwrite_du=0, overwrite_b=0):
        n, F, facts, init = got['n'], got['F'], got['facts'], got['init']
        k = spec['k'].z
        if not all(isinstance(v, Vec) for v in (dl, d, du, b)):
            raise Unsupported('a system of other arrays')
        c.prove('a system of one equation for each cell', z3.And(zval(d.n) == n, zval(b.n) == n, zval(dl.n) == n - 1, zval(du.n) == n - 1))
        spec['solved'] = True
        i = Num(c.fresh('interior', I))
        c.assume(z3.And(i.z >= 1, i.z <= n - 2))
        Z, L = z3.IntVal(0), z3.simplify(n - 1)
        for q in (Z, z3.IntVal(1), i.z - 1, i.z, i.z + 1, L - 1, L):
            c.assume(facts(z3.simplify(q)))
        ri, rc, ro, kk, cp, vol, resist, posdiv, posmul = parts_of()

        def conductance(q, nm):
            r, fs = resist(q)
            gq = c.fresh('conductance ' + nm, R)
            fs = fs + [posdiv(z3.RealVal(1), r)]
            c.prove('the resistance of an interface is positive (%s)' % nm, r > 0, facts=fs)
            c.assume(r > 0)
            c.assume(gq == 1 / r)
            c.prove('conductances are positive (%s)' % nm, gq > 0, facts=fs)
            c.assume(gq > 0)
            return gq, r
        g0, r0 = conductance(Z, 'first')
        gw, rw = conductance(z3.simplify(i.z - 1), 'inner')
        ge, re = conductance(i.z, 'outer')
        step = z3.RealVal(120)

        def capacity(q):
            a = cp(q) * vol(q)
            c.prove('capacities are positive', a / step > 0, facts=[posmul(cp(q), vol(q))])
            c.assume(a > 0)
            return a / step
        a0, ai = capacity(Z), capacity(i.z)
        row = lambda v, q: Rz(v.f(z3.simplify(q)))
        at_ = lambda q: z3.IntVal(q) if isinstance(q, int) else z3.simplify(q)
        x = lambda q: T(k + 1, at_(q))
        old = lambda q: T(k, at_(q))
        heat = z3.RealVal(1)

        # -- a cell between two others
        l_, m_, u_, b_ = row(dl, i.z - 1), row(d, i.z), row(du, i.z), row(b, i.z)
        c.prove('every cell is bound to the next one', z3.BoolVal(positive(c, u_) or positive(c, -u_)))
        c.assume(u_ != 0)
        lw, le = 1 / rw, 1 / re
        field_equal(c, 'both sides of an interface see the same conductance', l_ * le, u_ * lw)
        field_equal(c, 'what a cell holds or passes on', m_ * le, u_ * (-lw - le - ai))
        field_equal(c, 'a cell starts from its own temperature', b_ * le, -u_ * ai * old(i.z))
        eqs = [l_ * ge == u_ * gw, m_ * ge == u_ * (-gw - ge - ai), b_ * ge == -u_ * ai * old(i.z)]
        for f in eqs:
            c.assume(f)
        balance = lemma(c, 'a row of the system is a balance of heat', 11, lambda l, m, u, b, a, w, e, x1, x2, x3, t: z3.Implies(
            z3.And(l * e == u * w, m * e == u * (-w - e - a), b * e == -u * a * t, l * x1 + m * x2 + u * x3 == b, u != 0), a * (x2 - t) == w * (x1 - x2) + e * (x3 - x2)))
        solves = l_ * x(i.z - 1) + m_ * x(i.z) + u_ * x(i.z + 1) == b_
        c.prove('a cell between two others keeps the heat it takes', z3.Implies(solves, ai * (x(i.z) - old(i.z)) == gw * (x(i.z - 1) - x(i.z)) + ge * (x(i.z + 1) - x(i.z))),
                facts=[balance(l_, m_, u_, b_, ai, gw, ge, x(i.z - 1), x(i.z), x(i.z + 1), old(i.z))])
        # -- the first cell takes the heat injected
        m0, u0, b0 = row(d, Z), row(du, Z), row(b, Z)
        c.prove('the first cell is bound to the next one', z3.BoolVal(positive(c, u0) or positive(c, -u0)))
        c.assume(u0 != 0)
        l0 = 1 / r0
        field_equal(c, 'what the first cell holds or passes on', m0 * l0, u0 * (-l0 - a0))
        field_equal(c, 'the first cell starts from its own temperature and takes one watt', b0 * l0, -u0 * (a0 * old(Z) + heat))
        first = lemma(c, 'the first row of the system is a balance of heat', 8, lambda m, u, b, a, e, x2, x3, t: z3.Implies(
            z3.And(m * e == u * (-e - a), b * e == -u * (a * t + 1), m * x2 + u * x3 == b, u != 0), a * (x2 - t) == 1 + e * (x3 - x2)))
        c.assume(z3.And(m0 * g0 == u0 * (-g0 - a0), b0 * g0 == -u0 * (a0 * old(Z) + heat)))
        c.prove('the first cell keeps the heat it takes', z3.Implies(m0 * x(Z) + u0 * x(1) == b0, a0 * (x(Z) - old(Z)) == heat + g0 * (x(1) - x(Z))),
                facts=[first(m0, u0, b0, a0, g0, x(Z), x(1), old(Z))])
        # -- the last cell is the ground far away
        ln, mn, bn = row(dl, L - 1), row(d, L), row(b, L)
        c.prove('the outermost cell keeps its temperature', z3.And(ln == 0, mn != 0, bn == mn * old(L)))
        # -- all steps and cells
        lemma(c, 'the heat of all cells up to one is the heat injected less what leaves it', 8, lambda S, q, F, a, w, e, x_, y: z3.Implies(
            z3.And(S == q - F, a == F + e * y), S + a == q - (-e * y)))
        lemma(c, 'the coldest cell is no colder than it starts from', 8, lambda a, w, e, x1, x2, x3, t, t0: z3.Implies(
            z3.And(a > 0, w > 0, e > 0, x2 <= x1, x2 <= x3, t >= t0, a * (x2 - t) == w * (x1 - x2) + e * (x3 - x2)), x2 >= t0))
        lemma(c, 'nor is the first cell', 6, lambda a, e, x2, x3, t, t0: z3.Implies(z3.And(a > 0, e > 0, x2 <= x3, t >= t0, a * (x2 - t) == 1 + e * (x3 - x2)), x2 >= t0))
        if overwrite_b:
            b.f = lambda q: Num(T(k + 1, q))
        else:
            z = c.freshfun('destroyed', I, R)
        return (None, None, None, Vec(Num(n), lambda q: Num(T(k + 1, q))), 0)
    c.cfg['while_hook'] = while_
    c.cfg['dgtsv'] = solve
    out = rad.calc_sts_g_functions(new)
    if not spec:
        raise Unsupported('no march')
    k, time, ts = spec['k'], spec['time'], Rz(rad.t_s)
    N = k.z + 1
    c.prove('the time scale of the borehole given', ts * (9 * ks) == own['H'].z * own['H'].z * own['rcs'].z)
    c.prove('the first sample is essentially at zero', z3.And(time(z3.IntVal(1)) > 0, time(z3.IntVal(1)) < 1))
    c.prove('the last sample is past 48 hours', time(N) >= 48 * 3600)
    x, y = pair(out)
    x, y = to_list(x), to_list(y)
    c.prove('as many times as responses', z3.And(zval(x.length()) == N, zval(y.length()) == N))
    j = index(c, Num(N), 'sample')
    at = lambda l, q: Rz(l.at(Num(q)))
    log = lambda q: Rz(core.fn('log', Num(time(q + 1) / ts)))
    for nm, l in (('returned', x), ('kept', to_list(rad.lntts)), ('of the interpolation', to_list(rad.g_sts.x))):
        c.prove('times ' + nm, z3.And(zval(l.length()) == N, at(l, j.z) == log(j.z)))
    for nm, l in (('returned', y), ('kept', to_list(rad.g)), ('of the interpolation', to_list(rad.g_sts.y))):
        c.prove('responses ' + nm, z3.And(zval(l.length()) == N, at(l, j.z) == Rz(spec['G'](j.z))))
    a, b = log(j.z), log(j.z + 1)
    div = lemma(c, 'order of quotients', 3, lambda p, q, t: z3.Implies(z3.And(0 < p, p < q, t > 0), z3.And(0 < p / t, p / t < q / t)))
    c.prove('the times increase', a < b, facts=[div(time(j.z + 1), time(j.z + 2), ts)])


class Columns:
    """The matrix of cells, written column by column."""
    vc_array = True
    ndim = 2

    def __init__(self, n):
        self.n, self.cols = n, {}

    @property
    def shape(self):
        return (len(ROWS), self.n)

    def __setitem__(self, k, v):
        if not isinstance(k, tuple) or len(k) != 2 or not isinstance(k[0], slice) or k[0].start is not None or k[0].stop is not None:
            raise Unsupported('cells written in another way')
        j = const_of(k[1])
        v = to_list(v)
        if not isinstance(j, int) or not 0 <= j < self.n or not v.concrete_len() or len(v.vals()) != len(ROWS):
            raise Unsupported('cells written in another way')
        self.cols[j] = v.vals()


RADII = ('r_fluid', 'r_in_convection', 'r_in_tube', 'r_out_tube', 'r_borehole')
THICK = ('thickness_fluid', 'thickness_conv', 'thickness_pipe', 'thickness_grout', 'thickness_soil')


def t_fill(w, c):
    mod = w.load(RN)
    t = tube(w, c, '')
    rad = mod.RadialNumericalBH(t)
    own = t.own
    # -- the geometry, from any borehole
    ro, ri, rb = t.pipe.r_out.z, t.pipe.r_in.z, t.b.r_b.z
    s2 = Rz(models.sqrt(Num(z3.RealVal(2))))
    c.prove('the root of two', z3.And(s2 > z3.Q(7, 5), s2 < z3.Q(3, 2)), facts=[s2 * s2 == 2, s2 >= 0])
    c.assume(z3.And(s2 > z3.Q(7, 5), s2 < z3.Q(3, 2)))
    scale = lemma(c, 'bounds of a product', 3, lambda s, r, q: z3.Implies(z3.And(s > z3.Q(7, 5), s < z3.Q(3, 2), r > 0), z3.And(s * r > z3.Q(7, 5) * r, s * r < z3.Q(3, 2) * r)))
    f = scale(s2, ro, ro)
    vals = [Rz(getattr(rad, r)) for r in RADII]
    order = z3.And(vals[0] > 0, *[a < b for a, b in zip(vals, vals[1:])])
    c.prove('radii from the fluid to the borehole in order', order, facts=[f])
    for nm in THICK:
        c.prove('every layer has a thickness: ' + nm, Rz(getattr(rad, nm)) > 0, facts=[f])
    n = const_of(rad.num_cells)
    if not isinstance(n, int):
        raise Unsupported('number of cells')
    c.prove('there are cells', z3.BoolVal(n >= 3))
    # -- the cells, from any such geometry
    for nm in RADII + THICK:
        setattr(rad, nm, Num(c.fresh(nm, R)))
    vals = [Rz(getattr(rad, r)) for r in RADII]
    c.assume(z3.And(vals[0] > 0, *[a < b for a, b in zip(vals, vals[1:])]))
    c.assume(z3.And(*[Rz(getattr(rad, nm)) > 0 for nm in THICK]))
    M = Columns(n)
    Rp, Rf, RT = (positive1(c, nm) for nm in ('R_p_eq', 'R_f_eq', 'R_TG_eq'))
    over1 = lemma(c, 'a larger over a smaller is more than one', 2, lambda a, b: z3.Implies(z3.And(b > 0, a > b), a / b > 1))
    squares = lemma(c, 'squares grow', 2, lambda a, b: z3.Implies(z3.And(a > b, b >= 0), a * a > b * b))
    sq = lambda a, b: z3.And(squares(a, b))
    for a in range(len(vals)):
        for b in range(a):
            for g in (over1(vals[a], vals[b]), squares(vals[a], vals[b])):
                c.assume(g)
    rad.fill_radial_cell(M, Rp, Rf, RT)
    c.prove('every cell is filled', z3.BoolVal(set(M.cols) == set(range(n))))
    PI = models.PI.z if hasattr(models.PI, 'z') else Rz(models.PI)
    posmul = lemma(c, 'products of positive numbers', 2, lambda a, b: z3.Implies(z3.And(a > 0, b > 0), a * b > 0))
    known = set()
    for j in range(n):
        v = dict(zip(ROWS, (Rz(x) for x in M.cols[j])))
        a, m, o = v['inner-radius'], v['center-radius'], v['outer-radius']
        c.prove('a cell has an inner and an outer part', z3.And(a > 0, a <= m, z3.BoolVal(True) if j == 0 else a < m, m < o))
        for nm in ('conductivity', 'heat-capacity'):
            if v[nm].get_id() not in known:
                known.add(v[nm].get_id())
                c.prove('%s of a cell' % nm, z3.BoolVal(positive(c, v[nm])))
        field_equal(c, 'volume of a cell', v['volume'], PI * (o * o - a * a))
        c.prove('cells start at the ground temperature', v['initial-temperature'] == Rz(rad.init_temp))
    lemma(c, 'the volume of a ring is positive', 3, lambda a, o, p: z3.Implies(z3.And(p > 0, a > 0, a < o), p * (o * o - a * a) > 0))


def truthy(v):
    return v if not isinstance(v, bool) else SymBool(z3.BoolVal(v))


def targets():
    F = ['ghedt/peak_load_analysis_tool/radial_numerical_borehole.py:RadialNumericalBH.' + f for f in ('__init__', 'fill_radial_cell', 'calc_sts_g_functions')]
    return [Target('fill_radial_cell', t_fill, F[:2], cfg={'unroll': {'fill_radial_cell': 600}}), Target('calc_sts_g_functions', t_march, [F[0], F[2]])]
