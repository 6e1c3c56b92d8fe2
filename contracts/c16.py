"""C16: the equivalent single U-tube."""
from .lib import *
from .bhelib import *

TOL = z3.Q(1, 10 ** 6)


def absz(x):
    return z3.If(x >= 0, x, -x)


class Solver:
    """Contract of scipy.optimize.brentq for objectives it converges on, which
    must be functions of their argument alone: an end which is a root is
    returned, the lower one first, and both ends have been evaluated in this
    order; otherwise the point returned and the last one evaluated are within
    the tolerances of some root in the bracket."""

    def __init__(self, c):
        self.c, self.runs = c, []

    def __call__(self, f, a, b, xtol, rtol, maxiter):
        c = self.c
        A, B = Rz(a), Rz(b)
        k = c.real('argument')
        lo, hi = z3.If(A <= B, A, B), z3.If(A <= B, B, A)
        c.assume(z3.And(k.z >= lo, k.z <= hi))
        E = Rz(f(k))
        F = lambda z: z3.substitute(E, (k.z, z))
        fa, fb = Rz(f(a)), Rz(f(b))
        c.prove('the objective is a function of its argument (lower end)', fa == F(A))
        c.prove('the objective is a function of its argument (upper end)', fb == F(B))
        c.prove('the root solver is given a bracket', z3.Or(z3.And(fa <= 0, fb >= 0), z3.And(fa >= 0, fb <= 0)))
        c.prove('the tolerances are positive', z3.And(Rz(xtol) > 0, Rz(rtol) > 0))
        if c.branch(fa == 0):
            self.runs.append((A, A, Rz(xtol), Rz(rtol)))
            return Num(A)
        if c.branch(fb == 0):
            self.runs.append((B, B, Rz(xtol), Rz(rtol)))
            return Num(B)
        x, root, last = (c.real(n) for n in ('solution', 'root', 'last_point'))
        tol = Rz(xtol) + Rz(rtol) * absz(x.z)
        for p in (x, root, last):
            c.assume(z3.And(p.z >= lo, p.z <= hi))
        for p in (x, last):
            c.assume(z3.And(p.z - root.z <= tol, root.z - p.z <= tol))
        if c.choose(2):
            f(x)
        fl = Rz(f(last))
        c.prove('the objective is a function of its argument (later)', fl == F(last.z))
        c.assume(F(root.z) == 0)
        self.runs.append((root.z, x.z, Rz(xtol), Rz(rtol)))
        return x


def near(S, k, what):
    """k solves, within the tolerances, an equation which holds at a root."""
    return z3.Or([z3.And(what(r), absz(k - r) <= TOL + TOL * absz(x)) for r, x, _, _ in S.runs] + [z3.BoolVal(False)])


def trig(c):
    pi = Rz(models.PI)
    for k in (-2, -1, 0, 1, 2, 3):
        cz, sz = Rz(core.fn('cos', Num(k * pi))), Rz(core.fn('sin', Num(k * pi)))
        c.assume(z3.And(cz == (1 if k % 2 == 0 else -1), sz == 0))


def geometry(c, eq, Vf, Vp, r_b):
    pi = Rz(models.PI)
    ri, ro = Rz(eq.pipe.r_in), Rz(eq.pipe.r_out)
    c.prove('the radii of the thermal model are those of the pipe', z3.And(Rz(eq.r_in) == ri, Rz(eq.r_out) == ro))
    c.prove('radii positive', z3.And(ri > 0, ro > ri))
    c.prove('fluid volume preserved', 2 * pi * (ri * ri) == Vf)
    c.prove('pipe volume preserved', 2 * pi * (ro * ro) == Vf + Vp)
    pos = to_list(eq.pipe.pos).vals()
    c.prove('two legs', z3.BoolVal(len(pos) == 2))
    (x1, y1), (x2, y2) = [[Rz(v) for v in pair(p)] for p in pos]
    R = Rz(eq.b.r_b)
    c.prove('the borehole does not shrink', R >= r_b)
    # legs on the x axis
    c.prove('legs on one diameter', z3.And(y1 == 0, y2 == 0, x1 == -x2))
    c.prove('the legs do not overlap', absz(x1 - x2) >= 2 * ro)
    c.prove('the legs fit inside the borehole', absz(x1) + ro <= R)
    c.prove('the positions of the thermal model are those of the pipe', same(c, eq.pos, eq.pipe.pos))


def flow(c, eq, p):
    c.prove('mass flow per metre preserved', z3.And(Rz(eq.m_flow_borehole) == p.m.z, Rz(eq.m_flow_pipe) == p.m.z, Rz(eq.b.H) == p.H.z, Rz(eq.borehole.H) == p.H.z))
    for k in ('cp', 'mu', 'rho', 'k'):
        c.prove('the fluid is the same (%s)' % k, Rz(getattr(eq.fluid, k)) == Rz(getattr(p.fluid, k)))
    c.prove('ground conductivity is the same', z3.And(Rz(eq.soil.k) == Rz(p.soil.k), Rz(eq.k_s) == Rz(p.soil.k), Rz(eq.pipe.eps) == Rz(p.pipe.eps)))


def R_def(w, p, eq, k):
    """Fluid-to-pipe resistance of the equivalent with pipe conductivity k."""
    g = w.fakes['pygfunction'].pipes
    pi = Rz(models.PI)
    ri, ro = eq.pipe.r_in, eq.pipe.r_out
    h = g.convective_heat_transfer_coefficient_circular_pipe(p.m, ri, p.fluid.mu, p.fluid.rho, p.fluid.k, p.fluid.cp, p.pipe.eps)
    return 1 / (Rz(h) * 2 * pi * Rz(ri)) + Rz(core.fn('log', ro / ri)) / (2 * pi * k)


def opposite(a, b):
    return z3.Or(z3.And(a < 0, b >= 0), z3.And(a > 0, b <= 0))


def conductivity(w, c, S, p, eq, Rc, Rp):
    pi = Rz(models.PI)
    k = Rz(eq.pipe.k)
    k0 = Rz(core.fn('log', eq.pipe.r_out / eq.pipe.r_in)) / (2 * pi * 2 * Rp)
    F = lambda z: R_def(w, p, eq, z) - (Rc + Rp)
    # (a root at the lower end itself is a known finding)
    c.prove('the pipe conductivity solves for the resistance if the range brackets it', z3.Implies(opposite(F(k0 / 100), F(k0 * 10)), near(S, k, lambda r: F(r) == 0)))
    c.prove('the resistance in use is that of the conductivity', Rz(eq.R_fp) == R_def(w, p, eq, k))


def apart(c, b, eq, p):
    held = [p.borehole, p.fluid, p.pipe, p.grout, p.soil]
    c.prove('the equivalent shares no part with the original', z3.BoolVal(not any(getattr(eq, n) is x for n in ('b', 'borehole', 'pipe', 'fluid', 'grout', 'soil') for x in held)))


def numbers_of(o, skip=('_stored',)):
    """The values an exchanger and its parts hold."""
    out = {}
    for k, v in sorted(vars(o).items()):
        if k in skip or callable(v):
            continue
        if v is None or isinstance(v, (str, bool, int, float, Num)) or isinstance(v, (tuple, SList, SArr)):
            out[k] = models.s_deepcopy(v)
        elif hasattr(v, '__dict__'):
            for k2, v2 in vars(v).items():
                if v2 is None or isinstance(v2, (str, bool, int, float, Num, tuple, SList, SArr)):
                    out[k + '.' + k2] = models.s_deepcopy(v2)
    return out


def unchanged(c, b, before, what='the original'):
    after = numbers_of(b)
    c.prove(what + ' has the same fields', z3.BoolVal(set(before) == set(after)))
    for k in before:
        if k in after:
            a, d = before[k], after[k]
            c.prove('%s is unchanged (%s)' % (what, k), z3.BoolVal(a is d) if a is None or isinstance(a, str) else same(c, a, d))


def t_equivalent(w, c):
    """equivalent_single_u_tube, for any volumes and resistances."""
    trig(c)
    p = parts(w, c, 'double')
    b = make(w, p, 'double')
    S = c.cfg['brentq'] = Solver(c)
    V_f, V_p, R_c, R_p = positive(c, 'V_fluid', 'V_pipe', 'R_conv', 'R_pipe')
    before = numbers_of(b)
    parts_ = [b.b, b.fluid, b.pipe, b.grout, b.soil]
    eq = w.load(EQ).equivalent_single_u_tube(b, V_f, V_p, R_c, R_p)
    c.prove('a single U-tube', z3.BoolVal(type(eq) is w.load(BH).SingleUTube))
    geometry(c, eq, V_f.z, V_p.z, p.r_b.z)
    flow(c, eq, p)
    conductivity(w, c, S, p, eq, R_c.z, R_p.z)
    unchanged(c, b, before)
    c.prove('the original keeps its parts', z3.BoolVal(all(x is y for x, y in zip(parts_, [b.b, b.fluid, b.pipe, b.grout, b.soil]))))
    apart(c, b, eq, p)


def t_volumes(w, c):
    pi = Rz(models.PI)
    n = c.int('nPipes')
    c.assume(n.z >= 1)
    ri, ro, h, k, rb = positive(c, 'r_in', 'r_out', 'h_f', 'k_p', 'r_b')
    c.assume(z3.And(ri.z < ro.z, ro.z < rb.z))
    R_p0, R_f0, R_fp0 = positive(c, 'R_p', 'R_f', 'R_fp')
    u = Stub(nPipes=n, n_pipes=n, r_in=ri, r_out=ro, h_f=h, pipe=Stub(k=k, r_in=ri, r_out=ro, n_pipes=n), b=Stub(r_b=rb), R_p=R_p0, R_f=R_f0, R_fp=R_fp0)
    V_f, V_p, R_c, R_p = [Rz(x) for x in w.load(EQ).u_tube_volumes(u)]
    nn = Rz(n)
    c.prove('fluid volume of all legs', V_f == 2 * nn * pi * (ri.z * ri.z))
    c.prove('pipe volume of all legs', V_f + V_p == 2 * nn * pi * (ro.z * ro.z))
    c.prove('pipe resistance of the legs in parallel', R_p * (2 * nn) == Rz(core.fn('log', ro / ri)) / (2 * pi * k.z))
    c.prove('convection resistance', R_c * (h.z * (2 * nn * pi * (4 * (ri.z * ri.z)))) == 1)
    c.prove('volumes positive', z3.And(V_f > 0, V_p > 0))
    c.prove('resistances positive', z3.And(R_c > 0, R_p > 0))


def t_concentric(w, c):
    pi = Rz(models.PI)
    a, bo, ci, co, h, k1, k2, rb = positive(c, 'r_in_in', 'r_in_out', 'r_out_in', 'r_out_out', 'h', 'k_in', 'k_out', 'r_b')
    c.assume(z3.And(a.z < bo.z, bo.z < ci.z, ci.z < co.z, co.z < rb.z))
    others = dict(zip(('h_fluid_a_out', 'h_fluid_in', 'R_p_in', 'R_p_out', 'R_f_a_in', 'R_f_a_out', 'R_f_in', 'R_ff', 'R_fp'), positive(c, *['o%d' % i for i in range(9)])))
    u = Stub(r_inner=SList([a, bo]), r_outer=SList([ci, co]), r_in_in=a, r_in_out=bo, r_out_in=ci, r_out_out=co, h_fluid_a_in=h, b=Stub(r_b=rb),
             pipe=Stub(k=SList([k1, k2]), r_in=SList([a, bo]), r_out=SList([ci, co])), **others)
    V_f, V_p, R_c, R_p = [Rz(x) for x in w.load(EQ).concentric_tube_volumes(u)]
    sq = lambda x: x.z * x.z
    c.prove('fluid volume of the core and the annulus', V_f == pi * (sq(a) + sq(ci) - sq(bo)))
    c.prove('pipe volume of both pipes', V_p == pi * (sq(bo) - sq(a) + sq(co) - sq(ci)))
    c.prove('outer pipe resistance', R_p == Rz(core.fn('log', co / ci)) / (2 * pi * k2.z))
    c.prove('convection resistance of the annulus', R_c * (h.z * (2 * pi * ci.z)) == 1)


def grout_claim(w, c, S, b, eq, p, m, Rb):
    """The effective resistance as a function of the grout conductivity."""
    bh, M = w.load(BH), w.load(PM)

    def Rb_of(k):
        q = bh.SingleUTube(eq.m_flow_borehole, eq.fluid, eq.b, eq.pipe, M.Grout(k, eq.grout.rhoCp), eq.soil)
        return Rz(q.compute_effective_borehole_resistance())
    k = eq.grout.k
    F = lambda z: Rb - Rb_of(Num(z))
    c.prove('the grout conductivity solves for the effective resistance if the range brackets it',
            z3.Implies(opposite(F(z3.Q(1, 100)), F(z3.RealVal(7))), near(S, Rz(k), lambda r: F(r) == 0)))
    c.prove('the thermal model holds the grout conductivity', Rz(eq.k_g) == Rz(k))
    c.prove('the effective resistance in use is that of the conductivities', Rz(eq.compute_effective_borehole_resistance()) == Rb_of(k))


def t_match(w, c):
    p = parts(w, c, 'double')
    ref = make(w, p, 'double')
    q = parts(w, c, 'single')
    new = make(w, q, 'single')
    S = c.cfg['brentq'] = Solver(c)
    Rb = Rz(make(w, p, 'double').compute_effective_borehole_resistance())
    before = numbers_of(ref)
    k_p, R_fp = Rz(q.pipe.k), Rz(new.R_fp)
    w.load(EQ).match_effective_borehole_resistance(ref, new)
    unchanged(c, ref, before)
    grout_claim(w, c, S, ref, new, q, q.m, Rb)
    c.prove('the pipe is left', z3.And(Rz(new.pipe.k) == k_p, Rz(new.R_fp) == R_fp))


def t_compute(w, c, kind):
    """compute_equivalent, its parts by contract."""
    E = w.load(EQ)
    bh = w.load(BH)
    p = parts(w, c, kind)
    config = 'parallel'
    b = make(w, p, kind, config)
    if kind == 'single':
        before = numbers_of(b)
        c.prove('a single U-tube is its own equivalent', z3.BoolVal(E.compute_equivalent(b) is b))
        unchanged(c, b, before)
        return
    log = []
    V = tuple(Num(x) for x in [z.z for z in positive(c, 'V_fluid', 'V_pipe', 'R_conv', 'R_pipe')])
    out = blank(bh.SingleUTube)

    def volumes(x):
        log.append(('volumes', x is b))
        return V

    def single(x, a, b_, c_, d):
        log.append(('single', x is b and all(u is v for u, v in zip((a, b_, c_, d), V))))
        return out

    def match(x, y):
        log.append(('match', x is b and y is out))

    def wrong(*a, **k):
        log.append(('volumes', False))
        return V
    E.u_tube_volumes, E.concentric_tube_volumes = (volumes, wrong) if kind == 'double' else (wrong, volumes)
    E.equivalent_single_u_tube, E.match_effective_borehole_resistance = single, match
    r = E.compute_equivalent(b)
    if [k for k, _ in log] != ['volumes', 'single', 'match']:
        raise Unsupported('the parts of the computation are not called as expected')
    c.prove('volumes, equivalent and matching of this exchanger', z3.BoolVal(all(v for _, v in log)))
    c.prove('the matched exchanger is returned', z3.BoolVal(r is out))


def t_refused(w, c):
    M = w.load(PM)
    things = [None, 3, 'x', Stub(), M.Soil(c.real('k'), c.real('r'), c.real('t')), c.real('x'), SList([]), w.fakes['pygfunction'].boreholes.Borehole(1., 1., 1., 0., 0.)]
    x = things[c.choose(len(things))]
    c.prove('anything else is refused with ValueError', z3.BoolVal(raises(c, lambda: w.load(EQ).compute_equivalent(x), ValueError)))


def targets():
    Q = 'ghedt/peak_load_analysis_tool/equivalance.py:'
    B = 'ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py:'
    up = [B + 'SingleUTube.__init__', B + 'SingleUTube.update_thermal_resistance', B + 'BasePipe.compute_resistances']
    return [Target('equivalent_single_u_tube', t_equivalent, [Q + 'equivalent_single_u_tube', Q + 'solve_root', 'ghedt/peak_load_analysis_tool/media.py:Pipe.place_pipes'] + up),
            Target('u_tube_volumes', t_volumes, [Q + 'u_tube_volumes']),
            Target('concentric_tube_volumes', t_concentric, [Q + 'concentric_tube_volumes']),
            Target('match_effective_borehole_resistance', t_match, [Q + 'match_effective_borehole_resistance', Q + 'solve_root', B + 'BasePipe.compute_effective_borehole_resistance'] + up),
            Target('compute_equivalent of a single U-tube', lambda w, c: t_compute(w, c, 'single'), [Q + 'compute_equivalent']),
            Target('compute_equivalent of a double U-tube', lambda w, c: t_compute(w, c, 'double'), [Q + 'compute_equivalent', Q + 'multiple_to_single']),
            Target('compute_equivalent of a coaxial exchanger', lambda w, c: t_compute(w, c, 'coaxial'), [Q + 'compute_equivalent', Q + 'coaxial_to_single']),
            Target('compute_equivalent of something else', t_refused, [Q + 'compute_equivalent'])]
