"""C07: flow per borehole and flow of the system; what exchangers are built of."""
from .lib import *

SR = 'ghedt.search_routines'
GH = 'ghedt.ground_heat_exchangers'
UT = 'ghedt.utilities'
GF = 'ghedt.gfunction'
EQ = 'ghedt.peak_load_analysis_tool.equivalance'
RN = 'ghedt.peak_load_analysis_tool.radial_numerical_borehole'


def t_flow(w, c):
    cls = w.load(SR).Bisection1D
    n = c.int('n')
    c.assume(n.z >= 1)
    co, _, _ = points(c, n)
    V, rho = c.real('V'), c.real('rho')
    c.assume(z3.And(V.z > 0, rho.z > 0))
    a = pair(blank(cls, flow='borehole', V_flow=V).retrieve_flow(co, rho))
    b = pair(blank(cls, flow='system', V_flow=V * n).retrieve_flow(co, rho))
    c.prove('the same flow of the system on both bases', Rz(a[0]) == Rz(b[0]))
    c.prove('the same mass flow per borehole on both bases', Rz(a[1]) == Rz(b[1]))
    c.prove('flow of the system is flow per borehole times boreholes', Rz(a[0]) == V.z * z3.ToReal(n.z))
    c.prove('mass flow is the volume flow in m3/s times the density', Rz(a[1]) == V.z / 1000 * rho.z)
    s = SymStr([c.int('basis')])
    for other in ('Borehole', 'field', None, s):
        c.prove('another basis is refused', z3.BoolVal(raises(c, lambda: blank(cls, flow=other, V_flow=V).retrieve_flow(co, rho), ValueError)))


def spacing_is(B, r_b, n, X, Y):
    """B is the distance of the first two boreholes, at least the radius."""
    d2 = (X(0) - X(1)) * (X(0) - X(1)) + (Y(0) - Y(1)) * (Y(0) - Y(1))
    return [('spacing is at least the borehole radius', B >= r_b),
            ('spacing of a single borehole is its radius', z3.Implies(n == 1, B == r_b)),
            ('spacing is at least the distance of the first pair', z3.Implies(n > 1, B * B >= d2)),
            ('spacing is the distance of the first pair', z3.Implies(z3.And(n > 1, B > r_b), B * B == d2))]


def fx(X):
    return lambda i: X(z3.IntVal(i))


def t_spacing(w, c):
    n = c.int('n')
    c.assume(n.z >= 1)
    co, X, Y = points(c, n)
    r = c.real('r_b')
    c.assume(r.z > 0)
    B = Rz(w.load(UT).borehole_spacing(Stub(r_b=r), co))
    for nm, f in spacing_is(B, r.z, n.z, fx(X), fx(Y)):
        c.prove(nm, f)


class Parts:
    pass


def parts(c):
    p = Parts()
    p.H, p.r_b, p.D = c.real('H0'), c.real('r_b'), c.real('D')
    p.rho = c.real('rho')
    c.assume(z3.And(p.H.z > 0, p.r_b.z > 0, p.rho.z > 0))
    p.borehole = Stub(H=p.H, r_b=p.r_b, D=p.D)
    p.fluid = Stub(rho=p.rho, cp=c.real('cp'))
    p.pipe, p.grout, p.soil = Stub(what='pipe'), Stub(what='grout'), Stub(what='soil', k=c.real('k_s'), rhoCp=c.real('rhoCp_s'))
    p.sim = Stub(min_Height=c.real('minH'), max_Height=c.real('maxH'))
    p.loads, _ = symlist(c, 'q', 8760)
    p.bhe_object = Stub(what='class')
    p.V = c.real('V')
    c.assume(p.V.z > 0)
    p.basis = ['borehole', 'system'][c.choose(2)]
    return p


def field_checks(w, c, p, coordinates, n, X, Y, H):
    """Stand-ins for the g-function and the exchanger which check their arguments."""
    n = n.z if isinstance(n, Num) else z3.IntVal(n)
    Vsys = p.V.z * z3.ToReal(n) if p.basis == 'borehole' else p.V.z
    m = Vsys / z3.ToReal(n) / 1000 * p.rho.z
    made = []

    def one(l):
        l = to_list(l)
        c.prove('a response for one height', zval(l.length()) == 1)
        return Rz(l[0])

    def live(a):
        for nm, f in spacing_is(Rz(a['B']), p.r_b.z, n, X, Y):
            c.prove('response: ' + nm, f)
        c.prove('response: for the height of the field', one(a['H_values']) == H.z)
        c.prove('response: for the radius of the borehole', one(a['r_b_values']) == p.r_b.z)
        c.prove('response: for the depth of the borehole', one(a['D_values']) == p.D.z)
        c.prove('response: for the mass flow of the field', Rz(a['m_flow_borehole']) == m)
        c.prove('response: for the coordinates of the field', same(c, a['coordinates'], coordinates))
        for k in ('bhe_object', 'fluid', 'pipe', 'grout', 'soil'):
            c.prove('response: for the given %s' % k, same(c, a[k], getattr(p, k)))
        return Stub(bore_locations=a['coordinates'], log_time=a['log_time'], what='response')

    def ghe(a):
        c.prove('exchanger: system flow of the field', Rz(a['V_flow_system']) == Vsys)
        for nm, f in spacing_is(Rz(a['B_spacing']), p.r_b.z, n, X, Y):
            c.prove('exchanger: ' + nm, f)
        c.prove('exchanger: height of the field', Rz(a['borehole'].H) == H.z)
        c.prove('exchanger: borehole radius and depth', z3.And(Rz(a['borehole'].r_b) == p.r_b.z, Rz(a['borehole'].D) == p.D.z))
        g = a['GFunction']
        c.prove('exchanger: response of the field', z3.BoolVal(isinstance(g, Stub) and getattr(g, 'what', '') == 'response'))
        c.prove('exchanger: coordinates of the field', same(c, g.bore_locations, coordinates))
        for k in ('bhe_object', 'fluid', 'pipe', 'grout', 'soil'):
            c.prove('exchanger: the given %s' % k, same(c, a[k], getattr(p, k)))
        c.prove('exchanger: the given loads', same(c, a['hourly_extraction_ground_loads'], p.loads))
        c.prove('exchanger: the given simulation parameters', same(c, a['sim_params'], p.sim))
        r = Stub(what='exchanger', bhe=Stub(b=a['borehole'], fluid=a['fluid'], pipe=a['pipe'], grout=a['grout'], soil=a['soil']), GFunction=g)
        made.append(r)
        return r
    gm, em = w.load(GF), w.load(GH)
    gm.compute_live_g_function = recorder(gm.compute_live_g_function, live)
    em.GHE = class_recorder(em.GHE, ghe)
    return made


def t_initialize(w, c):
    p = parts(c)
    n = c.int('n')
    c.assume(n.z >= 1)
    co, X, Y = points(c, n)
    H = c.real('H')
    c.assume(H.z > 0)
    made = field_checks(w, c, p, co, n, fx(X), fx(Y), H)
    s = blank(w.load(SR).Bisection1D, V_flow=p.V, flow=p.basis, method='hybrid', log_time=w.load(UT).Eskilson_log_times(), bhe_object=p.bhe_object, sim_params=p.sim,
              hourly_extraction_ground_loads=p.loads,
              ghe=Stub(bhe=Stub(b=p.borehole, fluid=p.fluid, pipe=p.pipe, grout=p.grout, soil=p.soil)))
    s.initialize_ghe(co, H)
    c.prove('the exchanger built is the one left behind', z3.BoolVal(len(made) >= 1 and s.ghe is made[-1]))


def t_constructor(w, c):
    p = parts(c)
    n, m = c.int('n'), c.int('m')
    c.assume(z3.And(n.z >= 1, m.z >= 0))
    co, X, Y = points(c, n)
    rest, _, _ = points(c, n, 'other')
    dom = SList([co])
    dom.segs = dom.segs + [Comp(m, lambda t: rest)]
    made = field_checks(w, c, p, co, n, fx(X), fx(Y), p.H)
    cls = w.load(SR).Bisection1D
    s = cls(dom, p.V, p.borehole, p.bhe_object, p.fluid, p.pipe, p.grout, p.soil, p.sim, p.loads, method='hybrid', flow=p.basis, search=False)
    c.prove('the exchanger built is the one kept', z3.BoolVal(len(made) >= 1 and s.ghe is made[-1]))
    c.prove('the flow given is kept', z3.And(Rz(s.V_flow) == p.V.z, z3.BoolVal(s.flow == p.basis)))
    c.prove('the loads and parameters given are kept', z3.And(same(c, s.hourly_extraction_ground_loads, p.loads), same(c, s.sim_params, p.sim), same(c, s.bhe_object, p.bhe_object)))


def t_base(w, c):
    cls = w.load(GH).BaseGHE
    n = c.int('n')
    c.assume(n.z >= 1)
    co, X, Y = points(c, n)
    p = parts(c)
    V = p.V
    B = c.real('B')
    out = []

    def bhe_object(m_flow_borehole, fluid, borehole, pipe, grout, soil):
        c.prove('mass flow per borehole from the system flow', Rz(m_flow_borehole) == V.z / z3.ToReal(n.z) / 1000 * p.rho.z)
        for k, v in (('fluid', fluid), ('borehole', borehole), ('pipe', pipe), ('grout', grout), ('soil', soil)):
            c.prove('the exchanger has the %s given' % k, same(c, v, getattr(p, k)))
        out.append(Stub(b=borehole, soil=soil, fluid=fluid, what='bhe'))
        return out[-1]
    eq = Stub(what='eq')
    w.load(EQ).compute_equivalent = lambda x: (c.prove('the equivalent tube of that exchanger', z3.BoolVal(bool(out) and x is out[-1])), eq)[1]
    rad = []

    def radial(e):
        c.prove('the short-time model of the equivalent tube', z3.BoolVal(e is eq))
        rad.append(Stub(calc_sts_g_functions=lambda e2, *a, **k: c.prove('the short-time response of the equivalent tube', z3.BoolVal(e2 is eq))))
        return rad[-1]
    w.load(RN).RadialNumericalBH = radial
    G = Stub(bore_locations=co)
    g = blank(cls)
    cls.__init__(g, V, B, bhe_object, p.fluid, p.borehole, p.pipe, p.grout, p.soil, G, p.sim, p.loads)
    c.prove('number of boreholes of the field', Rz(g.nbh) == z3.ToReal(n.z))
    c.prove('system flow as given', Rz(g.V_flow_system) == V.z)
    c.prove('flow per borehole', Rz(g.V_flow_borehole) * z3.ToReal(n.z) == V.z)
    c.prove('spacing as given', Rz(g.B_spacing) == B.z)
    c.prove('parts as built', z3.BoolVal(bool(out) and g.bhe is out[-1] and g.bhe_eq is eq and bool(rad) and g.radial_numerical is rad[-1] and g.GFunction is G))
    c.prove('loads and parameters as given', z3.And(same(c, g.hourly_extraction_ground_loads, p.loads), same(c, g.sim_params, p.sim)))


def t_network(w, c):
    """The field handed to pygfunction."""
    p = parts(c)
    n = c.int('n')
    c.assume(n.z >= 1)
    co, X, Y = points(c, n)
    m = c.real('m')
    nt = c.int('nt')
    c.assume(nt.z >= 1)
    tv, tf = symlist(c, 'time', nt)
    c.assume(z3.And(p.soil.k.z > 0, p.soil.rhoCp.z > 0))
    seen = []
    bnd = ['MIFT', 'UHTR', 'UBWT'][c.choose(3)]

    def hook(g):
        f = g.field
        net = hasattr(f, 'p')
        c.prove('a network of exchangers exactly for mixed inlet conditions', z3.BoolVal(net == (bnd == 'MIFT')))
        bs = to_list(f.b if net else f)
        c.prove('a borehole for every coordinate', zval(bs.length()) == n.z)
        i = index(c, n)
        b = bs[i]
        c.prove('boreholes at their coordinates', z3.And(Rz(b.x) == X(i.z), Rz(b.y) == Y(i.z)))
        c.prove('boreholes of the given height, radius and depth', z3.And(Rz(b.H) == p.H.z, Rz(b.r_b) == p.r_b.z, Rz(b.D) == p.D.z))
        if net:
            ps = to_list(f.p)
            c.prove('an exchanger for every coordinate', zval(ps.length()) == n.z)
            e = ps[i]
            c.prove('exchangers of the mass flow per borehole', Rz(e.m) == m.z)
            c.prove('exchangers in their own boreholes', z3.And(Rz(e.b.x) == X(i.z), Rz(e.b.y) == Y(i.z), Rz(e.b.H) == p.H.z))
            c.prove('exchangers of the given parts', z3.And([same(c, getattr(e, k), getattr(p, k)) for k in ('fluid', 'pipe', 'grout', 'soil')]))
            c.prove('mass flow of the network', Rz(f.m_flow_network) == m.z * z3.ToReal(n.z))
            c.prove('heat capacity of the fluid', Rz(f.cp_f) == Rz(p.fluid.cp))
        c.prove('diffusivity of the soil', Rz(g.alpha) * p.soil.rhoCp.z == p.soil.k.z)
        c.prove('the times given', same(c, g.time, tv))
        c.prove('the boundary condition given', z3.BoolVal(g.boundary_condition == bnd))
        c.prove('the solver given', z3.BoolVal(g.method == 'equivalent'))
        seen.append(1)
        return SArr(symlist(c, 'g', nt)[0])
    c.cfg['gfunction'] = hook

    class bhe_object(Obj):
        def __init__(self, m, fluid, b, pipe, grout, soil):
            self.m, self.fluid, self.b, self.pipe, self.grout, self.soil = m, fluid, b, pipe, grout, soil
    b0 = w.fakes['pygfunction'].boreholes.Borehole(p.H, p.D, p.r_b, 0., 0.)
    f = w.load(GF).calculate_g_function
    f(m, bhe_object, SArr(tv), co, b0, p.fluid, p.pipe, p.grout, p.soil, boundary=bnd)
    c.prove('one response computed', z3.BoolVal(len(seen) == 1))
    c.prove('another boundary condition is refused', z3.BoolVal(raises(c, lambda: f(m, bhe_object, SArr(tv), co, b0, p.fluid, p.pipe, p.grout, p.soil, boundary='none'), ValueError)))


def targets():
    S, E, U, G = ('ghedt/search_routines.py:Bisection1D.', 'ghedt/ground_heat_exchangers.py:BaseGHE.', 'ghedt/utilities.py:', 'ghedt/gfunction.py:')
    return [Target('retrieve_flow', t_flow, [S + 'retrieve_flow']),
            Target('borehole_spacing', t_spacing, [U + 'borehole_spacing']),
            Target('initialize_ghe', t_initialize, [S + 'initialize_ghe', S + 'retrieve_flow', U + 'borehole_spacing', U + 'Eskilson_log_times']),
            Target('Bisection1D.__init__', t_constructor, [S + '__init__', S + 'retrieve_flow', U + 'borehole_spacing']),
            Target('BaseGHE.__init__', t_base, [E + '__init__']),
            Target('calculate_g_function', t_network, [G + 'calculate_g_function'])]
