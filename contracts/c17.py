"""C17: an updated exchanger is one built anew; its resistances."""
from .lib import *
from .bhelib import *

U_KEYS = ['h_f', 'R_f', 'R_p', 'm_flow_pipe', 'R_fp', 'm_flow_borehole']
C_KEYS = ['m_flow_pipe', 'R_p_in', 'R_p_out', 'R_grout', 'h_fluid_a_in', 'h_fluid_a_out', 'R_f_a_in', 'R_f_a_out', 'h_fluid_in', 'R_f_in', 'R_ff', 'R_fp', 'm_flow_borehole']


def definitions(w, c, b, p, kind, m, f, config):
    """The resistances by their definitions."""
    g = w.fakes['pygfunction'].pipes
    pi = Rz(models.PI)
    h = lambda mm, r: Rz(g.convective_heat_transfer_coefficient_circular_pipe(mm, r, f.mu, f.rho, f.k, f.cp, p.pipe.eps))
    wall = lambda a, b, k: Rz(core.fn('log', b / a)) / (2 * pi * Rz(k))
    film = lambda h, r: 1 / (Rz(h) * 2 * pi * r.z)
    w_ = {}
    if kind == 'coaxial':
        a, bo, ci, co = p.radii
        h1, h2 = g.convective_heat_transfer_coefficient_concentric_annulus(m, bo, ci, f.mu, f.rho, f.k, f.cp, p.pipe.eps)
        k1, k2 = to_list(p.pipe.k).vals()
        w_ = {'h_fluid_a_in': Rz(h1), 'h_fluid_a_out': Rz(h2), 'h_fluid_in': h(m, a), 'R_p_in': wall(a, bo, k1), 'R_p_out': wall(ci, co, k2),
              'R_f_a_in': film(h1, bo), 'R_f_a_out': film(h2, ci), 'R_f_in': film(b.h_fluid_in, a), 'm_flow_borehole': m.z}
        w_['R_ff'] = Rz(b.R_f_in) + Rz(b.R_p_in) + Rz(b.R_f_a_in)
        w_['R_fp'] = Rz(b.R_p_out) + Rz(b.R_f_a_out)
    else:
        ri, ro = p.radii
        mp = m / 2 if kind == 'double' and config == 'parallel' else m
        w_ = {'m_flow_pipe': mp.z, 'h_f': h(mp, ri), 'R_f': film(b.h_f, ri), 'R_p': wall(ri, ro, p.pipe.k), 'R_fp': Rz(b.R_f) + Rz(b.R_p), 'm_flow_borehole': m.z}
    for k, v in w_.items():
        c.prove('%s by its definition' % k, Rz(getattr(b, k)) == v)


def compare(w, c, b, new, kind):
    for k in C_KEYS if kind == 'coaxial' else U_KEYS:
        c.prove('%s as of one built anew' % k, Rz(getattr(b, k)) == Rz(getattr(new, k)))
    c.prove('the fluid is the new one', z3.BoolVal(b.fluid is new.fluid))
    c.prove('the thermal model holds the resistances of one built anew', same(c, list(b._Rd), list(new._Rd)))


def t_update(w, c, kind):
    config = ['parallel', 'series'][c.choose(2)] if kind == 'double' else None
    p = parts(w, c, kind)
    b = make(w, p, kind, config, default=config == 'parallel' and c.choose(2) == 1)
    m, f = p.m, p.fluid
    definitions(w, c, b, p, kind, m, f, config)
    # a history: other updates, uses and changes of the pipe, grout and height
    what = c.choose(5)
    if what == 1:
        m0, = positive(c, 'm_before')
        b.update_thermal_resistance(m_flow_borehole=m0, fluid=fluid(w, c, '_before'))
        m, f = b.m_flow_borehole, b.fluid
    elif what == 2:
        b.compute_effective_borehole_resistance()
    elif what == 3:
        H2, = positive(c, 'H2')
        b.compute_effective_borehole_resistance()
        p.borehole.H = H2
    elif what == 4:
        if kind == 'coaxial':
            k1, k2 = positive(c, 'k1_new', 'k2_new')
            p.pipe.k = SList([k1, k2])
        else:
            p.pipe.k, = positive(c, 'k_new')
    how = c.choose(5)
    if how in (0, 2):
        m, = positive(c, 'm_new')
    if how in (1, 2):
        f = fluid(w, c, '_new')
    if how == 0:
        r = b.update_thermal_resistance(m_flow_borehole=m)
    elif how == 1:
        r = b.update_thermal_resistance(fluid=f)
    elif how == 2:
        r = b.update_thermal_resistance(m, f)
    elif how == 3:
        r = b.update_thermal_resistance()
    else:
        m, = positive(c, 'm_new')
        f = fluid(w, c, '_new')
        b.m_flow_borehole, b.fluid = m, f
        r = b.update_thermal_resistance()
    new = make(w, p, kind, config, m, f)
    compare(w, c, b, new, kind)
    definitions(w, c, b, p, kind, m, f, config)
    want = new.compute_effective_borehole_resistance()
    c.prove('the effective resistance returned is that of one built anew', Rz(r) == Rz(want))
    c.prove('the effective resistance is that of one built anew', Rz(b.compute_effective_borehole_resistance()) == Rz(want))


def t_config(w, c):
    p = parts(w, c, 'double')
    c.prove('another configuration is refused', z3.BoolVal(raises(c, lambda: make(w, p, 'double', ['both', SymStr([c.int('config')])][c.choose(2)]), ValueError)))


def t_place(w, c):
    n = c.int('n')
    c.assume(n.z >= 1)
    s, ro = positive(c, 's', 'r_out')
    pos = to_list(w.load(PM).Pipe.place_pipes(s, ro, n))
    c.prove('two legs for every U-tube', zval(pos.length()) == 2 * n.z)
    q, leg = index(c, n), c.choose(2)
    j = 2 * q + leg
    x, y = pair(pos[j])
    pi = models.PI
    a = pi + (2 * q + leg) * (pi / n)
    d = s / 2 + ro
    c.prove('legs evenly on one circle (x)', Rz(x) == Rz(d * core.fn('cos', a)))
    c.prove('legs evenly on one circle (y)', Rz(y) == Rz(d * core.fn('sin', a)))


def targets():
    B, M = 'ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py:', 'ghedt/peak_load_analysis_tool/media.py:'
    base = [B + 'BasePipe.__init__', B + 'BasePipe.compute_resistances', B + 'BasePipe.compute_mass_flow_rate_pipe', B + 'BasePipe.compute_effective_borehole_resistance']
    return [Target('SingleUTube', lambda w, c: t_update(w, c, 'single'), base + [B + 'SingleUTube.__init__', B + 'SingleUTube.update_thermal_resistance']),
            Target('MultipleUTube', lambda w, c: t_update(w, c, 'double'), base + [B + 'MultipleUTube.__init__', B + 'MultipleUTube.update_thermal_resistance']),
            Target('CoaxialPipe', lambda w, c: t_update(w, c, 'coaxial'),
                   [B + 'CoaxialBase.__init__', B + 'CoaxialBase.compute_resistances', B + 'CoaxialPipe.__init__', B + 'CoaxialPipe.update_thermal_resistance', B + 'BasePipe.compute_effective_borehole_resistance']),
            Target('configurations', t_config, [B + 'BasePipe.compute_mass_flow_rate_pipe']),
            Target('place_pipes', t_place, [M + 'Pipe.place_pipes'])]
