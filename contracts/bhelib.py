"""Borehole heat exchangers of arbitrary parts."""
from .lib import *

BH = 'ghedt.peak_load_analysis_tool.borehole_heat_exchangers'
PM = 'ghedt.peak_load_analysis_tool.media'
EQ = 'ghedt.peak_load_analysis_tool.equivalance'
KINDS = ('single', 'double', 'coaxial')


class Parts:
    pass


def fluid(w, c, name=''):
    f = Stub(**{k: c.real(k + '_f' + name) for k in ('cp', 'mu', 'rho', 'k')})
    for k in ('cp', 'mu', 'rho', 'k'):
        c.assume(getattr(f, k).z > 0)
    setattr(f, 'nu', f.mu / f.rho)
    setattr(f, 'Pr', f.cp * f.mu / f.k)
    return f


def positive(c, *names):
    out = [c.real(n) for n in names]
    for x in out:
        c.assume(x.z > 0)
    return out


def parts(w, c, kind, n=2):
    p = Parts()
    gt = w.fakes['pygfunction']
    m = w.load(PM)
    p.H, p.D, p.r_b, p.m = positive(c, 'H', 'D', 'r_b', 'm_flow')
    p.borehole = gt.boreholes.Borehole(p.H, p.D, p.r_b, 0., 0.)
    p.fluid = fluid(w, c)
    k_g, rc_g, k_s, rc_s, eps, rc_p = positive(c, 'k_g', 'rhoCp_g', 'k_s', 'rhoCp_s', 'eps', 'rhoCp_p')
    p.grout, p.soil = m.Grout(k_g, rc_g), m.Soil(k_s, rc_s, c.real('ugt'))
    if kind == 'coaxial':
        a, b, ci, co, k1, k2 = positive(c, 'r_in_in', 'r_in_out', 'r_out_in', 'r_out_out', 'k_p_in', 'k_p_out')
        c.assume(z3.And(a.z < b.z, b.z < ci.z, ci.z < co.z, co.z < p.r_b.z))
        p.radii = (a, b, ci, co)
        p.pipe = m.Pipe((0., 0.), SList([a, b]), SList([ci, co]), 0., eps, SList([k1, k2]), rc_p)
    else:
        ri, ro, s, k = positive(c, 'r_in', 'r_out', 's', 'k_p')
        c.assume(z3.And(ri.z < ro.z, ro.z < p.r_b.z))
        p.radii = (ri, ro)
        legs = 2 if kind == 'single' else 2 * n
        p.pipe = m.Pipe(SList([(c.real('x%d' % i), c.real('y%d' % i)) for i in range(legs)]), ri, ro, s, eps, k, rc_p)
    return p


def make(w, p, kind, config='parallel', m=None, f=None, default=False):
    b = w.load(BH)
    a = (p.m if m is None else m, p.fluid if f is None else f, p.borehole, p.pipe, p.grout, p.soil)
    if kind == 'single':
        return b.SingleUTube(*a)
    if kind == 'coaxial':
        return b.CoaxialPipe(*a)
    return b.MultipleUTube(*a) if default else b.MultipleUTube(*a, config=config)
