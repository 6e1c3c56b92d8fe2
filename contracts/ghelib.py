"""A heat exchanger whose parts are known by their contracts only."""
from .lib import *

GHEM = 'ghedt.ground_heat_exchangers'
EQ = 'ghedt.peak_load_analysis_tool.equivalance'


class World_(object):
    pass


def heat_exchanger(w, c, **extra):
    """A GHE with stubbed parts. The ghost state records for which height and
    in which order resistances, equivalent tube and responses were computed."""
    s = World_()
    cls = w.load(GHEM).GHE
    H, B = c.real('H'), c.real('B')
    c.assume(z3.And(H.z > 0, B.z > 0))
    s.H, s.B = H, B
    s.resM = None
    s.grabbed = []
    s.resH = None          # height the resistances handed to the thermal model belong to
    s.radial = None        # (equivalent exchanger) the short-time response belongs to
    s.calls = []

    b = Stub(H=H, r_b=c.real('r_b'), D=c.real('D'))

    def update(*a, **k):
        s.resH = b.H
        s.resM = bhe.m_flow_borehole

    bhe = Stub(b=b, update_thermal_resistance=update, m_flow_borehole=c.real('m_flow'))

    def equivalent(x):
        c.prove('the equivalent tube is that of the present exchanger', z3.BoolVal(x is bhe))
        e = Stub(b=Stub(H=b.H))
        setattr(e, 'forH', b.H)
        setattr(e, 'forRes', s.resH)
        setattr(e, 'forM', s.resM)
        return e
    w.load(EQ).compute_equivalent = equivalent

    def calc_sts(e, *a, **k):
        s.radial = e

    radial = Stub(calc_sts_g_functions=calc_sts)

    def grab(BoH):
        g = Stub()
        s.grabbed.append(g)
        c.prove('the long-term response is taken at spacing over height', Rz(BoH) == s.B.z / Rz(b.H))
        setattr(g, 'radial', s.radial)
        setattr(g, 'forH', b.H)
        setattr(g, 'forG', s.ghe.GFunction)
        return g

    def detailed(Q, t, gg):
        s.calls.append((Q, t, gg, b.H))
        ok = any(gg is x for x in s.grabbed)
        e = getattr(gg, 'radial', None) if ok else None
        c.prove('the response used is the one grabbed', z3.BoolVal(ok))
        if ok:
            c.prove('the long-term response is the present one', z3.BoolVal(gg.forG is s.ghe.GFunction))
            c.prove('the long-term response is of the present height', Rz(gg.forH) == Rz(b.H))
            c.prove('the short-time response was recomputed', z3.BoolVal(e is not None))
            if e is not None:
                c.prove('the short-time response is of the present height', Rz(e.forH) == Rz(b.H))
                c.prove('the equivalent tube has the present resistances', z3.BoolVal(False) if e.forRes is None else z3.And(Rz(e.forRes) == Rz(b.H), Rz(e.forM) == Rz(bhe.m_flow_borehole)))
        c.prove('the resistances are of the present height', Rz(s.resH) == Rz(b.H) if s.resH is not None else z3.BoolVal(False))
        c.prove('the resistances are of the present flow', Rz(s.resM) == Rz(bhe.m_flow_borehole) if s.resM is not None else z3.BoolVal(False))
        m = Num(c.fresh('n_out', I))
        c.assume(m.z >= 1)
        s.out, s.outf = symlist(c, 'EFT', m)
        s.dT, _ = symlist(c, 'dTb', m)
        s.m = m
        return s.out, s.dT

    s.ghe = blank(cls, B_spacing=B, bhe=bhe, bhe_eq=Stub(), radial_numerical=radial, grab_g_function=grab, _simulate_detailed=detailed, HPEFT=SList(), dTb=SList(), GFunction=Stub(), **extra)
    return s


def happened(c, s):
    """What may have happened to the exchanger since an earlier simulation."""
    what = c.choose(4)
    if what == 0:
        return
    s.ghe.simulate(method='hybrid')
    if what == 1:
        s.ghe.bhe.b.H = s.H = c.real('H2')
        c.assume(s.H.z > 0)
    elif what == 2:
        s.ghe.GFunction = Stub()
    elif what == 3:
        s.ghe.bhe.m_flow_borehole = c.real('m_flow2')
