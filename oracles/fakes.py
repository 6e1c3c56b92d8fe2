"""Stand-ins for the expensive parts (long-term responses, whole exchangers)."""
import contextlib, inspect
import numpy as np
import ghedt as dt
import ghedt.peak_load_analysis_tool as plat
import pygfunction as gt

_REAL_GHE = dt.ground_heat_exchangers.GHE
_REAL_CALC = dt.gfunction.calculate_g_function


def materials(rb=0.075, D=2.0, H=100., ks=2.0, ugt=18.3, temp=20.):
    borehole = gt.boreholes.Borehole(H, D, rb, x=0., y=0.)
    fluid = gt.media.Fluid('Water', 0., T=temp)
    pos = plat.media.Pipe.place_pipes(0.0323, 0.0167, 1)
    pipe = plat.media.Pipe(pos, 0.0135, 0.0167, 0.0323, 1e-6, 0.4, 1542. * 1000.)
    grout = plat.media.Grout(1.0, 3901. * 1000.)
    soil = plat.media.Soil(ks, 2343.493 * 1000., ugt)
    return dict(borehole=borehole, fluid=fluid, pipe=pipe, grout=grout, soil=soil,
                bhe_object=plat.borehole_heat_exchangers.SingleUTube)


@contextlib.contextmanager
def fast_g(rec=None, shape=None):
    """Long-term responses from a formula instead of pygfunction."""
    sig = inspect.signature(_REAL_CALC)

    def calc(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        A = b.arguments
        if rec is not None:
            rec.append(dict(A, H=A['borehole'].H, r_b=A['borehole'].r_b, D=A['borehole'].D))
        t = np.asarray(A['time_values'], dtype=float)
        n = len(A['coordinates'])
        H = A['borehole'].H
        if shape is not None:
            g = shape(A, t)
        else:
            ts = H ** 2 / 9. / (A['soil'].k / A['soil'].rhoCp)
            x = np.log(t / ts)
            g = 6.2 + np.log1p(np.exp((x + 8.5) / 2.)) * (1. + .2 * np.log(n)) * (1 + 2. / H)
        o = type('G', (), {})()
        o.gFunc = g
        return o
    dt.gfunction.calculate_g_function = calc
    try:
        yield
    finally:
        dt.gfunction.calculate_g_function = _REAL_CALC


class Sized:
    """What the fake exchangers need to know, and what they saw."""

    def __init__(self, excess, height=None):
        self.excess, self.height = excess, height
        self.made, self.sized, self.computed, self.sims = [], [], [], []


@contextlib.contextmanager
def fake_ghe(S):
    sig = inspect.signature(_REAL_GHE.__init__)

    class StubGHE(_REAL_GHE):
        def __init__(self, *a, **k):
            b = sig.bind(self, *a, **k)
            A = b.arguments
            self.args = A
            self.V_flow_system = A['V_flow_system']
            self.B_spacing = A['B_spacing']
            self.GFunction = A['GFunction']
            self.nbh = float(len(self.GFunction.bore_locations))
            self.V_flow_borehole = self.V_flow_system / self.nbh
            self.sim_params = A['sim_params']
            self.hourly_extraction_ground_loads = A['hourly_extraction_ground_loads']
            self.bhe_object = A['bhe_object']
            o = type('StubBHE', (), {})()
            o.b = A['borehole']
            o.borehole = o.b
            o.fluid, o.pipe, o.grout, o.soil = A['fluid'], A['pipe'], A['grout'], A['soil']
            o.m_flow_borehole = self.V_flow_borehole / 1000. * o.fluid.rho
            self.bhe = o
            self.bhe_eq = o
            self.H0 = o.b.H
            S.made.append(self)
            self.gcount = 0
            self.nsize = 0
            self.HPEFT = []
            self.dTb = []

        def simulate(self, method='hybrid'):
            S.sims.append((self.GFunction.bore_locations, self.bhe.b.H, method))
            e = S.excess(self.GFunction.bore_locations, self.bhe.b.H)
            # the excess is exactly on one of the two limits (both limits are 0)
            if len(S.sims) % 2:
                r = (e, abs(e) + 1.)
            else:
                r = (-abs(e) - 1., -e)
            return r

        def compute_g_functions(self):
            self.gcount += 1
            S.computed.append((self.GFunction.bore_locations, self.bhe.b.H))

        def size(self, method='hybrid'):
            self.nsize += 1
            S.sized.append(self.GFunction.bore_locations)
            self.gsize = self.gcount
            self.bhe.b.H = S.height(self.GFunction.bore_locations)

        def __repr__(self):
            return 'StubGHE'
    dt.ground_heat_exchangers.GHE = StubGHE
    try:
        yield StubGHE
    finally:
        dt.ground_heat_exchangers.GHE = _REAL_GHE
