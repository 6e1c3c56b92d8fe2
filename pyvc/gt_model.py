"""Contracts assumed on pygfunction (a dependency, not verified here).

Every function is an uninterpreted function of everything it may depend on;
the facts assumed about it are the ones written here, nothing else."""
import z3
from .core import Num, Unsupported, ctx, zval, real, uf, R, I, num_like, sfloat, const_of
from . import core


def pos(name, args):
    """A positive quantity determined by its arguments."""
    a = [real(zval(x)) for x in args]
    t = uf(name, *([R] * (len(a) + 1)))(*a)
    ctx().axiom(t > 0)
    return Num(t)


def numbers(v, out=None):
    from .models import to_list, Obj
    out = [] if out is None else out
    if num_like(v):
        out.append(v)
    elif isinstance(v, tuple):
        for x in v:
            numbers(x, out)
    elif v is None or isinstance(v, (str, Obj)):
        pass
    else:
        try:
            l = to_list(v)
            if l.concrete_len():
                for x in l.vals():
                    numbers(x, out)
        except Unsupported:
            pass
    return out


def build():
    from .models import Obj, module, SList, Opaque, SArr, to_list, np_array
    from .seq import Comp

    class Borehole(Obj):
        def __init__(self, H, D, r_b, x, y, tilt=0., orientation=0.):
            self.H, self.D, self.r_b = sfloat(H), sfloat(D), sfloat(r_b)
            self.x, self.y = sfloat(x), sfloat(y)
            self.tilt = sfloat(tilt)
            self.orientation = sfloat(orientation)

        def __repr__(self):
            return 'Borehole'

        def position(self):
            return (self.x, self.y)

    class Fluid(Obj):
        def __init__(self, fluid_str, percent, T=20., P=101325.):
            self.fluid_str, self.x_pct, self.T_C, self.P = fluid_str, percent, T, P
            self.name = fluid_str
            a = numbers((percent, T, P))
            for n in ('cp', 'mu', 'rho', 'k'):
                setattr(self, n, pos('fluid_%s_%s' % (n, fluid_str if isinstance(fluid_str, str) else '?'), a))
            self.nu = self.mu / self.rho
            self.Pr = self.cp * self.mu / self.k
            self.rhoCp = self.rho * self.cp

        def __repr__(self):
            return 'Fluid'

    class Pipe_(Obj):
        """The thermal model holds the delta-circuit resistances of its last
        update (_Rd) and coefficients stored for the first flow and height it
        was asked for since (_stored), as in pygfunction 2.2."""
        kind = 'pipe'

        def _hold(self):
            self._Rd = (self.pos, self.r_in, self.r_out, self.b.r_b, self.k_s, self.k_g) + self.R_of()
            self._stored = None

        def effective_borehole_thermal_resistance(self, m_flow_borehole, cp_f):
            mcp, H = m_flow_borehole * cp_f, self.b.H
            h = ctx().cfg.get('rb_hook')
            if h is not None:
                return h(self, m_flow_borehole, cp_f)
            if self._stored is None or not (self._stored[0] == mcp):
                self._stored = (mcp, H)
            a = numbers((mcp, H, self._stored[1]) + self._Rd)
            return pos('Rb_%s_%s_%d' % (self.kind, getattr(self, 'gt_config', None), len(a)), a)

    class SingleUTube(Pipe_):
        kind = 'single'

        def __init__(self, pos, r_in, r_out, borehole, k_s, k_g, R_fp, J=2, reversible_flow=True):
            self.pos, self.r_in, self.r_out, self.b, self.k_s, self.k_g, self.R_fp, self.J = pos, r_in, r_out, borehole, k_s, k_g, R_fp, J
            self.nPipes = 1
            self._hold()

        def R_of(self):
            return (self.R_fp,)

        def update_thermal_resistances(self, R_fp):
            self.R_fp = R_fp
            self._hold()

    class MultipleUTube(Pipe_):
        kind = 'multiple'

        def __init__(self, pos, r_in, r_out, borehole, k_s, k_g, R_fp, nPipes, config='parallel', J=2, reversible_flow=True):
            self.pos, self.r_in, self.r_out, self.b, self.k_s, self.k_g, self.R_fp, self.J = pos, r_in, r_out, borehole, k_s, k_g, R_fp, J
            self.nPipes = nPipes
            self.config = config.lower()
            self._hold()

        def R_of(self):
            return (self.R_fp,)

        def update_thermal_resistances(self, R_fp):
            self.R_fp = R_fp
            self._hold()

        @property
        def gt_config(self):
            return self.config

    class Coaxial(SingleUTube):
        kind = 'coaxial'

        def __init__(self, pos, r_in, r_out, borehole, k_s, k_g, R_ff, R_fp, J=2, reversible_flow=True):
            self.pos, self.r_in, self.r_out, self.b, self.k_s, self.k_g, self.R_ff, self.R_fp, self.J = pos, r_in, r_out, borehole, k_s, k_g, R_ff, R_fp, J
            self.nPipes = 1
            self._hold()

        def R_of(self):
            return (self.R_ff, self.R_fp)

        def update_thermal_resistances(self, R_ff, R_fp):
            self.R_ff, self.R_fp = R_ff, R_fp
            self._hold()

    def h_pipe(m_flow_pipe, r_in, mu_f, rho_f, k_f, cp_f, epsilon):
        return pos('h_conv', (m_flow_pipe, r_in, mu_f, rho_f, k_f, cp_f, epsilon))

    def h_annulus(m_flow_pipe, r_a_in, r_a_out, mu_f, rho_f, k_f, cp_f, epsilon):
        a = (m_flow_pipe, r_a_in, r_a_out, mu_f, rho_f, k_f, cp_f, epsilon)
        return (pos('h_annulus_in', a), pos('h_annulus_out', a))

    def r_cond(r_in, r_out, k):
        # ln(r_out/r_in) / (2 pi k), positive for 0 < r_in < r_out
        from .models import PI
        return core.fn('log', r_out / r_in) / (2 * PI * k)

    class Network(Obj):
        def __init__(self, boreholes, pipes, bore_connectivity=None, m_flow_network=None, cp_f=None, nSegments=12, segment_ratios=None):
            self.b, self.p, self.m_flow_network, self.cp_f = boreholes, pipes, m_flow_network, cp_f

    class gFunction(Obj):
        """Records what it was asked for; the response is an uninterpreted list."""

        def __init__(self, boreholes_or_network, alpha, time=None, method='equivalent', boundary_condition=None, options=None, **k):
            self.field, self.alpha, self.time, self.method, self.boundary_condition, self.options = \
                boreholes_or_network, alpha, time, method, boundary_condition, options
            c = ctx()
            h = c.cfg.get('gfunction')
            if h is not None:
                self.gFunc = h(self)
            else:
                n = to_list(time).length()
                f = c.freshfun('gfunc', I, R)
                self.gFunc = SArr(SList.of(Comp(n, lambda t: Num(f(zval(t))))))

    def segment_ratios(n, end_length_ratio=0.02):
        f = uf('segment_ratio', R, R, I, R)
        nz, e = real(zval(n)), real(zval(end_length_ratio))
        return SArr(SList.of(Comp(n, lambda t: Num(f(nz, e, zval(t))))))

    boreholes = module('pygfunction.boreholes', Borehole=Borehole)
    media = module('pygfunction.media', Fluid=Fluid)
    pipes = module('pygfunction.pipes', SingleUTube=SingleUTube, MultipleUTube=MultipleUTube, Coaxial=Coaxial,
                   convective_heat_transfer_coefficient_circular_pipe=h_pipe,
                   convective_heat_transfer_coefficient_concentric_annulus=h_annulus,
                   conduction_thermal_resistance_circular_pipe=r_cond)
    networks = module('pygfunction.networks', Network=Network)
    gfunction = module('pygfunction.gfunction', gFunction=gFunction)
    utilities = module('pygfunction.utilities', segment_ratios=segment_ratios)
    m = module('pygfunction', boreholes=boreholes, media=media, pipes=pipes, networks=networks, gfunction=gfunction, utilities=utilities)
    return m
