"""C16 equivalent single U-tube, C17 updates, C18 short-time borehole model."""
import math, random, copy
from common import *
import numpy as np
import ghedt as dt
import ghedt.peak_load_analysis_tool as plat
import pygfunction as gt

B = plat.borehole_heat_exchangers
EQ = plat.equivalance
R = plat.radial_numerical_borehole


def parts(c):
    r = random.Random(c['seed'])
    H, D, rb = r.uniform(20, 250), r.uniform(.5, 8), r.uniform(.055, .11)
    bh = gt.boreholes.Borehole(H, D, rb, x=0., y=0.)
    fl = fluid(r.randrange(5))
    grout = plat.media.Grout(r.uniform(.5, 2.5), 1000. * r.uniform(1500, 4000))
    soil = plat.media.Soil(r.uniform(.7, 4), 1000. * r.uniform(1500, 3500), r.uniform(3, 25))
    m = r.uniform(.08, .6)
    return r, bh, fl, grout, soil, m


def fluid(i):
    return gt.media.Fluid(*[('Water', 0., 20.), ('MEG', 0., 20.), ('MPG', 20., 5.), ('MEG', 30., 0.), ('Water', 0., 35.)][i])


def build(c):
    r, bh, fl, grout, soil, m = parts(c)
    k = c['kind']
    if k == 'coaxial':
        a = r.uniform(.012, .025)
        b = a + r.uniform(.0015, .004)
        oo = min(bh.r_b * .85, b + r.uniform(.015, .04))
        oi = oo - r.uniform(.002, .006)
        if oi <= b + .004:
            raise Skip()
        pipe = plat.media.Pipe((0., 0.), [a, b], [oi, oo], 0., 1e-6, [r.uniform(.2, .6), r.uniform(.2, .6)], 1542. * 1000.)
        return B.CoaxialPipe(m, fl, bh, pipe, grout, soil)
    n = {'single': 1, 'double': 2}[k]
    ro = r.uniform(.009, .019)
    ri = ro - r.uniform(.0012, .0035)
    free = 2 * bh.r_b - 4 * ro
    if free <= .003:
        raise Skip()
    s = r.uniform(.1, .8) * free
    if n == 2 and (s / 2. + ro) * math.sqrt(2) <= 2 * ro * 1.02:
        raise Skip()
    pipe = plat.media.Pipe(plat.media.Pipe.place_pipes(s, ro, n), ri, ro, s, 1e-6, r.uniform(.2, .8), 1000. * r.uniform(1400, 2000))
    if n == 1:
        return B.SingleUTube(m, fl, bh, pipe, grout, soil)
    return B.MultipleUTube(m, fl, bh, pipe, grout, soil, config=c.get('config', 'parallel'))


def snap(o, depth=0):
    """The numbers held by an object."""
    if isinstance(o, (int, float, str, bool, type(None))):
        return o
    if isinstance(o, (np.ndarray, np.generic)):
        return np.asarray(o).tolist()
    if isinstance(o, (list, tuple)):
        return [snap(x, depth + 1) for x in o]
    if hasattr(o, '__dict__') and depth < 3:
        return {k: snap(v, depth + 1) for k, v in sorted(vars(o).items()) if not callable(v) and not k.startswith('_')}
    return str(type(o))


def cases(rng, kinds):
    k = 0
    while True:
        k += 1
        yield {'kind': kinds[k % len(kinds)], 'seed': rng.randint(0, 10**9), 'config': rng.choice(['parallel', 'series'])}


# ------------------------------------------------------------------ C16
@oracle('C16')
class Equivalent:
    mincases = 12

    @staticmethod
    def gen(rng):
        yield {'kind': 'other', 'seed': 1}
        return_ = cases(rng, ['single', 'double', 'coaxial', 'double', 'coaxial'])
        for c in return_:
            yield c

    @staticmethod
    def check(c):
        if c['kind'] == 'other':
            for x in (None, 3, 'x', object(), plat.media.Soil(2., 2e6, 10.)):
                v, e = call(EQ.compute_equivalent, x)
                if not isinstance(e, ValueError):
                    return '%r: %r, not ValueError' % (x, e)
            return
        bhe = build(c)
        if c['kind'] == 'single':
            if EQ.compute_equivalent(bhe) is not bhe:
                return 'the equivalent of a single U-tube is not that U-tube'
            return
        before = snap(bhe)
        held = (bhe.b, bhe.fluid, bhe.grout, bhe.soil, bhe.pipe)
        Rb0 = build(c).compute_effective_borehole_resistance()
        m0, H0, rb0 = bhe.m_flow_borehole, bhe.b.H, bhe.b.r_b
        eq = EQ.compute_equivalent(bhe)
        after = snap(bhe)
        if before != after:
            k = [k for k in before if before[k] != after.get(k)]
            return 'the original exchanger was changed: %s' % k[:4]
        if type(eq) is not B.SingleUTube:
            return 'the equivalent is a %s' % type(eq).__name__
        for n in ('b', 'borehole', 'pipe', 'fluid', 'grout', 'soil'):
            if any(getattr(eq, n, None) is x for x in held):
                return 'the equivalent shares its %s with the original' % n
        if c['kind'] == 'double':
            n = 4
            Vf = n * math.pi * bhe.r_in ** 2
            Vp = n * math.pi * (bhe.r_out ** 2 - bhe.r_in ** 2)
            _, _, Rc, Rp = EQ.u_tube_volumes(bhe)
            want = bhe.R_p / n
        else:
            (a, b), (ci, co) = bhe.r_inner, bhe.r_outer
            Vf = math.pi * (a * a + ci * ci - b * b)
            Vp = math.pi * (b * b - a * a + co * co - ci * ci)
            _, _, Rc, Rp = EQ.concentric_tube_volumes(bhe)
            want = bhe.R_p_out
            if not close(Rc, 1. / (bhe.h_fluid_a_in * 2 * math.pi * ci), 1e-9, 0):
                return 'the convection resistance of the annulus is %r' % Rc
        if not close(Rp, want, 1e-9, 0):
            return 'the pipe resistance of the original is %r, taken as %r' % (want, Rp)
        ri, ro = eq.pipe.r_in, eq.pipe.r_out
        if not (close(ri, eq.r_in, 1e-12, 0) and close(ro, eq.r_out, 1e-12, 0)):
            return 'the radii of the pipe and of the exchanger differ'
        if not close(2 * math.pi * ri * ri, Vf, 1e-9, 0):
            return 'fluid volume %r becomes %r' % (Vf, 2 * math.pi * ri * ri)
        if not close(2 * math.pi * (ro * ro - ri * ri), Vp, 1e-9, 0):
            return 'pipe volume %r becomes %r' % (Vp, 2 * math.pi * (ro * ro - ri * ri))
        if not (close(eq.m_flow_borehole, m0, 1e-12, 0) and close(eq.m_flow_pipe, m0, 1e-12, 0) and close(eq.b.H, H0, 1e-12, 0)):
            return 'mass flow %r over %r m becomes %r (pipe %r) over %r m' % (m0, H0, eq.m_flow_borehole, eq.m_flow_pipe, eq.b.H)
        if eq.b.r_b < rb0 * (1 - 1e-12):
            return 'the borehole shrinks from %r to %r' % (rb0, eq.b.r_b)
        (x1, y1), (x2, y2) = eq.pipe.pos
        if math.hypot(x1 - x2, y1 - y2) < 2 * ro * (1 - 1e-9):
            return 'the legs overlap'
        if max(math.hypot(x1, y1), math.hypot(x2, y2)) + ro > eq.b.r_b * (1 + 1e-9):
            return 'the legs reach out of the borehole'
        # conductivities
        f = lambda k: eq.R_f + math.log(ro / ri) / (2 * math.pi * k)
        k0 = math.log(ro / ri) / (2 * math.pi * 2 * Rp)
        k = eq.pipe.k
        if (f(k0 / 100.) - Rc - Rp) * (f(k0 * 10.) - Rc - Rp) < 0:
            d = 5e-6 * (1 + k)
            if abs(f(k) - Rc - Rp) > abs(f(max(k - d, k / 2.)) - f(k + d)) + 1e-9:
                return 'the fluid-to-pipe resistance is %r, the original has %r' % (f(k), Rc + Rp)
        if not close(eq.R_fp, f(k), 1e-9, 0) or not close(eq.R_f + eq.R_p, f(k), 1e-9, 0):
            return 'the resistance in use is %r, its conductivity gives %r' % (eq.R_fp, f(k))
        if not close(eq.k_g, eq.grout.k, 1e-12, 0):
            return 'grout conductivities %r and %r' % (eq.k_g, eq.grout.k)

        def rb(kg):
            g = plat.media.Grout(kg, eq.grout.rhoCp)
            return B.SingleUTube(m0, bhe.fluid, copy.deepcopy(eq.b), eq.pipe, g, bhe.soil).compute_effective_borehole_resistance()
        if (rb(1e-2) - Rb0) * (rb(7.) - Rb0) < 0:
            kg = eq.grout.k
            d = 5e-6 * (1 + kg)
            if abs(eq.compute_effective_borehole_resistance() - Rb0) > abs(rb(max(kg - d, kg / 2.)) - rb(kg + d)) + 1e-9:
                return 'the effective resistance is %r, the original has %r' % (eq.compute_effective_borehole_resistance(), Rb0)
        elif not close(eq.compute_effective_borehole_resistance(), rb(eq.grout.k), 1e-8, 0):
            return 'the resistance in use is not that of its grout'


# ------------------------------------------------------------------ C17
KEYS = {'single': ['h_f', 'R_f', 'R_p', 'm_flow_pipe', 'R_fp'], 'double': ['h_f', 'R_f', 'R_p', 'm_flow_pipe', 'R_fp'],
        'coaxial': ['m_flow_pipe', 'R_p_in', 'R_p_out', 'R_grout', 'h_fluid_a_in', 'h_fluid_a_out', 'R_f_a_in', 'R_f_a_out', 'h_fluid_in',
                    'R_f_in', 'R_ff', 'R_fp']}


def formulas(b, kind, m, fl):
    p = gt.pipes
    if kind == 'coaxial':
        (a, bo), (ci, co) = b.r_inner, b.r_outer
        h1, h2 = p.convective_heat_transfer_coefficient_concentric_annulus(m, bo, ci, fl.mu, fl.rho, fl.k, fl.cp, b.eps)
        h0 = p.convective_heat_transfer_coefficient_circular_pipe(m, a, fl.mu, fl.rho, fl.k, fl.cp, b.eps)
        w = {'R_p_in': math.log(bo / a) / (2 * math.pi * b.pipe.k[0]), 'R_p_out': math.log(co / ci) / (2 * math.pi * b.pipe.k[1]),
             'R_f_a_in': 1 / (h1 * 2 * math.pi * bo), 'R_f_a_out': 1 / (h2 * 2 * math.pi * ci), 'R_f_in': 1 / (h0 * 2 * math.pi * a),
             'h_fluid_a_in': h1, 'h_fluid_a_out': h2, 'h_fluid_in': h0}
        w['R_ff'] = w['R_f_in'] + w['R_p_in'] + w['R_f_a_in']
        w['R_fp'] = w['R_p_out'] + w['R_f_a_out']
    else:
        mp = m / 2. if kind == 'double' and b.config == 'parallel' else m
        h = p.convective_heat_transfer_coefficient_circular_pipe(mp, b.pipe.r_in, fl.mu, fl.rho, fl.k, fl.cp, b.pipe.eps)
        w = {'h_f': h, 'R_f': 1 / (h * 2 * math.pi * b.pipe.r_in), 'R_p': math.log(b.pipe.r_out / b.pipe.r_in) / (2 * math.pi * b.pipe.k),
             'm_flow_pipe': mp}
        w['R_fp'] = w['R_f'] + w['R_p']
    return w


@oracle('C17')
class Update:
    mincases = 40

    @staticmethod
    def gen(rng):
        for c in cases(rng, ['single', 'double', 'coaxial']):
            c['steps'] = [[rng.choice([None, rng.uniform(.05, .8), rng.uniform(.05, .8)]), rng.choice([None, None, rng.randrange(5)])]
                          for _ in range(rng.choice([1, 1, 2, 3]))]
            if rng.random() < .3:
                c['hist'] = rng.uniform(.05, .8)
            yield c

    @staticmethod
    def check(c):
        b = build(c)
        k = c['kind']
        m, fl = b.m_flow_borehole, b.fluid
        cls = type(b)
        for st in [(None, None)] + c['steps']:
            if st != (None, None) or c.get('hist') is None:
                nf = None if st[1] is None else fluid(st[1])
                m, fl = (m if st[0] is None else st[0]), (fl if nf is None else nf)
                got = b.update_thermal_resistance(m_flow_borehole=st[0], fluid=nf)
            else:
                got = b.compute_effective_borehole_resistance()
            kw = {'config': b.config} if k == 'double' else {}
            new = cls(m, fl, b.b, b.pipe, b.grout, b.soil, **kw)
            want = new.compute_effective_borehole_resistance()
            if b.m_flow_borehole != m or b.fluid is not fl:
                return 'the flow or the fluid was not updated'
            w = formulas(b, k, m, fl)
            for key in KEYS[k]:
                if not close(getattr(b, key), getattr(new, key), 1e-9, 0):
                    return '%s: after the update %s = %r, built anew %r' % (k, key, getattr(b, key), getattr(new, key))
                if key in w and not close(getattr(b, key), w[key], 1e-9, 0):
                    return '%s: %s = %r, its definition gives %r' % (k, key, getattr(b, key), w[key])
            if not close(got, want, 1e-9, 0) or not close(b.compute_effective_borehole_resistance(), want, 1e-9, 0):
                return '%s: effective resistance %r after the update, %r built anew' % (k, got, want)
            if not np.allclose(b._Rd, new._Rd, rtol=1e-9):
                return '%s: the thermal model holds other resistances' % k


@oracle('C17')
class Place:
    weight = .1
    mincases = 60

    @staticmethod
    def gen(rng):
        for n in range(1, 9):
            yield {'n': n, 's': .03, 'ro': .0133}
        while True:
            yield {'n': rng.randint(1, 8), 's': rng.uniform(0, .2), 'ro': rng.uniform(.005, .05)}

    @staticmethod
    def check(c):
        n, s, ro = c['n'], c['s'], c['ro']
        pos = plat.media.Pipe.place_pipes(s, ro, n)
        if len(pos) != 2 * n:
            return '%d legs for %d U-tubes' % (len(pos), n)
        rad = s / 2. + ro
        for x, y in pos:
            if not close(math.hypot(x, y), rad, 1e-9, 1e-12):
                return 'a leg at %r from the centre, not %r' % (math.hypot(x, y), rad)
        ang = sorted(math.atan2(y, x) % (2 * math.pi) for x, y in pos)
        gaps = [(ang[(i + 1) % len(ang)] - ang[i]) % (2 * math.pi) for i in range(len(ang))]
        for g in gaps:
            if not close(g, math.pi / n, 1e-6, 1e-6):
                return 'legs %r apart on the circle, not %r' % (g, math.pi / n)
        far = max(math.hypot(p[0] - q[0], p[1] - q[1]) for p in pos for q in pos)
        if not close(far - 2 * ro, s, 1e-9, 1e-12):
            return 'opposite pipe walls %r apart, not %r' % (far - 2 * ro, s)


# ------------------------------------------------------------------ C18
def march(cell, q, dt_, n):
    """Implicit heat conduction between the cells; the temperatures of the first cell and the worst balance."""
    ri, rc, ro, k, cp, vol = cell[1], cell[2], cell[3], cell[5], cell[6], cell[8]
    G = 1. / (np.log(ro[:-1] / rc[:-1]) / (2 * np.pi * k[:-1]) + np.log(rc[1:] / ri[1:]) / (2 * np.pi * k[1:]))
    C = cp * vol / dt_
    N = len(C)
    T = np.zeros(N)
    import scipy.linalg
    ab = np.zeros((3, N))
    ab[1, :-1] = C[:-1]
    ab[1, 0] += G[0]
    ab[1, 1:-1] += G[:-1] + G[1:]
    ab[0, 1:] = -G
    ab[2, :-1] = -G
    ab[1, -1] = 1.
    ab[2, -2] = 0.
    T0 = []
    worst, low = 0., 0.
    for _ in range(n):
        old = T
        rhs = C * T
        rhs[0] += q
        rhs[-1] = T[-1]
        T = scipy.linalg.solve_banded((1, 1), ab, rhs)
        T0.append(T[0])
        low = min(low, T.min())
    return np.array(T0), low


@oracle('C18')
class ShortTime:
    mincases = 6

    @staticmethod
    def gen(rng):
        for c in cases(rng, ['single', 'double', 'coaxial', 'single']):
            c['again'] = rng.random() < .3
            if rng.random() < .4:
                c['H'] = rng.choice([5., 20., 60., 300., 400.])
            yield c

    @staticmethod
    def check(c):
        bhe = build(c)
        if 'H' in c:
            bhe.b.H = c['H']
        eq = EQ.compute_equivalent(bhe)
        rad = R.RadialNumericalBH(eq)
        if c['again']:
            o = build({'kind': 'single', 'seed': c['seed'] + 1 if c['seed'] % 2 else 5})
            rad = R.RadialNumericalBH(o)
            rad.calc_sts_g_functions(o, final_time=50000.)
        cells = []
        solves = []
        fill = R.RadialNumericalBH.fill_radial_cell
        solve = getattr(R, 'dgtsv', None)

        def spy(self, cell, *a, **k):
            r = fill(self, cell, *a, **k)
            cells.append(np.array(cell))
            return r

        def spy2(dl, d, du, b, **k):
            res = solve(dl, d, du, b, **k)
            solves.append(np.array(b if k.get('overwrite_b') else res[3]))
            return res
        R.RadialNumericalBH.fill_radial_cell = spy
        if solve is not None:
            R.dgtsv = spy2
        try:
            out = rad.calc_sts_g_functions(eq)
        finally:
            R.RadialNumericalBH.fill_radial_cell = fill
            if solve is not None:
                R.dgtsv = solve
        x, y = np.array(out[0]), np.array(out[1])
        if x.shape != y.shape or x.ndim != 1 or len(x) < 2:
            return 'shapes %r and %r' % (x.shape, y.shape)
        if not (np.array_equal(x, rad.lntts) and np.array_equal(y, rad.g)):
            return 'the response returned is not the one kept'
        alpha = eq.k_s / eq.soil.rhoCp
        ts = eq.b.H ** 2 / (9 * alpha)
        if not close(ts, rad.t_s, 1e-12, 0):
            return 'time scale %r, not %r' % (rad.t_s, ts)
        t = np.exp(x) * ts
        if not (np.diff(x) > 0).all():
            return 'the times do not increase'
        if not (0 < t[0] < 1.):
            return 'the first time is %r s' % t[0]
        if not np.allclose(np.diff(t), 120., rtol=1e-6, atol=1e-5):
            return 'steps of %r s' % np.diff(t)[np.argmax(abs(np.diff(t) - 120))]
        if t[-1] < 48 * 3600. * (1 - 1e-9):
            return 'the response ends at %r h' % (t[-1] / 3600.)
        if not np.allclose(rad.g_sts(x), y, rtol=1e-9, atol=1e-12):
            return 'the interpolated response differs from the response'
        Rb = eq.compute_effective_borehole_resistance()
        if not np.isfinite(y).all():
            return 'not finite'
        if len(cells) != 1:
            raise Limit('fill_radial_cell was called %d times' % len(cells))
        cell = cells[0]
        T, low = march(cell, 1., 120., len(y))
        if low < -1e-9:
            return 'a temperature falls below its initial value'
        want = 2 * np.pi * eq.soil.k * (T - Rb)
        if not np.allclose(y, want, rtol=1e-5, atol=5e-6):
            i = int(np.argmax(abs(y - want)))
            return 'the response at %r s is %r, the balance of the cells gives %r' % (t[i], y[i], want[i])
        if solves and len(solves) == len(y):
            A = np.array([s - 20. for s in solves])
            if A.min() < -1e-7:
                return 'a cell temperature falls below its initial value'
            ri, rc, ro, k, cp, vol = (cell[j] for j in (1, 2, 3, 5, 6, 8))
            G = 1. / (np.log(ro[-2] / rc[-2]) / (2 * np.pi * k[-2]) + np.log(rc[-1] / ri[-1]) / (2 * np.pi * k[-1]))
            st = (A[:, :-1] * (cp * vol)[:-1]).sum(axis=1)
            inj = 120. * np.arange(1, len(y) + 1) - np.cumsum(G * 120. * (A[:, -2] - A[:, -1]))
            if not np.allclose(st, inj, rtol=1e-4, atol=1.):
                i = int(np.argmax(abs(st - inj)))
                return 'after step %d the cells hold %r J/m, injected minus lost %r J/m' % (i + 1, st[i], inj[i])
        new = R.RadialNumericalBH(eq)
        new.calc_sts_g_functions(eq)
        if not (np.array_equal(new.lntts, rad.lntts) and np.allclose(new.g, rad.g, rtol=1e-12, atol=1e-14)):
            return 'a newly built model gives another response'
