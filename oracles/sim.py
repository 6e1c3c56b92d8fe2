"""C09 superposition, C10 excess, C15 g-functions, C19 export, C22 hourly."""
import math, random, copy, json, os, tempfile, inspect
from common import *
import numpy as np
from scipy.interpolate import interp1d
import ghedt as dt
import ghedt.peak_load_analysis_tool as plat
import pygfunction as gt
from fakes import *

_cache = {}


def loads_year(rng, kind='mix'):
    r = random.Random(rng)
    out = []
    for h in range(8760):
        s = math.sin(2 * math.pi * (h / 8760. - .05))
        d = math.cos(2 * math.pi * (h % 24) / 24.)
        out.append(round(20000 * s + 8000 * d + r.uniform(-3000, 3000), 2))
    return out


def ghe(n=4, H=100., heights=None, kind='single', months=12, rb=.075, seed=1, cache=True, hybrid=None, shape=None):
    key = (n, H, tuple(heights or ()), kind, months, rb, seed)
    if cache and hybrid is None and shape is None and key in _cache:
        return copy.deepcopy(_cache[key])
    m = materials(rb=rb, H=H)
    if kind == 'double':
        m['pipe'] = plat.media.Pipe(plat.media.Pipe.place_pipes(.03, .0133, 2), .0108, .0133, .03, 1e-6, .4, 1542. * 1000.)
        m['bhe_object'] = plat.borehole_heat_exchangers.MultipleUTube
    f = [(5. * i, 0.) for i in range(n)]
    B = 5. if n > 1 else rb
    mf = .2 / 1000. * m['fluid'].rho
    hs = heights or [H]
    with fast_g(shape=shape):
        G = dt.gfunction.compute_live_g_function(B, hs, [rb] * len(hs), [2.] * len(hs), mf, m['bhe_object'],
                                                 dt.utilities.Eskilson_log_times(), f, m['fluid'], m['pipe'], m['grout'], m['soil'])
    sp = plat.media.SimulationParameters(1, months, 35., 5., 150., 40.)
    g = dt.ground_heat_exchangers.GHE(.2 * n, B, m['bhe_object'], m['fluid'], m['borehole'], m['pipe'], m['grout'],
                                      m['soil'], G, sp, loads_year(seed))
    if hybrid is not None:
        g.hybrid_load = hybrid
    if cache and hybrid is None and shape is None:
        _cache[key] = copy.deepcopy(g)
    return g


# ------------------------------------------------------------------ C09
def superpose(Q, t, g, nbh, H, k, Tg, Rb, m, cp, ts):
    q = [0.] + [float(x) / nbh for x in Q]
    tt = [0.] + [float(x) for x in t]
    out = []
    for i in range(1, len(q)):
        s = 0.
        for j in range(1, i + 1):
            s += (q[j] - q[j - 1]) * float(g(math.log((tt[i] - tt[j - 1]) * 3600. / ts)))
        out.append(Tg + s / H / (2 * math.pi * k) + q[i] / H * Rb - q[i] / (2 * m * cp))
    return out


@oracle('C09')
class Superposition:
    mincases = 120

    @staticmethod
    def gen(rng):
        yield {'n': 1, 'seed': 1, 'nbh': 1, 'grid': 'unit', 'zero': 0}
        yield {'n': 5, 'seed': 2, 'nbh': 3, 'grid': 'unit', 'zero': 2}
        while True:
            yield {'n': rng.choice([1, 2, 3, 5, 12, 40, 90]), 'seed': rng.randint(0, 10**9), 'nbh': rng.choice([1, 2, 7, 156]),
                   'grid': rng.choice(['unit', 'rand', 'hybrid', 'tiny']), 'zero': rng.choice([0, 0, 1, 2])}

    @staticmethod
    def check(c):
        r = random.Random(c['seed'])
        n = c['n']
        Q = [r.gauss(0, 30000) for _ in range(n)]
        if c['zero'] == 1:
            Q = [0.] * n
        if c['zero'] == 2:
            Q = [q if r.random() < .5 else 0. for q in Q]
        if c['grid'] == 'unit':
            t = [float(i + 1) for i in range(n)]
        else:
            t, s = [], 0.
            for _ in range(n):
                s += {'rand': r.uniform(.2, 60), 'hybrid': r.choice([6., 300., 720.5]), 'tiny': r.uniform(1e-3, 2)}[c['grid']]
                t.append(s)
        G = ghe()
        G.nbh = float(c['nbh'])
        G.bhe.soil.k = r.uniform(1, 4)
        G.bhe.soil.ugt = r.uniform(5, 25)
        G.bhe.b.H = r.uniform(40, 200)
        G.bhe.fluid.cp = r.uniform(3500, 4300)
        G.bhe.m_flow_borehole = r.uniform(.1, .5)
        xs = np.linspace(-45, 12, 40)
        ys = np.cumsum([r.uniform(0, 2) for _ in xs]) - 3.
        g = interp1d(xs, ys)
        Rb = G.bhe.compute_effective_borehole_resistance()
        ts = G.radial_numerical.t_s
        Qa, ta = np.array(Q), np.array(t)
        Q0, t0 = Qa.copy(), ta.copy()
        T, dTb = G._simulate_detailed(Qa, ta, g)
        if not (np.array_equal(Qa, Q0) and np.array_equal(ta, t0)):
            return '_simulate_detailed changes its arguments'
        a = (G.nbh, G.bhe.b.H, G.bhe.soil.k, G.bhe.soil.ugt, Rb, G.bhe.m_flow_borehole, G.bhe.fluid.cp, ts)
        w = superpose(Q, t, g, *a)
        if len(T) != n:
            return '%d loads give %d temperatures' % (n, len(T))
        for i in range(n):
            if not close(float(T[i]), w[i], 1e-7, 1e-6):
                return 'temperature %d of %d is %r, superposition gives %r' % (i, n, float(T[i]), w[i])
        if c['zero'] == 1 and any(abs(float(x) - G.bhe.soil.ugt) > 1e-12 for x in T):
            return 'zero load gives %r, ground temperature %r' % (float(T[0]), G.bhe.soil.ugt)
        if n > 2:
            k = r.randint(1, n - 1)
            Q2 = Q[:k] + [q + 1000. * r.gauss(0, 5) for q in Q[k:]]
            T2, _ = G._simulate_detailed(np.array(Q2), np.array(t), g)
            for i in range(k):
                if not close(float(T[i]), float(T2[i]), 1e-12, 1e-9):
                    return 'temperature %d depends on a later load' % i


# ------------------------------------------------------------------ C10
@oracle('C10')
class Cost:
    mincases = 400

    @staticmethod
    def gen(rng):
        for hi, lo, mx, mn in ((35., 5., 35., 5.), (35., 5., 34., 4.), (35., 5., 36., 6.), (35., 5., 40., -3.),
                               (35., 5., 37., -10.), (35., -5., 20., -5.), (30., 10., 30.5, 9.5)):
            yield {'hi': hi, 'lo': lo, 'mx': mx, 'mn': mn}
        while True:
            hi, lo = rng.uniform(20, 50), rng.uniform(-10, 15)
            mx, mn = rng.choice([hi, lo, rng.uniform(-20, 60)]), rng.choice([hi, lo, rng.uniform(-20, 60)])
            if mn > mx:
                mx, mn = mn, mx
            yield {'hi': hi, 'lo': lo, 'mx': mx, 'mn': mn}

    @staticmethod
    def check(c):
        g = dt.ground_heat_exchangers.GHE.__new__(dt.ground_heat_exchangers.GHE)
        g.sim_params = plat.media.SimulationParameters(1, 12, c['hi'], c['lo'], 100., 50.)
        e = g.cost(c['mx'], c['mn'])
        v = max(c['mx'] - c['hi'], c['lo'] - c['mn'])
        if (e <= 0) != (c['mx'] <= c['hi'] and c['mn'] >= c['lo']) or (e > 0 and not close(e, v)) or not close(e, v):
            return 'limits %r..%r, temperatures %r..%r: excess %r, not %r' % (c['lo'], c['hi'], c['mn'], c['mx'], e, v)


@oracle('C10')
class Present:
    """simulate() after a change of height is the simulation of a new exchanger of that height."""
    weight = 3.0
    mincases = 6

    @staticmethod
    def gen(rng):
        k = 0
        while True:
            yield {'H1': rng.choice([60., 90., 120.]), 'H2': rng.choice([55., 75., 100., 118.]), 'kind': ('single', 'double')[k % 2],
                   'method': 'hourly' if k % 3 == 2 else 'hybrid', 'months': 1 if k % 3 == 2 else 14, 'n': rng.choice([1, 4]),
                   'seed': rng.randint(0, 99), 'change': ('H', 'G', 'flow', 'loads')[k % 4]}
            k += 1

    @staticmethod
    def check(c):
        hs = [50., 85., 120.]
        ch = c.get('change', 'H')
        if ch != 'H':
            c = dict(c, H2=c['H1'])

        def change(x):
            if ch == 'G':
                x.GFunction = dt.gfunction.GFunction(x.GFunction.B, x.GFunction.r_b_values, x.GFunction.D_values,
                                                     {h: [1.2 * v for v in g] for h, g in x.GFunction.g_lts.items()}, x.GFunction.log_time, x.GFunction.bore_locations)
            elif ch == 'flow':
                x.bhe.m_flow_borehole = 1.3 * x.bhe.m_flow_borehole
            elif ch == 'loads':
                x.hourly_extraction_ground_loads = [.5 * q for q in x.hourly_extraction_ground_loads]
                x.hybrid_load = copy.deepcopy(x.hybrid_load)
                x.hybrid_load.load = .5 * x.hybrid_load.load
        a = ghe(c['n'], c['H1'], hs, c['kind'], c['months'], seed=c['seed'], cache=False)
        hyb = copy.deepcopy(a.hybrid_load)
        if c['seed'] % 2 or ch != 'H':
            a.simulate(c['method'])
        a.bhe.b.H = c['H2']
        change(a)
        mx, mn = a.simulate(c['method'])
        T = [float(x) for x in a.HPEFT]
        if mx != max(T) or mn != min(T):
            return 'reported extremes %r, %r; the temperatures span %r..%r' % (mx, mn, min(T), max(T))
        b = ghe(c['n'], c['H2'], hs, c['kind'], c['months'], seed=c['seed'], cache=False, hybrid=hyb)
        change(b)
        b.simulate(c['method'])
        U = [float(x) for x in b.HPEFT]
        if len(T) != len(U):
            return '%d temperatures, a new exchanger gives %d' % (len(T), len(U))
        for i, (x, y) in enumerate(zip(T, U)):
            if not close(x, y, 1e-7, 1e-6):
                return 'temperature %d is %r after changing %s (height %r to %r), a new exchanger gives %r' % (i, x, ch, c['H1'], c['H2'], y)
        # and it is the superposition of the present height's response
        eq = plat.equivalance.compute_equivalent(b.bhe)
        rn = plat.radial_numerical_borehole.RadialNumericalBH(eq)
        rn.calc_sts_g_functions(eq)
        gl, rbv, D, _ = b.GFunction.g_function_interpolation(b.B_spacing / c['H2'])
        x0 = b.GFunction.log_time[0]
        xs = [x for x in rn.lntts if x < x0] + list(b.GFunction.log_time)
        ys = [y for x, y in zip(rn.lntts, rn.g) if x < x0] + list(gl)
        g = interp1d(xs, ys)
        if c['method'] == 'hybrid':
            Q, t = [1000. * q for q in a.hybrid_load.load[2:]], list(a.hybrid_load.hour[2:])
        else:
            n = int(c['months'] / 12. * 8760.)
            Q, t = [-q for q in b.hourly_extraction_ground_loads[:n]], list(range(1, n + 1))
        m = min(len(Q), 40)
        w = superpose(Q[:m], t[:m], g, float(c['n']), c['H2'], 2.0, 18.3, b.bhe.compute_effective_borehole_resistance(),
                      b.bhe.m_flow_borehole, b.bhe.fluid.cp, rn.t_s)
        for i, (x, y) in enumerate(zip(T, w)):
            if not close(x, y, 1e-6, 1e-5):
                return 'temperature %d at %r m is %r, superposition with the present response gives %r' % (i, c['H2'], x, y)


# ------------------------------------------------------------------ C15
def gfn(c, r):
    hs = c['hs']
    lt = [-8.5 + .5 * i for i in range(c['nt'])]
    g = {h: [math.log(1 + math.exp((x + 9) / 2.)) * (1 + 3. / h) * (1 + .01 * r.random()) for x in lt] for h in hs}
    rb = {h: .06 + .0001 * (h % 50) for h in hs}
    D = {h: 2. + .01 * (h % 7) for h in hs}
    return dt.gfunction.GFunction(c['B'], dict(rb), dict(D), {h: list(v) for h, v in g.items()}, list(lt), [(0., 0.)]), g, rb, D, lt


@oracle('C15')
class Interpolate:
    mincases = 200

    @staticmethod
    def gen(rng):
        yield {'hs': [96.], 'nt': 27, 'B': 5., 'at': 0, 'seed': 1, 'kind': 'default', 'eps': 0.}
        while True:
            k = rng.choice([1, 1, 2, 3, 3, 4, 5, 6])
            hs = sorted(set(rng.choice([24., 48., 96., 192., 384., 120.5, round(rng.uniform(20, 400), 3)]) for _ in range(k)))
            at = rng.randint(0, len(hs) - 1)
            yield {'hs': hs, 'nt': rng.choice([3, 27]), 'B': rng.choice([5., .075, 6.3]), 'at': at, 'seed': rng.randint(0, 10**6),
                   'kind': rng.choice(['default', 'default', 'linear', 'quadratic', 'cubic']) if len(hs) > 1 else 'default',
                   'eps': rng.choice([0., 0., 1e-8, -1e-8]),
                   'bad': rng.choice([1.5, 1.02, 2.0])}

    @staticmethod
    def check(c):
        r = random.Random(c['seed'])
        G, g, rb, D, lt = gfn(c, r)
        h = c['hs'][c['at']]
        for rep in range(2):
            got = G.g_function_interpolation(c['B'] / (h + c['eps']), kind=c['kind'])
            y, rbv, Dv, He = got
            if not close(float(He), h, 1e-6, 1e-6):
                return 'asked for the stored height %r, interpolates at %r' % (h, He)
            if len(y) != len(lt):
                return '%d values for %d times' % (len(y), len(lt))
            for i in range(len(lt)):
                if not close(float(y[i]), g[h][i], 1e-6, 1e-6):
                    return 'heights %s: value %d at the stored height %r is %r, stored %r' % (c['hs'], i, h, float(y[i]), g[h][i])
            if not close(float(rbv), rb[h], 1e-6, 1e-8) or not close(float(Dv), D[h], 1e-6, 1e-7):
                return 'heights %s: radius/depth at the stored height %r are %r, %r; stored %r, %r' % (c['hs'], h, float(rbv), float(Dv), rb[h], D[h])
        if len(c['hs']) == 1 and 'bad' in c:
            v, e = call(G.g_function_interpolation, c['B'] / (h * c['bad']))
            if not isinstance(e, ValueError):
                return 'a single stored height %r, but %r is accepted' % (h, h * c['bad'])
        if len(c['hs']) > 1:
            # between two stored heights of equal responses the response is the same
            u = .5 * (c['hs'][0] + c['hs'][-1])
            y, rbv, Dv, He = G.g_function_interpolation(c['B'] / u, kind=c['kind'])
            if not close(float(He), u, 1e-9):
                return 'asked for %r, interpolates at %r' % (u, He)
            if len(c['hs']) == 2:
                a, b = c['hs']
                for i in range(len(lt)):
                    w = .5 * (g[a][i] + g[b][i])
                    if not close(float(y[i]), w, 1e-9):
                        return 'linear interpolation between %r and %r gives %r, not %r' % (a, b, float(y[i]), w)


@oracle('C15')
class Radius:
    mincases = 100

    @staticmethod
    def gen(rng):
        while True:
            yield {'g': [rng.gauss(5, 5) for _ in range(rng.choice([0, 1, 3, 27]))], 'rb': rng.uniform(.03, .2), 'rs': rng.uniform(.03, .2)}

    @staticmethod
    def check(c):
        src = list(c['g'])
        r = dt.gfunction.GFunction.borehole_radius_correction(src, c['rb'], c['rs'])
        w = [x - math.log(c['rs'] / c['rb']) for x in c['g']]
        if src != c['g']:
            return 'the correction changes the stored response'
        if len(r) != len(w) or any(not close(float(a), b, 1e-10) for a, b in zip(r, w)):
            return 'radius %r to %r: corrected %s to %s' % (c['rb'], c['rs'], c['g'][:3], [float(x) for x in r[:3]])


@oracle('C15')
class Combine:
    mincases = 300

    @staticmethod
    def gen(rng):
        yield {'s': [-20., -10., -8.5], 'l': [-8.5, -7.]}
        yield {'s': [-20., -10., -8.6], 'l': [-8.5, -7.]}
        yield {'s': [-8.5, -8.0], 'l': [-8.5, -7.]}
        while True:
            l0 = round(rng.uniform(-9, -7), 2)
            l = sorted(set([l0] + [round(rng.uniform(l0, 3), 2) for _ in range(rng.randint(1, 26))]))
            s = sorted(set(round(rng.uniform(-46, l0 + rng.choice([0, 0, 1, 3])), 2) for _ in range(rng.randint(1, 40))))
            if rng.random() < .3:
                s = sorted(set(s + [l0]))
            if rng.random() < .2:
                s = sorted(set(s + l[:2]))
            if len(l) + len(s) < 3:
                continue
            yield {'s': s, 'l': l}

    @staticmethod
    def check(c):
        s, l = c['s'], c['l']
        gs, gl = [1. + .01 * i for i in range(len(s))], [50. + i for i in range(len(l))]
        a = (list(l), list(gl), list(s), list(gs))
        f = dt.ground_heat_exchangers.BaseGHE.combine_sts_lts(*a)
        if a != (l, gl, s, gs):
            return 'joining changes its arguments'
        want = [(x, y) for x, y in zip(s, gs) if x < l[0]] + list(zip(l, gl))
        got = list(zip(f.x.tolist(), f.y.tolist()))
        if got != want:
            return 'short times %s.., long times %s..: joined %s.. (%d points), not %s.. (%d points)' % (
                s[-3:], l[:3], got[:3], len(got), want[:3], len(want))


@oracle('C15')
class Keys:
    mincases = 60

    @staticmethod
    def gen(rng):
        yield {'hs': [96.8, 96.2], 'B': 5., 'lt': 3}
        yield {'hs': [192., 24., 96.], 'B': 5., 'lt': 3}
        while True:
            k = rng.randint(1, 5)
            hs = list(set(rng.choice([float(rng.randint(20, 400)), round(rng.uniform(20, 400), 2), 96.25, 96.75]) for _ in range(k)))
            rng.shuffle(hs)
            yield {'hs': hs, 'B': rng.choice([5., 6.25, .075]), 'lt': rng.choice([2, 27])}

    @staticmethod
    def check(c):
        hs = c['hs']
        rbs = [.06 + .001 * i for i in range(len(hs))]
        Ds = [2. + .25 * i for i in range(len(hs))]
        m = materials()
        lt = dt.utilities.Eskilson_log_times()[:c['lt']]
        rec = []
        f = [(0., 0.), (5., 0.)]
        sh = lambda A, t: np.array([A['borehole'].H * 10. + A['borehole'].r_b + .001 * i for i in range(len(t))])
        with fast_g(rec, sh):
            G = dt.gfunction.compute_live_g_function(c['B'], list(hs), list(rbs), list(Ds), .3, m['bhe_object'], list(lt), f,
                                                     m['fluid'], m['pipe'], m['grout'], m['soil'])
        if list(G.g_lts) != sorted(hs):
            return 'heights %s are stored as %s' % (hs, list(G.g_lts))
        for h, rb, D in zip(hs, rbs, Ds):
            if G.r_b_values[h] != rb or G.D_values[h] != D:
                return 'height %r has radius %r and depth %r, not %r and %r' % (h, G.r_b_values[h], G.D_values[h], rb, D)
            if not close(G.g_lts[h][0], 10 * h + rb) or len(G.g_lts[h]) != len(lt):
                return 'height %r has the response of another height' % h
        if list(G.r_b_values) != sorted(hs) or list(G.D_values) != sorted(hs):
            return 'radii or depths are not in the order of the heights'
        if G.B != c['B'] or list(G.log_time) != list(lt) or list(G.bore_locations) != f:
            return 'spacing, times or locations are not the given ones'
        al = m['soil'].k / m['soil'].rhoCp
        for A in rec:
            w = [math.exp(x) * A['H'] ** 2 / 9. / al for x in lt]
            if any(not close(float(p), q, 1e-9) for p, q in zip(A['time_values'], w)):
                return 'the response at %r m is computed at other times' % A['H']
        if sorted((A['H'], A['r_b'], A['D']) for A in rec) != sorted(zip(hs, rbs, Ds)):
            return 'responses are computed for %s' % [(A['H'], A['r_b'], A['D']) for A in rec]


@oracle('C15')
class Grab:
    weight = .7
    mincases = 4

    @staticmethod
    def gen(rng):
        while True:
            yield {'H': rng.choice([50., 85., 120.]), 'rb': rng.choice([.06, .09]), 'n': rng.choice([1, 4])}

    @staticmethod
    def check(c):
        g = ghe(c['n'], c['H'], [50., 85., 120.])
        g.bhe.b.r_b = c['rb']
        f = g.grab_g_function(g.B_spacing / c['H'])
        x0 = g.GFunction.log_time[0]
        rn = g.radial_numerical
        want = [(x, y) for x, y in zip(rn.lntts.tolist(), rn.g.tolist()) if x < x0]
        want += [(x, y - math.log(c['rb'] / .075)) for x, y in zip(g.GFunction.log_time, g.GFunction.g_lts[c['H']])]
        got = list(zip(f.x.tolist(), f.y.tolist()))
        if len(got) != len(want):
            return 'the joined response has %d points, not %d' % (len(got), len(want))
        for a, b in zip(got, want):
            if not close(a[0], b[0]) or not close(a[1], b[1], 1e-6, 1e-6):
                return 'the joined response at %r is %r, not %r' % (a[0], a[1], b[1])


# ------------------------------------------------------------------ C19
@oracle('C19')
class Export:
    mincases = 60

    @staticmethod
    def gen(rng):
        for n in (30, 31, 59, 60, 61, 89, 90, 750, 751):
            yield {'n': n, 'nbh': 3, 'H': 80., 'seed': n}
        while True:
            yield {'n': rng.choice([rng.randint(30, 100), rng.randint(30, 2000)]), 'nbh': rng.randint(1, 20),
                   'H': rng.choice([80., 96.3]), 'seed': rng.randint(0, 10**6)}

    @staticmethod
    def check(c):
        r = random.Random(c['seed'])
        g = ghe(4, 100., None, 'single')
        ns = c['n']
        x = sorted(r.uniform(-46, -8.6) for _ in range(ns)) + dt.utilities.Eskilson_log_times()
        y = [r.gauss(0, 5) for _ in x]
        f = interp1d(x, y)
        asked = []
        g.grab_g_function = lambda B_over_H: asked.append(B_over_H) or f
        g.bhe.b.H = c['H']
        eq = g.bhe_eq
        s = type('StubSearch', (), {})()
        s.ghe = g
        s.selected_coordinates = [(float(i), 0.) for i in range(c['nbh'])]
        # numbers that tell the two boreholes apart
        eq2 = copy.deepcopy(eq)
        eq2.borehole.r_b = eq2.b.r_b = .0812
        eq2.r_in, eq2.r_out = .0117, .0163
        eq2.pipe.s, eq2.pipe.k = .0297, .4137
        eq2.pos = [(.03, .001), (-.03, -.001)]
        eq2.m_flow_borehole = .2345
        eq2.grout.k, eq2.soil.k = 1.234, 2.345
        g.bhe_eq = eq2
        td = tempfile.mkdtemp(prefix='c19_')
        fn = os.path.join(td, 'out')
        try:
            dt.search_routines.oak_ridge_export(s, file_name=fn)
            d = json.load(open(fn + '.json'))
        finally:
            for q in os.listdir(td):
                os.remove(os.path.join(td, q))
            os.rmdir(td)
        if d['borehole_length'] != c['H'] or d['number_of_boreholes'] != c['nbh']:
            return 'exports %r m and %r boreholes, not %r m and %d' % (d['borehole_length'], d['number_of_boreholes'], c['H'], c['nbh'])
        u = d['single_u_tube']
        want = {'r_b': .0812, 'r_in': .0117, 'r_out': .0163, 's': .0297, 'm_flow_borehole': .2345, 'k_g': 1.234, 'k_s': 2.345, 'k_p': .4137}
        for k, v in want.items():
            if u.get(k) != v:
                return 'exports %s of the equivalent U-tube as %r, not %r' % (k, u.get(k), v)
        if [tuple(p) for p in u['pos']] != [tuple(p) for p in eq2.pos]:
            return 'exports pipe positions %r' % (u['pos'],)
        if not asked or not close(asked[-1], g.B_spacing / c['H']):
            return 'the response is taken at B/H %r, not %r' % (asked, g.B_spacing / c['H'])
        p = [(q['ln_tts'], q['g_value']) for q in d['g_function_pairs']]
        full = list(zip(f.x.tolist(), f.y.tolist()))
        if p[-27:] != full[-27:]:
            return 'the long-term points are not all exported with their own values'
        pos = {q: i for i, q in enumerate(full)}
        if any(q not in pos for q in p):
            return 'an exported point is not a point of the response'
        i = [pos[q] for q in p[:-27]]
        if any(a >= b for a, b in zip(i, i[1:])) or (i and i[-1] >= ns):
            return 'the exported times do not increase: short-term indices %s' % i[:10]
        if not i or len(set(b - a for a, b in zip(i, i[1:]))) > 1:
            return 'the exported short-term points are not evenly strided: %s' % i[:10]
        if len(i) > 1 and (i[0] > i[1] - i[0] or ns - i[-1] > i[1] - i[0]):
            return 'the exported short-term points do not span the response: %s of %d' % (i, ns)
        if len(i) == 1 and ns > 60:
            return 'a single short-term point is exported'


# ------------------------------------------------------------------ C22
@oracle('C22')
class Hourly:
    weight = 2.0
    mincases = 20

    @staticmethod
    def gen(rng):
        for a, b in ((1, 12), (1, 18), (1, 1), (1, 24), (1, 25), (1, 11), (4, 9), (1, 240), (13, 30), (1, 13), (1, 5), (7, 7)):
            yield {'a': a, 'b': b, 'seed': 3}
        while True:
            a = rng.choice([1, 1, rng.randint(1, 14)])
            yield {'a': a, 'b': a + rng.choice([rng.randint(0, 30), rng.randint(0, 300)]), 'seed': rng.randint(0, 10**6)}

    @staticmethod
    def check(c):
        g = ghe()
        g.sim_params.start_month, g.sim_params.end_month = c['a'], c['b']
        r = random.Random(c['seed'])
        L = [r.gauss(0, 20000) if r.random() < .9 else 0. for _ in range(8760)]
        g.hourly_extraction_ground_loads = L
        L0 = list(L)
        rec = []
        g._simulate_detailed = lambda Q_dot, time_values, g=None: rec.append((Q_dot, time_values)) or ([3., 1., 2.], [0.])
        out = g.simulate(method='hourly')
        if g.hourly_extraction_ground_loads is not L or L != L0:
            return 'the hourly simulation changes the loads of the caller'
        Q, t = [np.asarray(q, dtype=float) for q in rec[-1]]
        months = c['b'] - c['a'] + 1
        n = months * 730
        if len(Q) != n or len(t) != n:
            return 'months %d..%d: %d hours and %d loads, not %d' % (c['a'], c['b'], len(t), len(Q), n)
        if not np.array_equal(t, np.arange(1, n + 1)):
            return 'months %d..%d: the hours are not 1..%d' % (c['a'], c['b'], n)
        w = -np.resize(np.array(L0), n)
        if not np.allclose(Q, w, rtol=1e-12, atol=1e-9):
            k = int(np.argmax(np.abs(Q - w)))
            return 'months %d..%d: load of hour %d is %r, not %r' % (c['a'], c['b'], k + 1, float(Q[k]), float(w[k]))
        if tuple(out) != (3., 1.):
            return 'the extremes of [3, 1, 2] are reported as %s' % (out,)
        h = g.hybrid_load
        h.load = np.array([0., 0.] + [r.gauss(0, 30) for _ in range(7)])
        h.hour = np.array([0., 0.] + [10. * i + r.random() for i in range(1, 8)])
        l0, h0 = h.load.copy(), h.hour.copy()
        g.simulate(method='hybrid')
        Q, t = [np.asarray(q, dtype=float) for q in rec[-1]]
        if not np.array_equal(h.load, l0) or not np.array_equal(h.hour, h0):
            return 'the hybrid simulation changes the hybrid loads'
        if len(Q) != 7 or not np.allclose(Q, l0[2:] * 1000.) or not np.allclose(t, h0[2:]):
            return 'the hybrid simulation does not run the hybrid sequence in watts at its own hours'
        if c['seed'] % 5 == 3:
            for m in ('detailed', '', 'Hybrid', None):
                v, e = call(g.simulate, m)
                if not isinstance(e, ValueError):
                    return 'method %r is not refused with ValueError (%r)' % (m, e)
