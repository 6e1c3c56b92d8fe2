"""C05 1D search, C06 nested searches, C07 flow and hand-over, C08 sizing."""
import math, random, inspect
from common import *
import numpy as np
import ghedt as dt
import ghedt.peak_load_analysis_tool as plat
from fakes import *
from fakes import _REAL_GHE

MAXH, MINH = 120., 40.


def params(lo=MINH, hi=MAXH):
    return plat.media.SimulationParameters(1, 240, 0., 0., hi, lo)


def fld(k, n=1, tag=0):
    return [(6. * i, 6. * k + .001 * tag) for i in range(n)]


def run1(dom, excess, max_iter=None, flow='borehole'):
    S = Sized(excess)
    m = materials()
    kw = {} if max_iter is None else {'max_iter': max_iter}
    with fast_g(), fake_ghe(S):
        r, e = call(dt.search_routines.Bisection1D, dom, 0.2, m['borehole'], m['bhe_object'], m['fluid'], m['pipe'],
                    m['grout'], m['soil'], params(), [0.] * 8760, flow=flow, **kw)
    return S, r, e


def series(rng, n, mono):
    kind = rng.random()
    if mono:
        v = sorted([round(rng.gauss(0, 4), 1) for _ in range(n)], reverse=True)
        if kind < .4 and n > 1:
            k = rng.randint(0, n - 1)
            v = [abs(x) + .5 if i < k else -abs(x) for i, x in enumerate(v)]
            v = sorted(v, reverse=True)
        if kind > .7:
            v = [float(int(x)) for x in v]
        return v
    v = [round(rng.gauss(0, 4), 1) for _ in range(n)]
    if kind < .5:
        v[0], v[-1] = abs(v[0]) + 1, -abs(v[-1])
    if kind > .8:
        v = [float(int(x)) for x in v]
    return v


@oracle('C05')
class Search:
    mincases = 250

    @staticmethod
    def gen(rng):
        for v, lo in (([2., -1., -1.], 1.), ([1., 0.], 1.), ([0., -1.], 2.), ([1., 1.], 1.), ([-1., -2.], 0.),
                      ([-1., -2.], -1.), ([5., 3., 0., 0., -2.], 1.), ([1.], 1.), ([-1.], 3.), ([0.], 0.),
                      ([3., 2., 1., -1.], 0.), ([3., -1., -2., -3., -4.], 0.), ([1., -1., 2., -3.], 0.),
                      ([-2., 1.], 0.), ([-2., 3., -1., 4.], 1.), ([0., 0.], 0.), ([1., 0., 0.], 0.)):
            yield {'v': v, 'lo': lo, 'it': None}
        while True:
            n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 9, 16, 17, 33, 64])
            mono = rng.random() < .7
            v = series(rng, n, mono)
            it = rng.choice([None, None, None, None, rng.randint(1, 7)])
            yield {'v': v, 'lo': rng.choice([0., 0., 1., 5.]), 'it': it}

    @staticmethod
    def check(c):
        v, lo = c['v'], c['lo']
        n = len(v)
        # fields of growing size; excess at the maximum height is v[k]
        dom = [fld(k, k + 1 if n < 20 else 1 + k // 8) for k in range(n)]
        idx = {f[0][1]: k for k, f in enumerate(dom)}

        def excess(f, H):
            return v[idx[f[0][1]]] + max(lo, 0.) * (MAXH - H) / (MAXH - MINH)
        S, r, e = run1([list(f) for f in dom], excess, c['it'])
        mono = all(a >= b for a, b in zip(v, v[1:]))
        low0 = v[0] + max(lo, 0.)
        if v[0] > 0 and v[-1] > 0:
            return None if isinstance(e, ValueError) else \
                'excess %s: the first and last field exceed the limits, but %r' % (v, e or 'it returns %s' % r.selection_key)
        if low0 <= 0 and v[-1] <= 0 and v[0] <= 0:
            return None if isinstance(e, ValueError) else \
                'excess %s (%s at minimum height): nothing exceeds the limits, but %r' % (
                    v, low0, e or 'it returns %s' % r.selection_key)
        if e is not None:
            if isinstance(e, ValueError) and not mono:
                return None
            return 'excess %s: raises %r' % (v, e)
        k = r.selection_key
        if not isinstance(k, (int, np.integer)) or not 0 <= k < n:
            return 'excess %s: returned index %r' % (v, k)
        if list(r.selected_coordinates) != dom[k]:
            return 'excess %s: the returned field is not entry %d of the list' % (v, k)
        if v[k] > 0:
            return 'excess %s: selected field %d exceeds the limits' % (v, k)
        if list(r.ghe.GFunction.bore_locations) != dom[k]:
            return 'excess %s: the exchanger left behind has another field than the selected one (%d)' % (v, k)
        if r.ghe.bhe.b.H != MAXH:
            return 'excess %s: the exchanger left behind is at height %r' % (v, r.ghe.bhe.b.H)
        it = c['it'] or 15
        if mono and n <= 2 ** it:
            first = [i for i in range(n) if v[i] <= 0][0]
            if k != first:
                return 'excess %s: selected %d although %d is the first compliant field' % (v, k, first)


def nested(rng, same_start=True):
    """Nested lists with an excess per field; (fields, excess, heights)"""
    m = rng.randint(1, 7)
    size = 1
    out = []
    mono = rng.random() < .75
    tot = []
    top = sorted([rng.gauss(0, 3) for _ in range(m)], reverse=True)
    for a in range(m):
        n = rng.randint(1, 7)
        last = round(top[a], 1)
        v = sorted([last + abs(rng.gauss(0, 4)) for _ in range(n - 1)], reverse=True) + [last]
        v = [round(x, 1) for x in v]
        v[-1] = last
        if not mono:
            v = [round(rng.gauss(0, 3), 1) for _ in range(n)]
        if rng.random() < .8 and n > 1:
            v[0] = abs(v[0]) + 1.
            if mono:
                v = sorted(v, reverse=True)
        if rng.random() < .2:
            v = [float(int(x)) for x in v]
        out.append(v)
    hs = [[round(rng.uniform(MINH, MAXH), 1) for _ in v] for v in out]
    return {'v': out, 'h': hs, 'lo': rng.choice([0., 2., 6.])}


class Nested:
    def __init__(self, c, shared=False):
        self.v, self.h, self.lo = c['v'], c['h'], c['lo']
        self.dom = [[fld(1 + b, 1 + b + a // 2, tag=a + 1) for b in range(len(v))] for a, v in enumerate(self.v)]
        self.key = {f[0][1]: (a, b) for a, d in enumerate(self.dom) for b, f in enumerate(d)}

    def at(self, f):
        return self.key[f[0][1]]

    def excess(self, f, H):
        a, b = self.at(f)
        return self.v[a][b] + self.lo * (MAXH - H) / (MAXH - MINH)

    def height(self, f):
        a, b = self.at(f)
        return self.h[a][b]


def ref_search(vals, lo):
    """Index the one-dimensional search must select on a non-increasing list,
    None if unspecified, 'err' if it must raise."""
    low0 = vals[0] + lo
    if vals[0] > 0 and vals[-1] > 0:
        return 'err'
    if low0 <= 0 and vals[-1] <= 0:
        return 'err'
    if all(a >= b for a, b in zip(vals, vals[1:])):
        return [i for i in range(len(vals)) if vals[i] <= 0][0]
    return None


def go(cls, N, S):
    m = materials()
    with fast_g(), fake_ghe(S):
        return call(cls, [[list(f) for f in d] for d in N.dom], 0.2, m['borehole'], m['bhe_object'], m['fluid'],
                    m['pipe'], m['grout'], m['soil'], params(), [0.] * 8760)


@oracle('C06')
class TwoD:
    mincases = 150

    @staticmethod
    def gen(rng):
        yield {'v': [[3., -1.], [2., -2.]], 'h': [[50., 50.], [50., 50.]], 'lo': 1.}
        yield {'v': [[-1., -2.], [-1., -3.]], 'h': [[50., 50.], [50., 50.]], 'lo': 3.}
        yield {'v': [[3., 1.], [2., -2.], [2., -5.]], 'h': [[50., 50.]] * 3, 'lo': 1.}
        while True:
            yield nested(rng)

    @staticmethod
    def check(c):
        N = Nested(c)
        S = Sized(N.excess, N.height)
        r, e = go(dt.search_routines.Bisection2D, N, S)
        outer = [c['v'][0][0]] + [v[-1] for v in c['v']]
        o = ref_search(outer, c['lo'])
        if o is None:
            if e is not None:
                return None if isinstance(e, ValueError) else 'raises %r' % e
        elif o == 'err':
            return None if isinstance(e, ValueError) else 'outer excess %s is not refused (%r)' % (outer, e)
        else:
            inner = max(o - 1, 0)
            q = ref_search(c['v'][inner], c['lo'])
            if q == 'err':
                return None if isinstance(e, ValueError) else 'inner excess %s is not refused (%r)' % (c['v'][inner], e)
            if e is not None:
                return None if q is None and isinstance(e, ValueError) else 'outer %s, inner %s: raises %r' % (outer, c['v'][inner], e)
        k, f = r.selection_key, list(r.selected_coordinates)
        a, b = N.at(f)
        if o is not None and a != max(o - 1, 0):
            return 'outer excess %s selects entry %d, but the field comes from inner list %d' % (outer, o, a)
        if b != k or N.dom[a][b] != f:
            return 'the returned field is not entry %r of inner list %d' % (k, a)
        if c['v'][a][b] > 0:
            return 'the returned field [%d][%d] exceeds the limits' % (a, b)
        q = ref_search(c['v'][a], c['lo'])
        if q not in (None, 'err') and q != b:
            return 'inner excess %s: selected %d, first compliant %d' % (c['v'][a], b, q)
        if list(r.ghe.GFunction.bore_locations) != f or r.ghe.bhe.b.H != MAXH:
            return 'the exchanger left behind is not the selected field at maximum height'


@oracle('C06')
class ZD:
    weight = 1.5
    mincases = 200

    @staticmethod
    def gen(rng):
        yield {'v': [[3., -1.], [2., -2.]], 'h': [[50., 100.], [50., 50.]], 'lo': 1.}
        yield {'v': [[3., 1., -1.], [2., 1., -2.], [3., 1., -3.]], 'h': [[50., 60., 110.], [50., 50., 100.], [60., 60., 119.]], 'lo': 1.}
        while True:
            yield nested(rng)

    @staticmethod
    def check(c):
        N = Nested(c)
        S = Sized(N.excess, N.height)
        r, e = go(dt.search_routines.BisectionZD, N, S)
        if e is not None:
            return None if isinstance(e, ValueError) else 'raises %r' % e
        k, f = r.selection_key, list(r.selected_coordinates)
        a, b = N.at(f)
        if b != k or N.dom[a][b] != f:
            return 'the returned field is not entry %r of its list %d' % (k, a)
        if c['v'][a][b] > 0:
            return 'the returned field [%d][%d] exceeds the limits' % (a, b)
        # the fields sized during the search; the last sizing is the final one
        drill = {}
        for g in S.sized[:-1]:
            p = N.at(g)
            drill.setdefault(p[0], []).append(len(g) * N.height(g))
        if not drill:
            return 'no list was evaluated before the final sizing'
        best = {q: d[-1] for q, d in drill.items()}
        m = min(best.values())
        if a not in best or best[a] > m + 1e-9:
            return 'the returned field is of list %d with %r m drilling, list %d has %r m' % (
                a, best.get(a), min(best, key=best.get), m)
        mono = all(x >= y for x, y in zip(c['v'][a], c['v'][a][1:]))
        if mono and abs(len(f) * N.height(f) - m) > 1e-9:
            return 'the returned field has %r m of drilling, its list was evaluated with %r' % (len(f) * N.height(f), m)
        # the evaluated lists
        outer = [c['v'][0][0]] + [v[-1] for v in c['v']]
        o = ref_search(outer, c['lo'])
        if isinstance(o, int) and sorted(best)[0] != max(o - 1, 0):
            return 'outer excess %s selects entry %d, but the first list evaluated is %d' % (outer, o, sorted(best)[0])
        g = r.ghe
        if list(g.GFunction.bore_locations) != f:
            return 'the exchanger left behind holds another field'
        if g.nsize < 1 or g.bhe.b.H != N.height(f):
            return 'the exchanger left behind is not sized (height %r, sized height %r)' % (g.bhe.b.H, N.height(f))
        if g.gcount < 1 or g.gsize < 1:
            return 'the long-term responses were not recomputed before sizing'
        if list(S.computed[-1][0]) != f:
            return 'the long-term responses were recomputed for another field'


# ------------------------------------------------------------------ flow
@oracle('C07')
class Flow:
    mincases = 60

    @staticmethod
    def gen(rng):
        while True:
            n = rng.randint(1, 30)
            yield {'n': n, 'V': rng.choice([.2, .1, .35, rng.uniform(.05, 1)]), 'sp': [rng.uniform(3, 9), rng.uniform(3, 9)],
                   'rho': rng.choice([998.2, 1000., 1050.3]), 'rb': rng.choice([.075, .06]), 'pts': rng.choice(['x', 'y', 'diag']),
                   'm': rng.randint(1, 12), 'H': rng.choice([50., 96., 121.5])}

    @staticmethod
    def coords(n, sp, pts):
        if pts == 'x':
            return [(i * sp[0], 0.) for i in range(n)]
        if pts == 'y':
            return [(0., i * sp[1]) for i in range(n)]
        return [(i * sp[0], i * sp[1]) for i in range(n)]

    @staticmethod
    def check(c):
        n, V = c['n'], c['V']
        f0 = Flow.coords(n, c['sp'], c['pts'])
        f1 = Flow.coords(c['m'], c['sp'], c['pts'])

        def setup(V_, flow, f):
            S = Sized(lambda f, H: -1.)
            rec = []
            m = materials(rb=c['rb'])
            m['fluid'].rho = c['rho']
            with fast_g(rec), fake_ghe(S):
                b = dt.search_routines.Bisection1D([f], V_, m['borehole'], m['bhe_object'], m['fluid'], m['pipe'], m['grout'],
                                                   m['soil'], params(), [0.] * 8760, flow=flow, search=False)
                first = (S.made[-1], dict(rec[-1]))
                b.initialize_ghe(f1, c['H'])
                return b, first, (S.made[-1], dict(rec[-1])), m, S
        rho = c['rho']
        for flow, Vin in (('borehole', V), ('system', V * n)):
            b, first, second, m, S = setup(Vin, flow, f0)
            Vs, mf = b.retrieve_flow(f0, rho)
            if not close(Vs, V * n) or not close(mf, V / 1000. * rho):
                return '%s flow %r over %d boreholes: system flow %r, mass flow %r per borehole' % (flow, Vin, n, Vs, mf)
            for (g, a), f, H in ((first, f0, 100.), (second, f1, c['H'])):
                k = len(f)
                wantV = Vin * k if flow == 'borehole' else Vin
                wm = wantV / k / 1000. * rho
                B = c['rb'] if k == 1 else max(c['rb'], math.hypot(f[1][0] - f[0][0], f[1][1] - f[0][1]))
                if not close(g.V_flow_system, wantV):
                    return '%s basis: the exchanger of %d boreholes gets system flow %r, not %r' % (flow, k, g.V_flow_system, wantV)
                if not close(a['m_flow_borehole'], wm):
                    return '%s basis: the responses of %d boreholes are computed for %r kg/s per borehole, not %r' % (flow, k, a['m_flow_borehole'], wm)
                if list(g.GFunction.bore_locations) != f or list(a['coordinates']) != f:
                    return 'the exchanger gets other coordinates than its field'
                if not close(g.B_spacing, B) or not close(g.GFunction.B, B):
                    return 'the spacing of field %s is handed over as %r/%r' % (f[:2], g.B_spacing, g.GFunction.B)
                if g.H0 != H or a['H'] != H:
                    return 'the height %r is handed over as %r/%r' % (H, g.H0, a['H'])
                if a['r_b'] != c['rb'] or a['D'] != 2.0:
                    return 'borehole radius or depth handed over as %r, %r' % (a['r_b'], a['D'])
                A = g.args
                for q in ('fluid', 'pipe', 'grout', 'soil'):
                    if A[q] is not m[q] or a[q] is not m[q]:
                        return 'the exchanger does not get the given %s' % q
                if A['bhe_object'] is not m['bhe_object'] or a['bhe_object'] is not m['bhe_object']:
                    return 'the exchanger does not get the given type'
                if list(g.GFunction.g_lts) != [H]:
                    return 'the stored responses are at heights %s, not %r' % (list(g.GFunction.g_lts), H)
                if [round(x, 9) for x in g.GFunction.log_time] != dt.utilities.Eskilson_log_times():
                    return 'the stored responses have other times'
        for bad in ('Borehole', '', 'both', None):
            r, e = call(setup, V, bad, f0)
            if not isinstance(e, ValueError):
                return 'flow basis %r is not refused with ValueError (%r)' % (bad, e)


@oracle('C07')
class FlowSplit:
    """The real exchanger splits the system flow over its boreholes."""
    weight = .6
    mincases = 8

    @staticmethod
    def gen(rng):
        while True:
            yield {'n': rng.randint(1, 40), 'V': rng.uniform(.1, .9), 'rho': rng.choice([998.2, 1040.]), 'temp': 20.}

    @staticmethod
    def check(c):
        m = materials()
        m['fluid'].rho = c['rho']
        f = [(6. * i, 0.) for i in range(c['n'])]
        lt = dt.utilities.Eskilson_log_times()
        mf = c['V'] / 1000. * c['rho']
        with fast_g():
            G = dt.gfunction.compute_live_g_function(6., [100.], [.075], [2.], mf, m['bhe_object'], lt, f, m['fluid'],
                                                     m['pipe'], m['grout'], m['soil'])
        g = dt.ground_heat_exchangers.BaseGHE(c['V'] * c['n'], 6., m['bhe_object'], m['fluid'], m['borehole'], m['pipe'],
                                              m['grout'], m['soil'], G, params(), [0.] * 8760)
        if not close(g.bhe.m_flow_borehole, mf) or not close(g.V_flow_borehole, c['V']) or g.nbh != c['n']:
            return '%d boreholes, %r L/s each: the exchanger has %r kg/s per borehole, not %r' % (
                c['n'], c['V'], g.bhe.m_flow_borehole, mf)


# ------------------------------------------------------------------ sizing
class Obj:
    @staticmethod
    def make(c):
        k, p = c['kind'], c['p']
        s = c.get('sign', 1.)
        f = {'lin': lambda x: p[0] - p[1] * x,
             'exp': lambda x: math.exp(-p[1] * x) - p[0],
             'step': lambda x: p[0] if x < p[1] else -p[2],
             'const': lambda x: p[0],
             'hyper': lambda x: p[1] / (x + .5) - p[0],
             'cubic': lambda x: -(x - p[0]) ** 3 * p[1]}[k]
        return lambda x: s * f(x)


@oracle('C08')
class Root:
    mincases = 300

    @staticmethod
    def gen(rng):
        while True:
            lo = rng.choice([0., 1., 24., rng.uniform(-5, 40)])
            hi = lo + rng.choice([1., 10., 100., rng.uniform(.1, 200)])
            k = rng.choice(['lin', 'lin', 'exp', 'const', 'hyper'])
            sg = rng.choice([1., -1.])
            if k == 'lin':
                b = rng.choice([.01, .1, 1., 5.])
                z = rng.choice([lo, hi, rng.uniform(lo, hi), lo - 3, hi + 3, rng.uniform(lo - 50, hi + 50)])
                p = [b * z, b]
            elif k == 'exp':
                p = [rng.uniform(0, 1), 1. / max(1, abs(hi))]
            elif k == 'const':
                p = [rng.choice([-2., 2., -1e-9, 1e-9])]
            elif k == 'hyper':
                if lo < 0:
                    continue
                p = [rng.uniform(.01, 1), rng.uniform(.1, 50)]
            else:
                p = [rng.uniform(lo - 10, hi + 10), rng.choice([1e-3, 1.])]
            yield {'kind': k, 'p': p, 'sign': sg, 'lo': lo, 'hi': hi, 'x': rng.uniform(lo, hi)}
            if rng.random() < .15:
                x = rng.uniform(.1, 5)
                yield {'kind': 'lin', 'p': [x * rng.uniform(.001, 20), 1.], 'sign': sg, 'lo': None, 'hi': None, 'x': x}

    @staticmethod
    def check(c):
        f = Obj.make(c)
        if c['lo'] is None:
            x, e = call(plat.equivalance.solve_root, c['x'], f)
            lo, hi = c['x'] / 100., c['x'] * 10.
        else:
            lo, hi = c['lo'], c['hi']
            x, e = call(plat.equivalance.solve_root, c['x'], f, lower=lo, upper=hi)
        a, b = f(lo), f(hi)
        if e is not None:
            return 'solve_root raises %r for values %r, %r at the bounds' % (e, a, b)
        if a < 0 and b < 0:
            return None if x == hi else 'negative at both ends: returns %r, not the upper bound %r' % (x, hi)
        if a > 0 and b > 0:
            return None if x == lo else 'positive at both ends: returns %r, not the lower bound %r' % (x, lo)
        if not lo <= x <= hi:
            return 'returns %r outside of [%r, %r]' % (x, lo, hi)
        t = 2e-6 + 4e-6 * abs(x)
        v = [f(max(lo, x - t)), f(x), f(min(hi, x + t))]
        if not (min(v) <= 0 <= max(v)) and abs(f(x)) > 1e-12:
            return 'returns %r, which is not a root (values around it %r)' % (x, v)


@oracle('C08')
class Size:
    mincases = 300

    @staticmethod
    def gen(rng):
        while True:
            lo = rng.choice([24., 60., 40., rng.uniform(10, 100)])
            hi = lo + rng.choice([40., 111., 300., rng.uniform(5, 200)])
            k = rng.choice(['lin', 'lin', 'exp', 'const', 'hyper'])
            if k == 'lin':
                b = rng.choice([.01, .1, 1.])
                z = rng.choice([lo, hi, rng.uniform(lo, hi), rng.uniform(lo, hi), lo - 3, hi + 3, (lo + hi) / 2])
                p = [b * z, b]
            elif k == 'exp':
                p = [rng.uniform(.1, 1), 1. / hi]
            elif k == 'const':
                p = [rng.choice([-2., 2., -1e-6])]
            else:
                p = [rng.uniform(.01, 1), rng.uniform(.1, 50)]
            yield {'kind': k, 'p': p, 'lo': lo, 'hi': hi, 'x': 0, 'h0': rng.choice([lo, hi, 100.]),
                   'method': rng.choice(['hybrid', 'hourly'])}

    @staticmethod
    def check(c):
        import warnings
        f = Obj.make(c)
        S = Sized(lambda fl, H: f(H))
        m = materials(H=c['h0'])
        lo, hi = c['lo'], c['hi']
        fl = [(0., 0.), (6., 0.)]
        with fake_ghe(S) as G:
            gf = type('StubGF', (), {'bore_locations': fl, 'log_time': [], 'g_lts': {}})()
            g = G(1., 6., m['bhe_object'], m['fluid'], m['borehole'], m['pipe'], m['grout'], m['soil'], gf,
                  params(lo, hi), [0.] * 8760)
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                _REAL_GHE.size(g, method=c['method'])
            w = [x for x in w if 'rovided' in str(x.message) or issubclass(x.category, UserWarning)]
        H = g.bhe.b.H
        a, b = f(lo), f(hi)
        what = 'excess %r at %r m, %r at %r m' % (a, lo, b, hi)
        if not lo <= H <= hi:
            return what + ': sized to %r' % H
        if not S.sims or S.sims[-1][1] != H:
            return what + ': sized to %r but last simulated at %r' % (H, S.sims and S.sims[-1][1])
        if any(s[2] != c['method'] for s in S.sims):
            return 'sizing by %s simulates by another method' % c['method']
        if a > 0 and b < 0:
            t = 1e-3
            if not (f(max(lo, H - t)) >= 0 >= f(min(hi, H + t))):
                return what + ': sized to %r with excess %r' % (H, f(H))
        elif a < 0 and b < 0:
            if H != lo or not w:
                return what + ': sized to %r with %d warnings, not to the minimum height with one' % (H, len(w))
        elif a > 0 and b > 0:
            if H != hi or not w:
                return what + ': sized to %r with %d warnings, not to the maximum height with one' % (H, len(w))
