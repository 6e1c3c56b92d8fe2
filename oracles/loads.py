"""C11 split, C12 monthly summaries, C13 hybrid sequence, C14 peak durations."""
import math, random, struct
from common import *
import numpy as np
from scipy.interpolate import interp1d
import ghedt as dt
import ghedt.peak_load_analysis_tool as plat

GL = plat.ground_loads
DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
START = [24 * sum(DAYS[:i]) for i in range(13)]


# ------------------------------------------------------------------ C11
@oracle('C11')
class Split:
    mincases = 300

    @staticmethod
    def gen(rng):
        for v in ([], [0.], [-0.0], [0], [1], [-1], [5., -5., 0., -0.0, 1e-9, -1e-9, 1e300, -1e300], [3] * 5, [-2.5] * 8760,
                  [1., 0., -1., 0., 0.]):
            for u in ('W', 'kW'):
                yield {'v': v, 'u': u}
        for u in ('w', 'KW', '', None, 'MW', 'Wh'):
            yield {'v': [1., -1.], 'u': u}
        while True:
            n = rng.choice([1, 2, 3, 10, 24, 100, 1000, 8760])
            s = rng.choice([1., 1e3, 1e6, 1e-3])
            v = [rng.choice([0., -0.0, rng.gauss(0, s), rng.gauss(0, s), abs(rng.gauss(0, s)), int(rng.gauss(0, 50))]) for _ in range(n)]
            yield {'v': v, 'u': rng.choice(['W', 'kW'])}

    @staticmethod
    def check(c):
        v = list(c['v'])
        keep = list(v)
        r, e = call(GL.HybridLoad.split_heat_and_cool, v, units=c['u'])
        if [repr(x) for x in v] != [repr(x) for x in keep]:
            return "the caller's list was changed"
        if c['u'] not in ('W', 'kW'):
            if not isinstance(e, ValueError):
                return 'units %r: %r, not ValueError' % (c['u'], e)
            return
        if e is not None:
            raise e
        rej, ext = r
        if rej is v or ext is v:
            return "a result is the caller's list"
        if len(rej) != len(v) or len(ext) != len(v):
            return '%d loads split into %d and %d' % (len(v), len(rej), len(ext))
        scale = 1000. if c['u'] == 'W' else 1.
        for i, x in enumerate(v):
            if not (rej[i] >= 0 and ext[i] >= 0):
                return 'hour %d: negative split load %r / %r' % (i, rej[i], ext[i])
            if rej[i] != 0 and ext[i] != 0:
                return 'hour %d: both rejection and extraction' % i
            if not close(ext[i] - rej[i], x / scale, 1e-12, 1e-300):
                return 'hour %d: load %r %s gives %r - %r' % (i, x, c['u'], ext[i], rej[i])
        if c['u'] == 'W':
            r2, _ = call(GL.HybridLoad.split_heat_and_cool, v)
            if r2 is not None and (r2[0] != rej or r2[1] != ext):
                return 'the default units are not W'


# ------------------------------------------------------------------ profiles
def profile(c):
    """A non-negative year of hourly loads (kW) from a small description."""
    r = random.Random(c['seed'])
    k = c['kind']
    if k == 'const':
        v = [c['a']] * 8760
    elif k == 'zero':
        v = [0.] * 8760
    elif k == 'flat':
        v = [c['a'] + r.choice([0., 0., 1e-9, 1e-3]) for _ in range(8760)]
    elif k == 'sparse':
        v = [0.] * 8760
        for _ in range(c.get('m', 12)):
            v[r.randrange(8760)] = round(r.uniform(.1, 50), 3)
    elif k == 'daily':
        v = [max(0., 20 * math.cos(2 * math.pi * (h % 24 - c.get('ph', 12)) / 24.) + r.uniform(-1, 1)) for h in range(8760)]
    elif k == 'season':
        v = [max(0., 20 * math.cos(2 * math.pi * (h - c.get('ph', 0)) / 8760.) + 4 * math.sin(h * .26) + r.uniform(-1, 1)) for h in range(8760)]
    else:
        v = [r.uniform(0, 10) for _ in range(8760)]
    for m, h, x in c.get('set', ()):
        v[(START[m] + h) % 8760] = x
    for m in c.get('off', ()):
        v[START[m]:START[m + 1]] = [0.] * (START[m + 1] - START[m])
    return v


def profiles(rng):
    yield {'kind': 'zero', 'seed': 1}
    yield {'kind': 'const', 'seed': 1, 'a': 31.843279199678715}
    yield {'kind': 'const', 'seed': 1, 'a': 1. / 3}
    yield {'kind': 'rand', 'seed': 1, 'set': [[m, 0, 99.] for m in range(12)]}
    yield {'kind': 'rand', 'seed': 1, 'set': [[m, 24, 99.] for m in range(12)]}
    yield {'kind': 'rand', 'seed': 1, 'set': [[m, 24 * DAYS[m] - 1, 99.] for m in range(12)]}
    yield {'kind': 'rand', 'seed': 2, 'set': [[m, h, 99.] for m in range(12) for h in (5, 100, 600)]}
    yield {'kind': 'sparse', 'seed': 3, 'm': 5}
    yield {'kind': 'rand', 'seed': 4, 'off': [1, 6, 11]}
    yield {'kind': 'rand', 'seed': 5, 'set': [[m, -1, 99.] for m in range(12)] + [[m, 3, 50.] for m in range(12)]}
    yield {'kind': 'rand', 'seed': 5, 'off': [0, 11], 'set': [[11, 743, 3.], [0, 0, 2.9]]}
    while True:
        c = {'kind': rng.choice(['rand', 'sparse', 'daily', 'season', 'const', 'flat', 'sparse']), 'seed': rng.randint(0, 10**9),
             'a': rng.choice([rng.uniform(0, 100), 1. / rng.randint(1, 99), float(rng.randint(1, 50))]), 'm': rng.choice([1, 3, 12, 40]), 'ph': rng.randint(0, 23)}
        if rng.random() < .7:
            p = rng.choice([60., 100., 21.])
            c['set'] = [[m, rng.choice([0, 23, 24, 24 * DAYS[m] - 1, 24 * DAYS[m] - 24, rng.randrange(24 * DAYS[m]), 24 * rng.randrange(DAYS[m])]),
                         p - rng.choice([0, 0, .05, 5.])] for m in range(12) for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < .4:
            c['off'] = rng.sample(range(12), rng.choice([1, 2, 5]))
        yield c


def response(seed):
    r = random.Random(seed)
    xs = np.linspace(-60, 5, 50)
    kind = seed % 4
    if kind == 0:
        ys = np.log1p(np.exp((xs + 12) / 2.))
    else:
        ys = np.cumsum([r.uniform(1e-3, 1) for _ in xs])
    if kind == 3:
        ys = ys - ys[0]
    return interp1d(xs, ys)


def loads(c, v, R=None):
    r = random.Random(c['seed'] ^ 77)
    return GL.Loads(v, response(c['seed']), r.uniform(1e8, 1e10), 2 * math.pi * r.uniform(.8, 4), r.uniform(0., .4) if R is None else R)


# ------------------------------------------------------------------ C12
@oracle('C12')
class Monthly:
    mincases = 20

    @staticmethod
    def gen(rng):
        return profiles(rng)

    @staticmethod
    def check(c):
        v = profile(c)
        keep = list(v)
        L = loads(c, v)
        if v != keep or list(L.hourly) != keep:
            return 'the hourly loads were changed'
        ext = v + v[:24]
        for i in range(1, 13):
            m = v[START[i - 1]:START[i]]
            if not close(L.monthly_total[i], math.fsum(m), 1e-9, 1e-9):
                return 'month %d: total %r, not %r' % (i, L.monthly_total[i], math.fsum(m))
            if not close(L.monthly_average[i], math.fsum(m) / len(m), 1e-9, 1e-9):
                return 'month %d: average %r, not %r' % (i, L.monthly_average[i], math.fsum(m) / len(m))
            pk = max(m)
            if L.monthly_peak[i] != pk:
                return 'month %d: peak %r, not %r' % (i, L.monthly_peak[i], pk)
            if pk > 0:
                d = m.index(pk) // 24
                if L.monthly_peak_day[i] != d + 1:
                    return 'month %d: the peak is on day %d, recorded as day %r' % (i, d + 1, L.monthly_peak_day[i])
                s = START[i - 1] + 24 * d
                want = ext[s:s + 48]
                if list(L.monthly_two_day_hourly_peak[i]) != want:
                    return 'month %d: the 48-hour profile is not day %d and the day after it' % (i, d + 1)
        if len(L.monthly_two_day_hourly_peak) != 13:
            return '%d two-day profiles' % len(L.monthly_two_day_hourly_peak)
        if not close(sum(L.monthly_total[1:]), math.fsum(v), 1e-9, 1e-9):
            return 'the totals add up to %r, the year is %r' % (sum(L.monthly_total[1:]), math.fsum(v))


# ------------------------------------------------------------------ C13
def month_days(i):
    return DAYS[(i - 1) % 12]


def month_start(i):
    return 24 * sum(month_days(j) for j in range(1, i))


def window(i, day, dur):
    a, b = month_start(i), month_start(i + 1)
    s = a + 24 * (day - 1) + 12 - dur / 2.
    if s < a:
        s = a
    if s + dur > b:
        s = b - dur
    return s, s + dur


@oracle('C13')
class Hybrid:
    mincases = 300

    @staticmethod
    def gen(rng):
        def side(zero=0.2, days=None):
            pk, dy, du, fr = [0.], [0], [0], [0.]
            for m in range(12):
                if rng.random() < zero:
                    pk.append(0.), dy.append(0), du.append(1e-6), fr.append(0.)
                    continue
                pk.append(round(rng.uniform(1, 80), 3))
                D = DAYS[m]
                dy.append(rng.choice([1, 2, D - 1, D, rng.randint(1, D)]))
                du.append(rng.choice([1e-6, 1., 2., 6., 24., 47.9, 48., rng.uniform(.1, 48)]))
                fr.append(rng.uniform(.0, 1.))
            return {'pk': pk, 'dy': dy, 'du': du, 'fr': fr}
        k = 0
        while True:
            k += 1
            s = rng.choice([1, 1, 1, rng.randint(1, 14), rng.randint(1, 40)])
            n = rng.choice([1, 2, 11, 12, 13, 23, 24, 25, 30, 36, 49, 120]) if k > 3 else [12, 24, 240][k - 1]
            a, b = side(), side()
            if k % 5 == 0:
                b['dy'] = [x if y else 0 for x, y in zip(a['dy'], b['dy'])]
            yield {'s': s, 'e': s + n - 1, 'rej': a, 'ext': b}

    @staticmethod
    def check(c):
        def mk(d):
            L = GL.Loads.__new__(GL.Loads)
            L.monthly_peak = list(d['pk'])
            L.monthly_peak_day = list(d['dy'])
            L.monthly_peak_duration = list(d['du'])
            # a total between the energy of the peak and a month at the peak
            L.monthly_total = [0.] + [d['pk'][m] * (d['du'][m] + d['fr'][m] * (24 * DAYS[m - 1] - d['du'][m])) for m in range(1, 13)]
            L.monthly_average = [0.] + [L.monthly_total[m] / 24. / DAYS[m - 1] for m in range(1, 13)]
            return L
        cl, hl = mk(c['rej']), mk(c['ext'])
        s, e = c['s'], c['e']
        for m in range(1, 13):
            if cl.monthly_peak[m] > 0 and hl.monthly_peak[m] > 0 and cl.monthly_peak_day[m] != hl.monthly_peak_day[m]:
                w1, w2 = window(m, cl.monthly_peak_day[m], cl.monthly_peak_duration[m]), window(m, hl.monthly_peak_day[m], hl.monthly_peak_duration[m])
                if not (w1[1] + 1.001 <= w2[0] or w2[1] + 1.001 <= w1[0]):
                    raise Skip()
        hy = GL.HybridLoad.__new__(GL.HybridLoad)
        hy.rejection, hy.extraction = cl, hl
        hy.startmonth, hy.endmonth = s, e
        hy.peakretainstart, hy.peakretainend = 12, 12
        hy.load, hy.hour, hy.sfload = np.array(0), np.array(0), np.array(0)
        hy.process_monthly_loads()
        load, hour = [float(x) for x in hy.load], [float(x) for x in hy.hour]
        if len(load) != len(hour):
            return '%d loads but %d hours' % (len(load), len(hour))
        for i in range(1, len(hour)):
            if hour[i] < hour[i - 1]:
                return 'the hour goes from %r back to %r' % (hour[i - 1], hour[i])
        # skip what precedes the simulation
        t0 = month_start(s)
        k = 0
        while k < len(hour) and hour[k] <= t0 and load[k] == 0.:
            k += 1
        if k < 2 or hour[k - 1] != t0:
            return 'the sequence does not start with a zero load up to hour %r' % t0
        for i in range(s, e + 1):
            m = (i - 1) % 12 + 1
            a, b = month_start(i), month_start(i + 1)
            seq = []
            p = a
            while k < len(hour) and hour[k] <= b:
                seq.append((p, hour[k], load[k]))
                p = hour[k]
                k += 1
                if p == b:
                    break
            if p != b:
                return 'month %d does not end at hour %d but at %r' % (i, b, p)
            en = math.fsum((y - x) * q for x, y, q in seq)
            tot = cl.monthly_total[m] - hl.monthly_total[m]
            big = max(1., cl.monthly_total[m] + hl.monthly_total[m])
            if abs(en - tot) > 1e-5 * big:
                return 'month %d (%s): the sequence holds %r kWh, the month %r kWh' % (i, m, en, tot)
            inc = i < s + 12 or i > e - 12
            got = []
            if inc and cl.monthly_peak_day[m] != hl.monthly_peak_day[m]:
                for L, sg in ((cl, 1.), (hl, -1.)):
                    if L.monthly_peak[m] > 0:
                        w = window(i, L.monthly_peak_day[m], L.monthly_peak_duration[m])
                        # "around midday": within an hour of it
                        ok = [(x, y) for x, y, q in seq if abs(x - w[0]) < 1.0001 and abs(y - x - w[1] + w[0]) < 1e-4 and
                              abs(q - sg * L.monthly_peak[m]) < 1e-9 * max(1, abs(q))]
                        if len(ok) != 1:
                            return 'month %d: the peak %r for %r h on day %d is not there: %s' % (
                                i, sg * L.monthly_peak[m], L.monthly_peak_duration[m], L.monthly_peak_day[m], seq[:6])
                        got.append(ok[0])
            if not inc:
                avg = tot / 24. / month_days(i)
                if any(abs(q - avg) > 1e-7 * max(1, abs(avg)) for x, y, q in seq if y > x):
                    return 'month %d: not the average %r but %s' % (i, avg, seq[:5])
            rest = set(round(q, 6) for x, y, q in seq if y - x > 1e-4 and not any(w[0] - 1e-4 < (x + y) / 2. < w[1] + 1e-4 for w in got))
            if len(rest) > 1 and max(rest) - min(rest) > 1e-5 * max(1, max(abs(q) for q in rest)):
                return 'month %d: several loads outside of the peaks: %s' % (i, sorted(rest)[:4])
        if k != len(hour):
            return '%d entries after the last month' % (len(hour) - k)


@oracle('C13')
class Calendar:
    weight = .2

    @staticmethod
    def gen(rng):
        for i in range(1, 400):
            yield {'m': i}
        while True:
            yield {'m': rng.randint(1, 2000)}

    @staticmethod
    def check(c):
        i = c['m']
        if GL.monthdays(i) != month_days(i):
            return 'month %d has %d days, not %r' % (i, month_days(i), GL.monthdays(i))
        if GL.lastmonthhour(i) != month_start(i + 1):
            return 'month %d ends at hour %d, not %r' % (i, month_start(i + 1), GL.lastmonthhour(i))
        if GL.firstmonthhour(i) != month_start(i) + 1:
            return 'month %d starts at hour %d, not %r' % (i, month_start(i) + 1, GL.firstmonthhour(i))


# ------------------------------------------------------------------ C14
def simulate48(q, g, ts, k2, Rb):
    out = [0.]
    for n in range(1, 49):
        s = 0.
        for j in range(1, n + 1):
            s += (q[j] - q[j - 1]) / k2 * float(g(math.log((n - j + 1) * 3600. / ts)))
        out.append(s + q[n] * Rb)
    return out


def reach(T, x):
    """Time at which the piecewise linear T first reaches x (T increasing)."""
    if x >= T[-1]:
        return 48.
    for n in range(1, 49):
        if T[n] >= x:
            if T[n] == T[n - 1]:
                return float(n)
            return n - 1 + (x - T[n - 1]) / (T[n] - T[n - 1])
    return 48.


@oracle('C14')
class Duration:
    mincases = 12

    @staticmethod
    def gen(rng):
        for c in profiles(rng):
            c['R'] = rng.choice([None, 0., .1, 1.])
            yield c

    @staticmethod
    def check(c):
        v = profile(c)
        L = loads(c, v, c.get('R'))
        ext = v[-24:] + v + v[:24]
        for i in range(1, 13):
            m = v[START[i - 1]:START[i]]
            pk, avg = max(m), math.fsum(m) / len(m)
            d = L.monthly_peak_duration[i]
            if not (0 <= d <= 48) or not np.isscalar(d) and np.ndim(d):
                return 'month %d: duration %r' % (i, d)
            day = m.index(pk) // 24 if pk > 0 else -1
            s = START[i - 1] + 24 * day + 24
            two = ext[s:s + 48]
            top = max(two)
            if top == 0:
                if d != 1e-6:
                    return 'month %d: no load, duration %r' % (i, d)
                continue
            g, ts, k2, Rb = L.g_sts, L.ts, L.two_pi_k, L.Rb
            pkT = simulate48([0.] + [top - avg] * 48, g, ts, k2, Rb)
            nm = simulate48([0.] + [(x - avg) / top * x for x in two], g, ts, k2, Rb)
            x = max(nm)
            slope = (pkT[-1] - pkT[1])
            if x <= 1e-9 * max(1., pk) or slope <= 1e-9 * max(1, abs(pkT[-1])):
                continue        # round-off decides between the cases
            w = reach(pkT, x)
            # tolerance in time from a tolerance in temperature
            lo, hi = reach(pkT, x - 1e-7 * abs(x) - 1e-12), reach(pkT, x + 1e-7 * abs(x) + 1e-12)
            if not (lo - 1e-4 <= d <= hi + 1e-4):
                return 'month %d: duration %r, but the constant load reaches the highest temperature at %r' % (i, d, w)
