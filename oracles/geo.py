"""C01 layouts, C02-C04 candidate domains, C20 design, C21 polygons."""
import math, random, itertools
from fractions import Fraction as F
from common import *
import ghedt as dt


def spec_shape(shape, a):
    """Set of grid indices the shape prescribes."""
    if shape == 'rectangle':
        return [(i, j) for i in range(a[0]) for j in range(a[1])]
    nx, ny = a[0], a[1]
    if shape == 'open_rectangle':
        return [(i, j) for i in range(nx) for j in range(ny) if i in (0, nx - 1) or j in (0, ny - 1)]
    if shape == 'L_shape':
        return [(i, j) for i in range(nx) for j in range(ny) if i == 0 or j == 0]
    if shape == 'U_shape':
        return [(i, j) for i in range(nx) for j in range(ny) if j == 0 or i in (0, nx - 1)]
    if shape == 'lop_U':
        n2 = a[2]
        return [(i, j) for i in range(nx) for j in range(max(ny, n2))
                if j == 0 or (i == 0 and j < ny) or (i == nx - 1 and j < n2)]
    if shape == 'C_shape':
        n2 = a[2]
        return [(i, j) for i in range(nx) for j in range(ny)
                if j == 0 or i in (0, nx - 1) or (j == ny - 1 and 1 <= i <= n2)]
    raise KeyError(shape)


@oracle('C01')
class Shapes:
    mincases = 900

    @staticmethod
    def gen(rng):
        combos = [(s, (nx, ny)) for nx in range(1, 8) for ny in range(1, 8)
                  for s in ('rectangle', 'open_rectangle', 'L_shape', 'U_shape')]
        combos += [('lop_U', (nx, n1, n2)) for nx in range(2, 6) for n1 in range(1, 6) for n2 in range(1, 6)]
        combos += [('C_shape', (nx, ny, n2)) for nx in range(3, 8) for ny in range(2, 6) for n2 in range(1, nx - 1)]
        for s, a in combos:
            yield {'shape': s, 'a': list(a), 'b': [rng.choice([5., 4.5, 7.3, 1.]), rng.choice([5., 6.25, 3.1])],
                   'o': [0, 0]}
        while True:
            s = rng.choice(['rectangle', 'rectangle', 'open_rectangle', 'L_shape', 'U_shape', 'lop_U', 'C_shape'])
            m = rng.choice([6, 12, 40])
            nx, ny = rng.randint(1, m), rng.randint(1, m)
            a = [nx, ny]
            if s == 'lop_U':
                a = [max(2, nx), ny, rng.randint(1, m)]
            if s == 'C_shape':
                nx = max(3, nx)
                a = [nx, max(2, ny), rng.randint(1, nx - 2)]
            o = [0, 0]
            if s == 'rectangle' and rng.random() < .6:
                o = [round(rng.uniform(-20, 20), 2), round(rng.uniform(-20, 20), 2)]
            yield {'shape': s, 'a': a, 'b': [rng.uniform(.5, 12), rng.choice([rng.uniform(.5, 12), 5.0, 1e-2])], 'o': o}

    @staticmethod
    def check(c):
        s, a, (bx, by), o = c['shape'], c['a'], c['b'], c['o']
        f = getattr(dt.coordinates, s)
        if s == 'rectangle':
            r = f(a[0], a[1], bx, by, origin=tuple(o)) if o != [0, 0] else f(a[0], a[1], bx, by)
        elif len(a) == 2:
            r = f(a[0], a[1], bx, by)
        else:
            r = f(a[0], a[1], bx, by, a[2])
        g, e = grid(r, bx, by, o[0], o[1])
        if e:
            return '%s%s: %s' % (s, tuple(a), e)
        for p, (i, j) in zip(sorted(r), sorted(g)):
            if not close(p[0], o[0] + i * bx, 1e-9) or not close(p[1], o[1] + j * by, 1e-9):
                return '%s%s: borehole %r is off its grid point' % (s, tuple(a), p)
        d = multiset_diff(g, spec_shape(s, a))
        if d:
            return '%s%s: %s' % (s, tuple(a), d)
        t = dt.coordinates.transpose_coordinates(r)
        if [(p[0], p[1]) for p in t] != [(p[1], p[0]) for p in r]:
            return 'transposing %s%s does not swap x and y of every point in order' % (s, tuple(a))


@oracle('C01')
class Zoned:
    mincases = 400

    @staticmethod
    def gen(rng):
        for nx in range(3, 7):
            for ny in range(3, 7):
                for ix in range(1, nx + 1):
                    for iy in range(1, ny + 1):
                        if ix <= nx - 1 or iy <= 1:
                            yield {'a': [nx, ny, ix, iy], 'b': [5., rng.choice([5., 6.5])]}
        while True:
            nx, ny = rng.randint(2, 20), rng.randint(2, 20)
            yield {'a': [nx, ny, rng.randint(0 if nx < 3 else 1, nx), rng.randint(0 if ny < 3 else 1, ny)],
                   'b': [rng.uniform(.5, 12), rng.uniform(.5, 12)]}

    @staticmethod
    def check(c):
        (nx, ny, ix, iy), (bx, by) = c['a'], c['b']
        r, e = call(dt.coordinates.zoned_rectangle, nx, ny, bx, by, ix, iy)
        if ix > nx - 2 or iy > ny - 2:
            if not isinstance(e, ValueError):
                return 'zoned_rectangle%s: more interior rows than fit were not refused with ValueError' % (tuple(c['a']),)
            return None
        if e is not None:
            return 'zoned_rectangle%s raises %r' % (tuple(c['a']), e)
        want = [(i * bx, j * by) for i, j in spec_shape('open_rectangle', [nx, ny])]
        ux, uy = (nx - 1) * bx / (ix + 1), (ny - 1) * by / (iy + 1)
        want += [((i + 1) * ux, (j + 1) * uy) for i in range(ix) for j in range(iy)]
        q = lambda l: sorted((round(p[0], 6), round(p[1], 6)) for p in l)
        from collections import Counter
        got, w = q(r), q(want)
        if len(got) != len(w):
            return 'zoned_rectangle%s has %d boreholes, not %d' % (tuple(c['a']), len(got), len(w))
        left = list(want)
        for p in r:
            k = min(range(len(left)), key=lambda k: abs(left[k][0] - p[0]) + abs(left[k][1] - p[1]))
            if not (close(left[k][0], p[0], 1e-9, 1e-7) and close(left[k][1], p[1], 1e-9, 1e-7)):
                return 'zoned_rectangle%s: borehole %r is extra or misplaced' % (tuple(c['a']), p)
            left.pop(k)


# ------------------------------------------------------------------ domains
def feasible(L, bmin, bmax, nmin=2):
    """A spacing strictly inside the limits (or an exactly representable one)
    fits, and at least nmin rows."""
    k0 = max(1, math.ceil(L / bmax - 1e-9))
    k1 = math.floor(L / bmin + 1e-9)
    if k1 < k0:
        return False
    # clear of rounding at the ends, unless everything is integral
    if all(float(v).is_integer() for v in (L, bmin, bmax)):
        return k0 + 1 >= nmin
    if abs(L / bmax - round(L / bmax)) < 1e-9 or abs(L / bmin - round(L / bmin)) < 1e-9:
        if k1 <= k0:
            return False
    return k0 + 1 >= nmin


def land(rng):
    m = rng.random()
    if m < .35:
        lx, ly = rng.randint(10, 120), rng.randint(10, 120)
        bmin = rng.choice([3, 4, 5, 6])
        bx, by = rng.choice([8, 10, 12, 15]), rng.choice([7, 10, 11, 20])
    elif m < .5:
        lx = rng.choice([36.5, 85., 50., 40., 60.])
        ly = rng.choice([lx, 85., 36.5, 20., 90.])
        bmin, bx, by = rng.choice([3., 4.45, 5.]), rng.choice([10., 5., 6.]), rng.choice([12., 10., 5.5])
    elif m < .9:
        lx, ly = rng.uniform(8, 130), rng.uniform(8, 130)
        bmin = rng.uniform(2.5, 7)
        bx, by = bmin * rng.uniform(1.0, 3.5), bmin * rng.uniform(1.0, 3.5)
    else:
        # near multiples of the spacing limits
        bmin = rng.choice([3., 4.5, 5., 5.5])
        bx, by = rng.choice([6., 9., 11.]), rng.choice([7.5, 10., 11.])
        lx = bmin * rng.randint(3, 20) + rng.choice([0, 1e-6, -1e-6, .01, -.01])
        ly = bx * rng.randint(2, 9) + rng.choice([0, 1e-6, -1e-6, .01])
    if rng.random() < .1:
        ly = lx
    return {'lx': float(lx), 'ly': float(ly), 'bmin': float(bmin), 'bx': float(bx), 'by': float(by)}


FIXED = [dict(lx=36.5, ly=85., bmin=3., bx=10., by=12.), dict(lx=85., ly=36.5, bmin=3., bx=10., by=12.),
         dict(lx=50., ly=100., bmin=4., bx=10., by=13.), dict(lx=100., ly=50., bmin=4., bx=13., by=10.),
         dict(lx=40., ly=40., bmin=5., bx=9., by=13.), dict(lx=13., ly=60., bmin=5., bx=6., by=20.),
         dict(lx=60., ly=13., bmin=5., bx=20., by=6.), dict(lx=30., ly=30., bmin=5., bx=5., by=5.),
         dict(lx=100., ly=33., bmin=4., bx=25., by=8.), dict(lx=33., ly=100., bmin=4., bx=8., by=25.),
         dict(lx=266., ly=55.*5, bmin=5., bx=20., by=20.)]


def lands(rng):
    for f in FIXED:
        yield dict(f)
    while True:
        yield land(rng)


def build(kind, c):
    """Nested list of candidate fields, or Skip if nothing fits."""
    lx, ly, bmin, bx, by = c['lx'], c['ly'], c['bmin'], c['bx'], c['by']
    if bx < bmin or by < bmin:
        raise Skip()
    d = dt.domains
    if kind == 'rectangle':
        L1 = max(lx, ly)
        if not feasible(L1, bmin, bx) or (lx * ly) / bmin ** 2 > 3000:
            raise Skip()
        return [d.rectangular(lx, ly, bmin, bx)]
    if kind == 'bi-rectangle':
        if not feasible(lx, bmin, bx) or not feasible(ly, bmin, by) or (lx * ly) / bmin ** 2 > 900:
            raise Skip()
        return d.bi_rectangle_nested(lx, ly, bmin, bx, by)
    if kind == 'bi-zoned':
        if not feasible(lx, bmin, bx, 3) or not feasible(ly, bmin, by, 3) or (lx * ly) / bmin ** 2 > 350:
            raise Skip()
        return d.bi_rectangle_zoned_nested(lx, ly, bmin, bx, by)


def fields(nested):
    for a, dom in enumerate(nested):
        for b, f in enumerate(dom):
            yield a, b, f


def rows(vals, tol):
    out = []
    for v in sorted(vals):
        if not out or v - out[-1] > tol:
            out.append(v)
    return out


def mk(pid, kind_, fn, w=1.0, n=60):
    class O:
        weight = w
        mincases = n

        @staticmethod
        def gen(rng):
            for c in lands(rng):
                yield dict(c, kind=kind_)

        @staticmethod
        def check(c):
            return fn(c, build(c['kind'], c))
    O.__name__ = fn.__name__ + '_' + kind_.replace('-', '_')
    oracle(pid)(O)


def inside(c, nested):
    tx, ty = 1e-9 * max(1, c['lx']), 1e-9 * max(1, c['ly'])
    for a, b, f in fields(nested):
        for x, y in f:
            if not (-tx <= x <= c['lx'] + tx and -ty <= y <= c['ly'] + ty):
                return 'field [%d][%d] has borehole (%r, %r) outside of the %r by %r land' % (a, b, x, y, c['lx'], c['ly'])


def spacing(c, nested):
    k = c['kind']
    bmax = (c['bx'], c['bx']) if k == 'rectangle' else (c['bx'], c['by'])
    for a, b, f in fields(nested):
        seen = set((round(p[0], 6), round(p[1], 6)) for p in f)
        if len(seen) != len(f):
            return 'field [%d][%d] has boreholes less than the minimum spacing apart' % (a, b)
        if k == 'bi-zoned':
            X, Y = max(p[0] for p in f), max(p[1] for p in f)
            t = 1e-6
            per = ([p[0] for p in f if p[1] < t or (len(f) > 1 and p[1] > Y - t)],
                   [p[1] for p in f if p[0] < t or (len(f) > 1 and p[0] > X - t)])
            # rows spaced over the perimeter, per direction
            sp = []
            for d in (0, 1):
                r = rows([v for v in per[d]], t)
                df = [q - p for p, q in zip(r, r[1:])]
                sp.append(df)
            inner = [p for p in f if t < p[0] < X - t and t < p[1] < Y - t]
            for d in (0, 1):
                df = sp[d]
                if df and (min(df) < c['bmin'] * (1 - 1e-9) or max(df) > bmax[d] * (1 + 1e-9)):
                    return 'field [%d][%d]: perimeter spacing %r..%r in direction %d, limits %r..%r' % (
                        a, b, min(df), max(df), d, c['bmin'], bmax[d])
            # interior rows only exist on closed fields
            if inner:
                for d in (0, 1):
                    r = rows([p[d] for p in inner] + [0., (X, Y)[d]], t)
                    df = [q - p for p, q in zip(r, r[1:])]
                    if min(df) < min(sp[d]) * (1 - 1e-9):
                        return 'field [%d][%d]: interior rows %r apart, perimeter rows %r, direction %d' % (
                            a, b, min(df), min(sp[d]), d)
            continue
        ds = []
        for d in (0, 1):
            r = rows([p[d] for p in f], 1e-6)
            df = [q - p for p, q in zip(r, r[1:])]
            ds += df
            if df and min(df) < c['bmin'] * (1 - 1e-9):
                return 'field [%d][%d]: rows %r apart, minimum spacing %r' % (a, b, min(df), c['bmin'])
            if df and max(df) > bmax[d] * (1 + 1e-9):
                return 'field [%d][%d]: rows %r apart in direction %d, maximum spacing %r' % (a, b, max(df), d, bmax[d])
            # full rows only: neighbours on the grid
            if len(f) > 1 and df and max(df) - min(df) > 1e-6:
                return 'field [%d][%d]: uneven rows %r..%r' % (a, b, min(df), max(df))
        if k == 'rectangle' and ds and max(ds) - min(ds) > 1e-6:
            return 'field [%d][%d]: spacing differs between the directions, %r..%r' % (a, b, min(ds), max(ds))


def growth(c, nested):
    if not nested:
        return 'no candidate list at all'
    for a, dom in enumerate(nested):
        if not dom:
            return 'candidate list %d is empty' % a
        lens = [len(f) for f in dom]
        if c['kind'] != 'bi-zoned' or a == 0:
            if lens[0] != 1:
                return 'candidate list %d starts with %d boreholes' % (a, lens[0])
        if min(lens) == 0:
            return 'candidate list %d contains an empty field' % a
        for i in range(1, len(lens)):
            if lens[i] < lens[i - 1]:
                return 'candidate list %d shrinks from %d to %d boreholes at entry %d' % (a, lens[i - 1], lens[i], i)
    last = [len(dom[-1]) for dom in nested]
    for i in range(1, len(last)):
        if last[i] < last[i - 1]:
            return 'the largest fields of lists %d and %d shrink from %d to %d' % (i - 1, i, last[i - 1], last[i])


for kk, w in (('rectangle', 1), ('bi-rectangle', 2), ('bi-zoned', 3)):
    mk('C02', kk, inside, w)
    mk('C03', kk, spacing, w)
    mk('C04', kk, growth, w)


def gc(**k):
    return dt.media.GeometricConstraints(**k)


def make_design(routine, g, flow='borehole', method='hybrid', **over):
    kw = dict(V_flow=0.2, borehole=object(), bhe_object=object(), fluid=object(), pipe=object(), grout=object(),
              soil=object(), sim_params=object(), geometric_constraints=g,
              hourly_extraction_ground_loads=[0.] * 3, method=method, routine=routine, flow=flow)
    kw.update(over)
    return dt.design.Design(**kw), kw


@oracle('C02')
class NearSquareLand:
    mincases = 60

    @staticmethod
    def gen(rng):
        for L, B in ((100., 5.), (99., 5.), (155., 5.), (10., 20.), (33., 4.), (4., 4.), (12.5, 2.5)):
            yield {'L': L, 'B': B}
        while True:
            yield {'L': rng.uniform(2, 120), 'B': rng.choice([4., 5., 6.5, rng.uniform(3, 9)])}

    @staticmethod
    def check(c):
        L, B = c['L'], c['B']
        if L / B > 40:
            raise Skip()
        d, _ = make_design('near-square', gc(B=B, length=L))
        for k, f in enumerate(d.coordinates_domain):
            for x, y in f:
                if not (-1e-9 <= x <= L + 1e-9 and -1e-9 <= y <= L + B + 1e-9):
                    return 'near-square field %d has borehole (%r, %r); length %r, spacing %r' % (k, x, y, L, B)


@oracle('C04')
class NearSquareList:
    @staticmethod
    def gen(rng):
        for lo in range(1, 6):
            for up in range(lo, 9):
                yield {'lo': lo, 'up': up, 'B': 5.}
        while True:
            lo = rng.randint(1, 15)
            yield {'lo': lo, 'up': lo + rng.randint(0, 12), 'B': rng.uniform(2, 9)}

    @staticmethod
    def check(c):
        lo, up, B = c['lo'], c['up'], c['B']
        r = dt.domains.square_and_near_square(lo, up, B)
        want = [(n, n + j) for n in range(lo, up + 1) for j in (0, 1)]
        if len(r) != len(want):
            return 'square_and_near_square(%d, %d) has %d fields, not %d' % (lo, up, len(r), len(want))
        for f, (a, b) in zip(r, want):
            g, e = grid(f, B, B)
            e = e or multiset_diff(g, [(i, j) for i in range(a) for j in range(b)])
            if e:
                return 'square_and_near_square(%d, %d), field %d by %d: %s' % (lo, up, a, b, e)


@oracle('C04')
class Reorder:
    mincases = 200

    @staticmethod
    def gen(rng):
        yield {'n': [1, 1]}
        yield {'n': [3, 1, 2]}
        yield {'n': []}
        while True:
            yield {'n': [rng.randint(1, 6) for _ in range(rng.randint(0, 14))]}

    @staticmethod
    def check(c):
        dom = [[(float(k), float(i)) for i in range(n)] for k, n in enumerate(c['n'])]
        r = dt.domains.reorder_domain([list(f) for f in dom])
        if sorted(map(str, r)) != sorted(map(str, dom)):
            return 'reordering fields of sizes %s does not return the same fields' % c['n']
        if [len(f) for f in r] != sorted(c['n']):
            return 'reordering fields of sizes %s returns sizes %s' % (c['n'], [len(f) for f in r])


# ------------------------------------------------------------------ design
NEED = {'near-square': ['B', 'length'], 'rectangle': ['width', 'length', 'B_min', 'B_max_x'],
        'bi-rectangle': ['width', 'length', 'B_min', 'B_max_x', 'B_max_y'],
        'bi-zoned': ['width', 'length', 'B_min', 'B_max_x', 'B_max_y']}
VALS = [{'B': 5., 'length': 45., 'width': 33., 'B_min': 5., 'B_max_x': 9., 'B_max_y': 12.},
        {'B': 6., 'length': 28., 'width': 47., 'B_min': 4.5, 'B_max_x': 11., 'B_max_y': 8.}]


@oracle('C20')
class Create:
    mincases = 300

    @staticmethod
    def gen(rng):
        allk = ['B', 'length', 'width', 'B_min', 'B_max_x', 'B_max_y']
        for r, need in NEED.items():
            for v in (0, 1):
                yield {'routine': r, 'given': allk, 'v': v, 'flow': 'borehole', 'method': 'hybrid'}
                yield {'routine': r, 'given': need, 'v': v, 'flow': 'system', 'method': 'hourly'}
            for k in need:
                yield {'routine': r, 'given': [q for q in allk if q != k], 'v': 0, 'flow': 'borehole', 'method': 'hybrid'}
        for r in ('square', '', 'bi-rectangular', 'near_square', 'Rectangle', 'polygon', None):
            yield {'routine': r, 'given': allk, 'v': 0, 'flow': 'borehole', 'method': 'hybrid'}
        while True:
            yield {'routine': rng.choice(list(NEED)), 'given': [k for k in allk if rng.random() < .8],
                   'v': rng.randint(0, 1), 'flow': rng.choice(['borehole', 'system']),
                   'method': rng.choice(['hybrid', 'hourly'])}

    @staticmethod
    def check(c):
        r = c['routine']
        v = {k: VALS[c['v']][k] for k in c['given']}
        ok = r in NEED and all(k in v for k in NEED[r])
        out, e = call(make_design, r, gc(**v), c['flow'], c['method'])
        if ok and e is not None:
            return 'a complete %s design is refused: %r' % (r, e)
        if not ok and e is None:
            return 'a %s design with constraints %s is created' % (r, sorted(v))
        if not ok:
            return None
        d, kw = out
        D = dt.domains
        if r == 'near-square':
            import numpy as np
            want = D.square_and_near_square(1, int(math.floor(v['length'] / v['B']) + 1), v['B'])
            got = d.coordinates_domain
        elif r == 'rectangle':
            want, got = D.rectangular(v['length'], v['width'], v['B_min'], v['B_max_x']), d.coordinates_domain
        elif r == 'bi-rectangle':
            want = D.bi_rectangle_nested(v['length'], v['width'], v['B_min'], v['B_max_x'], v['B_max_y'])
            got = d.coordinates_domain_nested
        else:
            want = D.bi_rectangle_zoned_nested(v['length'], v['width'], v['B_min'], v['B_max_x'], v['B_max_y'])
            got = d.coordinates_domain_nested
        if got != want:
            return 'the %s design does not build its candidate list from its own constraints %s' % (r, v)
        # running it
        S = dt.search_routines
        import inspect
        rec = {}
        saved = {n: getattr(S, n) for n in ('Bisection1D', 'Bisection2D', 'BisectionZD')}
        try:
            for n, cls in saved.items():
                sig = inspect.signature(cls.__init__)

                def fake(*a, _n=n, _s=sig, **k):
                    b = _s.bind(None, *a, **k)
                    b.apply_defaults()
                    rec['cls'] = _n
                    rec['args'] = dict(b.arguments)
                    rec['obj'] = obj = object()
                    return obj
                setattr(S, n, fake)
            got_obj = d.find_design(disp=False)
        finally:
            for n, cls in saved.items():
                setattr(S, n, cls)
        want_cls = {'near-square': 'Bisection1D', 'rectangle': 'Bisection1D', 'bi-rectangle': 'Bisection2D',
                    'bi-zoned': 'BisectionZD'}[r]
        if rec.get('cls') != want_cls:
            return 'running a %s design uses %s' % (r, rec.get('cls'))
        if got_obj is not rec['obj']:
            return 'running a %s design does not return its search' % r
        a = rec['args']
        dom = a.get('coordinates_domain', a.get('coordinates_domain_nested'))
        if dom is not got:
            return 'the %s search does not get the candidate list of the design' % r
        for k in ('V_flow', 'borehole', 'bhe_object', 'fluid', 'pipe', 'grout', 'soil', 'sim_params',
                  'hourly_extraction_ground_loads', 'method', 'flow'):
            if a[k] is not kw[k] and a[k] != kw[k]:
                return 'the %s search gets another %s than the design' % (r, k)
        if a.get('search', True) is not True or a.get('max_iter', 15) < 15:
            return 'the %s search is weakened: %s' % (r, {k: a[k] for k in ('search', 'max_iter') if k in a})


# ------------------------------------------------------------------ polygons
def side(poly, p):
    """1 inside, 0 on, -1 outside; exact (Fractions)."""
    x, y = F(p[0]), F(p[1])
    n = len(poly)
    ins = False
    for i in range(n):
        (x1, y1), (x2, y2) = poly[i], poly[(i + 1) % n]
        x1, y1, x2, y2 = F(x1), F(y1), F(x2), F(y2)
        cr = (x2 - x1) * (y - y1) - (y2 - y1) * (x - x1)
        if cr == 0 and min(x1, x2) <= x <= max(x1, x2) and min(y1, y2) <= y <= max(y1, y2):
            return 0
        if (y1 > y) != (y2 > y):
            t = x1 + (y - y1) * (x2 - x1) / (y2 - y1)
            if x < t:
                ins = not ins
    return 1 if ins else -1


def poly(rng, w, h, star=True):
    k = rng.choice([3, 4, 4, 5, 6, 8])
    if rng.random() < .35:
        x0, y0 = rng.randint(0, w // 2), rng.randint(0, h // 2)
        x1, y1 = rng.randint(x0 + 2, w), rng.randint(y0 + 2, h)
        p = [[x0, y0], [x1, y0], [x1, y1], [x0, y1]]
        if rng.random() < .5:
            p = p[::-1]
        if rng.random() < .3 and x1 - x0 > 3 and y1 - y0 > 3:   # L shaped
            xm, ym = rng.randint(x0 + 1, x1 - 1), rng.randint(y0 + 1, y1 - 1)
            p = [[x0, y0], [x1, y0], [x1, ym], [xm, ym], [xm, y1], [x0, y1]]
        return p
    cx, cy = w / 2, h / 2
    ang = sorted(rng.uniform(0, 2 * math.pi) for _ in range(k))
    p = []
    for a in ang:
        r = rng.uniform(.4, 1.)
        q = [int(cx + r * cx * math.cos(a)), int(cy + r * cy * math.sin(a))]
        if q not in p:
            p.append(q)
    if len(p) < 3:
        return [[0, 0], [w, 0], [w, h]]
    return p


@oracle('C21')
class Cutout:
    mincases = 300

    @staticmethod
    def gen(rng):
        while True:
            w, h = rng.randint(6, 60), rng.randint(6, 60)
            pts = [[rng.randint(0, 2 * w) / 2., rng.randint(0, 2 * h) / 2.] for _ in range(rng.randint(0, 40))]
            p = poly(rng, w, h)
            for q in p:
                if rng.random() < .4:
                    pts.append([float(q[0]), float(q[1])])
            a, b = rng.choice(p), rng.choice(p)
            pts.append([(a[0] + b[0]) / 2., (a[1] + b[1]) / 2.])
            yield {'pts': pts, 'poly': p if rng.random() < .9 else [], 'inside': rng.random() < .5,
                   'contour': rng.random() < .5, 'default': rng.random() < .1}

    @staticmethod
    def check(c):
        pts = [tuple(p) for p in c['pts']]
        P = [list(q) for q in c['poly']]
        keepin = [list(p) for p in P]
        src = list(pts)
        ri, kc = c['inside'], c['contour']
        if c['default']:
            ri, kc = True, True
            r = dt.feature_recognition.remove_cutout(src, boundary=P)
        else:
            r = dt.feature_recognition.remove_cutout(src, boundary=P, remove_inside=ri, keep_contour=kc)
        if src != pts or P != keepin:
            return 'remove_cutout changes its arguments'
        if not P:
            want = pts
        else:
            want = []
            for p in pts:
                s = side(P, p)
                if s == 0:
                    ok = kc
                elif ri:
                    ok = s < 0
                else:
                    ok = s > 0
                if ok:
                    want.append(p)
        if len(r) != len(want) or any(not (close(a[0], b[0], 1e-9, 1e-9) and close(a[1], b[1], 1e-9, 1e-9))
                                      for a, b in zip(r, want)):
            return 'remove_cutout(remove_inside=%s, keep_contour=%s) keeps %s, not %s' % (ri, kc, r[:6], want[:6])


@oracle('C21')
class PolyDomain:
    weight = 2.0
    mincases = 25

    @staticmethod
    def gen(rng):
        yield {'prop': [[0, 0], [40, 0], [40, 30], [0, 30]], 'bld': None, 'b': [5., 10., 12.]}
        yield {'prop': [[0, 0], [40, 0], [40, 30], [0, 30]], 'bld': [[8, 8], [22, 8], [22, 20], [8, 20]], 'b': [5., 10., 12.]}
        yield {'prop': [[0, 0], [30, 0], [30, 44], [0, 44]], 'bld': [[0, 0], [10, 0], [10, 10], [0, 10]], 'b': [5., 10., 12.]}
        while True:
            w, h = rng.randint(16, 50), rng.randint(16, 50)
            yield {'prop': poly(rng, w, h), 'bld': rng.choice([None, [], poly(rng, w // 2, h // 2)]),
                   'b': [rng.choice([4., 5.]), rng.choice([8., 10.]), rng.choice([9., 12.])]}

    @staticmethod
    def check(c):
        P, Bd, (bmin, bx, by) = c['prop'], c['bld'], c['b']
        X, Y = max(p[0] for p in P), max(p[1] for p in P)
        if X < 2 * bmin or Y < 2 * bmin or not feasible(X, bmin, bx) or not feasible(Y, bmin, by):
            raise Skip()
        if Bd:
            r = dt.domains.polygonal_land_constraint([list(p) for p in P], bmin, bx, by, building_description=[list(p) for p in Bd])
        elif Bd is None:
            r = dt.domains.polygonal_land_constraint([list(p) for p in P], bmin, bx, by)
        else:
            r = dt.domains.polygonal_land_constraint([list(p) for p in P], bmin, bx, by, building_description=[])
        base = dt.domains.bi_rectangle_nested(X, Y, bmin, bx, by)
        tol = 2e-4

        def near(poly_, p):
            """p is as good as on the boundary (cv2 works on 1e-4 m)"""
            for a, b in zip(poly_, poly_[1:] + poly_[:1]):
                dx, dy = b[0] - a[0], b[1] - a[1]
                t = max(0., min(1., ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / float(dx * dx + dy * dy or 1)))
                if math.hypot(p[0] - a[0] - t * dx, p[1] - a[1] - t * dy) <= tol:
                    return True
            return False
        if len(r) != len(base):
            return 'the polygonal design has %d lists, the bi-rectangular one %d' % (len(r), len(base))
        for a, dom in enumerate(r):
            allowed = []
            for f in base[a]:
                must, may = [], []
                for p in f:
                    ok0 = side(P, p) >= 0 and (not Bd or side(Bd, p) < 0)
                    fuzzy = near(P, p) or bool(Bd) and near(Bd, p)
                    if all((F(float(v)) * 10000).denominator == 1 for v in p):
                        fuzzy = False  # a point the polygon test sees exactly
                    if fuzzy:
                        may.append(p)
                    elif ok0:
                        must.append(p)
                        may.append(p)
                allowed.append((must, may))
            for f in dom:
                if not f:
                    return 'an empty candidate is kept'
            q = lambda p: (round(p[0], 5), round(p[1], 5))
            cand = [([q(p) for p in m], set(q(p) for p in y)) for m, y in allowed]
            # an assignment of the fields to the candidates (augmenting paths)
            owner = {}
            fits = []
            for f in dom:
                fs = [q(p) for p in f]
                ss = set(fs)
                fits.append([k for k, (m, y) in enumerate(cand)
                             if set(m) <= ss and ss <= y and len(ss) == len(fs)])

            def assign(i, tried):
                for k in fits[i]:
                    if k not in tried:
                        tried.add(k)
                        if k not in owner or assign(owner[k], tried):
                            owner[k] = i
                            return True
                return False
            for i, f in enumerate(dom):
                if not assign(i, set()):
                    return 'candidate %s... of list %d is not a bi-rectangular candidate with only disallowed boreholes removed' % (f[:5], a)
            # ... and of the candidates which must appear to the fields
            fits = [[i for i in range(len(dom)) if k in fits[i]] if m else [] for k, (m, y) in enumerate(cand)]
            owner = {}
            for k, (m, y) in enumerate(cand):
                if m and not assign(k, set()):
                    return 'a bi-rectangular candidate with %d allowed boreholes is missing from list %d' % (len(m), a)
            lens = [len(f) for f in dom]
            if lens != sorted(lens):
                return 'the polygonal list %d is not in growing order' % a
