"""C15: responses are looked up, corrected and joined faithfully."""
from .lib import *

GF, GHM, PYG = 'ghedt.gfunction', 'ghedt.ground_heat_exchangers', 'pygfunction'


def increasing(c, X, n):
    a, b = z3.Int('?a'), z3.Int('?b')
    c.assume(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < n), X(a) < X(b)), patterns=[z3.MultiPattern(X(a), X(b))]))


def response(c, name, n):
    """n points of a response, in increasing time."""
    X, Y = uf(name + '_time', I, R), uf(name + '_value', I, R)
    increasing(c, X, zval(n))
    x, y = (SList.of(Comp(n, lambda t, F=F: Num(F(zval(t))))) for F in (X, Y))
    return x, y, X, Y


def index_of(F, e):
    e = z3.simplify(e)
    if z3.is_app(e) and e.decl().eq(F):
        return e.arg(0)
    raise Unsupported('not one of the points')


def is_joined(c, f, ns, nl, S, L):
    """f has all long-term points, after the short-term points before them."""
    (SX, SY), (LX, LY) = S, L
    xs, ys = to_list(f.x), to_list(f.y)
    m = zval(xs.length())
    c.prove('a value for every time', zval(ys.length()) == m)
    c.prove('all long-term points', m >= nl)
    s = m - nl
    j, k = c.fresh('j', I), c.fresh('k', I)
    g = z3.And(j >= 0, j < nl, s >= 0)
    with Assume(c, g):
        x, y = Rz(xs[Num(s + j)]), Rz(ys[Num(s + j)])
    c.prove('the long-term points come last, each with its own value', z3.Implies(g, z3.And(x == LX(j), y == LY(j))))
    g = z3.And(k >= 0, k < s)
    with Assume(c, g):
        x, y = Rz(xs[Num(k)]), Rz(ys[Num(k)])
    c.prove('the short-term points come first, each with its own value', z3.Implies(g, z3.And(x == SX(k), y == SY(k))))
    c.prove('only points of the short-term response come before', s <= ns)
    c.prove('only short-term points before the first long-term one', z3.Implies(g, SX(k) < LX(0)))
    c.prove('all short-term points before the first long-term one', z3.Implies(z3.And(s >= 0, s < ns, k >= s, k < ns), SX(k) >= LX(0)), facts=[z3.Implies(z3.And(k > s, s >= 0), SX(s) < SX(k))])


def t_combine(w, c):
    ns, nl = c.int('short'), c.int('long')
    c.assume(z3.And(ns.z >= 1, nl.z >= 1))
    sx, sy, SX, SY = response(c, 'short', ns)
    lx, ly, LX, LY = response(c, 'long', nl)
    f = w.load(GHM).BaseGHE.combine_sts_lts(lx, ly, sx, sy)
    is_joined(c, f, ns.z, nl.z, (SX, SY), (LX, LY))
    for l, n, F in ((sx, ns, SX), (sy, ns, SY), (lx, nl, LX), (ly, nl, LY)):
        k = index(c, n)
        c.prove('the lists given are left alone', z3.And(zval(l.length()) == n.z, Rz(l[k]) == F(k.z)))


def t_radius(w, c):
    n = c.int('n')
    c.assume(n.z >= 0)
    l, G = symlist(c, 'g', n)
    rb, rs = c.real('rb'), c.real('rb_star')
    c.assume(z3.And(rb.z > 0, rs.z > 0))
    r = to_list(w.load(GF).GFunction.borehole_radius_correction(l, rb, rs))
    c.prove('a value for every value', zval(r.length()) == n.z)
    k = index(c, n)
    v = Rz(r[k])
    q = rs.z / rb.z
    log = z3.simplify(G(k) - v)
    # the term the code takes the logarithm of
    a = log.arg(0) if z3.is_app(log) and log.decl().name() == 'log' else q
    fs = []
    if not z3.eq(a, q):
        c.prove('the logarithm of the ratio of the radii', a * rb.z == rs.z)
        a = z3.simplify(a)
    want = G(k) - zval(core.fn('log', Num(a)))
    if not c.valid(v == want) and log.decl().name() != 'log' and len([x for x in apps(v) if x == 'log']) > 1:
        raise Unsupported('logarithm of the ratio computed otherwise')
    c.prove('the logarithm is subtracted from every value', v == want)
    c.prove('the response given is left alone', z3.And(zval(l.length()) == n.z, Rz(l[k]) == G(k)))


def apps(z):
    out = [z.decl().name()] if z3.is_app(z) else []
    for x in z.children():
        out += apps(x)
    return out


class Table(Obj):
    """A dictionary of n values by height."""

    def __init__(self, n, K, value):
        self.n, self.K, self.value = n, K, value

    def vc_list(self):
        return SList.of(Comp(self.n, lambda t: Num(self.K(zval(t)))))

    def vc_len(self):
        return self.n

    def keys(self):
        return self.vc_list()

    def __contains__(self, k):
        raise Unsupported('a look into the stored heights')

    def __getitem__(self, k):
        return self.value(index_of(self.K, zval(k)))

    def get(self, k, d=None):
        return self[k]

    def values(self):
        return SList.of(Comp(self.n, lambda t: self.value(zval(t))))

    def items(self):
        return SList.of(Comp(self.n, lambda t: (Num(self.K(zval(t))), self.value(zval(t)))))


APART = z3.RealVal('1/1000')
ORDER = {'linear': 1, 'quadratic': 2, 'cubic': 3}


def stored(w, c, single=False):
    """Responses stored for n heights, at least a millimetre apart."""
    n, nt, B = 1 if single else c.int('heights'), c.int('times'), c.real('B')
    K, RB, D, T = (uf(x, I, R) for x in ('height', 'radius', 'depth', 'log_time'))
    G = uf('g', I, I, R)
    a, b = z3.Int('?a'), z3.Int('?b')
    c.assume(z3.And(zval(n) >= (1 if single else 2), nt.z >= 1, B.z > 0))
    c.assume(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < zval(n)), K(a) > 1), patterns=[K(a)]))
    c.assume(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < zval(n)), K(b) - K(a) >= APART), patterns=[z3.MultiPattern(K(a), K(b))]))
    row = lambda i: SList.of(Comp(nt, lambda t: Num(G(i, zval(t)))))
    g = w.load(GF).GFunction(B, Table(n, K, lambda i: Num(RB(i))), Table(n, K, lambda i: Num(D(i))), Table(n, K, row), SList.of(Comp(nt, lambda t: Num(T(zval(t))))), SList())
    return Stub(f=g, n=n, nt=nt, B=B, K=K, RB=RB, D=D, T=T, G=G)


def inverse(c):
    return lemma(c, 'H = B / (B/H)', 3, lambda r, H, B: z3.Implies(z3.And(H > 0, B > 0, r * H == B), z3.And(r > 0, 1 / r * B == H, B / r == H)))


def ask(c, s, h):
    """B/H of the stored height with index h."""
    r = c.real('B_over_H')
    H = s.K(h.z)
    f = inverse(c)
    c.assume(z3.And(H > 1, r.z * H == s.B.z))
    c.assume(f(r.z, H, s.B.z))
    return r


def interpolants(c, s, at):
    """Interpolation goes through the points given (scipy, trusted)."""
    def value(x, y, q):
        c2 = ctx()
        v = c2.real('value')
        xs, ys = to_list(x), to_list(y)
        for h in at:
            c2.assume(z3.Implies(z3.And(Rz(xs[h]) == Rz(q), h.z < zval(xs.length())), v.z == Rz(ys[h])))
        return v

    def new(f):
        xs, ys = to_list(f.x), to_list(f.y)
        if f.kind not in ORDER:
            raise Unsupported('interpolation of kind %s' % (f.kind,))
        ctx().prove('enough heights for the interpolation chosen', zval(xs.length()) >= ORDER[f.kind] + 1)

    class Lagrange(Obj):
        def __init__(self, x, y):
            self.x, self.y = x, y

        def __call__(self, q):
            return value(self.x, self.y, q)
    c.cfg['interp_new'] = new
    c.cfg['interp_call'] = lambda f, q: value(f.x, f.y, q)
    c.cfg['lagrange'] = lambda x, y: Lagrange(x, y)


def is_stored(c, s, h, r, again=''):
    if not (isinstance(r, tuple) and len(r) == 4):
        raise Unsupported('result of another shape')
    g, rb, D, H = r
    c.prove('the height asked for is used' + again, Rz(H) == s.K(h.z))
    g = to_list(g)
    c.prove('a value for every time' + again, zval(g.length()) == s.nt.z)
    k = index(c, s.nt)
    c.prove('the response stored for the height' + again, Rz(g[k]) == s.G(h.z, k.z))
    c.prove('the radius stored for the height' + again, Rz(rb) == s.RB(h.z))
    c.prove('the depth stored for the height' + again, Rz(D) == s.D(h.z))


def t_interpolate(w, c, kind):
    s = stored(w, c)
    h = index(c, s.n, 'h')
    at = [h]
    interpolants(c, s, at)
    k = dict(kind=kind) if kind else {}
    first = c.choose(2)
    if first:
        # another height was asked for before
        r0 = c.real('other')
        c.assume(r0.z > 0)
        s.f.g_function_interpolation(r0, **k)
    r = s.f.g_function_interpolation(ask(c, s, h), **k)
    is_stored(c, s, h, r, ', also when asked before' if first else '')


def t_single(w, c):
    s = stored(w, c, single=True)
    interpolants(c, s, [])
    h = Num(z3.IntVal(0))
    r = ask(c, s, h)
    is_stored(c, s, h, s.f.g_function_interpolation(r))
    q = c.real('other')
    H = c.real('H')
    f = inverse(c)
    c.assume(z3.And(q.z > 0, H.z > 0, q.z * H.z == s.B.z, f(q.z, H.z, s.B.z)))
    try:
        res = s.f.g_function_interpolation(q)
    except ValueError:
        return
    K0 = s.K(z3.IntVal(0))
    c.prove('another height is refused (0.1 %, at least 1 mm)', z3.Or(z3.And(H.z - K0 <= K0 / 1000, K0 - H.z <= K0 / 1000), z3.And(H.z - K0 <= APART, K0 - H.z <= APART)))
    g = to_list(res[0])
    k = index(c, s.nt)
    c.prove('it gets the response stored', z3.And(zval(g.length()) == s.nt.z, Rz(g[k]) == s.G(h.z, k.z)))
    c.prove('and the radius and depth stored', z3.And(Rz(res[1]) == s.RB(h.z), Rz(res[2]) == s.D(h.z)))


def rows(d):
    """Keys and values of a dictionary, in its order."""
    if not isinstance(d, dict) or getattr(d, 'arr', None) is not None:
        raise Unsupported('another kind of dictionary')
    return [(k, dict.__getitem__(d, k)) for k in dict.keys(d)]


def is_table(c, g, s, order=True):
    """The stored responses are those of the heights, in increasing height."""
    m = len(s.H)
    for what, d, want in (('response', g['g_lts'], None), ('radius', g['r_b_values'], s.RB), ('depth', g['D_values'], s.D)):
        r = rows(d)
        c.prove('a %s for every height' % what, z3.BoolVal(len(r) == m))
        if len(r) != m:
            continue
        for (a, _), (b, _) in zip(r, r[1:]):
            c.prove('%s in increasing height' % what, Rz(a) < Rz(b))
        for k, v in r:
            c.prove('%s of one of the heights' % what, z3.Or([Rz(k) == H.z for H in s.H]))
            for i, H in enumerate(s.H):
                if want is not None:
                    c.prove('each height has its own %s' % what, z3.Implies(Rz(k) == H.z, Rz(v) == Rz(want[i])))
                else:
                    l = to_list(v)
                    t = index(c, s.nt)
                    c.prove('each height has a response of all times', zval(l.length()) == s.nt.z)
                    c.prove('each height has its own response', z3.Implies(Rz(k) == H.z, Rz(l[t]) == s.G[i](t.z)))
    c.prove('the spacing given', Rz(g['B']) == s.B.z)
    c.prove('the times given', same(c, g['log_time'], s.times))
    c.prove('the locations given', same(c, g['bore_locations'], s.where))


def given(c, m):
    nt, n = c.int('times'), c.int('boreholes')
    c.assume(z3.And(nt.z >= 1, n.z >= 1))
    H = [c.real('H%d' % i) for i in range(m)]
    c.assume(z3.And([h.z > 0 for h in H] + ([z3.Distinct([h.z for h in H])] if m > 1 else [])))
    RB, D = ([c.real('%s%d' % (x, i)) for i in range(m)] for x in ('rb', 'D'))
    G = [uf('g%d' % i, I, R) for i in range(m)]
    T = uf('log_time', I, R)
    co, _, _ = points(c, n)
    s = Stub(H=H, RB=RB, D=D, nt=nt, T=T, times=SList.of(Comp(nt, lambda t: Num(T(zval(t))))), where=co, B=c.real('B'))
    s.__dict__['G'] = G
    return s


def t_database(w, c, m):
    s = given(c, m)
    depth = c.choose(2)
    d = SDict()
    for i in range(m):
        k = [s.B, '_', s.H[i], '_', s.RB[i]] + (['_', s.D[i]] if depth else [])
        d[SymStr(k)] = SList.of(Comp(s.nt, lambda t, F=s.G[i]: Num(F(zval(t)))))
    if not depth:
        s.D = [Num(z3.RealVal(2))] * m
    data = SDict()
    for k, v in (('g', d), ('bore_locations', s.where), ('logtime', s.times)):
        data[k] = v
    is_table(c, w.load(GF).GFunction.configure_database_file_for_usage(data), s)


def t_live(w, c, m):
    s = given(c, m)
    P = dict((k, Stub(what=k)) for k in 'fluid pipe grout'.split())
    soil = Stub(k=c.real('k_s'), rhoCp=c.real('rhoCp'))
    c.assume(z3.And(soil.k.z > 0, soil.rhoCp.z > 0))
    mass = c.real('m')
    bhe_object = Stub(what='bhe')
    mod = w.load(GF)
    asked = []

    def calculate(a):
        H = a['borehole'].H
        for i, h in enumerate(s.H):
            if ctx().valid(Rz(H) == h.z):
                break
        else:
            raise Unsupported('computed for another height')
        asked.append(i)
        c.prove('computed for the radius and depth of the height', z3.And(Rz(a['borehole'].r_b) == s.RB[i].z, Rz(a['borehole'].D) == s.D[i].z))
        c.prove('computed for the field given', same(c, a['coordinates'], s.where))
        c.prove('computed with the mass flow given', Rz(a['m_flow_borehole']) == mass.z)
        c.prove('computed with the parts given', z3.BoolVal(a['bhe_object'] is bhe_object and a['soil'] is soil and all(a[k] is v for k, v in P.items())))
        tv = to_list(a['time_values'])
        c.prove('computed at every time', zval(tv.length()) == s.nt.z)
        k = index(c, s.nt)
        e = zval(core.fn('exp', Num(s.T(k.z))))
        c.prove('computed at the times of the height', Rz(tv[k]) * 9 * soil.k.z == e * s.H[i].z * s.H[i].z * soil.rhoCp.z)
        return Stub(gFunc=SArr(SList.of(Comp(s.nt, lambda t, F=s.G[i]: Num(F(zval(t)))))))
    mod.calculate_g_function = recorder(mod.calculate_g_function, calculate)
    g = mod.compute_live_g_function(s.B, SList(s.H), SList(s.RB), SList(s.D), mass, bhe_object, s.times, s.where, P['fluid'], P['pipe'], P['grout'], soil)
    c.prove('every height is computed', z3.BoolVal(sorted(set(asked)) == list(range(m))))
    c.prove('stored responses come with no interpolation yet', z3.BoolVal(len(g.interpolation_table) == 0))
    is_table(c, dict(g_lts=g.g_lts, r_b_values=g.r_b_values, D_values=g.D_values, B=g.B, log_time=g.log_time, bore_locations=g.bore_locations), s)


def t_grab(w, c):
    """What the heat exchanger uses: looked up, corrected, joined."""
    ns, nl = c.int('short'), c.int('long')
    c.assume(z3.And(ns.z >= 1, nl.z >= 1))
    sx, sy, SX, SY = response(c, 'short', ns)
    lx, ly, LX, LY = response(c, 'long', nl)
    rb, rs, q = c.real('rb'), c.real('own_radius'), c.real('B_over_H')
    c.assume(z3.And(rb.z > 0, rs.z > 0, q.z > 0))
    cl, CL = symlist(c, 'corrected', nl)
    joined = Stub(what='joined')
    seen = []
    F = w.load(GF).GFunction

    def look(B_over_H, kind='default'):
        seen.append('look')
        c.prove('looked up at the ratio asked for', Rz(B_over_H) == q.z)
        return (ly, rb, c.real('depth'), c.real('height'))

    def correct(a):
        seen.append('correct')
        c.prove('the response looked up is corrected', z3.BoolVal(a['g_function'] is ly) if a['g_function'] is ly else same(c, a['g_function'], ly))
        c.prove('from its own radius to the one of the exchanger', z3.And(Rz(a['rb']) == rb.z, Rz(a['rb_star']) == rs.z))
        return cl

    def join(a):
        seen.append('join')
        for k, v in (('log_time_lts', lx), ('g_lts', cl), ('log_time_sts', sx), ('g_sts', sy)):
            c.prove('joined: ' + k, same(c, a[k], v))
        return joined
    cls = w.load(GHM).BaseGHE
    g = blank(cls, GFunction=Stub(g_function_interpolation=look, borehole_radius_correction=recorder(F.borehole_radius_correction, correct), log_time=lx),
              bhe=Stub(b=Stub(r_b=rs)), radial_numerical=Stub(lntts=SArr(sx), g=SArr(sy)), combine_sts_lts=recorder(cls.combine_sts_lts, join))
    r = g.grab_g_function(q)
    c.prove('the joined response is used', z3.BoolVal(r is joined))
    c.prove('looked up, corrected and joined', z3.BoolVal(sorted(seen) == ['correct', 'join', 'look']))


def t_compute(w, c):
    """Responses for sizing: at the bounds and between, of the own field."""
    lo, hi = c.real('min_Height'), c.real('max_Height')
    c.assume(z3.And(lo.z > 0, hi.z > lo.z))
    n, nt = c.int('n'), c.int('nt')
    c.assume(z3.And(n.z >= 1, nt.z >= 1))
    co, _, _ = points(c, n)
    lt, _ = symlist(c, 'log_time', nt)
    P = dict((k, Stub(what=k)) for k in 'fluid pipe grout soil bhe_object'.split())
    b = Stub(r_b=c.real('r_b'), D=c.real('D'), H=c.real('H'))
    m, S = c.real('m'), c.real('spacing')
    new = Stub(what='new')
    seen = []
    gf = w.load(GF)

    def live(a):
        seen.append(1)
        hs, rbs, ds = (to_list(a[k]) for k in ('H_values', 'r_b_values', 'D_values'))
        if not (hs.concrete_len() and rbs.concrete_len() and ds.concrete_len()):
            raise Unsupported('a list of heights of open length')
        hv, rv, dv = hs.vals(), rbs.vals(), ds.vals()
        c.prove('a radius and a depth for every height', z3.BoolVal(len(hv) == len(rv) == len(dv)))
        c.prove('responses of the least and the greatest height allowed', z3.And(z3.Or([Rz(h) == lo.z for h in hv]), z3.Or([Rz(h) == hi.z for h in hv])))
        c.prove('responses of heights allowed', z3.And([z3.And(Rz(h) >= lo.z, Rz(h) <= hi.z) for h in hv]))
        c.prove('radius and depth of the exchanger', z3.And([Rz(x) == b.r_b.z for x in rv] + [Rz(x) == b.D.z for x in dv]))
        c.prove('the spacing of the exchanger', Rz(a['B']) == S.z)
        c.prove('the field and times of the exchanger', z3.And(same(c, a['coordinates'], co), same(c, a['log_time'], lt)))
        c.prove('the parts and flow of the exchanger', z3.And([z3.BoolVal(a[k] is v) for k, v in P.items()] + [Rz(a['m_flow_borehole']) == m.z]))
        return new
    gf.compute_live_g_function = recorder(gf.compute_live_g_function, live)
    ghm = w.load(GHM)
    bhe = Stub(b=b, m_flow_borehole=m, **{k: P[k] for k in ('fluid', 'pipe', 'grout', 'soil')})
    g = blank(ghm.BaseGHE, sim_params=Stub(min_Height=lo, max_Height=hi), bhe=bhe, bhe_object=P['bhe_object'], B_spacing=S, GFunction=Stub(bore_locations=co, log_time=lt))
    g.compute_g_functions()
    c.prove('the responses are kept', z3.BoolVal(len(seen) == 1 and g.GFunction is new))


def targets():
    G, E = 'ghedt/gfunction.py:GFunction.', 'ghedt/ground_heat_exchangers.py:BaseGHE.'
    return [Target('combine_sts_lts', t_combine, [E + 'combine_sts_lts']),
            Target('borehole_radius_correction', t_radius, [G + 'borehole_radius_correction'])] + \
           [Target('g_function_interpolation ' + (k or 'as chosen'), (lambda w, c, k=k: t_interpolate(w, c, k)), [G + 'g_function_interpolation', G + '__init__'])
            for k in (None, 'linear', 'quadratic', 'cubic', 'lagrange')] + \
           [Target('g_function_interpolation, one height', t_single, [G + 'g_function_interpolation', G + '__init__']),
            Target('grab_g_function', t_grab, [E + 'grab_g_function']),
            Target('compute_g_functions', t_compute, [E + 'compute_g_functions'])] + \
           [Target('configure_database_file_for_usage, %d heights' % m, (lambda w, c, m=m: t_database(w, c, m)), [G + 'configure_database_file_for_usage'],
                   bounded='%d stored heights' % m) for m in (1, 2, 3, 4)] + \
           [Target('compute_live_g_function, %d heights' % m, (lambda w, c, m=m: t_live(w, c, m)),
                   ['ghedt/gfunction.py:compute_live_g_function', G + 'configure_database_file_for_usage', G + '__init__'], bounded='%d stored heights' % m) for m in (1, 2, 3)]
