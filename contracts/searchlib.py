"""A search whose candidate fields and their excess temperatures are arbitrary."""
from .lib import *

SR = 'ghedt.search_routines'
GH = 'ghedt.ground_heat_exchangers'


def field(c, tag, n=None, d=0):
    """Field number tag of list d: at least one borehole."""
    L = uf('field_len', I, I, I)
    X, Y = uf('field_x', I, I, I, R), uf('field_y', I, I, I, R)
    t, dz = zval(tag), zval(d)
    c.axiom(L(dz, t) >= 1)
    f = SList()
    f.segs = [Comp(Num(L(dz, t)), lambda k: (Num(X(dz, t, zval(k))), Num(Y(dz, t, zval(k)))))]
    f.ghost['tag'] = (Num(dz), Num(t))
    return f


def domain(c, n, d=0):
    return SList.of(Comp(n, lambda t: field(c, t, d=d)))


def tag_of(f):
    t = f.ghost.get('tag') if isinstance(f, SList) else None
    if t is None:
        raise Unsupported('a field which is not one of the list')
    return t[0].z, t[1].z


class Responses:
    """Excess temperature of field t of list d at a height."""

    def __init__(self, w, c, monotone_height=True):
        self.c = c
        self.lo, self.hi = c.real('min_allowed'), c.real('max_allowed')
        self.mx, self.mn = uf('max_EFT', I, I, R, R), uf('min_EFT', I, I, R, R)
        self.minH, self.maxH = c.real('min_Height'), c.real('max_Height')
        c.assume(z3.And(self.minH.z > 0, self.minH.z <= self.maxH.z))
        self.sim = Stub(min_Height=self.minH, max_Height=self.maxH, min_EFT_allowable=self.lo, max_EFT_allowable=self.hi)
        self.cls = w.load(GH).GHE

    def X(self, tag, H):
        d, t = tag
        a = self.mx(d, t, H) - self.hi.z
        b = self.lo.z - self.mn(d, t, H)
        return z3.If(a >= b, a, b)

    def height_monotone(self, d=None):
        """The excess never grows with height (assumed by the property)."""
        t = z3.Int('?t')
        dz = z3.IntVal(0) if d is None else zval(d)
        self.c.assume(z3.ForAll([t], self.X((dz, t), self.maxH.z) <= self.X((dz, t), self.minH.z), patterns=[self.mx(dz, t, self.maxH.z)]))

    def install(self, s, hook=None):
        """initialize_ghe by its contract (C07), simulate by its contract (C10)."""
        R_ = self

        def init(coordinates, H):
            tag = tag_of(coordinates)
            b = Stub(H=H)

            def simulate(method='hybrid'):
                s.simulated = (tag, b.H, method)
                return (Num(R_.mx(tag[0], tag[1], Rz(b.H))), Num(R_.mn(tag[0], tag[1], Rz(b.H))))
            g = Stub(bhe=Stub(b=b, fluid=Stub(rho=1)), simulate=simulate, field=coordinates, sim_params=R_.sim)
            setattr(g, 'cost', lambda a, b_: R_.cls.cost(g, a, b_))
            if hook is not None:
                hook(g, tag)
            s.ghe = g
        s.initialize_ghe = recorder(lambda self, coordinates, H: None, lambda a: init(a['coordinates'], a['H']), skip_self=True)


def pow2(k):
    return uf('pow2', I, I)(k if z3.is_expr(k) else zval(k))


def half(k):
    """half(0) = n - 2, half(k + 1) = floor(half(k) / 2): unfolded at k."""
    c = ctx()
    h = uf('half', I, I)
    kz = z3.simplify(k if z3.is_expr(k) else zval(k))
    for a in (kz, kz - 1):
        c.axiom(z3.Implies(a >= 0, z3.And(2 * h(a + 1) <= h(a), h(a) <= 2 * h(a + 1) + 1)))
    return h(kz)


def halving_lemma(c, n, m):
    """n <= 2 ** m implies half(m) <= 0, by induction on m."""
    h, p = uf('half', I, I), uf('pow2', I, I)
    k = c.fresh('k', I)
    a, b, q = c.fresh('h', I), c.fresh('h1', I), c.fresh('p', I)
    c.prove('lemma: halving (step)', z3.Implies(z3.And(n >= 2, a >= 0, q >= 1, a * q <= n - 2, 2 * b <= a, a <= 2 * b + 1), z3.And(b >= 0, b * (2 * q) <= n - 2)))
    c.prove('lemma: halving (end)', z3.Implies(z3.And(n >= 2, a >= 0, q >= 1, a * q <= n - 2, n <= q), a == 0))
    c.axiom(h(z3.IntVal(0)) == n - 2)
    c.assume(z3.Implies(z3.And(n >= 2, m >= 0, n <= p(m)), h(m) == 0))


def bisection_spec(c, X, n, max_iter, halve=False):
    """Loop over a shrinking bracket. X(t): excess of entry t at full height.
    Candidates over whichever integer variables the code uses."""

    def cands(L, k):
        out = []
        vs = L.ints()
        kz = zval(k)
        for a, za in vs.items():
            out.append(('%s counts the iterations' % a, za == kz))
            out.append(('%s is an index' % a, z3.And(za >= 0, za <= n - 1)))
            out.append(('%s is at most the iteration limit' % a, za <= max_iter))
            out.append(('%s is over' % a, X(za) > 0))
            out.append(('%s is within the limits' % a, X(za) <= 0))
            for b, zb in vs.items():
                if a == b:
                    continue
                out.append(('%s < %s' % (a, b), za < zb))
                out.append(('%s - %s shrinks' % (b, a), zb - za + kz <= n - 1))
                if halve:
                    out.append(('%s - %s halves' % (b, a), zb - za - 1 <= half(kz)))
        j = z3.Int('?j')
        for key, loc in L.locs.items():
            if loc.kind != 'dict':
                continue
            items, arr, _ = loc.get()
            if arr is None:
                continue
            dom, val = arr
            nm = 'dictionary '
            out.append((nm + 'holds indices', z3.ForAll([j], z3.Implies(z3.Select(dom, j), z3.And(j >= 0, j <= n - 1)), patterns=[z3.Select(dom, j)])))
            out.append((nm + 'holds the excess of its keys', z3.ForAll([j], z3.Implies(z3.Select(dom, j), z3.Select(val, j) == X(j)), patterns=[z3.Select(dom, j)])))
            for a, za in vs.items():
                out.append((nm + 'holds %s' % a, z3.Select(dom, za)))
        return out
    return {'inv': lambda L, k: [], 'cands': cands, 'first': True}


def witness_keys(c, terms):
    """The places of these keys among the keys of every dictionary (instances of facts assumed for all keys)."""
    for dom, n, f, pos in c.store.get('dictkeys', []):
        for t in terms:
            c.assume(z3.Implies(z3.Select(dom, t), z3.And(pos(t) >= 0, pos(t) < n, f(pos(t)) == t)))


def nested(c, m):
    """A nested list: m lists of at least one field each."""
    N = uf('list_len', I, I)

    def one(d):
        c = ctx()
        c.axiom(N(zval(d)) >= 1)
        l = domain(c, Num(N(zval(d))), d=d)
        l.ghost['list'] = Num(zval(d))
        return l
    return SList.of(Comp(m, one)), N


def search_contract(w, c, r, log):
    """Bisection1D.search by its contract (C05); log records the calls."""
    cls = w.load(SR).Bisection1D

    def search(self):
        c = ctx()
        dom = to_list(self.coordinates_domain)
        ct = self.calculated_temperatures
        c.prove('a search starts without temperatures of another list',
                z3.BoolVal(isinstance(ct, SDict) and ct.arr is None and not list(dict.keys(ct))))
        if c.choose(2):
            raise ValueError('not bracketed')
        n = dom.length()
        c.assume(zval(n) >= 1)
        key = c.int('search_key')
        c.assume(z3.And(key.z >= 0, key.z < zval(n)))
        co = dom[key]
        tag = tag_of(co)
        c.assume(r.X(tag, r.maxH.z) <= 0)
        self.initialize_ghe(co, r.maxH)
        D = z3.Const('dom!%s' % next(c.counter), z3.ArraySort(I, B))
        V = z3.Const('val!%s' % next(c.counter), z3.ArraySort(I, R))
        ct._touch()
        ct.arr = (D, V)
        j = z3.Int('?j')
        c.assume(z3.Select(D, key.z))
        one = dom.ghost['list'].z if 'list' in dom.ghost else None
        if one is not None:
            c.assume(z3.ForAll([j], z3.Implies(z3.Select(D, j), z3.And(j >= 0, j < zval(n), z3.Select(V, j) == r.X((one, j), r.maxH.z))), patterns=[z3.Select(D, j)]))
        c.assume(z3.Select(V, key.z) == r.X(tag, r.maxH.z))
        log.append(dict(domain=dom, list=one, key=key, field=co, tag=tag, ghe=self.ghe))
        return key, co
    cls.search = search


def constructor_contract(w, c, r, extra=None):
    """Bisection1D.__init__ by its contract (C07), without a search."""
    cls = w.load(SR).Bisection1D
    real_init = cls.__init__

    def act(a):
        s = a['self']
        for k in ('coordinates_domain', 'V_flow', 'flow', 'method', 'bhe_object', 'sim_params', 'hourly_extraction_ground_loads', 'max_iter', 'disp'):
            setattr(s, k, a[k])
        s.calculated_temperatures = SDict()
        r.install(s, hook=extra)
        s.initialize_ghe(to_list(a['coordinates_domain'])[0], r.minH)
        c.prove('the constructor does not search yet', z3.BoolVal(a['search'] is False))
    cls.__init__ = recorder(real_init, act)
