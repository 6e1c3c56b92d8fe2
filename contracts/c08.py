"""C08: sizing, and the root solver it uses."""
from .lib import *

EQ = 'ghedt.peak_load_analysis_tool.equivalance'
GHEM = 'ghedt.ground_heat_exchangers'


class Brent:
    """Contract of scipy.optimize.brentq for objectives it converges on: of a
    bracket whose ends have different signs it returns an end that is a root,
    the lower one first, or a point within the tolerances of some root. The
    objective is called with any points of the bracket, the last of them
    arbitrary."""

    def __init__(self, c, F):
        self.c, self.F, self.used = c, F, []

    def __call__(self, f, a, b, xtol, rtol, maxiter):
        c = self.c
        A, Bz = Rz(a), Rz(b)
        fa, fb = Rz(f(a)), Rz(f(b))
        c.prove('the root solver is given a bracket', z3.Or(z3.And(fa <= 0, fb >= 0), z3.And(fa >= 0, fb <= 0)))
        c.prove('the tolerances are positive', z3.And(Rz(xtol) > 0, Rz(rtol) > 0))
        last = c.real('last_point')
        c.assume(z3.And(last.z >= z3.If(A <= Bz, A, Bz), last.z <= z3.If(A <= Bz, Bz, A)))
        f(last)
        x, root = c.real('solution'), c.real('root')
        lo, hi = z3.If(A <= Bz, A, Bz), z3.If(A <= Bz, Bz, A)
        c.assume(z3.And(x.z >= lo, x.z <= hi, root.z >= lo, root.z <= hi))
        d = x.z - root.z
        tol = Rz(xtol) + Rz(rtol) * z3.If(x.z >= 0, x.z, -x.z)
        c.assume(z3.And(d <= tol, -d <= tol))
        c.assume(self.F(root.z) == 0)
        c.assume(z3.Implies(fa == 0, x.z == A))
        c.assume(z3.Implies(z3.And(fa != 0, fb == 0), x.z == Bz))
        if c.choose(2) == 0:       # the last call may or may not be at the solution
            f(x)
        self.used.append((A, Bz, x.z, root.z, Rz(xtol), Rz(rtol)))
        return x


def t_root(w, c):
    F = c.freshfun('objective', R, R)
    mod = w.load(EQ)
    c.cfg['brentq'] = bq = Brent(c, lambda z: F(z))
    x0, lo, up, xt, rt = (c.real(n) for n in ('x', 'lower', 'upper', 'xtol', 'rtol'))
    c.assume(z3.And(xt.z > 0, rt.z > 0))
    given = c.choose(4)
    kw = {}
    L, U = x0.z / 100, x0.z * 10
    if given & 1:
        kw['lower'] = lo
        L = lo.z
    if given & 2:
        kw['upper'] = up
        U = up.z
    tol = c.choose(2)
    if tol:
        kw.update(xtol=xt, rtol=rt)
    XT, RT = (xt.z, rt.z) if tol else (z3.Q(1, 10 ** 6), z3.Q(1, 10 ** 6))
    c.assume(L < U)
    x = Rz(mod.solve_root(x0, lambda z: Num(F(Rz(z))), **kw))
    fl, fu = F(L), F(U)
    brk = z3.Or(z3.And(fl <= 0, fu >= 0), z3.And(fl >= 0, fu <= 0))
    both0 = z3.And(fl == 0, fu == 0)
    c.prove('the upper bound if the objective is negative at both ends', z3.Implies(z3.And(fl < 0, fu < 0), x == U))
    c.prove('the lower bound if the objective is positive at both ends', z3.Implies(z3.And(fl > 0, fu > 0), x == L))
    used = [z3.And(a == L, b == U, x == s, z3.And(s - r <= XT + RT * z3.If(s >= 0, s, -s), r - s <= XT + RT * z3.If(s >= 0, s, -s)), F(r) == 0) for a, b, s, r, _, _ in bq.used]
    c.prove('a root, within the tolerances asked, if the bounds bracket one', z3.Implies(brk, z3.Or(used + [F(x) == 0])))
    c.prove('a point between the bounds', z3.And(x >= L, x <= U))


def t_size(w, c):
    lo, hi, H0 = c.real('min_Height'), c.real('max_Height'), c.real('H0')
    c.assume(z3.And(lo.z > 0, lo.z < hi.z, H0.z > 0))
    MX, MN = c.freshfun('hottest', R, R), c.freshfun('coldest', R, R)
    amax, amin = c.real('max_EFT_allowable'), c.real('min_EFT_allowable')
    a, b = z3.Real('?a'), z3.Real('?b')

    def X(h):
        p, q = MX(h) - amax.z, amin.z - MN(h)
        return z3.If(p >= q, p, q)
    c.assume(z3.ForAll([a, b], z3.Implies(a <= b, X(b) <= X(a)), patterns=[z3.MultiPattern(MX(a), MX(b))]))
    mod = w.load(EQ)
    cls = w.load(GHEM).GHE
    c.cfg['brentq'] = bq = Brent(c, lambda z: -X(z))
    method = ['hybrid', 'hourly', None][c.choose(3)]
    sims = []
    bh = Stub(H=H0)

    def simulate(method='hybrid'):
        sims.append((bh.H, method))
        h = Rz(bh.H)
        return Num(MX(h)), Num(MN(h))
    g = blank(cls, bhe=Stub(b=bh), simulate=simulate,
              sim_params=Stub(min_Height=lo, max_Height=hi, max_EFT_allowable=amax, min_EFT_allowable=amin))
    g.size() if method is None else g.size(method=method)
    H = Rz(g.bhe.b.H)
    c.prove('the height is in the allowed range', z3.And(H >= lo.z, H <= hi.z))
    c.prove('the heat exchanger was simulated', z3.BoolVal(len(sims) > 0))
    if not sims:
        return
    c.prove('it is simulated at the height it is left at', Rz(sims[-1][0]) == H)
    for _, m in sims:
        c.prove('it is simulated by the method asked', z3.BoolVal(m == (method or 'hybrid')))
    everywhere, nowhere = X(lo.z) <= 0, X(hi.z) > 0
    warned = z3.BoolVal(len(c.store.get('warns', [])) > 0)
    T = z3.Q(1, 10 ** 6)
    tols = [z3.And(H == s, s - r <= T + T * s, r - s <= T + T * s, X(r) == 0, r >= lo.z, r <= hi.z) for _, _, s, r, _, _ in bq.used]
    c.prove('a height solving excess = 0 if the limits are exceeded at the minimum and met at the maximum',
            z3.Implies(z3.And(z3.Not(everywhere), z3.Not(nowhere)), z3.Or(tols + [X(H) == 0])))
    c.prove('the minimum height if the limits are met everywhere', z3.Implies(everywhere, H == lo.z))
    c.prove('the maximum height if they are met nowhere', z3.Implies(nowhere, H == hi.z))
    c.prove('a warning if the minimum height is used', z3.Implies(everywhere, warned))
    c.prove('a warning if the maximum height is used', z3.Implies(nowhere, warned))



def targets():
    E, G = 'ghedt/peak_load_analysis_tool/equivalance.py:', 'ghedt/ground_heat_exchangers.py:'
    return [Target('solve_root', t_root, [E + 'solve_root']),
            Target('size', t_size, [G + 'GHE.size', E + 'solve_root', G + 'BaseGHE.cost'])]
