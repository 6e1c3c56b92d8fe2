"""C09: fluid temperatures by superposition."""
from .lib import *

GHEM = 'ghedt.ground_heat_exchangers'


def t_detailed(w, c):
    cls = w.load(GHEM).GHE
    n = c.int('n')
    c.assume(n.z >= 1)
    Q, qf = symlist(c, 'Q', n)
    t, tf = symlist(c, 'time', n)
    nb = c.int('nbh')
    c.assume(nb.z >= 1)
    k, H, Tg, Rb, m, cp, ts = (c.real(x) for x in ('k', 'H', 'Tg', 'Rb', 'm', 'cp', 'ts'))
    for x in (k, H, m, cp, ts):
        c.assume(x.z > 0)
    # elapsed times are positive: the grid increases
    p, q = z3.Int('?p'), z3.Int('?q')
    c.assume(z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < q, q < n.z), tf(Num(p)) < tf(Num(q))), patterns=[z3.MultiPattern(tf(Num(p)), tf(Num(q)))]))
    c.assume(tf(0) > 0)
    G = c.freshfun('g', R, R)

    def g(x):
        if num_like(x):
            return Num(G(Rz(x)))
        return SArr(models.map_list(to_list(x), lambda v: Num(G(Rz(v)))))
    b = Stub(H=H, r_b=c.real('r_b'))
    bhe = Stub(b=b, soil=Stub(k=k, ugt=Tg), m_flow_borehole=m, fluid=Stub(cp=cp), compute_effective_borehole_resistance=lambda *a, **kw: Rb)
    ghe = blank(cls, nbh=models.s_float(nb), bhe=bhe, radial_numerical=Stub(t_s=ts))
    r = pair(ghe._simulate_detailed(SArr(Q), SArr(t), g))
    T, dT = to_list(r[0]), to_list(r[1])
    c.prove('a temperature for every load', zval(T.length()) == n.z)
    c.prove('a wall temperature change for every load', zval(dT.length()) == n.z)
    i = index(c, n)
    pi = Rz(models.PI)

    def step(j):
        """Change of load at step j times the response at the time elapsed since."""
        j = Num(zval(j))
        before_q = ite(j >= 1, Num(qf(j - 1)), 0)
        before_t = ite(j >= 1, Num(tf(j - 1)), 0)
        lag = (Num(tf(i)) - before_t) * 3600 / ts
        return (Num(qf(j)) - before_q) / nb / H / (2 * Num(pi) * k) * Num(G(Rz(core.fn('log', lag))))
    now = Num(qf(i)) / nb
    rest = Tg + now / H * Rb - now / (2 * m * cp)
    models.prove_linear_sum(c, 'the temperature is the superposition of all steps so far', T[i], rest, i + 1, step)
    models.prove_linear_sum(c, 'the wall temperature change is the superposition of all steps so far', dT[i], 0, i + 1, step)
    for l, f, nm in ((Q, qf, 'loads'), (t, tf, 'times')):
        c.prove('the %s given are unchanged' % nm, z3.And(zval(l.length()) == n.z, Rz(l[i]) == f(i)))


def targets():
    F = 'ghedt/ground_heat_exchangers.py:'
    return [Target('_simulate_detailed', t_detailed, [F + 'BaseGHE._simulate_detailed'])]
