"""C22: what the two kinds of simulation run."""
from .lib import *
from .ghelib import *


def setup(w, c, fixed=True):
    n = c.int('n')
    c.assume(n.z >= 3)
    load, lf = symlist(c, 'load', n)
    hour, hf = symlist(c, 'hour', n)
    q, qf = symlist(c, 'q', 8760)
    s, e = c.int('start'), c.int('end')
    c.assume(z3.And(s.z >= 1, e.z >= s.z))
    sp = Stub(start_month=s, end_month=e)
    g = heat_exchanger(w, c, hybrid_load=Stub(load=SArr(load), hour=SArr(hour)), hourly_extraction_ground_loads=q, sim_params=sp)
    return g, n, lf, hf, q, qf, s, e


def t_hourly(w, c):
    g, n, lf, hf, q, qf, s, e = setup(w, c)
    g.ghe.simulate(method='hourly')
    Q, t, _, _ = g.calls[-1]
    Q, t = to_list(Q), to_list(t)
    months = e.z - s.z + 1
    c.prove('as many hours as the months have', z3.ToReal(zval(Q.length())) * 12 == z3.ToReal(months) * 8760)
    c.prove('a time for every load', zval(t.length()) == zval(Q.length()))
    i = index(c, Q.length())
    c.prove('hour by hour from hour 1', Rz(t[i]) == z3.ToReal(i.z) + 1)
    c.prove('the annual profile, repeated, extraction negative', Rz(Q[i]) == -qf(Num(i.z % 8760)))
    same(c, g, q, qf)


def same(c, g, q, qf):
    l = to_list(g.ghe.hourly_extraction_ground_loads)
    k = index(c, 8760, 'k')
    c.prove('the loads given keep their length', z3.And(zval(q.length()) == 8760, zval(l.length()) == 8760))
    c.prove('the loads given are unchanged', z3.And(Rz(q[k]) == qf(k), Rz(l[k]) == qf(k)))


def t_hybrid(w, c):
    g, n, lf, hf, q, qf, s, e = setup(w, c)
    if c.choose(2):
        g.ghe.simulate()
    else:
        g.ghe.simulate(method='hybrid')
    Q, t, _, _ = g.calls[-1]
    Q, t = to_list(Q), to_list(t)
    c.prove('every load of the hybrid sequence', zval(Q.length()) == n.z - 2)
    c.prove('its own hours', zval(t.length()) == n.z - 2)
    i = index(c, Q.length())
    c.prove('hybrid loads in watts', Rz(Q[i]) == 1000 * lf(i + 2))
    c.prove('hybrid hours', Rz(t[i]) == hf(i + 2))
    same(c, g, q, qf)
    hl = g.ghe.hybrid_load
    k = index(c, n, 'k2')
    c.prove('the hybrid sequence is unchanged', z3.And(Rz(to_list(hl.load)[k]) == lf(k), Rz(to_list(hl.hour)[k]) == hf(k)))


def t_other(w, c):
    g, n, lf, hf, q, qf, s, e = setup(w, c)
    m = [SymStr([c.int('method')]), 'Hourly', 'monthly', None][c.choose(4)]
    c.prove('other methods are refused', z3.BoolVal(raises(c, lambda: g.ghe.simulate(method=m), ValueError)))


def targets():
    F = ['ghedt/ground_heat_exchangers.py:GHE.simulate']
    return [Target('simulate hourly', t_hourly, F), Target('simulate hybrid', t_hybrid, F), Target('simulate otherwise', t_other, F)]
