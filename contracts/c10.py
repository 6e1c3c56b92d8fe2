"""C10: the excess temperature; what a simulation reports."""
from .lib import *
from .ghelib import *


def t_cost(w, c):
    cls = w.load(GHEM).GHE
    hi, lo = c.real('max_allowed'), c.real('min_allowed')
    mx, mn = c.real('max_EFT'), c.real('min_EFT')
    g = blank(cls, sim_params=Stub(max_EFT_allowable=hi, min_EFT_allowable=lo))
    r = Rz(g.cost(mx, mn))
    ok = z3.And(mx.z <= hi.z, mn.z >= lo.z)
    c.prove('excess not positive exactly when both limits are kept', (r <= 0) == ok)
    a, b = mx.z - hi.z, lo.z - mn.z
    c.prove('a violation is the larger of the two', z3.Implies(z3.Not(ok), r == z3.If(a >= b, a, b)))
    c.prove('the excess is the larger of the two differences', r == z3.If(a >= b, a, b))


def t_simulate(w, c):
    method = ['hybrid', 'hourly'][c.choose(2)]
    n = c.int('n')
    c.assume(n.z >= 3)
    load, _ = symlist(c, 'load', n)
    hour, _ = symlist(c, 'hour', n)
    q, _ = symlist(c, 'q', 8760)
    s, e = c.int('start'), c.int('end')
    c.assume(z3.And(s.z >= 1, e.z >= s.z))
    g = heat_exchanger(w, c, hybrid_load=Stub(load=SArr(load), hour=SArr(hour)), hourly_extraction_ground_loads=q,
                       sim_params=Stub(start_month=s, end_month=e, max_EFT_allowable=c.real('hi'), min_EFT_allowable=c.real('lo')))
    happened(c, g)
    before = len(g.calls)
    r = pair(g.ghe.simulate(method=method) if c.choose(2) == 0 or method == 'hourly' else g.ghe.simulate())
    c.prove('one prediction is made', z3.BoolVal(len(g.calls) == before + 1))
    mx, mn = Rz(r[0]), Rz(r[1])
    i = index(c, g.m)
    j = z3.Int('?j')
    for which, m in (('max', r[0]), ('min', r[1])):
        try:
            l, wit = models.bound_by_extreme(c, which, m, i)
        except KeyError:
            pass
    k1 = [x for x in c.store.get('extremes', [])]
    t = Rz(g.out[i])
    c.prove('no temperature above the reported maximum', t <= mx)
    c.prove('no temperature below the reported minimum', t >= mn)
    f = g.outf
    ws = [wit for (_, _, _, wit) in k1]
    inr = lambda x: z3.And(x >= 0, x < g.m.z)
    c.prove('the reported maximum occurs', z3.Or([z3.And(inr(wt.z), f(wt) == mx) for wt in ws] + [z3.Exists([j], z3.And(inr(j), f(Num(j)) == mx))]))
    c.prove('the reported minimum occurs', z3.Or([z3.And(inr(wt.z), f(wt) == mn) for wt in ws] + [z3.Exists([j], z3.And(inr(j), f(Num(j)) == mn))]))
    kept = to_list(g.ghe.HPEFT)
    c.prove('the temperatures predicted are kept', z3.And(zval(kept.length()) == g.m.z, Rz(kept[i]) == t))
    kd = to_list(g.ghe.dTb)
    c.prove('the wall temperature changes are kept', z3.And(zval(kd.length()) == g.m.z, Rz(kd[i]) == Rz(g.dT[i])))
    c.prove('the height is left alone', Rz(g.ghe.bhe.b.H) == g.H.z)


def targets():
    F = 'ghedt/ground_heat_exchangers.py:'
    return [Target('cost', t_cost, [F + 'BaseGHE.cost']), Target('simulate', t_simulate, [F + 'GHE.simulate'])]
