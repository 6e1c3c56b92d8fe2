"""C05: the one-dimensional search."""
from .lib import *
from .searchlib import *


def setup(w, c, mono_list):
    n, mi = c.int('n'), c.int('max_iter')
    c.assume(z3.And(n.z >= 1, mi.z >= 0))
    r = Responses(w, c)
    r.height_monotone()
    X = lambda t: r.X((z3.IntVal(0), t), r.maxH.z)
    cls = w.load(SR).Bisection1D
    s = blank(cls, coordinates_domain=domain(c, n), sim_params=r.sim, method='hybrid', max_iter=mi, disp=False, calculated_temperatures=SDict(), ghe=Stub(what='first'))
    r.install(s)
    if mono_list:
        t, q = z3.Int('?t'), z3.Int('?q')
        mx = lambda t: r.mx(z3.IntVal(0), t, r.maxH.z)
        c.assume(z3.ForAll([t, q], z3.Implies(z3.And(t >= 0, t <= q, q < n.z), X(q) <= X(t)), patterns=[z3.MultiPattern(mx(t), mx(q))]))
        halving_lemma(c, n.z, mi.z)
    c.cfg['loopspecs'] = {'search': bisection_spec(c, X, n.z, mi.z, halve=mono_list)}
    return s, r, X, n, mi


def t_search(w, c, mono=False):
    s, r, X, n, mi = setup(w, c, mono)
    bracket = []
    c.cfg['after_loop'] = lambda L: bracket.extend(L.ints().values())
    Z = z3.IntVal(0)
    first_max, first_min, last = X(Z), r.X((Z, Z), r.minH.z), X(n.z - 1)
    try:
        res = s.search()
    except ValueError:
        return
    over = z3.And(first_max > 0, last > 0)
    under = z3.And(last <= 0, first_min <= 0)
    c.prove('refused if first and last field both exceed the limits', z3.Not(z3.And(first_min > 0, over)))
    c.prove('refused if first and last field stay below at all heights', z3.Not(z3.And(first_min < 0, last < 0)))
    key, co = pair(res)
    if key is None:
        c.prove('a field is returned', z3.BoolVal(False))
        return
    t = zval(key)
    c.prove('the index is one of the list', z3.And(t >= 0, t < n.z))
    d, tag = tag_of(co)
    c.prove('the field returned is the entry with the index returned', z3.And(d == 0, tag == t))
    c.prove('the field returned is within the limits at full height', X(t) <= 0)
    g = s.ghe
    c.prove('the exchanger is of the field returned', tag_of(g.field)[1] == t)
    c.prove('the exchanger is at full height', Rz(g.bhe.b.H) == r.maxH.z)
    ct = s.calculated_temperatures
    if isinstance(ct, SDict):
        ct.to_array()
        dom, val = ct.arr
        j = c.fresh('key', I)
        c.prove('the temperatures kept are those of entries of the list', z3.Implies(z3.Select(dom, j), z3.And(j >= 0, j < n.z, z3.Select(val, j) == X(j))))
        c.prove('the temperature of the field returned is kept', z3.Select(dom, t))
    if mono:
        j = c.fresh('smaller', I)
        witness_keys(c, [t] + bracket)
        c.prove('no smaller field is within the limits', z3.Implies(z3.And(j >= 0, j < t, n.z <= pow2(mi.z)), X(j) > 0))


def targets():
    F = 'ghedt/search_routines.py:'
    fs = [F + 'Bisection1D.search', F + 'Bisection1D.calculate_excess', 'ghedt/utilities.py:check_bracket', 'ghedt/utilities.py:sign', 'ghedt/ground_heat_exchangers.py:BaseGHE.cost']
    return [Target('search', t_search, fs), Target('search of a list with falling excess', lambda w, c: t_search(w, c, True), fs)]
