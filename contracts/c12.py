"""C12: monthly summaries of an hourly profile."""
from .lib import *

GL = 'ghedt.peak_load_analysis_tool.ground_loads'
DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
OFF = [24 * sum(DAYS[:i]) for i in range(13)]


def profile(c):
    """A year of non-negative hourly loads."""
    hourly, f = symlist(c, 'hourly', 8760)
    t = z3.Int('?h')
    # (the facts used are instances of non-negativity and of nothing else)
    F = f(Num(t)).decl()
    c.assume(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < 8760), F(t) >= 0), patterns=[F(t)]))
    f = lambda i: F(zval(i) if not z3.is_expr(i) else i)
    return hourly, f


def empty(w, hourly, **k):
    d = dict(hourly=hourly, days_in_month=SList([0] + DAYS), monthly_total=SList([0.] * 13), monthly_peak=SList([0.] * 13),
             monthly_average=SList([0.] * 13), monthly_peak_day=SList([0.] * 13), monthly_two_day_hourly_peak=SList([SList([0])]),
             monthly_two_day_fluid_temps_nm=SList([SList([0])]), monthly_two_day_fluid_temps_pk=SList([SList([0])]), monthly_peak_duration=SList([0] * 13))
    d.update(k)
    return blank(w.load(GL).Loads, **d)


def t_split(w, c):
    hourly, f = profile(c)
    c.cfg['rolled'] = {'split_load_by_month'}
    L = empty(w, hourly)
    L.split_load_by_month()
    m = 1 + c.choose(12, 'month')
    off, h = OFF[m - 1], 24 * DAYS[m - 1]
    total, peak, avg, day = (L.monthly_total[m], L.monthly_peak[m], L.monthly_average[m], L.monthly_peak_day[m])
    at = lambda j: Num(f(zval(j) + off))
    models.prove_linear_sum(c, "the total is the sum of the month's hours", total, 0, h, at)
    c.prove('the average is the mean', Rz(avg) * h == Rz(total))
    j = index(c, h, 'j')
    p = Rz(peak)
    try:
        models.bound_by_extreme(c, 'max', peak, j)
    except KeyError:
        pass
    c.prove("no hour of the month exceeds the peak", f(j.z + off) <= p)
    t = z3.Int('?t')
    some = lambda a, b: z3.Not(z3.ForAll([t], z3.Implies(z3.And(t >= a, t < b), f(t) != p), patterns=[f(t)]))
    c.prove('the peak is reached in the month', some(z3.IntVal(off), z3.IntVal(off + h)))
    d = zval(day)
    if not d.is_int():
        if not c.valid(z3.IsInt(d)):
            c.prove('the peak day is a whole number', z3.IsInt(d))
        d = z3.ToInt(d)
    with Assume(c, p > 0):
        c.prove("the peak day is a day of the month", z3.Implies(p > 0, z3.And(d >= 1, d <= DAYS[m - 1])))
        c.prove('the peak is reached on the peak day', z3.Implies(p > 0, some(off + (d - 1) * 24, off + d * 24)))
        c.prove('the peak is not reached on an earlier day', z3.Implies(z3.And(p > 0, j.z < (d - 1) * 24), f(j.z + off) != p))
    c.prove('the profile is left as it is', z3.BoolVal(L.hourly is hourly and const_of(hourly.length()) == 8760))
    k = index(c, 8760, 'k')
    c.prove('no hour of the profile changes', Rz(hourly.at(k)) == f(k.z))


def t_annual(w, c):
    """The months follow each other and make up the year: the totals of
    consecutive stretches of hours add up to that of all of them."""
    c.prove('the months make up the year', z3.BoolVal(OFF[0] == 0 and OFF[12] == 8760 and all(OFF[i + 1] == OFF[i] + 24 * DAYS[i] for i in range(12))))
    G = w.load(GL)
    hourly, f = profile(c)
    calls = []
    for n in ('split_load_by_month', 'process_two_day_loads', 'find_peak_durations'):
        setattr(G.Loads, n, lambda self, n=n: calls.append((n, self)))
    g, ts, k, Rb = (c.real(x) for x in ('g', 'ts', 'two_pi_k', 'Rb'))
    kw = [{}, {'year': 2019}, {'year': 2021}, {'year': 2100}][c.choose(4)]
    L = G.Loads(hourly, g, ts, k, Rb, **kw)
    c.prove('the days of the months are those of the calendar', same(c, L.days_in_month, SList([0] + DAYS)))
    c.prove('the profile is held', z3.BoolVal(L.hourly is hourly))
    c.prove('the response and the resistance are held', z3.And(Rz(L.ts) == ts.z, Rz(L.two_pi_k) == k.z, Rz(L.Rb) == Rb.z, z3.BoolVal(L.g_sts is g)))
    for n in ('monthly_total', 'monthly_peak', 'monthly_average', 'monthly_peak_day', 'monthly_peak_duration'):
        c.prove('%s has a place for every month' % n, zval(to_list(getattr(L, n)).length()) == 13)
    if [n for n, _ in calls] != ['split_load_by_month', 'process_two_day_loads', 'find_peak_durations']:
        raise Unsupported('the constructor does not call the parts in this order')
    c.prove('on this object', z3.BoolVal(all(s is L for _, s in calls)))


def t_two_days(w, c):
    hourly, f = profile(c)
    days = [c.int('peak_day_%d' % m) for m in range(1, 13)]
    for d, n in zip(days, DAYS):
        c.assume(z3.And(d.z >= 0, d.z <= n))
    L = empty(w, hourly, monthly_peak_day=SList([0.] + days))
    L.process_two_day_loads()
    kept = L.monthly_two_day_hourly_peak
    c.prove('a profile for every month', zval(kept.length()) == 13)
    m = 1 + c.choose(12, 'month')
    d = days[m - 1]
    two = to_list(kept[m])
    c.prove('48 hours', zval(two.length()) == 48)
    j = index(c, 48, 'j')
    t = OFF[m - 1] + (d.z - 1) * 24 + j.z
    c.prove('the peak day and the day after, wrapping at the end of the year',
            z3.Implies(d.z >= 1, Rz(two.at(j)) == f(z3.If(t >= 8760, t - 8760, t))))
    k = index(c, 8760, 'k')
    c.prove('no hour of the profile changes', z3.And(zval(hourly.length()) == 8760, Rz(hourly.at(k)) == f(k.z)))


def targets():
    Q = 'ghedt/peak_load_analysis_tool/ground_loads.py:Loads.'
    return [Target('split_load_by_month', t_split, [Q + 'split_load_by_month']),
            Target('Loads', t_annual, [Q + '__init__']),
            Target('process_two_day_loads', t_two_days, [Q + 'process_two_day_loads'])]
