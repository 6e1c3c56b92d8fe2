"""C13: the hybrid load sequence."""
from .lib import *
from .c12 import GL, DAYS

S = z3.Function('hours_before_month', I, I)


def D(x):
    """Days of a month (counted on over the years)."""
    m = (zval(x) - 1) % 12
    r = z3.IntVal(DAYS[11])
    for j in range(10, -1, -1):
        r = z3.If(m == j, DAYS[j], r)
    return r


def step(c, x):
    """The definition of S at x: S(1) = 0, S(x + 1) = S(x) + 24 D(x)."""
    z = zval(x)
    c.assume(z3.And(S(z3.IntVal(1)) == 0, z3.Implies(z >= 1, z3.And(S(z + 1) == S(z) + 24 * D(x), S(z) >= 0))))


def t_calendar(w, c):
    G = w.load(GL)
    m = c.int('month')
    c.assume(m.z >= 1)
    c.prove('days of a month', zval(G.monthdays(m)) == D(m))
    which = c.choose(2)
    hours = lambda j: Num(24 * D(j + 1))
    # the hours before month n are the sum of those of the months before it
    if which == 0:
        v = G.firstmonthhour(m)
        pass
        models.prove_linear_sum(c, 'first hour of a month', v, 1, m - 1, hours)
    else:
        v = G.lastmonthhour(m)
        if c.branch(m.z == 1):
            c.prove('last hour of the first month', Rz(v) == 744)
        else:
            models.prove_linear_sum(c, 'last hour of a month', v, 0, m, hours)


def side(c, w, name):
    """A monthly summary consistent with some profile."""
    pk, fp = symlist(c, name + '_peak', 13)
    day, fd = symlist(c, name + '_peak_day', 13, I)
    dur, fu = symlist(c, name + '_duration', 13)
    tot, ft = symlist(c, name + '_total', 13)
    avg, fa = symlist(c, name + '_average', 13)
    t = Num(z3.Int('?m'))
    fact = lambda t: z3.Implies(z3.And(t.z >= 1, t.z <= 12), z3.And(
        fp(t) >= 0, ft(t) >= 0, fa(t) * z3.ToReal(24 * D(t)) == ft(t), fu(t) >= 0, fu(t) <= 48, fd(t) >= 0, fd(t) <= D(t),
        z3.Implies(fp(t) > 0, z3.And(fd(t) >= 1, fu(t) > 0)), z3.Implies(fp(t) == 0, fd(t) == 0)))
    c.assume(z3.ForAll([t.z], fact(t), patterns=[fp(t)]))
    L = blank(w.load(GL).Loads, monthly_peak=pk, monthly_peak_day=day, monthly_peak_duration=dur, monthly_total=tot, monthly_average=avg)
    L_ = Stub(pk=fp, day=fd, dur=fu, tot=ft, avg=fa, loads=L, fact=fact)
    return L_


def contracts_of_calendar(w, c):
    G = w.load(GL)

    def first(x):
        step(c, x)
        return Num(S(zval(x)) + 1)

    def last(x):
        step(c, x)
        return Num(S(zval(x) + 1))
    G.firstmonthhour, G.lastmonthhour = first, last


def t_range(w, c):
    contracts_of_calendar(w, c)
    A = side(c, w, 'x')
    mi, i = c.int('mi'), c.int('month')
    c.assume(z3.And(i.z >= 1, mi.z >= 1, mi.z <= 12, (i.z - mi.z) % 12 == 0))
    step(c, i)
    p = A.pk(mi)
    c.assume(p > 0)
    a, b = A.loads.peak_hour_range(mi, i)
    a, b = Rz(a), Rz(b)
    d = A.dur(mi)
    s, e = z3.ToReal(S(i.z)), z3.ToReal(S(i.z + 1))
    c.prove('the window lasts as long as the peak', b - a == d)
    c.prove('the window lies inside the month', z3.And(a >= s, b <= e))
    noon = s + z3.ToReal(24 * (A.day(mi) - 1) + 12)
    mid = (a + b) / 2
    fits = z3.And(noon - d / 2 >= s, noon + d / 2 <= e)
    c.prove('the window is centred on midday of the peak day, within an hour, if it fits', z3.Implies(fits, z3.And(mid - noon <= 1, noon - mid <= 1)))


def t_windows(w, c):
    """Of two windows which do not overlap that of the earlier day is first."""
    contracts_of_calendar(w, c)
    A, B_ = side(c, w, 'x'), side(c, w, 'y')
    mi, i = c.int('mi'), c.int('month')
    c.assume(z3.And(i.z >= 1, mi.z >= 1, mi.z <= 12, (i.z - mi.z) % 12 == 0))
    step(c, i)
    c.assume(z3.And(A.pk(mi) > 0, B_.pk(mi) > 0, A.day(mi) < B_.day(mi)))
    (a, b), (a2, b2) = [tuple(Rz(v) for v in X.loads.peak_hour_range(mi, i)) for X in (A, B_)]
    c.prove('windows follow the order of the days', z3.Implies(z3.Or(b <= a2, b2 <= a), b <= a2))


def by_contract(c, A, name):
    """peak_hour_range by its contract."""
    f, g = c.freshfun(name + '_first', I, I, R), c.freshfun(name + '_last', I, I, R)

    def window(mi, i):
        a, b = f(zval(mi), zval(i)), g(zval(mi), zval(i))
        z = zval(i)
        c2 = ctx()
        step(c2, i)
        c2.assume(z3.Implies(z3.And(A.pk(mi) > 0, zval(mi) == (z - 1) % 12 + 1), z3.And(b - a == A.dur(mi), a >= z3.ToReal(S(z)), b <= z3.ToReal(S(z + 1)))))
        return Num(a), Num(b)
    A.loads.peak_hour_range = window
    A.window = window


def last_block(l, k, what):
    """The entries the months append: those of the generic month k."""
    l = to_list(l)
    segs = list(l.segs)
    if not segs or not isinstance(segs[-1], (Flat, Comp)) or any(not isinstance(s, Elems) for s in segs[:-1]):
        raise Unsupported('the entries of %s are not kept month by month' % what)
    s = segs[-1]
    head = [v for x in segs[:-1] for v in x.vals]
    if isinstance(s, Comp):
        if s.cond is not None:
            raise Unsupported('entries under a condition')
        return head, s._n, SList([s.f(k)])
    return head, s._n, s.f(k)


def t_sequence(w, c):
    contracts_of_calendar(w, c)
    G = w.load(GL)
    s, e = c.int('start_month'), c.int('end_month')
    c.assume(z3.And(s.z >= 1, e.z >= s.z))
    A, B_ = side(c, w, 'rejection'), side(c, w, 'extraction')
    by_contract(c, A, 'rejection')
    by_contract(c, B_, 'extraction')
    rej, ext = SList([c.real('r')]), SList([c.real('x')])
    Rb, g, ts, kk = c.real('Rb'), c.real('g_sts'), c.real('t_s'), c.real('k')
    asked = []

    def made(hourly, g_sts, ts_, two_pi_k, Rb_, year):
        asked.append((g_sts, ts_, two_pi_k, Rb_, year))
        return (A if hourly is rej else B_ if hourly is ext else None).loads
    L0 = G.Loads
    G.Loads = class_recorder(L0, lambda a: made(a['hourly_loads'], a['g_sts'], a['ts'], a['two_pi_k'], a['Rb'], a['year']))
    bhe = Stub(soil=Stub(k=kk), compute_effective_borehole_resistance=lambda *a, **k: Rb)
    sim = Stub(start_month=s, end_month=e)
    i = c.int('month')
    c.assume(z3.And(i.z >= s.z, i.z <= e.z))
    try:
        hy = G.HybridLoad(rej, ext, bhe, Stub(g_sts=g, t_s=ts), sim)
    finally:
        G.Loads = L0
    for a in asked:
        c.prove('both sides are analysed with the response and resistance of the exchanger',
                z3.And(z3.BoolVal(a[0] is g), Rz(a[1]) == ts.z, Rz(a[2]) == 2 * Rz(models.PI) * kk.z, Rz(a[3]) == Rb.z))
    cases(c, lambda c: sequence_spec(c, hy, s, e, i, A, B_))


def sequence_spec(c, hy, s, e, i, A, B_):
    k = i - s
    head, n, loads = last_block(hy.load, k, 'load')
    head2, n2, hours = last_block(hy.hour, k, 'hour')
    c.prove('an entry of every month', z3.And(zval(n) == (e.z - s.z + 1), zval(n2) == (e.z - s.z + 1)))
    step(c, s)
    c.prove('the sequence starts with no load up to the first hour of the first month',
            z3.And([z3.BoolVal(len(head) == len(head2) and len(head) >= 1)] + [Rz(v) == 0 for v in head] + [Rz(head2[-1]) == z3.ToReal(S(s.z))] + [Rz(v) <= z3.ToReal(S(s.z)) for v in head2]))
    if not (to_list(loads).concrete_len() and to_list(hours).concrete_len()):
        raise Unsupported('a month whose number of entries is not known')
    q, t = [Rz(v) for v in to_list(loads).vals()], [Rz(v) for v in to_list(hours).vals()]
    c.prove('as many loads as hours', z3.BoolVal(len(q) == len(t) and len(q) >= 1))
    step(c, i)
    start, end = z3.ToReal(S(i.z)), z3.ToReal(S(i.z + 1))
    mi = Num((i.z - 1) % 12 + 1)
    c.assume(A.fact(mi))
    c.assume(B_.fact(mi))
    pa, pb = A.pk(mi), B_.pk(mi)
    win = []
    for X, p in ((A, pa), (B_, pb)):
        if c.branch(p > 0):
            win.append(tuple(Rz(v) for v in X.window(mi, i)))
        else:
            win.append(None)
    if win[0] is not None and win[1] is not None:
        c.assume(z3.Or(win[0][1] <= win[1][0], win[1][1] <= win[0][0]))
        c.assume(z3.Implies(A.day(mi) < B_.day(mi), win[0][1] <= win[1][0]))
        c.assume(z3.Implies(A.day(mi) > B_.day(mi), win[1][1] <= win[0][0]))
    c.prove('the month ends at its last hour', t[-1] == end)
    prev = [start] + t[:-1]
    for a, b in zip(prev, t):
        c.prove('the hours do not decrease', a <= b)
    total = A.tot(mi) - B_.tot(mi)
    c.prove("load times duration adds up to the month's total", z3.Sum([x * (b - a) for x, a, b in zip(q, prev, t)]) == total)
    near_ends = z3.Or(i.z < s.z + 12, i.z > e.z - 12)
    differ = A.day(mi) != B_.day(mi)
    if c.branch(z3.And(near_ends, differ)):
        for X, p, sg, wn in ((A, pa, 1, win[0]), (B_, pb, -1, win[1])):
            if wn is not None:
                c.prove('the peak is there with its magnitude, sign and duration', z3.Or([z3.And(x == sg * p, a == wn[0], b == wn[1]) for x, a, b in zip(q, prev, t)]))
        placed = [wn for wn in win if wn is not None]
        if not placed:
            c.prove('only the average', z3.And([x * z3.ToReal(24 * D(i)) == total for x in q]))
        else:
            free = [z3.And([z3.Not(z3.And(a == wn[0], b == wn[1])) for wn in placed] + [a < b]) for a, b in zip(prev, t)]
            for j in range(len(q)):
                for l in range(j):
                    c.prove('one load outside of the peaks', z3.Implies(z3.And(free[j], free[l]), q[j] == q[l]))
    elif c.branch(z3.Not(near_ends)):
        for x, a, b in zip(q, prev, t):
            c.prove('only the average', z3.Implies(a < b, x * z3.ToReal(24 * D(i)) == total))


def targets():
    Q = 'ghedt/peak_load_analysis_tool/ground_loads.py:'
    return [Target('calendar', t_calendar, [Q + 'monthdays', Q + 'firstmonthhour', Q + 'lastmonthhour']),
            Target('peak_hour_range', t_range, [Q + 'Loads.peak_hour_range']),
            Target('two windows', t_windows, [Q + 'Loads.peak_hour_range']),
            Target('HybridLoad', t_sequence, [Q + 'HybridLoad.__init__', Q + 'HybridLoad.process_monthly_loads', Q + 'Loads.peak_hour_range', Q + 'Loads.peak_energy'], cfg={'flat_numbers': True}, max_paths=2000)]
