"""C14: peak durations."""
from .lib import *

GL = 'ghedt.peak_load_analysis_tool.ground_loads'
N = 49


def response(c):
    G = c.freshfun('g', R, R)

    def g(x):
        if num_like(x):
            return Num(G(Rz(x)))
        return SArr(models.map_list(to_list(x), lambda v: Num(G(Rz(v)))))
    return g, G


def t_hourly(w, c):
    """Superposition for any hours and loads."""
    n = c.int('n')
    c.assume(n.z >= 1)
    h, hf = symlist(c, 'hour', n)
    q, qf = symlist(c, 'q', n)
    p, r = z3.Int('?p'), z3.Int('?q')
    c.assume(z3.ForAll([p, r], z3.Implies(z3.And(0 <= p, p < r, r < n.z), hf(Num(p)) < hf(Num(r))), patterns=[z3.MultiPattern(hf(Num(p)), hf(Num(r)))]))
    g, G = response(c)
    Rb, k, ts = c.real('Rb'), c.real('two_pi_k'), c.real('ts')
    c.assume(z3.And(k.z > 0, ts.z > 0))
    T = to_list(w.load(GL).Loads.simulate_hourly(SArr(h), SArr(q), g, Rb, k, ts))
    c.prove('a temperature for every hour', zval(T.length()) == n.z)
    c.prove('no change at first', Rz(T[Num(z3.IntVal(0))]) == 0)
    i = Num(c.fresh('i', I))
    c.assume(z3.And(i.z >= 1, i.z < n.z))

    def step(j):
        j = Num(zval(j))
        lag = (Num(hf(i)) - Num(hf(j))) * 3600 / ts
        return (Num(qf(j + 1)) - Num(qf(j))) / k * Num(G(Rz(core.fn('log', lag))))
    models.prove_linear_sum(c, 'the temperature is the superposition of all changes so far', T[i], Num(qf(i)) * Rb, i, step)
    c.prove('the loads given are left alone', z3.And(zval(q.length()) == n.z, Rz(q[i]) == qf(i)))


def t_constant(w, c):
    """The response to a constant load never falls."""
    g, G = response(c)
    Rb, k, ts, d = c.real('Rb'), c.real('two_pi_k'), c.real('ts'), c.real('load')
    c.assume(z3.And(k.z > 0, ts.z > 0, d.z >= 0))
    T = to_list(w.load(GL).Loads.simulate_hourly(models.np_array(SList(list(range(N)))), models.np_array(SList([0.] + [d] * (N - 1))), g, Rb, k, ts))
    if not T.concrete_len():
        raise Unsupported('temperatures not listed one by one')
    T = T.vals()
    c.prove('49 temperatures', z3.BoolVal(len(T) == N))
    U = [None] + [G(Rz(core.fn('log', Num(Rz(n)) * 3600 / ts))) for n in range(1, N)]
    cancel = lemma(c, 'd / k times k is d', 2, lambda d, k: z3.Implies(k > 0, d / k * k == d))
    pos = lemma(c, 'a quotient is not negative', 2, lambda d, k: z3.Implies(z3.And(d >= 0, k > 0), d / k >= 0))
    grow = lemma(c, 'products grow', 3, lambda e, a, b: z3.Implies(z3.And(e >= 0, a <= b), e * a <= e * b))
    sign = lemma(c, 'e (a + r k) is not negative', 5, lambda e, d, k, r, a: z3.Implies(z3.And(e >= 0, e * k == d, a + r * k >= 0), e * a + d * r >= 0))
    f = lambda d, k, r, a, b: z3.And(cancel(d, k), pos(d, k), grow(d / k, a, b), sign(d / k, d, k, r, a))
    for n in range(1, N):
        c.prove('a constant load times the response and the resistance', Rz(T[n]) == d.z / k.z * U[n] + d.z * Rb.z)
    c.prove('it starts at no change', Rz(T[0]) == 0)
    c.assume(U[1] + Rb.z * k.z >= 0)
    c.prove('it is never negative', d.z / k.z * U[1] + d.z * Rb.z >= 0, facts=[f(d.z, k.z, Rb.z, U[1], U[1])])
    for n in range(1, N - 1):
        c.prove('it never falls', z3.Implies(U[n] <= U[n + 1], d.z / k.z * U[n] + d.z * Rb.z <= d.z / k.z * U[n + 1] + d.z * Rb.z), facts=[f(d.z, k.z, Rb.z, U[n], U[n + 1])])


def t_month(w, c):
    mod = w.load(GL)
    two, l_ = symlist(c, 'load', N)
    L = lambda i: l_(Num(i))
    P, A = c.real('peak'), c.real('average')
    j = index(c, N, 'hour')
    c.assume(z3.And(P.z > 0, A.z >= 0, A.z <= P.z))
    a, b = z3.Int('?a'), z3.Int('?b')
    PK, NM = c.freshfun('peak_temperature', I, R), c.freshfun('nominal_temperature', I, R)
    # (t_constant)
    c.assume(PK(z3.IntVal(0)) == 0)
    c.assume(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a <= b, b < N), PK(a) <= PK(b)), patterns=[z3.MultiPattern(PK(a), PK(b))]))
    pk, nm = (SList.of(Comp(N, lambda t, F=F: Num(F(zval(t))))) for F in (PK, NM))
    g = Stub(what='response')
    own = dict(g_sts=g, ts=c.real('ts'), two_pi_k=c.real('two_pi_k'), Rb=c.real('Rb'))
    seen = []

    def simulate(a):
        h, q = to_list(a['hour_time']), to_list(a['q'])
        c.prove('simulated for 48 hours', z3.And(zval(h.length()) == N, zval(q.length()) == N))
        c.prove('simulated at every hour', Rz(h[j]) == real(j.z))
        c.prove('simulated with the own response and resistance', z3.And(z3.BoolVal(a['g_sts'] is g), *[Rz(a[k]) == own[k].z for k in ('ts', 'two_pi_k', 'Rb')]))
        v = Rz(q[j])
        constant = z3.Implies(j.z >= 1, v == P.z - A.z)
        if 'peak' not in seen and ctx().valid(constant):
            seen.append('peak')
            c.prove('no load at first', z3.Implies(j.z == 0, v == 0))
            return pk
        seen.append('nominal')
        cancel = lemma(c, 'd / k times k is d', 2, lambda d, k: z3.Implies(k > 0, d / k * k == d))
        order = lemma(c, 'order of factors', 4, lambda e, l, P, x: z3.Implies(e * P == x, e * l * P == x * l))
        scaled = lambda l, A, P: z3.And(*[f for x, y in ((l - A, l), (l, l - A), ((l - A) * l, z3.RealVal(1))) for f in (cancel(x, P), order(x / P, y, P, x))])
        for n in range(1, N) if q.concrete_len() else [j]:
            l = L(z3.IntVal(n)) if q.concrete_len() else L(j.z)
            c.prove('the load scaled by its own excess over the average', z3.Implies(z3.BoolVal(True) if isinstance(n, int) else n.z >= 1, Rz(q[n]) * P.z == (l - A.z) * l), facts=[scaled(l, A.z, P.z)])
        c.prove('no load at first', z3.Implies(j.z == 0, v == 0))
        return nm
    mod.Loads.simulate_hourly = staticmethod(recorder(mod.Loads.simulate_hourly, simulate))
    D = c.real('reached')
    asked = []

    def reach(f, q):
        c.prove('the temperature looked for is one the peak reaches', z3.And(Rz(q) >= 0, Rz(q) <= PK(z3.IntVal(N - 1))))
        xs, ys = to_list(f.x), to_list(f.y)
        c.prove('the time of each temperature of the constant load', z3.And(zval(xs.length()) == N, zval(ys.length()) == N, Rz(xs[j]) == PK(j.z), Rz(ys[j]) == real(j.z)))
        c.prove('looked for between the times', z3.BoolVal(f.kind == 'linear'))
        asked.append(q)
        # linear interpolation stays within the values given
        c.assume(z3.And(D.z >= 0, D.z <= N - 1))
        return D
    c.cfg['interp_call'] = reach
    s = blank(mod.Loads, **own)
    t1, t2 = SList([SList([0])]), SList([SList([0])])
    r = s.perform_current_month_simulation(two, P, A, t1, t2)
    if not (isinstance(r, tuple) and len(r) == 3):
        raise Unsupported('result of another shape')
    d = Rz(r[0])
    c.prove('a peak and a nominal simulation', z3.BoolVal(sorted(seen) == ['nominal', 'peak']))
    c.prove('between 0 and 48 hours', z3.And(d >= 0, d <= 48))
    top = c.fresh('top', R)
    # the highest temperature of the nominal simulation
    u = c.fresh('u', I)
    c.assume(z3.And(u >= 0, u < N, top == NM(u), z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < N), NM(a) <= top), patterns=[NM(a)])))
    highest = PK(z3.IntVal(N - 1))
    if asked:
        c.prove('looked for at most once', z3.BoolVal(len(asked) == 1))
        c.prove('the highest temperature of the scaled profile is looked for', z3.Implies(top <= highest, Rz(asked[0]) == top))
        c.prove('48 hours if it is never reached', z3.Implies(top > highest, Rz(asked[0]) == highest))
        c.prove('looked for if above the initial temperature', z3.Or(top > 0, d <= z3.RealVal('1/1000')))
        c.prove('the time found is the duration', d == D.z)
    else:
        c.prove('negligible only if not above the initial temperature, or never reached', z3.Or(top <= 0, highest <= 0))
        c.prove('negligible', z3.And(d >= 0, d <= z3.RealVal('1/100000')))
    for l, F in ((t1, PK), (t2, NM)):
        n = zval(l.length())
        c.prove('the temperatures are kept', n == 2)
    k = index(c, N)
    c.prove('the profile is left alone', z3.And(zval(two.length()) == N, Rz(two[k]) == L(k.z)))


def t_all(w, c):
    mod = w.load(GL)
    F = uf('two_day_load', I, I, R)
    A, D = uf('average', I, R), uf('duration', I, R)
    a, b = z3.Int('?a'), z3.Int('?b')
    c.assume(z3.ForAll([a, b], F(a, b) >= 0, patterns=[F(a, b)]))
    days = SList([0] + [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31])
    c.cfg['rolled'] = {'find_peak_durations'}
    m = 1 + c.choose(12, 'month')
    M = z3.IntVal(m)
    rows = SList.of(Comp(13, lambda t: SList.of(Comp(48, lambda j, t=t: Num(F(zval(t), zval(j)))))))
    old, O = symlist(c, 'before', 13)
    s = blank(mod.Loads, days_in_month=days, monthly_two_day_hourly_peak=rows, monthly_average=SList.of(Comp(13, lambda t: Num(A(zval(t))))),
              monthly_peak_duration=old, monthly_two_day_fluid_temps_pk=SList([SList([0])]), monthly_two_day_fluid_temps_nm=SList([SList([0])]))

    def month(a):
        e = z3.simplify(Rz(a['avg_load']))
        if not (z3.is_app(e) and e.decl().eq(A)):
            raise Unsupported('not the average of a month')
        i = e.arg(0)
        l = to_list(a['two_day_hourly_peak_load'])
        j = index(ctx(), 48, 'j')
        c2 = ctx()
        c2.prove('the profile of the month, after no load', z3.And(zval(l.length()) == N, Rz(l[Num(z3.IntVal(0))]) == 0, Rz(l[Num(j.z + 1)]) == F(i, j.z)))
        p = Rz(a['peak_load'])
        try:
            models.bound_by_extreme(c2, 'max', a['peak_load'], Num(j.z + 1))
        except KeyError:
            pass
        c2.prove('the peak of the profile', z3.And(p >= F(i, j.z), p > 0))
        t = z3.Int('?t')
        c2.prove('a peak the profile reaches', z3.Not(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < 48), F(i, t) != p), patterns=[F(i, t)])))
        return (Num(D(i)), SArr(SList.of(Comp(N, lambda t: Num(c2.freshfun('qp', I, R)(zval(t)))))), Stub(what='nominal'))
    mod.Loads.perform_current_month_simulation = recorder(mod.Loads.perform_current_month_simulation, month)
    s.find_peak_durations()
    res = to_list(s.monthly_peak_duration)
    c.prove('a duration for every month', zval(res.length()) == 13)
    d = Rz(res[m])
    j = index(c, 48, 'j')
    t = z3.Int('?t')
    none = z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < 48), F(M, t) == 0), patterns=[F(M, t)])
    c.prove('the duration of the month', z3.Implies(F(M, j.z) > 0, d == D(M)))
    c.prove('negligible without load', z3.Implies(none, d == z3.RealVal('1/1000000')))


def targets():
    Q = 'ghedt/peak_load_analysis_tool/ground_loads.py:Loads.'
    return [Target('simulate_hourly', t_hourly, [Q + 'simulate_hourly']),
            Target('simulate_hourly, constant load', t_constant, [Q + 'simulate_hourly']),
            Target('perform_current_month_simulation', t_month, [Q + 'perform_current_month_simulation']),
            Target('find_peak_durations', t_all, [Q + 'find_peak_durations'])]
