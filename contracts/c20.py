"""C20: creating a design and running it."""
from .lib import *

DE, DO, ME, SR = 'ghedt.design', 'ghedt.domains', 'ghedt.media', 'ghedt.search_routines'
NEED = {'near-square': ['B', 'length'], 'rectangle': ['width', 'length', 'B_min', 'B_max_x'],
        'bi-rectangle': ['width', 'length', 'B_min', 'B_max_x', 'B_max_y'],
        'bi-zoned': ['width', 'length', 'B_min', 'B_max_x', 'B_max_y']}
ALL = ['B', 'length', 'width', 'B_min', 'B_max_x', 'B_max_y']
KEEP = ('V_flow', 'borehole', 'bhe_object', 'fluid', 'pipe', 'grout', 'soil', 'sim_params', 'hourly_extraction_ground_loads', 'method', 'flow')


def parts(c):
    q, _ = symlist(c, 'q', 8760)
    return dict(V_flow=c.real('V'), borehole=Stub(what='borehole', H=c.real('H')), bhe_object=Stub(what='class'), fluid=Stub(what='fluid'), pipe=Stub(what='pipe'),
                grout=Stub(what='grout'), soil=Stub(what='soil'), sim_params=Stub(what='sim'), hourly_extraction_ground_loads=q)


def lists(w, c, v, made):
    """The generators of candidate lists, by contract: which one, of what."""
    m = w.load(DO)

    def gen(name, keys, extra=None):
        f = getattr(m, name)

        def act(a):
            for k, p in keys.items():
                c.prove('%s gets the %s given' % (name, k), z3.BoolVal(False) if v.get(k) is None or a[p] is None else Rz(a[p]) == Rz(v[k]))
            if extra is not None:
                extra(a)
            l = SList([Stub(what='field')])
            made.append((name, l))
            return l
        setattr(m, name, recorder(f, act))

    def square(a):
        n = zval(a['upper'])
        L, B = Rz(v['length']), Rz(v['B'])
        c.prove('square_and_near_square starts at one', Rz(a['lower']) == 1)
        c.prove('square_and_near_square covers the length', z3.And((real(n) - 1) * B <= L, L < real(n) * B))
    gen('square_and_near_square', {'B': 'B'}, square)
    gen('rectangular', {'length': 'length_x', 'width': 'length_y', 'B_min': 'B_min', 'B_max_x': 'B_max'})
    both = {'length': 'length_x', 'width': 'length_y', 'B_min': 'B_min', 'B_max_x': 'B_max_x', 'B_max_y': 'B_max_y'}
    gen('bi_rectangle_nested', both)
    gen('bi_rectangle_zoned_nested', both)
    gen('bi_rectangular', {'length': 'length_1', 'width': 'length_2'}, lambda a: c.prove('not a list of this routine', z3.BoolVal(False)))


WANT = {'near-square': 'square_and_near_square', 'rectangle': 'rectangular', 'bi-rectangle': 'bi_rectangle_nested', 'bi-zoned': 'bi_rectangle_zoned_nested'}


def create(w, c, routine, given, method, flow, made):
    v = {k: c.real(k) for k in given}
    for k in v:
        c.assume(v[k].z > 0)
    lists(w, c, v, made)
    gc = w.load(ME).GeometricConstraints(**v)
    p = parts(c)
    kw = {'method': method, 'routine': routine, 'flow': flow}
    d = w.load(DE).Design(p['V_flow'], p['borehole'], p['bhe_object'], p['fluid'], p['pipe'], p['grout'], p['soil'], p['sim_params'], gc, p['hourly_extraction_ground_loads'], **kw)
    p.update(method=method, flow=flow)
    return d, p, v, gc


def t_create(w, c, routine):
    given = [k for k in ALL if c.choose(2)]
    method = ['hybrid', 'hourly'][c.choose(2)]
    flow = ['borehole', 'system'][c.choose(2)]
    complete = all(k in given for k in NEED[routine])
    made = []
    try:
        d, p, v, gc = create(w, c, routine, given, method, flow, made)
    except (AssertionError, ValueError, KeyError):
        c.prove('a complete design is accepted', z3.BoolVal(not complete))
        return
    c.prove('an incomplete design is refused', z3.BoolVal(complete))
    if not complete:
        return
    if not made:
        raise Unsupported('candidates made otherwise')
    c.prove('one list of candidates, of the routine', z3.BoolVal(len(made) == 1 and made[0][0] == WANT[routine]))
    for k in ALL:
        x = getattr(gc, k)
        c.prove('the constraints are left alone', z3.BoolVal(k not in v) if x is None else (Rz(x) == Rz(v[k]) if k in v else z3.BoolVal(False)))
    run(w, c, routine, d, p, made[0][1])


def run(w, c, routine, d, p, dom):
    m = w.load(SR)
    seen = []
    for n in ('Bisection1D', 'Bisection2D', 'BisectionZD'):
        def act(a, n=n):
            seen.append((n, a))
            return Stub(what='search', n=len(seen))
        setattr(m, n, class_recorder(getattr(m, n), act))
    disp = [False, True][c.choose(2)]
    r = d.find_design(disp=disp) if disp else d.find_design()
    c.prove('one search is run', z3.BoolVal(len(seen) == 1))
    if len(seen) != 1:
        return
    n, a = seen[0]
    c.prove('the search belongs to the routine', z3.BoolVal(n == {'near-square': 'Bisection1D', 'rectangle': 'Bisection1D', 'bi-rectangle': 'Bisection2D', 'bi-zoned': 'BisectionZD'}[routine]))
    c.prove('the search made is returned', z3.BoolVal(isinstance(r, Stub) and getattr(r, 'what', None) == 'search'))
    l = a.get('coordinates_domain', a.get('coordinates_domain_nested'))
    c.prove('the search gets the candidates of the design', same(c, l, dom))
    for k in KEEP:
        c.prove('the search gets the design\'s own ' + k, same(c, a[k], p[k]))
    if 'search' in a:
        c.prove('the search is run', z3.BoolVal(a['search'] is True))
    c.prove('the iteration limit is that of the routine or more', Rz(a['max_iter']) >= 15)


def t_other(w, c):
    made = []
    r = [None, 'square', 'polygon', 'Rectangle', 'bi-rectangular', '', 'near_square'][c.choose(7)]
    given = ALL if c.choose(2) else ['B', 'length']
    try:
        create(w, c, r, given, 'hybrid', 'borehole', made)
        ok = False
    except (AssertionError, ValueError, KeyError):
        ok = True
    c.prove('another routine is refused', z3.BoolVal(ok))


def t_unknown(w, c):
    made = []
    r = SymStr([c.int('routine')])
    try:
        create(w, c, r, ALL, 'hybrid', 'borehole', made)
        ok = False
    except (AssertionError, ValueError, KeyError):
        ok = True
    c.prove('a routine of another name is refused', z3.BoolVal(ok))


def targets():
    D, M, U = 'ghedt/design.py:Design.', 'ghedt/media.py:GeometricConstraints.', 'ghedt/utilities.py:number_of_boreholes'
    fs = [D + '__init__', D + 'find_design', M + '__init__', M + 'check_inputs']
    out = [Target('create and run ' + r, (lambda w, c, r=r: t_create(w, c, r)), fs + ([U] if r == 'near-square' else []), max_paths=20000) for r in NEED]
    out.append(Target('create otherwise', t_other, fs))
    out.append(Target('create by any other name', t_unknown, fs))
    return out
