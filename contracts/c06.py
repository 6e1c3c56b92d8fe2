"""C06: the nested searches."""
from .lib import *
from .searchlib import *


def setup(w, c, name, hook=None):
    m = c.int('lists')
    c.assume(m.z >= 1)
    dom, N = nested(c, m)
    r = Responses(w, c)
    log = []
    search_contract(w, c, r, log)
    constructor_contract(w, c, r, extra=hook)
    mod = w.load(SR)
    args = dict(V_flow=c.real('V'), borehole=Stub(what='b'), bhe_object=Stub(what='o'), fluid=Stub(what='f'), pipe=Stub(what='p'), grout=Stub(what='g'), soil=Stub(what='s'),
                sim_params=r.sim, hourly_extraction_ground_loads=Stub(what='q'))
    return m, dom, N, r, log, (lambda: getattr(mod, name)(dom, **args))


def is_outer(c, dom, m, N, what):
    """The outer list: the first field, then the largest of every list."""
    c.prove(what + 'one leading field and one per list', zval(dom.length()) == m.z + 1)
    d, t = tag_of(dom[0])
    c.prove(what + 'led by the first field of the first list', z3.And(d == 0, t == 0))
    i = index(c, m, 'd')
    d, t = tag_of(dom[i + 1])
    c.prove(what + 'followed by the last field of each list', z3.And(d == i.z, t == N(i.z) - 1))


def t_2d(w, c):
    m, dom, N, r, log, run = setup(w, c, 'Bisection2D')
    try:
        s = run()
    except ValueError:
        return
    c.prove('two searches are made', z3.BoolVal(len(log) == 2))
    if len(log) != 2:
        return
    is_outer(c, log[0]['domain'], m, N, 'outer list: ')
    k, inner = log[0]['key'].z, log[1]['list']
    c.prove('the inner search is of one of the lists', z3.BoolVal(inner is not None))
    if inner is None:
        return
    c.prove('the list searched is the one whose largest field was selected (the first for the leading field)', inner == z3.If(k >= 1, k - 1, 0))
    c.prove('the field selected is that of the inner search', z3.And(Rz(s.selection_key) == z3.ToReal(log[1]['key'].z), tag_of(s.selected_coordinates)[0] == inner, tag_of(s.selected_coordinates)[1] == log[1]['key'].z))
    c.prove('the exchanger left behind is that of the inner search', z3.BoolVal(s.ghe is log[1]['ghe']))
    c.prove('the list kept is the one searched', inner == to_list(s.coordinates_domain).ghost['list'].z if 'list' in to_list(s.coordinates_domain).ghost else z3.BoolVal(False))


def t_zd(w, c):
    SH = uf('sized_height', I, I, R)

    def hook(g, tag):
        def responses():
            g.full = True

        def size(method='hybrid'):
            c = ctx()
            c.prove('sized with long-term responses computed for it', z3.BoolVal(getattr(g, 'full', False) is True))
            c.assume(z3.And(SH(*tag) >= r.minH.z, SH(*tag) <= r.maxH.z))
            g.bhe.b.H = Num(SH(*tag))
            g.sized = True
        g.compute_g_functions = responses
        g.size = size
    m, dom, N, r, log, run = setup(w, c, 'BisectionZD', hook)
    c.cfg['assoc'] = True
    c.cfg['unroll'] = {'search_successive': 12}
    try:
        s = run()
    except ValueError:
        return
    is_outer(c, log[0]['domain'], m, N, 'outer list: ')
    k = log[0]['key'].z
    runs = log[1:]
    c.prove('at least one list is evaluated', z3.BoolVal(len(runs) >= 1))
    c.prove('every search is of one of the lists', z3.BoolVal(all(x['list'] is not None for x in runs)))
    if not runs or not all(x['list'] is not None for x in runs):
        return
    c.prove('evaluation starts at the list the outer search selected', runs[0]['list'] == z3.If(k >= 1, k - 1, 0))
    for a, b in zip(runs, runs[1:]):
        c.prove('successive lists are evaluated', b['list'] == a['list'] + 1)
    d, t = tag_of(s.selected_coordinates)
    L = uf('field_len', I, I, I)
    drilled = lambda x: z3.ToReal(L(*x['tag'])) * SH(*x['tag'])
    c.prove('the field returned is of a list with the least total drilling of those evaluated',
            z3.Or([z3.And([d == x['list']] + [drilled(x) <= drilled(y) for y in runs]) for x in runs]))
    c.prove('the field returned is of its list', z3.And(t == zval(s.selection_key), t >= 0, t < N(d)))
    c.prove('the field returned is within the limits', r.X((d, t), r.maxH.z) <= 0)
    g = s.ghe
    gd, gt_ = tag_of(g.field)
    c.prove('the exchanger left behind holds the field returned', z3.And(gd == d, gt_ == t))
    c.prove('its long-term responses were recomputed', z3.BoolVal(getattr(g, 'full', False) is True))
    c.prove('it is sized', z3.BoolVal(getattr(g, 'sized', False) is True))
    c.prove('it is at the height found for it', Rz(g.bhe.b.H) == SH(d, t))


def targets():
    F = 'ghedt/search_routines.py:'
    return [Target('Bisection2D', t_2d, [F + 'Bisection2D.__init__']),
            Target('BisectionZD', t_zd, [F + 'BisectionZD.__init__', F + 'BisectionZD.search_successive'])]
