"""C19: the exported design is the selected design."""
from .lib import *

SR = 'ghedt.search_routines'
LTS = 27
STS = 30


def index_of(X, e):
    """i when e is X(i)."""
    e = z3.simplify(e)
    if z3.is_app(e) and e.decl().eq(X):
        return e.arg(0)
    raise Unsupported('not a point of the response')


def exported(c, f):
    """Runs f; the names and contents of the files it writes."""
    out = []
    c.cfg['json.dump'] = lambda obj, fp, **k: out.append((fp, obj))
    f()
    return out


def t_export(w, c):
    sr = w.load(SR)
    ns, nb = c.int('short_points'), c.int('boreholes')
    c.assume(z3.And(ns.z >= STS, nb.z >= 1))
    n = ns + LTS
    X, Y = uf('ln_tts', I, R), uf('g', I, R)
    x, y = (SList.of(Comp(n, lambda t, F=F: Num(F(zval(t))))) for F in (X, Y))
    coords, _, _ = points(c, nb)
    H, S = c.real('H'), c.real('spacing')
    c.assume(z3.And(H.z > 0, S.z > 0))
    asked = []

    def grab(BoH):
        asked.append(BoH)
        return Stub(x=SArr(x), y=SArr(y))
    P = dict((k, c.real(k)) for k in 'r_b r_in r_out s m k_g k_s k_p px py qx qy'.split())
    pos = SList([(P['px'], P['py']), (P['qx'], P['qy'])])
    bhe_eq = Stub(borehole=Stub(r_b=P['r_b'], H=c.real('other_H')), b=Stub(r_b=P['r_b'], H=c.real('other_H')), r_in=P['r_in'], r_out=P['r_out'],
                  pipe=Stub(s=P['s'], k=P['k_p'], r_in=P['r_in'], r_out=P['r_out'], pos=pos), pos=pos, m_flow_borehole=P['m'], grout=Stub(k=P['k_g']), soil=Stub(k=P['k_s']))
    bhe = Stub(b=Stub(H=H, r_b=c.real('bhe_r_b')), soil=Stub(k=P['k_s']), grout=Stub(k=c.real('bhe_k_g')), pipe=Stub(s=c.real('bhe_s'), k=c.real('bhe_k_p')),
               m_flow_borehole=c.real('bhe_m'), r_in=c.real('bhe_r_in'), r_out=c.real('bhe_r_out'))
    ghe = Stub(bhe=bhe, bhe_eq=bhe_eq, B_spacing=S, grab_g_function=grab, nbh=nb)
    search = Stub(ghe=ghe, selected_coordinates=coords)
    name = [None, 'result'][c.choose(2)]
    out = exported(c, (lambda: sr.oak_ridge_export(search)) if name is None else (lambda: sr.oak_ridge_export(search, file_name=name)))
    c.prove('one file is written', z3.BoolVal(len(out) == 1))
    if len(out) != 1:
        return
    fp, d = out[0]
    path = getattr(fp, 'path', None)
    c.prove('to the name given, with .json', z3.BoolVal(path is None or bool(path == (name or 'ghedt_output') + '.json')))
    c.prove('the sized height', Rz(d['borehole_length']) == H.z)
    c.prove('the number of boreholes of the selected field', Rz(d['number_of_boreholes']) == real(nb.z))
    u = d['single_u_tube']
    for k, v in (('r_b', 'r_b'), ('r_in', 'r_in'), ('r_out', 'r_out'), ('s', 's'), ('m_flow_borehole', 'm'), ('k_g', 'k_g'), ('k_s', 'k_s'), ('k_p', 'k_p')):
        c.prove('single U-tube: ' + k, Rz(u[k]) == P[v].z)
    c.prove('single U-tube: pos', same(c, u['pos'], pos))
    for b in asked:
        c.prove('the response at the sized height', Rz(b) * H.z == S.z)
    c.prove('the response is the one of the heat exchanger', z3.BoolVal(len(asked) >= 1))
    pairs = to_list(d['g_function_pairs'])
    m = zval(pairs.length())
    k = c.fresh('k', I)
    # the long-term points end the table
    with Assume(c, z3.And(k >= 0, k < LTS)):
        e = pairs[Num(m - LTS + k)]
        f = z3.And(Rz(e['ln_tts']) == X(ns.z + k), Rz(e['g_value']) == Y(ns.z + k))
    c.prove('all long-term points, each with its own value', z3.And(m >= LTS, z3.Implies(z3.And(k >= 0, k < LTS), f)))
    # the short-term points before them
    s = m - LTS
    r = lambda q: index_of(X, Rz(pairs[Num(q)]['ln_tts']))
    g = z3.And(k >= 0, k < s)
    with Assume(c, g):
        i = r(k)
        v = Rz(pairs[Num(k)]['g_value']) == Y(i)
    c.prove('each short-term point with its own value', z3.Implies(g, v))
    c.prove('short-term points are points of the response before the long-term ones', z3.Implies(g, z3.And(i >= 0, i < ns.z)))
    c.prove('there are short-term points', s >= 1)
    with Assume(c, s >= 1):
        first, last = r(z3.IntVal(0)), r(s - 1)
    two = z3.And(k >= 0, k + 1 < s)
    with Assume(c, two):
        a, b = r(k), r(k + 1)
    with Assume(c, s >= 2):
        stride = r(z3.IntVal(1)) - first
    c.prove('in increasing time', z3.Implies(two, a < b))
    c.prove('evenly strided', z3.Implies(two, b - a == stride))
    c.prove('the stride starts with the short-term response', z3.Implies(s >= 2, first <= stride))
    c.prove('the stride covers the short-term response', z3.Implies(s >= 2, ns.z - last <= stride))
    c.prove('more than one short-term point', s >= 2)


def t_write(w, c):
    """What is written to a file is what was given."""
    u = w.load('ghedt.utilities')
    d = Stub()
    v = c.real('v')
    out = exported(c, lambda: u.js_dump('name', {'a': v}, indent=4))
    ok = len(out) == 1 and getattr(out[0][0], 'path', None) == 'name.json'
    c.prove('written to the file of that name', z3.BoolVal(ok))
    c.prove('all of it', same(c, out[0][1]['a'], v) if ok else z3.BoolVal(False))


def targets():
    return [Target('export', t_export, ['ghedt/search_routines.py:oak_ridge_export', 'ghedt/utilities.py:js_dump']),
            Target('js_dump', t_write, ['ghedt/utilities.py:js_dump'])]
