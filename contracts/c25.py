"""C25: a saved design reads back as the same design."""
from .lib import *
from . import c20

UT = 'ghedt.utilities'


def name(c):
    return ['ghedt_input', SymStr(['dir/', c.int('name')])][c.choose(2)]


def save_read(c, u, x, f, ext):
    if f == 'ghedt_input' and c.choose(2):
        u.create_input_file(x)
    else:
        u.create_input_file(x, file_name=f)
    files = c.store.get('files', [])
    c.prove('one file is written, of the name given', z3.BoolVal(len(files) == 1 and bool(files[0]['path'] == f + ext)))
    c.prove('the file is closed', z3.BoolVal(all(not q['open'] for q in files)))
    before = [list(q['data']) for q in files]
    r = u.read_input_file(f + ext)
    c.prove('reading leaves the file alone', z3.BoolVal([list(q['data']) for q in files] == before and all(not q['open'] for q in files)))
    return r


def t_design(w, c, routine):
    made = []
    method, flow = ['hybrid', 'hourly'][c.choose(2)], ['borehole', 'system'][c.choose(2)]
    d, p, v, gc = c20.create(w, c, routine, c20.ALL, method, flow, made)
    if not made:
        raise Unsupported('candidates made otherwise')
    u = w.load(UT)
    r = save_read(c, u, d, name(c), '.obj')
    c.prove('what is read is a design', z3.BoolVal(isinstance(r, w.load(c20.DE).Design)))
    if not isinstance(r, w.load(c20.DE).Design):
        return
    c.prove('the design read has all of the design saved', same(c, r, d))
    c20.run(w, c, routine, r, p, made[0][1])


def t_any(w, c):
    """Anything saved is read back, also when a file of that name is there."""
    u = w.load(UT)
    n = c.int('n')
    c.assume(n.z >= 0)
    l, f = symlist(c, 'value', n)
    x = Stub(a=c.real('a'), l=l, t=(c.real('b'), 'text'))
    g = name(c)
    if c.choose(2):
        u.create_input_file(Stub(other=1), file_name=g)
    r = save_read(c, u, x, g, '.obj')
    c.prove('what is saved is what is read', same(c, r, x))
    y = u.read_input_file(g + '.obj')
    c.prove('it can be read again', same(c, y, x))


def t_missing(w, c):
    u = w.load(UT)
    c.prove('a file that is not there is refused', z3.BoolVal(raises(c, lambda: u.read_input_file('nothing.obj'), OSError)))


def targets():
    D, U = 'ghedt/design.py:Design.', 'ghedt/utilities.py:'
    fs = [U + 'create_input_file', U + 'read_input_file', D + '__init__', D + 'find_design']
    return [Target('save and read ' + r, (lambda w, c, r=r: t_design(w, c, r)), fs) for r in c20.NEED] + \
           [Target('save and read anything', t_any, fs[:2]), Target('read nothing', t_missing, fs[1:2])]
