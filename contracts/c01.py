"""C01: layouts contain exactly the points of their shape."""
from .lib import *

GENS = 'ghedt.coordinates'


def inputs(c, counts, spac=('Bx', 'By')):
    out = []
    for n in counts:
        v = c.int(n)
        c.assume(v.z >= 1)
        out.append(v)
    for b in spac:
        v = c.real(b)
        c.assume(v.z > 0)
        out.append(v)
    return out


def grid(lab, Bx, By, member, o=(0, 0)):
    return (lab, Bx.z, By.z, member, o)


def t_rectangle(w, c):
    Nx, Ny, Bx, By = inputs(c, ['Nx', 'Ny'])
    ox, oy = c.real('ox'), c.real('oy')
    f = w.load(GENS).rectangle
    mem = lambda u, v: z3.And(u >= 0, u < Nx.z, v >= 0, v < Ny.z)
    if c.choose(2) == 0:
        exact_grid(c, 'rectangle', f(Nx, Ny, Bx, By, origin=(ox, oy)), [grid('rectangle', Bx, By, mem, (ox, oy))], Nx.z * Ny.z)
    else:
        exact_grid(c, 'rectangle at the default origin', f(Nx, Ny, Bx, By), [grid('rectangle', Bx, By, mem)], Nx.z * Ny.z)


def perimeter(Nx, Ny):
    return lambda u, v: z3.And(u >= 0, u < Nx.z, v >= 0, v < Ny.z, z3.Or(u == 0, u == Nx.z - 1, v == 0, v == Ny.z - 1))


def perimeter_count(Nx, Ny):
    return z3.If(z3.And(Nx.z > 2, Ny.z > 2), 2 * Nx.z + 2 * Ny.z - 4, Nx.z * Ny.z)


def t_open(w, c):
    Nx, Ny, Bx, By = inputs(c, ['Nx', 'Ny'])
    exact_grid(c, 'open rectangle', w.load(GENS).open_rectangle(Nx, Ny, Bx, By), [grid('perimeter', Bx, By, perimeter(Nx, Ny))], perimeter_count(Nx, Ny))


def t_L(w, c):
    Nx, Ny, Bx, By = inputs(c, ['Nx', 'Ny'])
    mem = lambda u, v: z3.Or(z3.And(v == 0, u >= 0, u < Nx.z), z3.And(u == 0, v >= 0, v < Ny.z))
    exact_grid(c, 'L', w.load(GENS).L_shape(Nx, Ny, Bx, By), [grid('L', Bx, By, mem)], Nx.z + Ny.z - 1)


def t_U(w, c):
    Nx, Ny, Bx, By = inputs(c, ['Nx', 'Ny'])
    mem = lambda u, v: z3.And(u >= 0, u < Nx.z, v >= 0, v < Ny.z, z3.Or(v == 0, u == 0, u == Nx.z - 1))
    exact_grid(c, 'U', w.load(GENS).U_shape(Nx, Ny, Bx, By), [grid('U', Bx, By, mem)],
               z3.If(z3.And(Nx.z > 2, Ny.z > 1), 2 * Ny.z + Nx.z - 2, Nx.z * Ny.z))


def t_lopU(w, c):
    Nx, Ny1, Ny2, Bx, By = inputs(c, ['Nx', 'Ny1', 'Ny2'])
    c.assume(Nx.z >= 2)        # two different legs
    mem = lambda u, v: z3.And(v >= 0, z3.Or(z3.And(v == 0, u >= 0, u < Nx.z), z3.And(u == 0, v < Ny1.z), z3.And(u == Nx.z - 1, v < Ny2.z)))
    exact_grid(c, 'lopsided U', w.load(GENS).lop_U(Nx, Ny1, Bx, By, Ny2), [grid('U', Bx, By, mem)], Nx.z + Ny1.z + Ny2.z - 2)


def t_C(w, c):
    Nx1, Ny, Nx2, Bx, By = inputs(c, ['Nx1', 'Ny', 'Nx2'])
    # a C: two sides Ny long, a full side and a part of the opposite side
    c.assume(z3.And(Nx1.z >= 2, Ny.z >= 2, Nx2.z <= Nx1.z - 2))
    mem = lambda u, v: z3.And(u >= 0, u < Nx1.z, v >= 0, v < Ny.z,
                              z3.Or(v == 0, u == 0, u == Nx1.z - 1, z3.And(v == Ny.z - 1, u >= 1, u <= Nx2.z)))
    exact_grid(c, 'C', w.load(GENS).C_shape(Nx1, Ny, Bx, By, Nx2), [grid('C', Bx, By, mem)], Nx1.z + 2 * Ny.z + Nx2.z - 2)


def t_zoned(w, c):
    Nx, Ny, Nix, Niy, Bx, By = inputs(c, ['Nx', 'Ny', 'Nix', 'Niy'])
    f = w.load(GENS).zoned_rectangle
    bad = z3.Or(Nix.z > Nx.z - 2, Niy.z > Ny.z - 2)
    try:
        r = f(Nx, Ny, Bx, By, Nix, Niy)
    except ValueError:
        c.prove('zoned rectangle: refused only when the interior does not fit', bad)
        return
    c.prove('zoned rectangle: an interior that does not fit is refused', z3.Not(bad))
    bix = z3.ToReal(Nx.z - 1) * Bx.z / z3.ToReal(Nix.z + 1)
    biy = z3.ToReal(Ny.z - 1) * By.z / z3.ToReal(Niy.z + 1)
    inner = lambda u, v: z3.And(u >= 1, u <= Nix.z, v >= 1, v <= Niy.z)
    parts = [grid('perimeter', Bx, By, perimeter(Nx, Ny)), ('interior', bix, biy, inner, (0, 0))]
    exact_grid(c, 'zoned rectangle', r, parts, 2 * Nx.z + 2 * Ny.z - 4 + Nix.z * Niy.z)
    # the interior lies strictly inside of the perimeter
    u = c.fresh('u', I)
    ur, nx, nix = z3.ToReal(u), z3.ToReal(Nx.z - 1) * Bx.z, z3.ToReal(Nix.z + 1)
    c.prove('zoned rectangle: interior rows lie between the perimeter rows',
            z3.Implies(z3.And(u >= 1, u <= Nix.z), z3.And(0 < ur * (nx / nix), ur * (nx / nix) < nx)))


def t_transpose(w, c):
    n = c.int('n')
    c.assume(n.z >= 0)
    X, Y = uf('px', I, R), uf('py', I, R)
    l = SList.of(Comp(n, lambda t: (Num(X(zval(t))), Num(Y(zval(t))))))
    r = to_list(w.load(GENS).transpose_coordinates(l))
    c.prove('transpose: same number of points', zval(r.length()) == n.z)
    i = Num(c.fresh('i', I))
    c.assume(z3.And(i.z >= 0, i.z < n.z))
    x, y = pair(r[i])
    c.prove('transpose: x and y are swapped, the order is kept', z3.And(zval(x) == Y(i.z), zval(y) == X(i.z)))
    c.prove('transpose: the list given is unchanged', z3.And(zval(l.length()) == n.z, zval(l[i][0]) == X(i.z), zval(l[i][1]) == Y(i.z)))


def targets():
    T = lambda n, f, *fs: Target(n, f, ['ghedt/coordinates.py:' + x for x in fs])
    return [T('rectangle', t_rectangle, 'rectangle'), T('open_rectangle', t_open, 'open_rectangle', 'rectangle'), T('L_shape', t_L, 'L_shape'),
            T('U_shape', t_U, 'U_shape', 'rectangle'), T('lop_U', t_lopU, 'lop_U'), T('C_shape', t_C, 'C_shape'),
            T('zoned_rectangle', t_zoned, 'zoned_rectangle', 'open_rectangle', 'rectangle'),
            T('transpose_coordinates', t_transpose, 'transpose_coordinates')]
