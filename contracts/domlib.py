"""Shapes by their contract (proved in C01) and the candidate lists built of them."""
from .lib import *

DOM, COO = 'ghedt.domains', 'ghedt.coordinates'


class Shape:
    """What a function of coordinates.py returns: its contract only."""

    def __init__(self, kind, a, b, swapped=False):
        self.kind, self.a, self.b, self.swapped = kind, tuple(a), tuple(b), swapped

    def vc_subst(self, pairs):
        return Shape(self.kind, [subst(x, pairs) for x in self.a], [subst(x, pairs) for x in self.b], self.swapped)

    def vc_mentions(self, names):
        return any(seq.mentions(x, names) for x in self.a + self.b)

    def vc_parts(self):
        return self.a + self.b

    def vc_len(self):
        return Num(count(self))

    def vc_list(self):
        raise Unsupported('the points of a shape')


def ints(s):
    return [zval(x) for x in s.a]


def count(s):
    a = ints(s)
    if s.kind == 'rectangle':
        return a[0] * a[1]
    if s.kind == 'L':
        return a[0] + a[1] - 1
    if s.kind == 'lopU':
        return a[0] + a[1] + a[2] - 2
    if s.kind == 'C':
        return a[0] + 2 * a[1] + a[2] - 2
    if s.kind == 'zoned':
        return 2 * a[0] + 2 * a[1] - 4 + a[2] * a[3]
    raise Unsupported(s.kind)


def pre(s):
    """The precondition the contract of the shape has."""
    a = ints(s)
    out = [x >= 1 for x in a] + [Rz(x) > 0 for x in s.b]
    if s.kind == 'lopU':
        out.append(a[0] >= 2)
    if s.kind == 'C':
        out += [a[0] >= 2, a[1] >= 2, a[2] <= a[0] - 2]
    return z3.And(out)


def install(w, c, zoned=None):
    """coordinates.py by contract."""
    C = w.load(COO)

    def made(s):
        ctx().prove('arguments of a %s' % s.kind, pre(s))
        return s
    r0 = C.rectangle
    C.rectangle = recorder(r0, lambda g: made(Shape('rectangle', (g['Nx'], g['Ny']), (g['Bx'], g['By']))) if origin(g['origin']) else None)
    C.L_shape = recorder(C.L_shape, lambda g: made(Shape('L', (g['Nx'], g['Ny']), (g['Bx'], g['By']))))
    C.lop_U = recorder(C.lop_U, lambda g: made(Shape('lopU', (g['Nx'], g['Ny_1'], g['Ny_2']), (g['Bx'], g['By']))))
    C.C_shape = recorder(C.C_shape, lambda g: made(Shape('C', (g['Nx_1'], g['Ny'], g['Nx_2']), (g['Bx'], g['By']))))

    def zoned_(g):
        s = Shape('zoned', (g['Nx'], g['Ny'], g['Nix'], g['Niy']), (g['Bx'], g['By']))
        if g['Nix'] > g['Nx'] - 2 or g['Niy'] > g['Ny'] - 2:
            raise ValueError('Too many interior boreholes.')
        return made(s)
    C.zoned_rectangle = recorder(C.zoned_rectangle, zoned_)

    def transpose(s):
        if not isinstance(s, Shape):
            raise Unsupported('something else than a shape is transposed')
        return Shape(s.kind, s.a, s.b, not s.swapped)
    C.transpose_coordinates = recorder(C.transpose_coordinates, lambda g: transpose(g['coordinates']))


def origin(o):
    o = pair(o)
    if const_of(o[0]) == 0 and const_of(o[1]) == 0:
        return True
    raise Unsupported('a rectangle away from the origin')


def member(s, u, v, inner=False):
    """The grid points of the shape (before it is transposed)."""
    a = ints(s)
    box = z3.And(u >= 0, u < a[0], v >= 0, v < a[1])
    if s.kind == 'rectangle':
        return box
    if s.kind == 'L':
        return z3.And(box, z3.Or(v == 0, u == 0))
    if s.kind == 'lopU':
        return z3.And(v >= 0, z3.Or(z3.And(v == 0, u >= 0, u < a[0]), z3.And(u == 0, v < a[1]), z3.And(u == a[0] - 1, v < a[2])))
    if s.kind == 'C':
        return z3.And(box, z3.Or(v == 0, u == 0, u == a[0] - 1, z3.And(v == a[1] - 1, u >= 1, u <= a[2])))
    if s.kind == 'zoned':
        if inner:
            return z3.And(u >= 1, u <= a[2], v >= 1, v <= a[3])
        return z3.And(box, z3.Or(u == 0, u == a[0] - 1, v == 0, v == a[1] - 1))
    raise Unsupported(s.kind)


def steps(s):
    """The number of spacings a shape covers in its two directions."""
    a = ints(s)
    k1, k2 = a[0] - 1, a[1] - 1
    if s.kind == 'lopU':
        k2 = z3.If(a[2] > a[1], a[2], a[1]) - 1
    return k1, k2


def extents(s):
    """The largest coordinates (user's directions) of a shape: x, y."""
    k1, k2 = steps(s)
    e = (z3.ToReal(k1) * Rz(s.b[0]), z3.ToReal(k2) * Rz(s.b[1]))
    return e[::-1] if s.swapped else e


def each(c, l, depth, fn, label=''):
    """fn(label, shape) for the generic member of every part of a nested list,
    each in a case of its own."""
    l = to_list(l)
    for j, s in enumerate(l.segs):
        lab = '%s[%d]' % (label, j)

        def go(c, v, lab=lab):
            if depth > 1:
                each(c, v, depth - 1, fn, lab)
            else:
                fn(c, lab, v)
        if isinstance(s, Elems):
            for i, v in enumerate(s.vals):
                cases(c, lambda c, v=v, i=i: go(c, v, '%s.%d' % (lab, i)))
        elif isinstance(s, Comp):
            def one(c, s=s):
                k = Num(c.fresh('e', I))
                c.assume(z3.And(k.z >= 0, k.z < zval(s._n)))
                if s.cond is not None:
                    c.assume(bz(s.cond(k)))
                go(c, s.f(k))
            cases(c, one)
        elif isinstance(s, Flat):
            def block(c, s=s, lab=lab):
                k = Num(c.fresh('e', I))
                c.assume(z3.And(k.z >= 0, k.z < zval(s._n)))
                each(c, s.f(k), depth, fn, lab)
            cases(c, block)
        else:
            raise Unsupported('candidates of a list built in another way')


def pairs(c, l, fn, label=''):
    """fn(label, a, b) for neighbours a, b of a list (every pair a before b
    where elements are left out in between)."""
    segs = [s for s in to_list(l).segs]
    if len(segs) == 1 and isinstance(segs[0], Flat):
        return block_pairs(c, segs[0], fn, label)
    for s in segs:
        if not isinstance(s, (Elems, Comp)):
            raise Unsupported('candidates of a list built in another way')

    def member_of(c, s, which):
        """An element of s: 'first', 'last' or any."""
        if isinstance(s, Elems):
            i = c.choose(len(s.vals)) if which == 'any' else (0 if which == 'first' else len(s.vals) - 1)
            return s.vals[i], None
        k = Num(c.fresh('p', I))
        c.assume(z3.And(k.z >= 0, k.z < zval(s._n)))
        if which == 'first':
            c.assume(k.z == 0)
        if which == 'last':
            c.assume(k.z == zval(s._n) - 1)
        if s.cond is not None:
            c.assume(bz(s.cond(k)))
        return s.f(k), k
    for j, s in enumerate(segs):
        if isinstance(s, Elems):
            for a, b in zip(s.vals, s.vals[1:]):
                cases(c, lambda c, a=a, b=b: fn(c, '%s[%d]' % (label, j), a, b))
        else:
            def inner(c, s=s):
                k = Num(c.fresh('p', I))
                k2 = Num(c.fresh('q', I)) if s.cond is not None else k + 1
                c.assume(z3.And(k.z >= 0, k.z < k2.z, k2.z < zval(s._n)))
                if s.cond is not None:
                    c.assume(z3.And(bz(s.cond(k)), bz(s.cond(k2))))
                fn(c, '%s[%d]' % (label, j), s.f(k), s.f(k2))
            cases(c, inner)
        for m in range(j + 1, len(segs)):
            def across(c, s=s, t=segs[m], between=segs[j + 1:m]):
                # (nothing in between)
                for x in between:
                    if isinstance(x, Elems):
                        raise PathEnd()
                    if x.cond is None:
                        c.assume(zval(x._n) <= 0)
                a, _ = member_of(c, s, 'any' if isinstance(s, Comp) and s.cond is not None else 'last')
                b, _ = member_of(c, t, 'any' if isinstance(t, Comp) and t.cond is not None else 'first')
                fn(c, '%s[%d,%d]' % (label, j, m), a, b)
            if not any(isinstance(x, Elems) for x in segs[j + 1:m]):
                cases(c, across)


def block_pairs(c, s, fn, label):
    """pairs() of a list made of one block after the other."""
    def inside(c):
        k = Num(c.fresh('p', I))
        c.assume(z3.And(k.z >= 0, k.z < zval(s._n)))
        pairs(c, s.f(k), fn, label)
    cases(c, inside)

    def across(c):
        k = Num(c.fresh('p', I))
        c.assume(z3.And(k.z >= 0, k.z + 1 < zval(s._n)))
        a, b = to_list(s.f(k)), to_list(s.f(k + 1))
        c.prove('no empty block', z3.And(zval(a.length()) >= 1, zval(b.length()) >= 1))
        fn(c, label + '[+]', a[-1], b[0])
    cases(c, across)


def land(c, nmin=1, both=True):
    """A land and spacing limits for which some whole number of spacings fits."""
    lx, ly, bmin, bx, by = (c.real(n) for n in ('length', 'width', 'B_min', 'B_max_x', 'B_max_y'))
    c.assume(z3.And(lx.z > 0, ly.z > 0, bmin.z > 0, bx.z >= bmin.z, by.z >= bmin.z))
    return lx, ly, bmin, bx, by


def fits(c, L, bmin, bmax, name, nmin=1):
    """m spacings within the limits fit the side L."""
    m = c.int(name)
    k = z3.ToReal(m.z)
    c.assume(z3.And(m.z >= nmin, k * bmin.z <= L.z, k * bmax.z >= L.z))
    f = z3.And(L.z / bmin.z >= k, L.z / bmax.z <= k, L.z / bmax.z > 0)
    c.prove('a number of spacings that fits', f)
    c.assume(f)
    return m


def shape(s):
    if not isinstance(s, Shape):
        raise Unsupported('a candidate which is not made by coordinates.py: %r' % (s,))
    return s


def zoned_args(length_x, length_y, n_x, n_y):
    """The sides of a zoned rectangle, the longer one first."""
    if length_x >= length_y:
        return length_x, length_y, n_x, n_y
    return length_y, length_x, n_y, n_x


def zoned_by_contract(length_x, length_y, n_x, n_y, transpose=False):
    """zoned_rectangle_domain by its contract (t_zoned_rectangle)."""
    c = ctx()
    l1, l2, n1, n2 = zoned_args(length_x, length_y, n_x, n_y)
    c.prove('a zoned rectangle has room for interior boreholes', z3.And(Rz(l1) > 0, Rz(l2) > 0, zval(n1) >= 3, zval(n2) >= 3))
    n1z, n2z = zval(n1), zval(n2)
    b1, b2 = l1 / (n1 - 1), l2 / (n2 - 1)
    F1, F2 = c.freshfun('interior1', I, I), c.freshfun('interior2', I, I)
    n = Num(n1z + n2z - 5)

    def at(k):
        kz = zval(k)
        cc = ctx()
        for q in (kz, kz + 1):
            cc.assume(z3.Implies(z3.And(q >= 0, q < n.z), z3.And([f for _, f in zoned_spec(F1, F2, n1z, n2z, q)])))
        cc.assume(z3.Implies(z3.And(kz >= 0, kz + 1 < n.z), zoned_step(F1, F2, kz)))
        return Shape('zoned', (n1, n2, Num(F1(kz)), Num(F2(kz))), (b1, b2), bool(transpose))
    return SList.of(Comp(n, at))


def zoned_spec(F1, F2, n1, n2, k):
    return (('within the first side', z3.And(F1(k) >= 1, F1(k) <= n1 - 2)), ('within the second side', z3.And(F2(k) >= 1, F2(k) <= n2 - 2)),
            ('one row more each', F1(k) + F2(k) == k + 2))


def zoned_step(F1, F2, k):
    return z3.And(F1(k) <= F1(k + 1), F2(k) <= F2(k + 1))


def t_zoned_rectangle(w, c):
    install(w, c)
    lx, ly, nx, ny = c.real('length_x'), c.real('length_y'), c.int('n_x'), c.int('n_y')
    c.assume(z3.And(lx.z > 0, ly.z > 0, nx.z >= 3, ny.z >= 3))
    transpose = c.choose(2) == 1
    r = to_list(w.load(DOM).zoned_rectangle_domain(lx, ly, nx, ny, transpose=transpose))
    l1, l2, n1, n2 = zoned_args(lx, ly, nx, ny)
    c.prove('as many candidates as rows can be added', zval(r.length()) == zval(n1) + zval(n2) - 5)

    def one(c):
        k = Num(c.fresh('k', I))
        c.assume(z3.And(k.z >= 0, k.z < zval(r.length())))
        s = shape(r.at(k))
        if s.kind != 'zoned' or bool(s.swapped) != transpose:
            c.prove('zoned rectangles, transposed when asked', z3.BoolVal(False))
        a = ints(s)
        c.prove('the perimeter has the rows asked for', z3.And(a[0] == zval(n1), a[1] == zval(n2)))
        c.prove('the perimeter follows the land', z3.And(Rz(s.b[0]) == Rz(l1 / (n1 - 1)), Rz(s.b[1]) == Rz(l2 / (n2 - 1))))
        for nm, f in zoned_spec(lambda q: a[2], lambda q: a[3], zval(n1), zval(n2), k.z):
            c.prove('interior rows: ' + nm, f)

        def more(c):
            c.assume(k.z + 1 < zval(r.length()))
            t = ints(shape(r.at(k + 1)))
            c.prove('interior rows are only added', z3.And(a[2] <= t[2], a[3] <= t[3]))
        cases(c, more)
    cases(c, one)


class Land:
    pass


def design(w, routine, **gc):
    """Design(...) for a routine and geometric constraints."""
    g = w.load('ghedt.media').GeometricConstraints(**gc)
    o = [Stub(name=n) for n in ('V_flow', 'borehole', 'bhe_object', 'fluid', 'pipe', 'grout', 'soil', 'sim_params')]
    return w.load('ghedt.design').Design(*o, g, Stub(name='loads'), method='hybrid', routine=routine)


NEAR = ['ghedt/design.py:Design.__init__', 'ghedt/utilities.py:number_of_boreholes', 'ghedt/domains.py:square_and_near_square', 'ghedt/media.py:GeometricConstraints']


def builders(spec, near=True):
    """Targets: spec(c, kind, candidates, depth, land) for every builder."""
    def setup(w, c):
        install(w, c)
        L = Land()
        L.lx, L.ly, L.bmin, L.bx, L.by = land(c)
        return L

    def t_rectangular(w, c):
        L = setup(w, c)
        fits(c, L.lx if L.lx >= L.ly else L.ly, L.bmin, L.bx, 'm')
        spec(c, 'rectangle', design(w, 'rectangle', length=L.lx, width=L.ly, B_min=L.bmin, B_max_x=L.bx).coordinates_domain, 1, L)

    def t_bi(w, c):
        L = setup(w, c)
        fits(c, L.lx, L.bmin, L.bx, 'm')
        fits(c, L.ly, L.bmin, L.by, 'n')
        spec(c, 'bi-rectangle', design(w, 'bi-rectangle', length=L.lx, width=L.ly, B_min=L.bmin, B_max_x=L.bx, B_max_y=L.by).coordinates_domain_nested, 2, L)

    def t_zoned(w, c):
        L = setup(w, c)
        fits(c, L.lx, L.bmin, L.bx, 'm', 2)
        fits(c, L.ly, L.bmin, L.by, 'n', 2)
        # (at least three rows in each direction)
        c.assume(z3.And(L.lx.z / L.bx.z > 1, L.ly.z / L.by.z > 1))
        w.load(DOM).zoned_rectangle_domain = zoned_by_contract
        spec(c, 'bi-zoned', design(w, 'bi-zoned', length=L.lx, width=L.ly, B_min=L.bmin, B_max_x=L.bx, B_max_y=L.by).coordinates_domain_nested, 2, L)

    def t_near(w, c):
        install(w, c)
        L = Land()
        L.length, L.B = c.real('length'), c.real('B')
        c.assume(z3.And(L.length.z >= 0, L.B.z > 0))
        c.assume(L.length.z / L.B.z >= 0)
        L.lx, L.ly = L.length, L.length + L.B
        spec(c, 'near-square', design(w, 'near-square', length=L.length, B=L.B).coordinates_domain, 1, L)
    D = lambda *fs: ['ghedt/domains.py:' + f for f in fs] + ['ghedt/design.py:Design.__init__', 'ghedt/media.py:GeometricConstraints']
    out = [Target('near-square', t_near, NEAR)] if near else []
    return out + [Target('rectangular', t_rectangular, D('rectangular')), Target('bi_rectangle_nested', t_bi, D('bi_rectangle_nested', 'bi_rectangular')),
            Target('bi_rectangle_zoned_nested', t_zoned, D('bi_rectangle_zoned_nested'), cfg={'ahead': 0}),
            Target('zoned_rectangle_domain', t_zoned_rectangle, D('zoned_rectangle_domain'), cfg={'ahead': 0})]
