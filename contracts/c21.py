"""C21: polygons."""
from .lib import *

FR, DOM = 'ghedt.feature_recognition', 'ghedt.domains'


def points_list(c, name, n):
    X, Y = c.freshfun(name + '_x', I, R), c.freshfun(name + '_y', I, R)
    return SList.of(Comp(n, lambda k: (Num(X(zval(k))), Num(Y(zval(k)))))), X, Y


def t_scale(w, c):
    n, s = c.int('n'), c.real('scale')
    c.assume(n.z >= 0)
    pts, X, Y = points_list(c, 'p', n)
    r = to_list(w.load(FR).scale_coordinates(pts, s))
    c.prove('as many points', zval(r.length()) == n.z)
    k = index(c, n)
    x, y = pair(r[k])
    c.prove('every point scaled, in order', z3.And(Rz(x) == X(k.z) * s.z, Rz(y) == Y(k.z) * s.z))
    x, y = pair(pts[k])
    c.prove('the points given are left alone', z3.And(zval(pts.length()) == n.z, Rz(x) == X(k.z), Rz(y) == Y(k.z)))


def scaled(g):
    s = g['scale']
    return SList.of(*models.map_list(to_list(g['coordinates']), lambda p: tuple(v * s for v in pair(p))).segs)


def filtered(c, r, n, want, value, what):
    """r holds value(k), in order, for exactly the k of 0..n-1 with want(k)."""
    r = to_list(r)
    if len(r.segs) != 1 or not isinstance(r.segs[0], Comp) or not c.valid(zval(r.segs[0]._n) == zval(n)):
        raise Unsupported('the points kept are not listed one by one')
    s = r.segs[0]
    k = index(c, n)
    kept = z3.BoolVal(True) if s.cond is None else bz(s.cond(k))
    c.prove(what + ': exactly the points wanted are kept', kept == want(k))
    with Assume(c, want(k)):
        v = s.f(k)
    x, y = pair(v)
    X, Y = value(k)
    c.prove(what + ': their coordinates are unchanged', z3.Implies(want(k), z3.And(Rz(x) == X, Rz(y) == Y)))


SCALES = (10000, 1000, 100000, 1000000)


def t_cut(w, c):
    mod = w.load(FR)
    mod.scale_coordinates = recorder(mod.scale_coordinates, scaled)
    n, m = c.int('n'), c.int('m')
    c.assume(z3.And(n.z >= 0, m.z >= 1))
    pts, X, Y = points_list(c, 'p', n)
    bnd, U, V = points_list(c, 'b', m)
    # (the side of the boundary a point is on)
    P = c.freshfun('side', R, R, R)
    scale = []

    def test(contour, pt, measure):
        b = to_list(contour)
        x, y = pair(pt)
        j = index(c, m, 'vertex')
        c.prove('tested against every vertex', zval(b.length()) == m.z)
        u, v = pair(b.at(j))
        near = lambda s: z3.And(*[z3.And(a - s * e <= 1, s * e - a <= 1) for a, e in ((Rz(u), U(j.z)), (Rz(v), V(j.z)))])
        if not scale:
            scale.extend([s for s in SCALES if c.valid(near(s))][:1] or SCALES[:1])
        s = scale[0]
        # (coordinates of up to 1e-3 m are told apart)
        c.prove('tested against the boundary given, to a millimetre', near(s))
        return Num(P(Rz(x) / s, Rz(y) / s))
    c.cfg['cv2.pointPolygonTest'] = test
    kind = c.choose(5)
    if kind == 4:
        inside, contour = True, True
        r = mod.remove_cutout(pts, boundary=bnd)
    else:
        inside, contour = bool(kind & 1), bool(kind & 2)
        r = mod.remove_cutout(pts, boundary=bnd, remove_inside=inside, keep_contour=contour)

    def want(k):
        s = P(X(k.z), Y(k.z))
        side = s < 0 if inside else s > 0
        return z3.Or(side, s == 0) if contour else side
    filtered(c, r, n, want, lambda k: (X(k.z), Y(k.z)), 'remove_inside=%s, keep_contour=%s' % (inside, contour))
    k, j = index(c, n), index(c, m, 'vertex')
    x, y = pair(pts[k])
    u, v = pair(bnd[j])
    c.prove('the points given are left alone', z3.And(zval(pts.length()) == n.z, Rz(x) == X(k.z), Rz(y) == Y(k.z)))
    c.prove('the boundary given is left alone', z3.And(zval(bnd.length()) == m.z, Rz(u) == U(j.z), Rz(v) == V(j.z)))


def t_nothing(w, c):
    """No boundary: nothing is cut out."""
    n = c.int('n')
    c.assume(n.z >= 0)
    pts, X, Y = points_list(c, 'p', n)
    kw = dict(boundary=[None, SList([])][c.choose(2)], remove_inside=bool(c.choose(2)), keep_contour=bool(c.choose(2)))
    r = w.load(FR).remove_cutout(pts, **kw)
    filtered(c, r, n, lambda k: z3.BoolVal(True), lambda k: (X(k.z), Y(k.z)), 'no boundary')


def t_rectangle(w, c):
    m = c.int('m')
    c.assume(m.z >= 1)
    bnd, U, V = points_list(c, 'b', m)
    j = index(c, m, 'vertex')
    r = to_list(w.load(FR).determine_largest_rectangle(bnd))
    if not r.concrete_len():
        raise Unsupported('corners not listed one by one')
    corners = [pair(p) for p in r.vals()]
    for n, F in ((0, U), (1, V)):
        vs = [p[n] for p in corners]
        top = vs[0]
        for v in vs[1:]:
            top = core.fn('max', top, v) if False else ite(v > top, v, top)
        c.prove('no vertex is outside of the rectangle', Rz(top) >= F(j.z))
        c.prove('the rectangle starts at the origin', z3.And(*[Rz(v) >= 0 for v in vs], z3.Or(*[Rz(v) == 0 for v in vs])))
        k = z3.Int('?k')
        c.prove('the rectangle is no larger than needed', z3.Or(Rz(top) == 0, z3.Exists([k], z3.And(k >= 0, k < m.z, F(k) == Rz(top)))))
        c.prove('every corner is at the largest or at the origin', z3.And(*[z3.Or(Rz(v) == 0, Rz(v) == Rz(top)) for v in vs]))


class Cut:
    """The boreholes of candidate i, j of the bi-rectangular design left by cuts."""

    def __init__(self, i, j, ops, size):
        self.i, self.j, self.ops, self.size = i, j, tuple(ops), size

    def vc_subst(self, pairs):
        return Cut(subst(self.i, pairs), subst(self.j, pairs), self.ops, self.size)

    def vc_mentions(self, names):
        return seq.mentions(self.i, names) or seq.mentions(self.j, names)

    def vc_parts(self):
        return (self.i, self.j)

    def vc_len(self):
        return Num(self.size(self.ops, self.i, self.j))


def t_polygon(w, c):
    fr, dom = w.load(FR), w.load(DOM)
    kind = c.choose(3)
    prop, _, _ = points_list(c, 'p', c.int('m'))
    c.assume(zval(prop.length()) >= 3)
    n = c.int('mb')
    c.assume(n.z >= 3)
    bld = [None, SList([]), points_list(c, 'b', n)[0]][kind]
    bmin, bx, by, xm, ym = (c.real(v) for v in ('B_min', 'B_max_x', 'B_max_y', 'x_max', 'y_max'))
    c.assume(z3.And(xm.z >= 0, ym.z >= 0))
    Z = Num(z3.RealVal(0))
    N, M = c.int('lists'), c.freshfun('candidates', I, I)
    c.assume(N.z >= 0)
    k = z3.Int('?k')
    c.axiom(z3.ForAll([k], M(k) >= 0, patterns=[M(k)]))
    sizes = {}

    def size(ops, i, j):
        """A cut leaves no more boreholes than there were."""
        out = None
        for q in range(len(ops) + 1):
            key = ops[:q]
            if key not in sizes:
                sizes[key] = c.freshfun('boreholes_%d' % len(sizes), I, I, I)
            v = sizes[key](zval(i), zval(j))
            c.assume(v >= 0)
            if out is not None:
                c.assume(v <= out)
            out = v
        return out

    def largest(a):
        c.prove('the land is the property', same(c, a['property_boundary'], prop))
        return SList([SList([Z, Z]), SList([xm, Z]), SList([xm, ym]), SList([Z, ym]), SList([Z, Z])])
    fr.determine_largest_rectangle = recorder(fr.determine_largest_rectangle, largest)

    def nested(a):
        c.prove('bi-rectangular candidates of the land around the property', z3.And(Rz(a['length_x']) == xm.z, Rz(a['length_y']) == ym.z))
        c.prove('bi-rectangular candidates within the spacing limits', z3.And(Rz(a['B_min']) == bmin.z, Rz(a['B_max_x']) == bx.z, Rz(a['B_max_y']) == by.z))
        return SList.of(Comp(N, lambda i: SList.of(Comp(Num(M(zval(i))), lambda j, i=i: Cut(i, j, (), size)))))
    dom.bi_rectangle_nested = recorder(dom.bi_rectangle_nested, nested)

    def cut(a):
        f, b = a['coordinates'], a['boundary']
        if not isinstance(f, Cut):
            raise Unsupported('something else than a candidate is cut: %r' % (f,))
        if b is None or isinstance(b, SList) and b.concrete_len() and not b.vals():
            return Cut(f.i, f.j, f.ops, size)
        which = 'property' if b is prop else 'building' if b is bld else None
        if which is None:
            raise Unsupported('cut by another boundary')
        return Cut(f.i, f.j, f.ops + ((which, bool(a['remove_inside']), bool(a['keep_contour'])),), size)
    fr.remove_cutout = recorder(fr.remove_cutout, cut)
    sorts = []

    def reorder(a):
        sorts.append(1)
        return Sorted(to_list(a['domain']))
    dom.reorder_domain = recorder(dom.reorder_domain, reorder)
    kw = {} if kind == 0 and c.choose(2) else {'building_description': bld}
    r = to_list(dom.polygonal_land_constraint(prop, bmin, bx, by, **kw))
    c.prove('as many lists as the bi-rectangular design', zval(r.length()) == N.z)
    i = index(c, N, 'list')
    d = r.at(i)
    if not isinstance(d, Sorted):
        raise Unsupported('a list which is not put in order')
    d = to_list(d.l)
    if len(d.segs) != 1 or not isinstance(d.segs[0], Comp) or not c.valid(zval(d.segs[0]._n) == M(i.z)):
        raise Unsupported('candidates of a list built in another way')
    s = d.segs[0]
    j = index(c, Num(M(i.z)), 'candidate')
    wanted = {('property', False, True)} | ({('building', True, False)} if kind == 2 else set())
    v = s.f(j)
    if not isinstance(v, Cut):
        raise Unsupported('a candidate built in another way: %r' % (v,))
    kept = z3.BoolVal(True) if s.cond is None else bz(s.cond(j))
    # (both cuts remove boreholes only, in whichever order)
    c.prove('every candidate is cut by the property and the building', z3.Implies(kept, z3.BoolVal(set(v.ops) == wanted)))
    c.prove('every candidate is one of the bi-rectangular candidates, in its own list', z3.Implies(kept, z3.And(zval(v.i) == i.z, zval(v.j) == j.z)))
    left = size(v.ops, i, j)
    c.prove('a candidate is left out exactly if no borehole is left', kept == (left >= 1))


class Sorted:
    """reorder_domain by its contract (C04): the same fields, in growing order."""

    def __init__(self, l):
        self.l = l

    def vc_subst(self, pairs):
        return Sorted(subst(self.l, pairs))

    def vc_mentions(self, names):
        return seq.mentions(self.l, names)

    def vc_parts(self):
        return (self.l,)

    def vc_len(self):
        return self.l.length()


def targets():
    F = ['ghedt/feature_recognition.py:' + f for f in ('scale_coordinates', 'remove_cutout', 'determine_largest_rectangle')]
    return [Target('scale_coordinates', t_scale, F[:1]), Target('remove_cutout', t_cut, F[1:2]), Target('remove_cutout without boundary', t_nothing, F[1:2]),
            Target('determine_largest_rectangle', t_rectangle, F[2:]), Target('polygonal_land_constraint', t_polygon, ['ghedt/domains.py:polygonal_land_constraint', 'ghedt/domains.py:reorder_domain'])]
