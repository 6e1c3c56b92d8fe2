"""C04: candidate lists start at one borehole and grow."""
from .domlib import *
from pyvc.core import sfloor as floor


def growth(c, kind, r, depth, L):
    if kind == 'near-square':
        near(c, r, L)
    if depth == 1:
        grows(c, kind, '', r, True)
        return
    r = to_list(r)
    c.prove('there is a candidate list', zval(r.length()) >= 1)
    first = [True]

    def one(c, lab, l, start):
        grows(c, kind, lab, l, kind != 'bi-zoned' or start)
    members(c, r, one)
    pairs(c, r, lambda c, lab, a, b: c.prove('the largest fields of the lists do not shrink %s' % lab, size(last(a)) <= size(last(b)), facts=grown(c, last(a), last(b))))


def near(c, r, L):
    """n by n, n by n+1, for n = 1, 2, ..."""
    r = to_list(r)
    n = floor(L.length / L.B) + 1
    c.prove('two candidates for every number of rows', zval(r.length()) == 2 * zval(n))

    def one(c, j):
        i = c.int('i')
        c.assume(z3.And(i.z >= 0, i.z < zval(n)))
        s = shape(r.at(2 * i + j))
        a = ints(s)
        c.prove('n by n, then n by n+1', z3.And(z3.BoolVal(s.kind == 'rectangle'), a[0] == i.z + 1, a[1] == i.z + 1 + j, Rz(s.b[0]) == L.B.z, Rz(s.b[1]) == L.B.z))
    cases(c, lambda c: one(c, 0))
    cases(c, lambda c: one(c, 1))


def members(c, l, fn):
    """fn(label, member, is it the first one) for the generic member of every part."""
    for j, s in enumerate(l.segs):
        if isinstance(s, Elems):
            for i, v in enumerate(s.vals):
                cases(c, lambda c, v=v, i=i: fn(c, '[%d.%d]' % (j, i), v, j == 0 and i == 0))
        elif isinstance(s, Comp) and s.cond is None:
            def one(c, s=s):
                k = Num(c.fresh('e', I))
                c.assume(z3.And(k.z >= 0, k.z < zval(s._n)))
                fn(c, '[%d]' % j, s.f(k), j == 0 and bool(k == 0))
            cases(c, one)
        else:
            raise Unsupported('candidate lists built in another way')


def size(s):
    return count(shape(s))


def grown(c, a, b):
    """(the products in the counts)"""
    p = lambda s: {'rectangle': (0, 1), 'zoned': (2, 3)}.get(shape(s).kind)
    if p(a) is None or p(b) is None:
        return []
    x, y = ints(a), ints(b)
    f = lemma(c, 'products of whole numbers grow', None, lambda a, b, a2, b2: z3.Implies(z3.And(a >= 0, b >= 0, a <= a2, b <= b2), a * b <= a2 * b2))
    return [f(*[x[j] for j in p(a)] + [y[j] for j in p(b)])]


def last(l):
    l = to_list(l)
    return l[l.length() - 1]


def grows(c, kind, lab, l, start):
    l = to_list(l)
    c.prove('a candidate list is not empty %s' % lab, zval(l.length()) >= 1)
    if start:
        c.prove('the first candidate is a single borehole %s' % lab, size(l[0]) == 1)
    each(c, l, 1, lambda c, lab2, s: c.prove('no empty candidate %s' % (lab + lab2), size(s) >= 1))
    pairs(c, l, lambda c, lab2, a, b: grew(c, lab + lab2, shape(a), shape(b)))


def grew(c, lab, a, b):
    c.prove('the number of boreholes does not shrink %s' % lab, count(a) <= count(b), facts=grown(c, a, b))


class Field:
    """The field number i of a list (its points do not matter, only how many)."""

    def __init__(self, i, size):
        self.i, self.size = i, size

    def vc_subst(self, pairs):
        return Field(subst(self.i, pairs), self.size)

    def vc_mentions(self, names):
        return seq.mentions(self.i, names)

    def vc_parts(self):
        return (self.i,)

    def vc_len(self):
        return Num(self.size(zval(self.i)))


def reorder(w, c):
    n = c.int('n')
    c.assume(n.z >= 0)
    size = c.freshfun('size', I, I)
    k = z3.Int('?k')
    c.assume(z3.ForAll([k], size(k) >= 0, patterns=[size(k)]))
    r = to_list(w.load(DOM).reorder_domain(SList.of(Comp(n, lambda t: Field(t, size)))))
    c.prove('reordering keeps the number of fields', zval(r.length()) == n.z)

    def at(j):
        f = r.at(j)
        if not isinstance(f, Field):
            raise Unsupported('the reordered list is made of something else than the fields')
        return zval(f.i)

    def same(c):
        a, b = c.int('a'), c.int('b')
        c.assume(z3.And(a.z >= 0, a.z < b.z, b.z < n.z))
        i, j = at(a), at(b)
        c.prove('reordering returns fields of the list', z3.And(i >= 0, i < n.z))
        c.prove('reordering returns no field twice', i != j)
    cases(c, same)

    def grow(c):
        a = c.int('a')
        c.assume(z3.And(a.z >= 0, a.z + 1 < n.z))
        c.prove('reordered fields grow', size(at(a)) <= size(at(a + 1)))
    cases(c, grow)


def targets():
    return builders(growth) + [Target('reorder_domain', reorder, ['ghedt/domains.py:reorder_domain'])]
