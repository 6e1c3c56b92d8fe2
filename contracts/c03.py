"""C03: candidates honour the spacing limits."""
from .domlib import *


def spacing(c, kind, lab, s, L):
    s = shape(s)
    a = ints(s)
    b = [Rz(x) for x in s.b]
    lim = [L.bx.z, L.bx.z if kind == 'rectangle' else L.by.z]
    if s.swapped:
        lim = lim[::-1]
    rows = [a[0], a[1]]
    if s.kind == 'lopU':
        rows[1] = z3.If(a[2] > a[1], a[2], a[1])
    for j in (0, 1):
        c.prove('rows at least the minimum spacing apart (%s)' % lab, z3.Implies(rows[j] >= 2, b[j] >= L.bmin.z), facts=spacing_limit(c, b[j], L.bmin))
        c.prove('rows at most the maximum spacing apart (%s)' % lab, z3.Implies(rows[j] >= 2, b[j] <= lim[j]), facts=spacing_limit(c, b[j], lim[j]))
    if kind == 'rectangle':
        c.prove('the same spacing in both directions (%s)' % lab, z3.Implies(z3.And(rows[0] >= 2, rows[1] >= 2), b[0] == b[1]))
    if s.kind == 'zoned':
        for j in (0, 1):
            n, m = z3.ToReal(rows[j] - 1), z3.ToReal(a[2 + j] + 1)
            f = lemma(c, 'n of n or fewer parts', 3, lambda n, b, m: z3.Implies(z3.And(m > 0, n >= m, b > 0), n * b / m >= b))
            pos = lemma(c, 'quotients of positive numbers', 2, lambda a, b: z3.Implies(z3.And(a > 0, b > 0), a / b > 0))
            q = quotient(b[j])
            c.prove('interior rows no closer than the perimeter rows (%s)' % lab, n * b[j] / m >= b[j], facts=[f(n, b[j], m)] + ([pos(*q)] if q else []))


def targets():
    return builders(lambda c, kind, r, depth, L: each(c, r, depth, lambda c, lab, s: spacing(c, kind, lab, s, L)), near=False)
