"""C02: candidates never leave the land."""
from .domlib import *


def within(c, lab, s, lx, ly):
    ex, ey = extents(shape(s))
    facts = []
    for k, b in zip(steps(s), s.b):
        facts += part_of_side(c, k, b)
    c.prove('a candidate stays within the length (%s)' % lab, ex <= Rz(lx), facts=facts)
    c.prove('a candidate stays within the width (%s)' % lab, ey <= Rz(ly), facts=facts)


def targets():
    return builders(lambda c, kind, r, depth, L: each(c, r, depth, lambda c, lab, s: within(c, lab, s, L.lx, L.ly)))
