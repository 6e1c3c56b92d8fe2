"""Concrete counterexample search: runs the real code of /repo under CPython.

Each oracle is a pair gen(rng) -> iterator of JSON-able cases and
check(case) -> None or a message describing the violation.
"""
import math, random, traceback, warnings, sys, os

ORACLES = {}


class Skip(Exception):
    """The case does not meet the precondition, or the harness cannot run it."""


class Limit(Exception):
    """The harness (not the code) cannot run this case."""


def oracle(pid, weight=1.0):
    def deco(cls):
        ORACLES.setdefault(pid, []).append(cls)
        cls.pid = pid
        return cls
    return deco


def close(a, b, rel=1e-9, abs_=1e-9):
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def repo_frame(tb):
    """Does the innermost frame chain end in the code under test?"""
    last = None
    for f in traceback.extract_tb(tb):
        last = f
    inside = [f for f in traceback.extract_tb(tb) if '/ghedt/' in f.filename and '/verif' not in f.filename]
    return bool(inside)


def grid(points, bx, by, ox=0., oy=0., tol=1e-6):
    """Multiset of integer grid indices, or an error text."""
    out = []
    for p in points:
        if len(p) != 2:
            return None, 'a borehole is not an (x, y) pair: %r' % (p,)
        i, j = (p[0] - ox) / bx, (p[1] - oy) / by
        if abs(i - round(i)) > tol or abs(j - round(j)) > tol:
            return None, 'borehole %r is not on the grid' % (tuple(p),)
        out.append((int(round(i)), int(round(j))))
    return sorted(out), None


def multiset_diff(got, want):
    from collections import Counter
    g, w = Counter(got), Counter(want)
    if g == w:
        return None
    miss = list((w - g).elements())[:4]
    extra = list((g - w).elements())[:4]
    return 'missing %s, extra or repeated %s' % (miss, extra)


def call(f, *a, **k):
    """(value, exception)"""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return f(*a, **k), None
        except Exception as e:   # noqa
            return None, e
