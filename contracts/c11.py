"""C11: splitting the hourly loads."""
from .lib import *
GL = 'ghedt.peak_load_analysis_tool.ground_loads'


def t_split(w, c):
    n = c.int('n')
    c.assume(n.z >= 0)
    L = uf('load', I, R)
    q = SList.of(Comp(n, lambda t: Num(L(zval(t)))))
    split = w.load(GL).HybridLoad.split_heat_and_cool
    which = c.choose(4)
    if which == 0:
        r = split(q)
        scale = 1000
    elif which == 1:
        r = split(q, units='W')
        scale = 1000
    elif which == 2:
        r = split(q, units='kW')
        scale = 1
    else:
        s = SymStr([c.int('units')])       # any other text
        if c.choose(2) == 0:
            s = 'BTU/h'
        c.prove('units other than W and kW are refused', z3.BoolVal(raises(c, lambda: split(q, units=s), ValueError)))
        return
    rej, ext = pair(r)
    rej, ext = to_list(rej), to_list(ext)
    c.prove('rejection has an entry per hour', zval(rej.length()) == n.z)
    c.prove('extraction has an entry per hour', zval(ext.length()) == n.z)
    i = Num(c.fresh('hour', I))
    c.assume(z3.And(i.z >= 0, i.z < n.z))
    a, b = Rz(rej[i]), Rz(ext[i])
    c.prove('rejection is not negative', a >= 0)
    c.prove('extraction is not negative', b >= 0)
    c.prove('never both in an hour', z3.Or(a == 0, b == 0))
    c.prove('extraction minus rejection is the load in kW', b - a == L(i.z) / scale)
    c.prove('the list given keeps its length', zval(q.length()) == n.z)
    c.prove('the list given is unchanged', Rz(q[i]) == L(i.z))
    c.prove('the lists returned are new', z3.BoolVal(rej is not q and ext is not q and rej is not ext))


def targets():
    return [Target('split_heat_and_cool', t_split, ['ghedt/peak_load_analysis_tool/ground_loads.py:HybridLoad.split_heat_and_cool'])]
