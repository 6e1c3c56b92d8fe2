"""C25: saving and reading a design, with the real pickle and real parts."""
import os, random, tempfile, shutil, inspect
from common import *
import numpy as np
import ghedt as dt
import ghedt.peak_load_analysis_tool as plat
import pygfunction as gt
from geo import NEED, VALS

BHES = ['SingleUTube', 'MultipleUTube', 'CoaxialPipe']


def real_parts(c):
    q = lambda k: c['x'][k % len(c['x'])]
    b = gt.boreholes.Borehole(60. + q(0), 2. + q(1) / 100, 0.07 + q(2) / 1e4, 0., 0.)
    fluid = gt.media.Fluid('MEG', 20.)
    if c['bhe'] == 'CoaxialPipe':
        pipe = plat.media.Pipe((0, 0), [0.0221, 0.025], [0.0487, 0.055], 0, 1e-6, [0.4, 0.4 + q(3) / 1000], 1542000.)
    else:
        s, n = 0.02, 1 if c['bhe'] == 'SingleUTube' else 2
        pipe = plat.media.Pipe(plat.media.Pipe.place_pipes(s, 0.0167, n), 0.0135, 0.0167, s, 1e-6, 0.4 + q(3) / 1000, 1542000.)
    grout, soil = plat.media.Grout(1. + q(4) / 100, 3901000.), plat.media.Soil(2. + q(5) / 100, 2343493., 18.3)
    sim = plat.media.SimulationParameters(1, 240, 35. + q(6) / 10, 5., 135., 60.)
    loads = [q(k) * (1 if k % 3 else -1) for k in range(8760)]
    return dict(V_flow=0.2 + q(0) / 1000, borehole=b, bhe_object=getattr(plat.borehole_heat_exchangers, c['bhe']), fluid=fluid, pipe=pipe, grout=grout, soil=soil,
                sim_params=sim, hourly_extraction_ground_loads=loads)


def equal(a, b, path='it', seen=None):
    """None, or where the two differ."""
    seen = {} if seen is None else seen
    if a is b or (id(a), id(b)) in seen:
        return None
    seen[(id(a), id(b))] = (a, b)
    if type(a) is not type(b):
        return '%s: %s / %s' % (path, type(a).__name__, type(b).__name__)
    if isinstance(a, (int, float, str, bool)):
        return None if a == b or (a != a and b != b) else '%s: %r / %r' % (path, a, b)
    if isinstance(a, np.ndarray):
        return None if a.shape == b.shape and np.array_equal(a, b) else path
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return '%s: %d / %d entries' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = equal(x, y, '%s[%d]' % (path, i), seen)
            if r:
                return r
        return None
    if isinstance(a, dict):
        if list(a) != list(b):
            return path + ': keys'
        for k in a:
            r = equal(a[k], b[k], '%s[%r]' % (path, k), seen)
            if r:
                return r
        return None
    if hasattr(a, '__dict__'):
        return equal(vars(a), vars(b), path + '.', seen)
    return None if a == b else path


@oracle('C25')
class SaveRead:
    mincases = 40

    @staticmethod
    def gen(rng):
        k = 0
        while True:
            yield {'routine': list(NEED)[k % 4], 'bhe': BHES[(k // 4) % 3], 'v': rng.randint(0, 1), 'x': [rng.randint(0, 999) / 10 for _ in range(rng.randint(7, 60))],
                   'flow': rng.choice(['borehole', 'system']), 'method': rng.choice(['hybrid', 'hourly']), 'name': rng.choice(['ghedt_input', 'a', 'a b', 'x.y']),
                   'existing': rng.random() < .3}
            k += 1

    @staticmethod
    def check(c):
        p = real_parts(c)
        v = {k: VALS[c['v']][k] for k in (NEED[c['routine']] if c['x'][0] > 30 else VALS[0])}
        d = dt.design.Design(geometric_constraints=dt.media.GeometricConstraints(**v), method=c['method'], routine=c['routine'], flow=c['flow'], **p)
        t = tempfile.mkdtemp()
        try:
            f = os.path.join(t, c['name'])
            if c['existing']:
                open(f + '.obj', 'wb').write(b'x' * 4000000)
            dt.utilities.create_input_file(d, file_name=f)
            if os.listdir(t) != [c['name'] + '.obj']:
                return 'saving a design as %r writes %s' % (c['name'], os.listdir(t))
            r = dt.utilities.read_input_file(f + '.obj')
        finally:
            shutil.rmtree(t)
        w = equal(d, r, 'design')
        if w:
            return 'a saved %s design with a %s reads back different: %s' % (c['routine'], c['bhe'], w[:200])
        S = dt.search_routines
        saved = {n: getattr(S, n) for n in ('Bisection1D', 'Bisection2D', 'BisectionZD')}
        rec = []
        try:
            for n, cls in saved.items():
                sig = inspect.signature(cls.__init__)
                setattr(S, n, lambda *a, _n=n, _s=sig, **k: rec.append((_n, dict(list(_s.bind(None, *a, **k).arguments.items())[1:]))))
            d.find_design()
            r.find_design()
        finally:
            for n, cls in saved.items():
                setattr(S, n, cls)
        w = equal(rec[0], rec[1], 'search')
        if w or len(rec) != 2:
            return 'a saved %s design runs another search: %s' % (c['routine'], w)
