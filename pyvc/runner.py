"""Runs the contracts of one property against the current sources."""
import sys, os, time, json, importlib, traceback, threading
import z3
from . import core, loader, models, seq
from .core import Unsupported, PathEnd, Report, explore, ctx, STATS


class Target:
    """One verification target: a function under contract."""

    def __init__(self, name, fn, functions, cfg=None, max_paths=3000, ms=12000, bounded=None):
        self.name, self.fn, self.functions = name, fn, functions
        self.cfg, self.max_paths, self.ms, self.bounded = cfg or {}, max_paths, ms, bounded


class Result:
    pass


def run_target(t, repo, cross=False, start=None, share=None):
    r = Result()
    r.name, r.functions, r.bounded = t.name, t.functions, t.bounded
    rep = Report(t.name, ms=t.ms, cross=cross)
    r.report = rep
    r.unsupported = None
    r.error = None
    t0 = time.time()
    z3.set_param('smt.random_seed', 0)

    def body():
        w = loader.World(repo)
        c = ctx()
        c.world = w
        try:
            t.fn(w, c)
        except (PathEnd, Unsupported):
            raise
        except AssertionError as e:
            c.prove('an assertion of the code holds', z3.BoolVal(False))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if f.filename.startswith(repo)]
            if not where or isinstance(e, (TypeError, AttributeError, NotImplementedError, RecursionError, z3.Z3Exception)):
                # raised by the contract or the engine on values of this shape
                raise Unsupported('%s: %s (%s)' % (type(e).__name__, e, traceback.format_exc()[-900:]))
            c.prove('no %s at %s:%s' % (type(e).__name__, os.path.relpath(where[-1].filename, repo), where[-1].name), z3.BoolVal(False))
    try:
        explore(body, report=rep, cfg=dict(t.cfg, _start=start, _share=share), max_paths=t.max_paths)
    except Unsupported as e:
        r.unsupported = str(e)
        r.where = '' if 'Traceback' in str(e) or 'File' in str(e) else traceback.format_exc()[-1500:]
    except RecursionError as e:
        r.unsupported = 'recursion'
        r.where = ''
    except Exception as e:
        r.unsupported = 'engine: %s' % e
        r.where = traceback.format_exc()[-3000:]
    r.wall = time.time() - t0
    r.proved = sum(o.status == 'proved' for o in rep.obls)
    r.bad = [o for o in rep.obls if o.status != 'proved']
    # vacuity: at least one path ends normally
    if r.unsupported is None and rep.reached == 0 and share is None:
        r.unsupported = 'no path of the target is feasible (vacuous)'
        r.where = ''
    if r.unsupported is None and not rep.obls and share is None:
        r.unsupported = 'no obligations'
        r.where = ''
    return r


def targets_of(pid):
    m = importlib.import_module('contracts.%s' % pid.lower())
    return m.targets()


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    sys.setrecursionlimit(20000)
    pid = sys.argv[1]
    only = next((a for a in sys.argv[2:] if not a.startswith('-')), None)
    repo = os.environ.get('GHEDT_REPO', '/repo')
    import warnings
    warnings.simplefilter('ignore')
    for t in targets_of(pid):
        if only and only not in t.name:
            continue
        r = run_target(t, repo)
        print('%-50s proved %d/%d paths %d %.1fs %s' % (t.name, r.proved, len(r.report.obls), r.report.paths, r.wall, r.unsupported or ''))
        if r.unsupported and '-v' in sys.argv:
            print(r.where)
        for o in r.bad[:6]:
            print('   ', o.status, o.name, '%.1fs' % o.time, (o.goal or '')[:400] if '-v' in sys.argv else '')
            if o.model and '-v' in sys.argv:
                print('      ', {k: v for k, v in list(o.model.items())[:30] if len(v) < 60})
    print('solver', STATS.by, '%.1fs' % STATS.solver_s)
