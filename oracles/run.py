"""Usage: run.py ID seconds seed out.json [maxcases]   |   run.py --replay FILE"""
import sys, os, json, time, random, traceback, warnings, io, contextlib
warnings.simplefilter('ignore')
here = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('GHEDT_REPO', '/repo')
sys.path[:0] = [REPO, here]
import numpy as np
np.seterr(all='ignore')
import common
from common import ORACLES, Skip, Limit, repo_frame
FILES = {'C01': 'geo', 'C02': 'geo', 'C03': 'geo', 'C04': 'geo', 'C20': 'geo', 'C21': 'geo', 'C25': 'store',
         'C05': 'search', 'C06': 'search', 'C07': 'search', 'C08': 'search', 'C19': 'sim',
         'C09': 'sim', 'C10': 'sim', 'C15': 'sim', 'C22': 'sim',
         'C11': 'loads', 'C12': 'loads', 'C13': 'loads', 'C14': 'loads',
         'C16': 'bhe', 'C17': 'bhe', 'C18': 'bhe'}


def run_case(o, case):
    """None, or the text of a violation. Raises Skip."""
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return o.check(case)
    except (Skip, Limit):
        raise
    except Exception as e:
        txt = traceback.format_exc()
        if 'Stub' in str(e) or not repo_frame(e.__traceback__):
            raise Limit(txt)
        return 'raises %s: %s' % (type(e).__name__, str(e)[:300])


def main():
    if sys.argv[1] == '--replay':
        r = json.load(open(sys.argv[2]))
        if 'case' not in r:
            print(json.dumps(r, indent=1)[:4000])
            return 1
        __import__(FILES[r['property']])
        o = {c.__name__: c for c in ORACLES[r['property']]}[r['oracle']]
        m = run_case(o, r['case'])
        print('VIOLATED: ' + m if m else 'holds')
        return 1 if m else 0
    pid, secs, seed, out = sys.argv[1], float(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    maxc = int(sys.argv[5]) if len(sys.argv) > 5 else 10**9
    t0 = time.time()
    res = {'property': pid, 'evaluations': 0, 'skipped': 0, 'limit': 0, 'distinct': 0, 'samples': [], 'violation': None, 'limits': []}
    try:
        __import__(FILES[pid])
    except Exception as e:
        res['import_error'] = traceback.format_exc()
        json.dump(res, open(out, 'w'))
        return 0
    seen = set()
    os_ = ORACLES[pid]
    gens = [(o, iter(o.gen(random.Random('%s/%s/%d' % (pid, o.__name__, seed))))) for o in os_]
    spent = {o.__name__: 0.0 for o in os_}
    mincases = {o.__name__: getattr(o, 'mincases', 0) for o in os_}
    done = {o.__name__: 0 for o in os_}
    while gens and res['violation'] is None and res['evaluations'] < maxc:
        el = time.time() - t0
        if el > secs and all(done[o.__name__] >= mincases[o.__name__] or el > 4 * secs + 60 for o, _ in gens):
            break
        # the oracle with the least time so far goes next
        gens.sort(key=lambda g: (spent[g[0].__name__] / getattr(g[0], 'weight', 1.0)))
        o, g = gens[0]
        try:
            case = next(g)
        except StopIteration:
            gens.pop(0)
            continue
        t1 = time.time()
        done[o.__name__] += 1
        try:
            m = run_case(o, case)
            res['evaluations'] += 1
            key = (o.__name__, json.dumps(case, sort_keys=True, default=str))
            seen.add(hash(key))
            if len(res['samples']) < 4 and res['evaluations'] % 7 == 1:
                s = json.dumps(case, default=str)
                res['samples'].append({'oracle': o.__name__, 'case': case if len(s) < 1500 else s[:300] + '...'})
            if m:
                res['violation'] = {'property': pid, 'oracle': o.__name__, 'case': case, 'message': m}
        except Skip:
            res['skipped'] += 1
        except Limit as e:
            res['limit'] += 1
            if len(res['limits']) < 3:
                res['limits'].append(str(e)[-1500:])
        spent[o.__name__] += time.time() - t1 + 1e-6
    res['distinct'] = len(seen)
    res['per_oracle'] = done
    res['wall_s'] = time.time() - t0
    json.dump(res, open(out, 'w'), default=str)
    return 0


if __name__ == '__main__':
    sys.exit(main())
