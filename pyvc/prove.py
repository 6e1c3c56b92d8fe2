"""python3-vt -m pyvc.prove PID out.json [--cross] [--limit SECONDS]"""
import sys, os, json, time, multiprocessing as mp, queue as _q
sys.setrecursionlimit(20000)
import warnings
warnings.simplefilter('ignore')


def one(pid, key, repo, cross, q, start, hungry):
    from pyvc import runner, core
    sys.setrecursionlimit(20000)
    i = key[0]
    t = runner.targets_of(pid)[i]
    t0 = time.time()

    def share(work):
        if time.time() - t0 < 8. or hungry.value <= 0:
            return 0
        with hungry.get_lock():
            if hungry.value <= 0:
                return 0
            hungry.value -= 1
        k = (len(work) + 1) // 2
        q.put(dict(split=(i, [list(p) for p in work[:k]])))
        return k
    try:
        r = runner.run_target(t, repo, cross, start, share)
        q.put(dict(i=key, name=r.name, functions=r.functions, bounded=r.bounded, unsupported=r.unsupported,
                   where=getattr(r, 'where', ''), wall=r.wall, paths=r.report.paths, reached=r.report.reached,
                   obligations=[dict(name=o.name, status=o.status, backend=o.backend, time=round(o.time, 3),
                                     goal=o.goal if o.status != 'proved' else None, model=o.model) for o in r.report.obls],
                   solver_s=core.STATS.solver_s, queries=core.STATS.queries, by=core.STATS.by,
                   assumed=sorted(set(core.ASSUMED))))
    except BaseException as e:
        import traceback
        q.put(dict(i=key, name=t.name, functions=t.functions, bounded=t.bounded, unsupported='engine: %r' % (e,), where=traceback.format_exc()[-2000:],
                   wall=0, paths=0, reached=0, obligations=[], solver_s=0, queries=0, by={}, assumed=[]))


def merge(res):
    out = {}
    for r in res:
        i = r['i'] = r['i'][0]
        if i not in out:
            out[i] = r
            continue
        o = out[i]
        o['unsupported'] = o['unsupported'] or r['unsupported']
        o['where'] = o['where'] or r['where']
        o['wall'] = max(o['wall'], r['wall'])
        for k in ('paths', 'reached', 'obligations', 'solver_s', 'queries'):
            o[k] += r[k]
        for b, v in r['by'].items():
            o['by'][b] = o['by'].get(b, 0) + v
        o['assumed'] = sorted(set(o['assumed']) | set(r['assumed']))
    for o in out.values():
        if not o['unsupported'] and (not o['reached'] or not o['obligations']):
            o['unsupported'] = 'no path of the target is feasible (vacuous)'
    return [out[i] for i in sorted(out)]


def main():
    pid, out = sys.argv[1], sys.argv[2]
    cross = '--cross' in sys.argv
    limit = float(sys.argv[sys.argv.index('--limit') + 1]) if '--limit' in sys.argv else 600.
    repo = os.environ.get('GHEDT_REPO', '/repo')
    from pyvc import runner
    t0 = time.time()
    try:
        n = len(runner.targets_of(pid))
    except ModuleNotFoundError as e:
        json.dump(dict(targets=[], wall=0, missing=str(e)), open(out, 'w'))
        return
    ts = runner.targets_of(pid)
    ctx = mp.get_context('fork')
    slots = max(2, (os.cpu_count() or 4) - 1)
    todo = [((i, 0), None) for i in range(n)]
    running = {}
    parts = 0
    res = []
    q = ctx.Queue()
    hungry = ctx.Value('i', 0)

    def take(r):
        nonlocal parts
        if 'split' in r:
            i, start = r['split']
            parts += 1
            todo.append(((i, parts), start))
            return
        res.append(r)
        p = running.pop(r['i'], None)
        if p is not None:
            p.join(20)
    while todo or running:
        while todo and len(running) < slots:
            key, start = todo.pop(0)
            p = ctx.Process(target=one, args=(pid, key, repo, cross, q, start, hungry))
            p.start()
            running[key] = p
        hungry.value = max(0, slots - len(running) - len(todo))
        try:
            take(q.get(timeout=0.2))
            continue
        except _q.Empty:
            pass
        for i, p in list(running.items()):
            if not p.is_alive():
                try:
                    take(q.get(timeout=2))
                    break
                except _q.Empty:
                    running.pop(i)
                    res.append(dict(i=i, name=ts[i[0]].name, functions=ts[i[0]].functions, bounded=None, unsupported='the prover process died', where='', wall=0, paths=0,
                                    reached=0, obligations=[], solver_s=0, queries=0, by={}, assumed=[]))
        if time.time() - t0 > limit:
            for i, p in running.items():
                p.kill()
                res.append(dict(i=i, name=ts[i[0]].name, functions=ts[i[0]].functions, bounded=None, unsupported='time limit', where='', wall=limit, paths=0,
                                reached=0, obligations=[], solver_s=0, queries=0, by={}, assumed=[]))
            for i, start in todo:
                res.append(dict(i=i, name=ts[i[0]].name, functions=ts[i[0]].functions, bounded=None, unsupported='time limit (not started)', where='', wall=0, paths=0,
                                reached=0, obligations=[], solver_s=0, queries=0, by={}, assumed=[]))
            break
    res = merge(sorted(res, key=lambda r: r['i']))
    json.dump(dict(targets=res, wall=time.time() - t0), open(out, 'w'), default=str)


if __name__ == '__main__':
    main()
