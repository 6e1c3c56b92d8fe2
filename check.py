#!/usr/bin/env python3
"""check.py PID [quick|thorough]: decides one property on /repo's working tree.

1. The contracts of the property are verified on the current sources
   (pyvc.prove; every obligation discharged by z3 / cvc5).
2. The same property is evaluated on the running code (oracles/), to replay
   violations and to stand in for targets outside the verifier's reach.
Exit 0 if the property held, 1 with a VIOLATION line otherwise."""
import sys, os, json, subprocess, time, tempfile, shutil

here = os.path.dirname(os.path.abspath(__file__))
PY_VT = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'
PY_APP = '/opt/venv/bin/python'
TRUSTED = [
    'pyvc (the VC generator of /verif/pyvc): mechanical AST translation, symbolic execution, loop rule, models of Python built-ins, numpy, scipy, copy, json',
    'z3 5.x and cvc5 (unsat answers)',
    'integers and floats of the code are treated as mathematical integers and reals (no rounding, no overflow, no NaN)',
    'termination of the code is assumed (partial correctness)',
]


def env():
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    if os.path.isdir('/opt/mplconfig'):
        e['MPLCONFIGDIR'] = '/opt/mplconfig'
    e.setdefault('GHEDT_REPO', '/repo')
    return e


def oracle(pid, secs, seed, tmp, tag):
    out = os.path.join(tmp, 'oracle_%s.json' % tag)
    p = subprocess.Popen([PY_APP, '-W', 'ignore', os.path.join(here, 'oracles', 'run.py'), pid, str(secs), str(seed), out],
                         cwd=os.path.join(here, 'oracles'), env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    return p, out


def wait(p, out, limit):
    try:
        err = p.communicate(timeout=limit)[1]
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {'timeout': True}
    if not os.path.exists(out):
        return {'died': (err or b'').decode(errors='replace')[-2000:]}
    return json.load(open(out))


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
    rdir = os.path.join(here, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='vc_%s_' % pid)
    try:
        rc = decide(pid, tier, seed, t0, rdir, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rc


def decide(pid, tier, seed, t0, rdir, tmp):
    meta = json.load(open(os.path.join(here, 'contracts', 'meta.json'))).get(pid, {})
    osecs = meta.get('oracle_s', [15, 150])[tier == 'thorough']
    plimit = 400 if tier == 'quick' else 3000
    pout = os.path.join(tmp, 'prove.json')
    cmd = [PY_VT, '-W', 'ignore', '-m', 'pyvc.prove', pid, pout, '--limit', str(plimit)] + (['--cross'] if tier == 'thorough' else [])
    perr = open(os.path.join(tmp, 'prove.err'), 'w+')
    # both at once: they do not depend on each other
    pp = subprocess.Popen(cmd, cwd=here, env=env(), stdout=perr, stderr=perr)
    op, oout = oracle(pid, osecs, seed, tmp, 'a')
    try:
        pp.wait(timeout=plimit + 60)
    except subprocess.TimeoutExpired:
        pp.kill()
        pp.wait()
    orc = wait(op, oout, osecs * 5 + 120)
    perr.seek(0)
    if os.path.exists(pout):
        pr = json.load(open(pout))
    else:
        print('the verifier did not finish:\n' + perr.read()[-3000:], file=sys.stderr)
        return 2
    targets = pr['targets']
    obl = [o for t in targets if not t['bounded'] for o in t['obligations']]
    inbound = [o for t in targets if t['bounded'] for o in t['obligations']]
    proved = [o for o in obl if o['status'] == 'proved']
    failed = [(t, o) for t in targets for o in t['obligations'] if o['status'] != 'proved']
    unsup = [t for t in targets if t['unsupported']]
    searches = [orc]
    viol = orc.get('violation')
    if orc.get('import_error'):
        viol = {'property': pid, 'oracle': None, 'message': 'the package cannot be imported: ' + orc['import_error'][-500:]}
    if viol is None and (failed or unsup):
        # look harder for a failing input
        ps = [oracle(pid, (30 if failed else 20) if tier == 'quick' else 120, seed * 1000 + 17 + j, tmp, 'b%d' % j) for j in range(4)]
        for p, o in ps:
            r = wait(p, o, 400)
            searches.append(r)
            viol = viol or r.get('violation')
    evals = sum(r.get('evaluations', 0) for r in searches)
    distinct = sum(r.get('distinct', 0) for r in searches)
    lines = []
    n = 0
    if viol is not None:
        path = os.path.join(rdir, '%s.json' % pid)
        rep = dict(viol)
        rep['how'] = 'GHEDT_REPO=/repo %s %s --replay %s' % (PY_APP, os.path.join(here, 'oracles', 'run.py'), path)
        rep['failed_obligations'] = [dict(target=t['name'], **{k: o[k] for k in ('name', 'status', 'goal', 'model')}) for t, o in failed][:20]
        json.dump(rep, open(path, 'w'), indent=1, default=str)
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
        n = 1
        print('violated: %s' % viol.get('message'))
        for t, o in failed[:5]:
            print('failed obligation: %s / %s' % (t['name'], o['name']))
    elif failed:
        path = os.path.join(rdir, '%s.json' % pid)
        rep = {'property': pid, 'no_failing_input_found': True, 'searched': evals,
               'failed_obligations': [dict(target=t['name'], functions=t['functions'], **{k: o[k] for k in ('name', 'status', 'backend', 'goal', 'model')})
                                      for t, o in failed][:40]}
        json.dump(rep, open(path, 'w'), indent=1, default=str)
        for t, o in failed[:5]:
            print('failed obligation: %s / %s (%s)' % (t['name'], o['name'], o['status']))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        n = 1
    decided = [t for t in targets if not t['unsupported'] and t['obligations'] and not t['bounded']]
    by = {}
    for o in proved:
        by[o['backend']] = by.get(o['backend'], 0) + 1
    level = 'proof' if decided else 'exploration'
    cov = {
        'obligations': len(obl), 'discharged': len(proved),
        'checker_cmd': 'cd /verif && python3-vt -m pyvc.prove %s OUT.json' % pid,
        'trusted_base': TRUSTED + meta.get('trusted', []),
        'functions_under_contract': sorted(set(f for t in decided for f in t['functions'])),
        'targets': [dict(name=t['name'], obligations=len(t['obligations']), discharged=sum(o['status'] == 'proved' for o in t['obligations']),
                         paths=t['paths'], wall_s=round(t['wall'], 2), unsupported=(t['unsupported'] or '')[:300] or None, bounded=t['bounded']) for t in targets],
        'obligations_within_a_bound': {'label': 'discharged for the stated bound only, not counted as proved', 'obligations': len(inbound),
                                       'discharged': sum(o['status'] == 'proved' for o in inbound),
                                       'bounds': sorted(set('%s: %s' % (t['name'], t['bounded']) for t in targets if t['bounded']))},
        'back_ends': by, 'solver_queries': sum(t['queries'] for t in targets), 'solver_s': round(sum(t['solver_s'] for t in targets), 2),
        'bounded_stand_in': {
            'label': 'bounded: concrete executions of the real code, never counted as proved',
            'stands_in_for': [dict(target=t['name'], functions=t['functions'], reason=(t['unsupported'] or '')[:500]) for t in unsup] + meta.get('bounded_parts', []),
        },
        'evaluations': evals, 'distinct_nontrivial': distinct,
        'rule': 'cases of oracles/run.py (seeded random inputs of the real code, each checked by an independent oracle); distinct = different case descriptions, skipped cases not counted',
        'samples': ([{'obligation': o['name'], 'backend': o['backend'], 'time_s': o['time']} for o in proved[:3]] + (orc.get('samples') or [])[:3]) or [{'none': True}],
        'oracle_per_kind': orc.get('per_oracle'), 'oracle_skipped': orc.get('skipped'), 'oracle_outside_reach': orc.get('limit'),
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': sorted(set(a for t in targets for a in t['assumed'])) + meta.get('assumptions', []),
          'wall_s': round(time.time() - t0, 2), 'violations': n}
    json.dump(ev, open(os.path.join(here, 'evidence', '%s.json' % pid), 'w'), indent=1, default=str)
    kf = os.path.join(here, 'known-findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            if l.startswith('KNOWN-FINDING: property=%s ' % pid):
                print(l.rstrip())
    print('%s: %d targets, %d/%d obligations discharged, %d outside of the verifier, %d concrete cases, %.1f s' % (
        pid, len(targets), len(proved), len(obl), len(unsup), evals, time.time() - t0))
    if lines:
        for l in lines:
            print(l)
        return 1
    if not decided and evals == 0:
        print('nothing was decided', file=sys.stderr)
        for r in searches:
            print(json.dumps(r)[:1500], file=sys.stderr)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
