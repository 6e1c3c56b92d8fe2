"""tryseed.py [seed substring]: runs each planted bug's own check against a copy of /repo with the bug."""
import sys, os, json, glob, subprocess, shutil, tempfile, time
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pat = sys.argv[1] if len(sys.argv) > 1 else ''
for d in sorted(glob.glob(os.path.join(here, 'seeded', '*'))):
    if pat not in d:
        continue
    m = json.load(open(os.path.join(d, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='seed_')
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        subprocess.run(['git', '-C', repo, 'apply', os.path.join(d, 'patch.diff')], check=True)
        t = time.time()
        r = subprocess.run([sys.executable, 'check.py', m['property'], 'quick'], cwd=here, env=dict(os.environ, GHEDT_REPO=repo, VERIF_SEED='1'), capture_output=True, text=True)
        print(os.path.basename(d), m['property'], 'exit', r.returncode, '%.0fs' % (time.time() - t), r.stdout.strip().split('\n')[-1][:150], r.stderr[-300:] if r.returncode > 1 else '', flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
