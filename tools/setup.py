"""Nothing to build: checks that the tools the checks need are there."""
import subprocess, shutil, sys, os
vt = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
subprocess.run([vt, '-W', 'ignore', '-c', 'import z3, numpy; from pyvc import runner; print("z3", z3.get_version_string())'], cwd=here, check=True,
               env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
subprocess.run(['cvc5', '--version'], check=True, stdout=subprocess.DEVNULL)
subprocess.run(['/opt/venv/bin/python', '-c', 'import numpy, scipy, pygfunction'], check=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg'))
os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
