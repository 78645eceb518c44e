"""plant.py ID PROP edit.py demo.py 'needs' 'what' : make /verif/seeded/ID from an edit script.

edit.py is run with cwd = scratch copy of /repo; demo.py is copied next to
demo.sh.  Confirms that the patch builds, keeps the stable tests passing and
that the demo tells the trees apart; then runs the property's quick check on
the patched tree (in the scratch copy, through VERIF_REPO).
"""
import json
import os
import shutil
import subprocess
import sys

ID, PROP, edit, demo, needs, what = sys.argv[1:7]
W = '/tmp/wt-' + ID
D = '/verif/seeded/' + ID


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, text=True,
                          capture_output=True, env=env)


shutil.rmtree(W, ignore_errors=True)
shutil.copytree('/repo', W, symlinks=True)
r = sh(f'/opt/venv/bin/python {edit}', W)
assert r.returncode == 0, r.stderr
diff = sh('git diff', W).stdout
assert diff.strip(), 'no change'
os.makedirs(D, exist_ok=True)
open(D + '/patch.diff', 'w').write(diff)
shutil.copy(demo, D + '/demo.py')
open(D + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: the property holds for this case; nonzero: it is broken
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
repo="$PWD"
scratch="$(mktemp -d)"; trap 'rm -rf "$scratch"' EXIT
export MPLCONFIGDIR="$scratch"
cd "$scratch" && PYTHONPATH="$repo" /opt/venv/bin/python "$here/demo.py"
''')
json.dump({'property': PROP, 'needs': needs, 'what_it_breaks': what},
          open(D + '/meta.json', 'w'), indent=1)
a = sh(f'bash {D}/demo.sh', '/repo')
b = sh(f'bash {D}/demo.sh', W)
print('demo clean', a.returncode, a.stdout[-300:], a.stderr[-500:])
print('demo bug  ', b.returncode, b.stdout[-300:], b.stderr[-500:])
# stable tests on the patched tree
base = json.load(open('/opt/vp/BASELINE.json'))
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
           PYTHONPATH=f'{W}:{W}/metku/sections/steel:{W}/metku/frame2d')
t = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 '
       '--continue-on-collection-errors --tb=no -rA 2>&1 | tail -150', W, env)
passed = {l.split()[1].split('[')[0] for l in t.stdout.splitlines()
          if l.startswith('PASSED')}
c = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 '
       '--continue-on-collection-errors --tb=no -rA 2>&1 | tail -150', '/repo',
       dict(env, PYTHONPATH='/repo:/repo/metku/sections/steel:/repo/metku/frame2d'))
pc = {l.split()[1].split('[')[0] for l in c.stdout.splitlines()
      if l.startswith('PASSED')}
print('tests lost by the patch:', sorted(pc - passed), len(pc))
v = sh(f'bash /verif/run.sh {PROP} --tier quick', None,
       dict(os.environ, VERIF_REPO=W))
print('check:', v.returncode, v.stdout[-700:], v.stderr[-300:])
shutil.rmtree(W)
ok = a.returncode == 0 and b.returncode != 0 and not (pc - passed)
print(ID, 'VALID' if ok else 'INVALID', 'CAUGHT' if v.returncode == 1 else 'MISSED')
