#!/usr/bin/env python3
"""refactor.py [file...] [--checks "C01 C02"]: applies the behaviour-preserving edits of refactor/r_*.py to a scratch
copy, confirms build and tests, and runs the checks against it; every check has to stay quiet."""
import glob, importlib.util, json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
TOP = os.environ.get('PLANT_TOP', '/tmp/refac'); R = TOP + '/repo'
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
args = sys.argv[1:]; checks = None
if '--checks' in args: i = args.index('--checks'); checks = args[i + 1].split(); del args[i:i + 2]
files = [f'{HERE}/refactor/{a}.py' for a in args] or sorted(glob.glob(HERE + '/refactor/r_*.py'))
os.makedirs(TOP, exist_ok=True)
if not os.path.isdir(R): sh(f'git clone -q /repo {R}')
for n in ('build', 'test'):
    open(f'{TOP}/{n}.sh', 'w').write(open(f'/opt/vp/{n}.sh').read().replace('/repo', R).replace('/opt/vp/build.sh', TOP + '/build.sh'))
BASE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
bad = 0
for f in files:
    sh(f'git -C {R} fetch -q origin; git -C {R} reset -q --hard origin/HEAD')
    s = importlib.util.spec_from_file_location('x', f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    for p, old, new in m.EDITS:
        t = open(f'{R}/{p}').read()
        if t.count(old) < 1: print('EDIT does not match', p, repr(old[:80])); bad = 1
        open(f'{R}/{p}', 'w').write(t.replace(old, new))
    b = sh(f'bash {TOP}/build.sh')
    if b.returncode: print('BUILD', (b.stdout + b.stderr)[-3000:]); sys.exit(2)
    sh(f'bash {TOP}/test.sh {TOP}/out.json'); miss = BASE - set(json.load(open(f'{TOP}/out.json'))['passed'])
    print(os.path.basename(f), 'tests', 'FAIL ' + ' '.join(miss) if miss else 'pass', flush=True)
    for c in checks or ['C%02d' % i for i in range(1, 44)]:
        r = sh(f'python3 {VERIF}/run.py check {c}', env=dict(os.environ, VERIF_REPO=R))
        if r.returncode: bad = 1
        print('  ', c, r.returncode, r.stdout.strip()[:700] if r.returncode else '', r.stderr[-500:] if r.returncode else '', flush=True)
sys.exit(bad)
