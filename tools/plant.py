#!/usr/bin/env python3
"""plant.py [--checks] [ids...]: confirms each planted bug of plants/*.py in a scratch copy and
writes it to seeded/<id>/; --checks also runs the property's check against it."""
import importlib.util, json, os, shutil, subprocess, sys, glob
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
TOP = os.environ.get('PLANT_TOP', '/tmp/plant'); R = TOP + '/repo'

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def load():
    out = []
    for f in sorted(glob.glob(HERE + '/plants/p_*.py')):
        s = importlib.util.spec_from_file_location('x', f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
        out += m.PLANTS
    return out

def prepare():
    os.makedirs(TOP, exist_ok=True)
    if not os.path.isdir(R):
        sh(f'git clone -q /repo {R}')
    sh(f'git -C {R} fetch -q origin; git -C {R} reset -q --hard origin/HEAD')
    for n in ('build', 'test'):
        t = open(f'/opt/vp/{n}.sh').read().replace('/repo', R).replace('/opt/vp/build.sh', TOP + '/build.sh')
        open(f'{TOP}/{n}.sh', 'w').write(t)

def build_test():
    b = sh(f'bash {TOP}/build.sh')
    if b.returncode: return 'build failed: ' + (b.stdout + b.stderr)[-1500:]
    sh(f'bash {TOP}/test.sh {TOP}/out.json')
    o = json.load(open(f'{TOP}/out.json'))
    want = BASE
    miss = want - set(o['passed'])
    return 'tests fail: ' + ' '.join(sorted(miss)) if miss else ''

BASE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

def demo(d):
    return sh(f'bash {d}/demo.sh', cwd=R)

def main():
    args = sys.argv[1:]; checks = '--checks' in args; only_checks = '--only-checks' in args
    ids = [a for a in args if not a.startswith('--')]
    prepare()
    plants = [p for p in load() if not ids or p['id'] in ids]
    if not only_checks:
        e = build_test(); assert not e, e
        for p in plants:           # demos on the unchanged tree
            d = f'{TOP}/demo-{p["id"]}'; os.makedirs(d, exist_ok=True)
            shutil.copy(HERE + '/plants/demo.h', d)
            open(d + '/demo.cpp', 'w').write(('' if p.get('rawdemo') else '#include "demo.h"\n') + p['demo'])
            open(d + '/demo.sh', 'w').write(p.get('sh') or open(HERE + '/plants/demo.sh').read())
            r = demo(d); p['clean'] = r.returncode
            if r.returncode: print(p['id'], 'DEMO FAILS ON CLEAN TREE', (r.stdout + r.stderr)[-1200:])
    for p in plants:
        d = f'{TOP}/demo-{p["id"]}'
        sh(f'git -C {R} checkout -q -- .')
        ok = True
        for f, old, new in p['edits']:
            t = open(f'{R}/{f}').read()
            if t.count(old) != 1 and not p.get('multi'): print(p['id'], 'EDIT', f, 'matches', t.count(old)); ok = False; break
            open(f'{R}/{f}', 'w').write(t.replace(old, new))
        if not ok: continue
        if not only_checks:
            if p['clean']: continue
            diff = sh(f'git -C {R} diff').stdout
            e = build_test()
            if e: print(p['id'], 'NOT KEPT', e); sh(f'git -C {R} checkout -q -- .'); continue
            r = demo(d)
            if r.returncode == 0: print(p['id'], 'NOT KEPT: demo passes with the patch'); sh(f'git -C {R} checkout -q -- .'); continue
            o = f'{VERIF}/seeded/{p["id"]}'; os.makedirs(o, exist_ok=True)
            for n in ('demo.h', 'demo.cpp', 'demo.sh'): shutil.copy(f'{d}/{n}', o)
            open(o + '/patch.diff', 'w').write(diff)
            json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['breaks']}, open(o + '/meta.json', 'w'), indent=1)
            print(p['id'], 'kept; demo exit', r.returncode, r.stdout.strip().splitlines()[:1])
        if checks or only_checks:
            env = dict(os.environ, VERIF_REPO=R, VERIF_SEED='1', VERIF_TIER='quick')
            for q in [p['property']] + p.get('also', []):
                c = sh(f'python3 {VERIF}/run.py check {q}', env=env)
                v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
                print('   ', p['id'], q, 'CAUGHT' if c.returncode == 1 and v else f'MISSED rc={c.returncode}', (v or [''])[0][:150], (c.stdout + c.stderr)[-300:] if c.returncode not in (0, 1) else '')
        sys.stdout.flush()
    sh(f'git -C {R} checkout -q -- .')
main()
