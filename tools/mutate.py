#!/usr/bin/env python3
"""Mutation trial: small syntactic changes of /repo's sources (scratch copies under /tmp/mut), those that compile to other code and pass
the repository's tests are given to the checks of the file; survivors are printed for inspection.
  tools/mutate.py OUT.jsonl WORKERS [--files SUBSTR] [--sample N]"""
import json, os, random, re, subprocess, sys, threading, hashlib, shutil, queue, time

ROOT = '/tmp/mut'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [
    (r'market_data/', 'C03 C04 C02 C34 C35 C07'),
    (r'model/discretization', 'C18 C14'),
    (r'model/gbm', 'C14 C16 C17 C13 C30'),
    (r'model/heston', 'C14 C18 C16 C13 C35'),
    (r'model/bates', 'C14 C18 C15 C16 C13 C35'),
    (r'model/', 'C15 C16 C13 C14 C35'),
    (r'basis_function/', 'C25 C12'),
    (r'interpolation/', 'C24 C27 C28'),
    (r'matrix_solver/', 'C23 C28 C35'),
    (r'regression/', 'C26 C12'),
    (r'option/', 'C05 C02 C01 C34 C04 C08 C07'),
    (r'payoff/', 'C01 C02 C05 C34 C07'),
    (r'random/distribution', 'C20 C21 C19'),
    (r'random/', 'C19 C22 C20'),
    (r'finite_difference', 'C28 C27 C35 C07 C31'),
    (r'builder/', 'C29 C30 C07 C35'),
    (r'mc_american', 'C12 C35 C33 C29'),
    (r'mc_asian', 'C09 C29 C33'), (r'mc_barrier', 'C10 C29 C33'), (r'mc_lookback', 'C11 C29 C33'), (r'mc_', 'C08 C29 C35 C33'),
    (r'', 'C29 C08 C07 C30'),
]
OPS = [(r'<=', ['<', '>=']), (r'>=', ['>', '<=']), (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|', ['&&']),
       (r'(?<![<>-])<(?![<=])', ['<=', '>']), (r'(?<![->])>(?![>=])', ['>=', '<']),
       (r'\+=', ['-=', '=']), (r'-=', ['+=', '=']), (r'\*=', ['=', '/=']),
       (r'(?<![+e(,=*/-])\s\+\s(?!=)', [' - ']), (r'(?<![-e(,=*/+])\s-\s(?![=>])', [' + ']), (r'(?<=[\w)\]]) ?\* ?(?=[\w(])', [' / ', ' + ']), (r'(?<=[\w)\]]) ?/ ?(?=[\w(])', [' * ']),
       (r'(?<=[\w)\]])-(?=[\w(])', [' + ']), (r'(?<=[\w)\]])\+(?=[\w(])', [' - ']),
       (r'(?<=[(=,] )-(?=[\w(])|(?<=\()-(?=[\w(])', ['']),
       (r'!(?=[\w(])', ['']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
       (r'\bstd::max\b', ['std::min']), (r'\bstd::min\b', ['std::max']), (r'\bstd::sqrt\(', ['std::fabs(']), (r'\bstd::exp\b', ['std::expm1']), (r'\bbreak;', ['']), (r'\bcontinue;', ['']),
       (r'(?<![\w.])0\.0(?![\w.])', ['1.0']), (r'(?<![\w.])0(?![\w.])', ['1']), (r'(?<![\w.])1(?![\w.])', ['0', '2']), (r'(?<![\w.])2(?![\w.])', ['1', '3']), (r'(?<![\w.])1\.0(?![\w.])', ['2.0', '0.0']),
       (r'(?<![\w.])0\.5(?![\w.])', ['0.25', '1.0']), (r'(?<![\w.])2\.0(?![\w.])', ['1.0', '3.0']), (r'(?<![\w.])1e(-?\d+)', ['1e-3', '1e-30']),
       (r'\bCall\b', ['Put']), (r'\bPut\b', ['Call'])]


def mutants(path, text):
    lines = text.split('\n')
    out = []
    com = False
    for i, l in enumerate(lines):
        s = l.strip()
        if '/*' in s: com = True
        if com:
            if '*/' in s: com = False
            continue
        if not s or s.startswith(('//', '#', 'namespace', 'using', 'template')): continue
        code = l.split('//')[0]
        mask = re.sub(r'"[^"]*"', lambda m: '"' + '\x01' * (len(m.group(0)) - 2) + '"', code)
        for pat, reps in OPS:
            for m in re.finditer(pat, mask):
                ctx = mask[max(0, m.start() - 12):m.end() + 12]
                if pat.startswith('(?<![<>-])<') or pat.startswith('(?<![->])>'):
                    if not re.search(r'\s[<>]\s', mask[max(0, m.start() - 1):m.end() + 1]): continue
                for r in reps:
                    out.append((i, code[:m.start()] + r + code[m.end():]))
        if re.match(r'^[\w:.>\-\[\]()*, ]+(=|\(|\+\+|\.)[^{}]*;$', s) and not s.startswith(('return', 'const ', 'auto ', 'double ', 'int ', 'bool ', 'std::vector', 'std::size_t', 'unsigned', 'break', 'continue')):
            out.append((i, re.match(r'\s*', l).group(0) + ';'))
        if s.startswith('throw'):
            out.append((i, ';'))
        m = re.match(r'^(\s*)(}? ?(?:else )?if) \((.*)\)( \{.*)?$', code)
        if m and code.count('(') == code.count(')'):
            for v in ('true', 'false'):
                out.append((i, f'{m.group(1)}{m.group(2)} ({v}){m.group(4) or ""}'))
    seen = set()
    for i, n in out:
        if n == lines[i] or (i, n) in seen: continue
        seen.add((i, n))
        yield {'file': path, 'line': i + 1, 'old': lines[i].strip(), 'new': n.strip(), 'text': '\n'.join(lines[:i] + [n] + lines[i + 1:])}


def sh(cmd, cwd=None, env=None, timeout=900):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout, errors='replace')
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def code_of(repo, f):
    rc, o = sh(['g++', '-std=c++20', '-O2', '-g0', '-w', '-include', 'cmath', '-include', 'stdexcept', '-I' + repo + '/include', '-I/usr/include/eigen3', '-S', '-o', '-', os.path.join(repo, f)])
    return None if rc else hashlib.sha256(o.encode()).hexdigest()


BASELINE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def tests_pass(repo):
    rc, o = sh('ninja -C _build -j2 Unit_tests Integration_tests', cwd=repo)
    if rc: return 'nobuild'
    for t in ('Unit_tests', 'Integration_tests'):
        rc, o = sh([repo + '/bin/' + t], cwd=repo + '/_build', timeout=60)
        if rc == 0: continue
        failed = set(x.replace('.', '::') for x in re.findall(r'\[  FAILED  \] ([\w./]+)', o))
        if not failed or failed & BASELINE or rc == 'timeout' or (isinstance(rc, int) and rc < 0): return 'tests'
    return 'pass'


def worker(k, q, out, lock, base):
    w = f'{ROOT}/{k}'
    repo, ver = w + '/repo', w + '/verif'
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        p = os.path.join(repo, m['file'])
        orig = open(p).read()
        open(p, 'w').write(m['text'])
        res, det = None, ''
        try:
            c = code_of(repo, m['file'])
            if c is None: res = 'nocompile'
            elif c == base[m['file']]: res = 'equivalent'
            else:
                t = tests_pass(repo)
                if t != 'pass': res = t
                else:
                    res = 'SURVIVED'
                    for pat, cs in MAP:
                        if re.search(pat, m['file']): break
                    for c in cs.split():
                        rc, o = sh(['python3', 'run.py', 'check', c], cwd=ver, env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick'))
                        if rc == 1 and 'VIOLATION' in o:
                            res, det = 'killed', c; break
                        if rc != 0:
                            det += f' {c}:rc={rc}'
        finally:
            open(p, 'w').write(orig)
        r = {x: m[x] for x in ('file', 'line', 'old', 'new')}
        r.update(res=res, by=det)
        with lock:
            open(out, 'a').write(json.dumps(r) + '\n')


def main():
    out, n = sys.argv[1], int(sys.argv[2])
    sub = sys.argv[sys.argv.index('--files') + 1] if '--files' in sys.argv else ''
    ms = []
    files = [x for x in sh('git ls-files src', cwd='/repo')[1].split() if x.endswith('.cpp') and 'multi_factor' not in x and 'tree/' not in x and re.search(sub, x)]
    for f in files:
        ms += mutants(f, open('/repo/' + f).read())
    random.Random(1).shuffle(ms)
    if '--sample' in sys.argv:
        ms = ms[:int(sys.argv[sys.argv.index('--sample') + 1])]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l); done.add((r['file'], r['line'], r['new']))
    ms = [m for m in ms if (m['file'], m['line'], m['new']) not in done]
    print(len(ms), 'mutants'); sys.stdout.flush()
    if '--list' in sys.argv:
        for m in ms: print(m['file'], m['line'], m['old'], '->', m['new'])
        return
    q = queue.Queue()
    for m in ms: q.put(m)
    os.makedirs(ROOT, exist_ok=True)
    for k in range(n):
        w = f'{ROOT}/{k}'
        if os.path.exists(w): shutil.rmtree(w)
        os.makedirs(w)
        sh(f'git clone -q /repo {w}/repo && mkdir {w}/verif && cp -r {VERIF}/run.py {VERIF}/checks.py {VERIF}/harness {VERIF}/known_findings.txt {VERIF}/properties.jsonl {VERIF}/MANIFEST.json {w}/verif/')
        sh(f'cmake -S {w}/repo -B {w}/repo/_build -G Ninja -DCMAKE_BUILD_TYPE=None -DCMAKE_CXX_FLAGS="-O1 -w -include cmath -include stdexcept"')
    ts = [threading.Thread(target=lambda k=k: (tests_pass(f'{ROOT}/{k}/repo'))) for k in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
    base = {f: code_of(f'{ROOT}/0/repo', f) for f in files}
    # the assembly must not depend on the directory
    lock = threading.Lock()
    bases = [{f: None for f in files} for _ in range(n)]
    ts = []
    for k in range(n):
        def go(k=k):
            b = {f: code_of(f'{ROOT}/{k}/repo', f) for f in files} if k else base
            worker(k, q, out, lock, b)
        t = threading.Thread(target=go); t.start(); ts.append(t)
    [t.join() for t in ts]
    shutil.rmtree(ROOT, ignore_errors=True)


main()
