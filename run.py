#!/usr/bin/env python3
"""Driver: builds the library from /repo's working tree with instrumentation,
runs the monitors of one property, writes evidence/<id>.json, reports.

  run.py check <ID>       quick or thorough by VERIF_TIER (default quick)
  run.py setup            pre-builds the instrumented libraries and harnesses
  run.py replay <file>    re-runs one recorded failing case
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
HARN = os.path.join(VERIF, 'harness')
sys.path.insert(0, VERIF)
import checks as CH

BASE = ['-std=c++20', '-include', 'cmath', '-include', 'stdexcept', '-DOPTION_PRICER_MONITOR', '-g1', '-w', '-pthread',
        '-I' + os.path.join(REPO, 'include'), '-I/usr/include/eigen3', '-I' + HARN]
CONFIGS = {
    # plain build for statistical monitors
    'mon': {'cxx': 'g++', 'flags': ['-O2']},
    # AddressSanitizer (+leaks) and UndefinedBehaviorSanitizer
    'san': {'cxx': 'g++', 'flags': ['-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']},
    # the same with checked containers
    'sanx': {'cxx': 'g++', 'flags': ['-O1', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR=1',
                                     '-fsanitize=address,undefined', '-fno-sanitize-recover=all']},
    # optimised, with arithmetic overflow watched (very long runs)
    'ovf': {'cxx': 'g++', 'flags': ['-O2', '-fsanitize=signed-integer-overflow,shift', '-fno-sanitize-recover=all']},
    'tsan': {'cxx': 'g++', 'flags': ['-O1', '-fsanitize=thread']},
    # for valgrind memcheck
    'vg': {'cxx': 'g++', 'flags': ['-O1']},
}
HARNESS_HEADERS = ['common.h', 'fixtures.h', 'stats.h', 'pricing.h', 'parts.h']


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def repo_sources():
    txt = read(os.path.join(REPO, 'CMakeLists.txt')).decode(errors='replace')
    txt = re.sub(r'#.*', '', txt)
    src = []
    for m in re.findall(r'src/[\w/.+-]+\.(?:cpp|cc|cxx)', txt):
        if m not in src and os.path.exists(os.path.join(REPO, m)):
            src.append(m)
    # sources named by a glob or variable in the build file
    if not src or re.search(r'GLOB', txt):
        for d, _, fs in os.walk(os.path.join(REPO, 'src')):
            for f in fs:
                p = os.path.relpath(os.path.join(d, f), REPO)
                if f.endswith(('.cpp', '.cc', '.cxx')) and p not in src:
                    src.append(p)
    return sorted(src)


def headers_hash():
    h = hashlib.sha256()
    for top in ('include', 'src'):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            for f in sorted(fs):
                if not f.endswith(('.cpp', '.cc', '.cxx')):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, REPO).encode() + b'\0' + read(p) + b'\0')
    return h.hexdigest()


def compile_one(cfg, src, hh, extra=b''):
    c = CONFIGS[cfg]
    flags = BASE + c['flags']
    key = sha(c['cxx'], ' '.join(flags), os.path.basename(src), read(src), hh, extra)
    out = os.path.join(BUILD, cfg, key + '.o')
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + '.%d.tmp' % os.getpid()
    r = subprocess.run([c['cxx'], *flags, '-c', src, '-o', tmp], capture_output=True, text=True)
    if r.returncode:
        raise BuildError('%s\n%s' % (src, r.stderr[-4000:]))
    os.rename(tmp, out)
    return out


def build(cfg, harness):
    """Builds the harness of this configuration against the working tree; returns the binary."""
    hh = headers_hash()
    hx = b''.join(read(os.path.join(HARN, f)) for f in HARNESS_HEADERS if os.path.exists(os.path.join(HARN, f)))
    jobs = [(os.path.join(HARN, harness), hx)]
    srcs = [os.path.join(REPO, s) for s in repo_sources()]
    # the slowest translation units first
    srcs.sort(key=lambda s: (('least_squares' not in s), ('lu_decomp' not in s), ('fdm' not in s and 'ridge' not in s), s))
    jobs += [(s, b'') for s in srcs]
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        objs = list(ex.map(lambda j: compile_one(cfg, j[0], hh, j[1]), jobs))
    c = CONFIGS[cfg]
    key = sha(cfg, harness, *objs)
    exe = os.path.join(BUILD, cfg, os.path.splitext(harness)[0] + '-' + key)
    if not os.path.exists(exe):
        tmp = exe + '.%d.tmp' % os.getpid()
        r = subprocess.run([c['cxx'], *BASE, *c['flags'], *dict.fromkeys(objs), '-o', tmp], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('link %s\n%s' % (harness, r.stderr[-4000:]))
        os.rename(tmp, exe)
    return exe


def env_for(cfg):
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=1:exitcode=97:detect_stack_use_after_return=1:strict_init_order=1:check_initialization_order=1:allocator_may_return_null=0:detect_odr_violation=0'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=97'
    e['TSAN_OPTIONS'] = 'exitcode=98:halt_on_error=1:second_deadlock_stack=1'
    e['LSAN_OPTIONS'] = 'exitcode=97'
    return e


class Outcome:
    def __init__(s):
        s.results = []      # (run, result json)
        s.violations = []   # dicts
        s.errors = []


def exec_run(exe, cfg, args, timeout, wrapper=(), env_extra=None):
    d = tempfile.mkdtemp(prefix='mon-')
    try:
        out = os.path.join(d, 'out.json')
        crumb = os.path.join(d, 'crumb')
        env = env_for(cfg)
        env.update(env_extra or {})
        env['MON_SCRATCH'] = d
        env['MON_EXE'] = exe
        cmd = [*wrapper, exe, *args, '--out', out, '--crumb', crumb]
        t0 = time.time()
        with open(os.path.join(d, 'err'), 'wb') as ef, open(os.path.join(d, 'std'), 'wb') as of:
            p = subprocess.Popen(cmd, stdout=of, stderr=ef, env=env, start_new_session=True, cwd=d)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = 'timeout'
        err = read(os.path.join(d, 'err')).decode(errors='replace')
        cr = read(crumb).split(b'\0')[0].decode(errors='replace') if os.path.exists(crumb) else ''
        res = None
        if os.path.exists(out):
            try:
                res = json.loads(read(out))
            except ValueError:
                res = None
        return rc, res, err, cr, time.time() - t0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def do_run(r, prop, seed, tier, o, only=None):
    cfg = r['config']
    exe = build(cfg, r['harness'])
    args = ['--prop', r.get('prop', prop), '--seed', str(seed), '--tier', tier]
    scale = r.get('scale_' + tier, r.get('scale'))
    if scale:
        args += ['--scale', str(scale)]
    if only:
        args += ['--only', only]
    wrapper = r.get('wrapper', [])
    tmo = r.get('timeout_' + tier, r.get('timeout', 200 if tier == 'quick' else 3000))
    env_extra = dict(r.get('env', {}))
    tries = 0
    while True:
        rc, res, err, cr, dt = exec_run(exe, cfg, args, tmo, wrapper, env_extra)
        tries += 1
        if rc == 'timeout' and tries < 2:
            continue
        if 'LeakSanitizer has encountered a fatal error' in err and 'ASAN_OPTIONS' not in env_extra:
            env_extra['ASAN_OPTIONS'] = env_for(cfg)['ASAN_OPTIONS'].replace('detect_leaks=1', 'detect_leaks=0')
            continue
        if 'ThreadSanitizer: unexpected memory mapping' in err and not wrapper and shutil.which('setarch'):
            wrapper = ['setarch', '-R']
            continue
        break
    run_desc = {'config': cfg, 'harness': r['harness'], 'prop': r.get('prop', prop), 'scale': scale,
                'wrapper': r.get('wrapper', []), 'seed': seed, 'tier': tier}
    if res is not None:
        for v in res['violations']:
            o.violations.append({'run': run_desc, 'kind': 'oracle', 'case': '%s:%d' % (v['section'], v['index']), 'what': v['what'], 'desc': v['desc']})
    if rc == 'timeout':
        o.violations.append({'run': run_desc, 'kind': 'hang', 'case': cr.split(' ')[0], 'what': 'did not terminate within %d s (twice)' % tmo, 'desc': cr})
    elif rc != 0:
        m = re.search(r'(ERROR: AddressSanitizer[^\n]*|ERROR: LeakSanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|runtime error:[^\n]*|== *Invalid (?:read|write)[^\n]*|== *Conditional jump[^\n]*|Assertion [^\n]*|terminate called[^\n]*)', err)
        if rc == 64 or 'unexpected memory mapping' in err:
            o.errors.append('harness error rc=%s: %s' % (rc, err[-2000:]))
        else:
            o.violations.append({'run': run_desc, 'kind': 'instrumentation', 'case': cr.split(' ')[0], 'what': (m.group(1) if m else 'exit status %s' % rc),
                                 'desc': cr, 'report': err[-6000:]})
    elif res is None or not res.get('complete'):
        o.errors.append('no result from harness: rc=%s %s' % (rc, err[-2000:]))
    if res is not None:
        o.results.append((run_desc, res, dt))


def load_known():
    p = os.path.join(VERIF, 'known_findings.txt')
    known = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r'finding: property=(\S+) match=/(.*)/ (.*)$', line)
            if m:
                known.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return known


def prune():
    """Keep the object cache bounded."""
    try:
        files = []
        for d, _, fs in os.walk(BUILD):
            for f in fs:
                p = os.path.join(d, f)
                s = os.stat(p)
                files.append((s.st_mtime, s.st_size, p))
        tot = sum(f[1] for f in files)
        for m, s, p in sorted(files):
            if tot < 6e9:
                break
            os.unlink(p)
            tot -= s
    except OSError:
        pass


def check(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    c = CH.CHECKS[prop]
    o = Outcome()
    prune()
    try:
        for r in c['runs']:
            if r.get('tier') and r['tier'] != tier:
                continue
            do_run(r, prop, seed, tier, o)
            if o.violations:
                break
    except BuildError as e:
        print('BUILD-ERROR %s' % e)
        return 2
    known = load_known()
    fresh, seen = [], {}
    for v in o.violations:
        text = '%s %s | %s' % (v['case'], v['what'], v['desc'])
        for kp, rx, what in known:
            if kp == prop and rx.search(text):
                seen[what] = seen.get(what, 0) + 1
                break
        else:
            fresh.append(v)
    write_evidence(prop, c, tier, seed, o, fresh, time.time() - t0)
    for w in seen:
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    if fresh:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        for i, v in enumerate(fresh[:5]):
            path = os.path.join(VERIF, 'replays', '%s-%d.json' % (prop, i))
            json.dump(dict(v, property=prop), open(path, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('   case %s: %s' % (v['case'], v['what']))
            print('   %s' % v['desc'][:600])
        return 1
    if o.errors:
        print('ERROR ' + '\n'.join(o.errors))
        return 2
    ev = sum(r['evaluations'] for _, r, _ in o.results)
    di = sum(r['distinct'] for _, r, _ in o.results)
    if not o.results or di < c.get('min_distinct', 2):
        print('ERROR the monitors observed too little: evaluations=%d distinct=%d' % (ev, di))
        return 2
    print('OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs' % (prop, tier, seed, ev, di, time.time() - t0))
    return 0


def write_evidence(prop, c, tier, seed, o, fresh, wall):
    counters, maxima, samples, runs, extra = {}, {}, [], [], {}
    for rd, r, dt in o.results:
        for k, v in r['counters'].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in r.get('maxima', {}).items():
            if v is not None:
                maxima[k] = max(v, maxima.get(k, v))
        extra.update(r.get('extra', {}))
        samples += r['samples'][:16]
        runs.append({'config': rd['config'], 'harness': rd['harness'], 'wrapper': rd['wrapper'], 'evaluations': r['evaluations'],
                     'distinct_nontrivial': r['distinct'], 'wall_s': round(dt, 2)})
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': sum(r['evaluations'] for _, r, _ in o.results),
                       'distinct_nontrivial': sum(r['distinct'] for _, r, _ in o.results),
                       'rule': c['rule'], 'samples': samples[:24] or ['none'],
                       'observed': counters, 'largest_deviations': maxima, 'facts': extra, 'runs': runs},
          'assumptions': c.get('assumptions', []),
          'wall_s': round(wall, 2), 'violations': len(fresh)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', prop + '.json.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.rename(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))


def setup():
    seen = set()
    for p, c in CH.CHECKS.items():
        for r in c['runs']:
            if r.get('tier') == 'thorough':
                continue
            k = (r['config'], r['harness'])
            if k not in seen:
                seen.add(k)
                build(*k)
                print('built', *k, flush=True)
    return 0


def replay(path):
    v = json.load(open(path))
    r = dict(v['run'])
    only = v['case'] if ':' in v['case'] else None
    o = Outcome()
    do_run(r, r['prop'], r['seed'], r['tier'], o, only)
    for x in o.violations:
        print(x['case'], x['what'])
        print('  ', x['desc'])
        if 'report' in x:
            print(x['report'])
    if not o.violations:
        print('the recorded case passes')
    return 1 if o.violations else 0


if __name__ == '__main__':
    if len(sys.argv) == 3 and sys.argv[1] == 'check':
        sys.exit(check(sys.argv[2]))
    if len(sys.argv) == 2 and sys.argv[1] == 'setup':
        sys.exit(setup())
    if len(sys.argv) == 3 and sys.argv[1] == 'replay':
        sys.exit(replay(sys.argv[2]))
    print(__doc__)
    sys.exit(64)
