"""runs the bounded stand-ins / replay searches on the real code.

A harness program is called as   prog SEED SECONDS OUTFILE   and must write the input it is working on to
OUTFILE when it finds a violation, print `FAIL <text>` and exit 1; otherwise print
`OK evaluations=N distinct=M` (and `SAMPLE ...`, `KNOWN <key>` lines) and exit 0."""
import atexit, os, subprocess, tempfile, shutil, time, hashlib, json, re, sys, signal
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')


_built = {}


def build_cpp(h, wd):
    """the harnesses of one run that differ only in their arguments share one executable"""
    key = (h['cpp'], h.get('clang'), h.get('opt'), h.get('san', True), h.get('libassert', True), tuple(h.get('defines', [])), tuple(h.get('extra', [])))
    if key not in _built:
        d = tempfile.mkdtemp(prefix='vhb')
        atexit.register(shutil.rmtree, d, ignore_errors=True)
        _built[key] = build_cpp1(h, d)
    return _built[key]


def build_cpp1(h, wd):
    src = os.path.join(ROOT, 'replay', h['cpp'])
    exe = os.path.join(wd, 'h')
    san = h.get('san', True)
    cmd = ['clang++' if h.get('clang') else 'g++', '-std=c++17', '-w', h.get('opt', '-O1'), '-g1', '-I' + REPO + '/include',
           '-I' + os.path.join(ROOT, 'replay')]
    if san:
        cmd += ['-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=undefined'] + (['-D_GLIBCXX_ASSERTIONS'] if h.get('libassert', True) else [])
    cmd += ['-D' + d for d in h.get('defines', [])]
    cmd += [src] + [x.replace('$REPO', REPO) for x in h.get('extra', [])] + ['-o', exe, '-lpthread']
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=400)
    if p.returncode != 0:
        return None, p.stderr[-3000:]
    return exe, None


def run_harness(h, seed, budget, pid, rdir, known):
    t0 = time.time()
    r = {'name': h.get('name') or h.get('cpp') or h.get('py'), 'bound': h.get('bound', ''), 'rule': h.get('rule', '')}
    wd = tempfile.mkdtemp(prefix='vh')
    try:
        kf = os.path.join(wd, 'known.json')
        json.dump(known, open(kf, 'w'))
        if 'cpp' in h:
            exe, err = build_cpp(h, wd)
            if exe is None:
                r['error'] = 'harness does not build against the current tree: ' + err
                print('BOUNDED %s: %s' % (r['name'], r['error'][:1500]))
                r['wall'] = time.time() - t0
                return r
            cmd = [exe]
        else:
            cmd = [h.get('python', 'python3-vt'), os.path.join(ROOT, 'replay', h['py'])]
        out = os.path.join(wd, 'out.txt')
        args = [str(seed), str(int(budget)), out] + [str(a) for a in h.get('args', [])]
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=2000:hard_rss_limit_mb=6000'
        env['UBSAN_OPTIONS'] = 'print_stacktrace=0:abort_on_error=1'
        env['VERIF_REPO'] = REPO
        env['VERIF_KNOWN'] = kf
        env['PYTHONHASHSEED'] = '0'
        env['HARNESS_WD'] = wd

        def lim():
            import resource
            os.setsid()
            if not h.get('san', True) or 'py' in h:
                resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        p = subprocess.Popen(cmd + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                             preexec_fn=lim, env=env, cwd=wd)
        try:
            so, _ = p.communicate(timeout=budget * 1.5 + h.get('slack', 90))
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            so, _ = p.communicate()
            rc = 'timeout'
        for line in so.split('\n'):
            m = re.match(r'OK evaluations=(\d+) distinct=(\d+)', line)
            if m:
                r['evaluations'], r['distinct'] = int(m.group(1)), int(m.group(2))
            if line.startswith('SAMPLE '):
                r.setdefault('samples', []).append(line[7:][:300])
            if line.startswith('KNOWN '):
                r.setdefault('known', []).append(line[6:])
        if rc == 0:
            pass
        elif rc == 2:
            r['error'] = 'harness could not run: ' + so[-1500:]
            print('BOUNDED %s: %s' % (r['name'], r['error']))
        else:
            m = re.search(r'^FAIL (.*)$', so, re.M)
            what = m.group(1) if m else ('no answer within the time limit' if rc == 'timeout' else 'crashed (exit %s): %s' % (rc, crash(so)))
            if rc == 'timeout' and not os.path.exists(out):
                r['error'] = 'bounded check exceeded its time without naming an input'
                print('BOUNDED %s: %s' % (r['name'], r['error']))
            else:
                r['fail'] = True
                r['what'] = what
                path = os.path.join(rdir, '%s-%s.txt' % (pid, re.sub(r'\W', '_', r['name'])))
                with open(path, 'w') as f:
                    f.write('property %s: violation found by executing the code in /repo\n%s\n' % (pid, what))
                    f.write('harness %s seed %s budget %s args %s\n' % (r['name'], seed, int(budget), h.get('args', [])))
                    if os.path.exists(out):
                        f.write('input:\n' + open(out, errors='replace').read()[:20000] + '\n')
                    f.write('output:\n' + so[-4000:] + '\n')
                    f.write('re-run: cd /verif && VERIF_SEED=%s python3-vt engine/run.py %s\n' % (seed, pid))
                r['replay'] = path
        r['wall'] = time.time() - t0
        return r
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def crash(so):
    m = re.search(r'(SUMMARY: .*|.*runtime error: .*|.*Assertion .*failed.*|terminate called.*)', so)
    return m.group(1)[:300] if m else so[-300:].replace('\n', ' ')
