"""builds extension modules of /repo's current tree in the harness's scratch folder and imports them from there"""
import os, random, shutil, subprocess, sys, time
REPO = os.environ.get('VERIF_REPO', '/repo')
WD = os.environ['HARNESS_WD']
SITE = '/opt/minorminer-venv/lib/python3.12/site-packages'
SEED, BUDGET, OUT = int(sys.argv[1]), float(sys.argv[2]), sys.argv[3]
R = random.Random(SEED * 7919 + 17)
evals, seen, cur, nsample, t0 = 0, set(), '', 0, None


def tree(bare=False):
    d = os.path.join(WD, 'py')
    if not os.path.isdir(d):
        shutil.copytree(os.path.join(REPO, 'minorminer'), os.path.join(d, 'minorminer'), ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.cpp~'))
        shutil.copytree(os.path.join(REPO, 'include'), os.path.join(d, 'include'))
        sys.path[:0] = [d, SITE]
    if bare:        # without the package's own __init__, which imports every extension
        for f in ('minorminer/__init__.py', 'minorminer/utils/__init__.py'):
            with open(os.path.join(d, f), 'w') as g:
                g.write('from minorminer.utils.exceptions import *\nfrom minorminer.utils.exceptions import MissingChainError, ChainOverlapError, DisconnectedChainError, InvalidNodeError, MissingEdgeError\n' if 'utils' in f else '')
    os.environ['XDG_DATA_HOME'] = WD
    sys.dont_write_bytecode = True
    return d


def build(pyx, lang, extra_src=(), incs=()):
    """False if it does not build"""
    d = tree()
    src = os.path.join(d, pyx)
    out = os.path.join(WD, os.path.basename(pyx)[:-4] + ('.cpp' if lang == 'c++' else '.c'))
    env = dict(os.environ, PYTHONPATH=SITE)
    p = subprocess.run(['/usr/bin/python3', '-m', 'cython'] + (['--cplus'] if lang == 'c++' else []) + ['-3', pyx, '-o', out], cwd=d, env=env, capture_output=True, text=True)
    if p.returncode:
        print('cython: ' + (p.stdout + p.stderr)[-1500:])
        sys.exit(2)
    cmd = (['g++', '-std=c++17'] if lang == 'c++' else ['gcc']) + ['-O1', '-w', '-DNDEBUG', '-fPIC', '-shared', '-I/usr/include/python3.12', '-I' + d, '-I' + d + '/include', '-I' + d + '/include/find_embedding', '-I' + d + '/minorminer']
    p = subprocess.run(cmd + ['-I' + os.path.join(d, i) for i in incs] + [out] + [os.path.join(d, s) for s in extra_src] + ['-o', src[:-4] + '.so'], capture_output=True, text=True)
    if p.returncode:
        print('compiler: ' + (p.stdout + p.stderr)[-1500:])
        sys.exit(2)


def more():
    global t0
    t0 = t0 or time.time()
    return time.time() - t0 < BUDGET


def case(s):
    global evals, cur, nsample
    import signal
    signal.signal(signal.SIGALRM, lambda *a: fail('does not terminate on the recorded input'))
    signal.alarm(60)
    evals += 1
    cur = s
    seen.add(hash(s))
    if nsample < 3:
        print('SAMPLE ' + s[:280].replace('\n', ';'))
        nsample += 1
    with open(OUT, 'w') as f:
        f.write(s + '\n')


def fail(what):
    with open(OUT, 'w') as f:
        f.write(cur + '\n')
    print('FAIL ' + what.replace('\n', ' ')[:1500])
    sys.stdout.flush()
    os._exit(1)


def done():
    if os.path.exists(OUT):
        os.unlink(OUT)
    print('OK evaluations=%d distinct=%d' % (evals, len(seen)))
    sys.exit(0)


def run(one):
    global cur
    import traceback
    while more():
        cur = "(between two cases)"
        try:
            one()
        except SystemExit:
            raise
        except Exception:
            fail('raised ' + ' | '.join(traceback.format_exc().strip().split('\n')[-4:]))
    done()
