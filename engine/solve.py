"""Discharges obligations: one forked process per obligation, z3 in process first (E-matching),
then the command line provers cvc5 and z3-new on the SMT-LIB text.
An axiom set is only sent along when the obligation mentions one of its functions; one z3-new run uses model-based
instantiation on the hypotheses connected to the goal (leaving hypotheses out is sound)."""
import os, sys, time, pickle, select, signal, resource, subprocess, tempfile, shutil
import z3
from core import card_axioms

MEM = 3 << 30


def nonlinear(_):
    return False


def symbols(e, memo):
    """uninterpreted symbols of a term"""
    out = set()
    seen = set()
    work = [e]
    while work:
        x = work.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_quantifier(x):
            work.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            work.extend(x.children())
    return out


def relevant(axioms, have):
    """axioms that share a function (other than finiteness of a set) with the obligation, transitively"""
    sy = [(a, {x for x in symbols(a, None) if not x.startswith('fin_')}) for a in axioms]
    have = set(have)
    out, rest = [], sy
    while True:
        now = [(a, s) for a, s in rest if not s or s & have]
        if not now:
            return out
        rest = [(a, s) for a, s in rest if s and not s & have]
        for a, s in now:
            out.append(a)
            have |= s


def connected(hyps, goal):
    sy = [(h, symbols(h, None)) for h in hyps]
    have = symbols(goal, None)
    while True:
        n = len(have)
        for h, s in sy:
            if s & have:
                have |= s
        if len(have) == n:
            break
    return [h for h, s in sy if not s or s & have]


def skolemised(goal):
    """(hypotheses, goal) with the leading universal quantifiers replaced by fresh constants; the patterns the contract
    gives for them are made present as terms (under an uninterpreted predicate, which says nothing about them)"""
    hy = []
    n = 0
    while True:
        if z3.is_implies(goal):
            hy.append(goal.arg(0))
            goal = goal.arg(1)
        elif z3.is_quantifier(goal) and goal.is_forall():
            cs = [z3.Const('sk!%d!%d' % (n, i), goal.var_sort(i)) for i in range(goal.num_vars())]
            n += 1
            sub = list(reversed(cs))
            for i in range(goal.num_patterns()):
                for t in goal.pattern(i).children():
                    t = z3.substitute_vars(t, *sub)
                    hy.append(z3.Function('touch_' + str(t.sort()).replace(' ', '_'), t.sort(), z3.BoolSort())(t))
            goal = z3.substitute_vars(goal.body(), *sub)
        else:
            return hy, goal


def attempt(ob, axioms, seconds, emit, wide=False):
    t0 = time.time()
    extra, g0 = skolemised(ob.goal)
    goal = z3.Not(g0)
    want_card = True
    have = symbols(goal, None)
    hyps = list(ob.hyps) + extra
    for h in hyps:
        have |= symbols(h, None)
    axioms = relevant(axioms, have)
    base = list(axioms) + hyps
    quick_fail = ob.expect == 'notunsat'
    stages = [('z3(ematching)', {'auto_config': False, 'smt.mbqi': False}, min(0.25, 2.5 / seconds))]
    if quick_fail:
        stages = [('z3(ematching)', {'auto_config': False, 'smt.mbqi': False}, 1.0)]
    model = None
    for name, opts, frac in stages:
        s = z3.SolverFor('ALL') if False else z3.Solver()
        s.set('timeout', max(1000, int(seconds * frac * 1000)))
        for k, v in opts.items():
            s.set(k, v)
        for h in base:
            s.add(h)
        s.add(goal)
        r = s.check()
        if r == z3.unsat:
            return 'unsat', name, time.time() - t0, None
        if r == z3.sat and name == 'z3':
            try:
                m = s.model()
                model = '\n'.join('%s = %s' % (d.name(), str(m[d])[:300]) for d in m.decls()
                                  if '!b' not in d.name())[:6000]
            except z3.Z3Exception:
                model = None
            return 'sat', name, time.time() - t0, model
        if quick_fail:
            return str(r), name, time.time() - t0, None
    s = z3.Solver()
    for h in base:
        s.add(h)
    s.add(goal)
    txt = s.sexpr() + '\n(check-sat)\n'     # not to_smt2(): that printer captures nested bound variables of the same name
    wd = tempfile.mkdtemp(prefix='ob')
    try:
        p = os.path.join(wd, 'o.smt2')
        with open(p, 'w') as f:
            f.write('(set-logic ALL)\n' + txt)
        p2 = os.path.join(wd, 'r.smt2')
        s = z3.Solver()
        for h in connected(base, goal):
            s.add(h)
        s.add(goal)
        with open(p2, 'w') as f:
            f.write('(set-logic ALL)\n' + s.sexpr() + '\n(check-sat)\n')
        left = max(2, int(seconds * 0.85))
        procs = []
        more = []
        em = ['smt.mbqi=false', 'auto_config=false']
        more = [('z3(seed 7)', ['z3', '-T:%d' % left, 'smt.random_seed=7'] + em + [p])]
        if wide:
            more += [('z3-new(seed %d)' % k, ['z3-new', '-T:%d' % left, 'smt.random_seed=%d' % k] + em + [p]) for k in (0, 11, 23)]
            more += [('z3(seed %d)' % k, ['z3', '-T:%d' % left, 'smt.random_seed=%d' % k] + em + [p]) for k in (42, 101)]
            more += [('z3-new(arith 2)', ['z3-new', '-T:%d' % left, 'smt.arith.solver=2'] + em + [p])]
        for nm, cmd in tuple(more) + (('cvc5', ['cvc5', '--tlimit=%d' % (left * 1000), p]),
                        ('z3-new(mbqi)', ['z3-new', '-T:%d' % left, p2]),
                        ('z3-new(ematching)', ['z3-new', '-T:%d' % left, 'smt.mbqi=false', 'auto_config=false', 'smt.random_seed=5', p])):
            try:
                procs.append((nm, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
            except OSError:
                pass
        res = ('unknown', 'z3,cvc5,z3-new', None)
        end = time.time() + left + 3
        pend = list(procs)
        while pend and time.time() < end:
            for x in list(pend):
                nm, pr = x
                if pr.poll() is not None:
                    pend.remove(x)
                    out = pr.stdout.read().strip().split('\n')[0]
                    if out == 'unsat':
                        res = ('unsat', nm, None)
                        pend = []
                        break
                    if out == 'sat' and res[0] != 'sat' and not nm.startswith('z3'):
                        res = ('sat', nm, None)
                        pend = []
                        break
            time.sleep(0.05)
        for nm, pr in procs:
            if pr.poll() is None:
                pr.kill()
            pr.wait()
        return res[0], res[1], time.time() - t0, model
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def child(ob, axioms, seconds, fd, wide=False):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM * 2, MEM * 2))
        r = attempt(ob, axioms, seconds, None, wide)
    except BaseException as e:
        r = ('unknown', 'error: %s' % (str(e)[:200]), 0.0, None)
    try:
        b = pickle.dumps(r)
        os.write(fd, b[:60000] if len(b) < 60000 else pickle.dumps((r[0], r[1], r[2], None)))
    except BaseException:
        pass
    os._exit(0)


def discharge(jobs, seconds=20, ncpu=None, deadline=None, max_fail=None, progress=None, wide=False):
    """jobs: list of (Obligation, axioms). fills ob.res/.backend/.time/.model"""
    ncpu = ncpu or max(1, min(8, os.cpu_count() or 1))
    todo = [(o, a) for o, a in jobs if o.res is None]
    run = {}
    fails = 0
    i = 0
    while i < len(todo) or run:
        while i < len(todo) and len(run) < ncpu:
            o, a = todo[i]
            i += 1
            if (deadline and time.time() > deadline) or (max_fail is not None and fails >= max_fail):
                o.res, o.backend = 'notrun', 'budget'
                continue
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    os.setpgid(0, 0)
                except OSError:
                    pass
                sec = o.timeout if getattr(o, 'timeout', None) else seconds
                child(o, a, min(sec, 3) if o.expect == 'notunsat' else sec, w, wide)
            os.close(w)
            run[r] = (pid, o, time.time())
        if not run:
            continue
        rd, _, _ = select.select(list(run), [], [], 1.0)
        for r in rd:
            pid, o, t0 = run.pop(r)
            data = b''
            while True:
                x = os.read(r, 65536)
                if not x:
                    break
                data += x
            os.close(r)
            os.waitpid(pid, 0)
            try:
                o.res, o.backend, o.time, o.model = pickle.loads(data)
            except Exception:
                o.res, o.backend, o.time = 'unknown', 'crashed (memory limit?)', time.time() - t0
            if not ok(o) and o.kind != 'cover':
                fails += 1
            if progress:
                progress(o)
        for r in list(run):
            pid, o, t0 = run[r]
            if time.time() - t0 > (o.timeout or seconds) * 1.3 + 25:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass


def ok(o):
    if o.expect == 'notunsat':
        return o.res in ('sat', 'unknown', 'notrun')
    return o.res == 'unsat'
