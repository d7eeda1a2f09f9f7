"""check driver:  python3-vt engine/run.py <property-id>
Regenerates every obligation from /repo's current source, discharges it, and reports."""
import sys, os, json, time, importlib, subprocess, traceback, shutil, hashlib, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, 'contracts'))
from common import *
import solve
from harness import run_harness

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'


def known_findings(pid):
    out = []
    p = os.path.join(ROOT, 'known_findings.json')
    if os.path.exists(p):
        for k in json.load(open(p)).get('findings', []):
            if k.get('property') == pid:
                out.append(k)
    return out


def main():
    pid = sys.argv[1]
    t0 = time.time()
    hard = t0 + (780 if TIER == 'quick' else 3300)
    mod = importlib.import_module('P_' + pid)
    sec = 20 if TIER == 'quick' else 60
    jobs, funcs, assumed, mism, trusted = [], [], set(), [], set()
    covers = []
    for u in getattr(mod, 'UNITS', []):
        try:
            ex, cons = u.make()
        except ExtractError as e:
            mism.append({'unit': u.name, 'function': '*', 'why': 'extraction: ' + str(e)[:400]})
            continue
        except (SpecMismatch, Unsupported) as e:
            mism.append({'unit': u.name, 'function': '*', 'why': str(e)[:400]})
            continue
        for c in cons:
            nm = c.tag or c.sig or c.fn
            if u.only is not None and nm not in u.only:
                continue
            if c.trusted:
                trusted.add('assumed contract: %s (%s)' % (nm, c.trusted if isinstance(c.trusted, str) else 'not verified'))
                continue
            nthrow = len(ex.obls)
            try:
                if hasattr(ex, 'retry'):
                    ex.retry()
                f, obs = ex.verify(c)
            except (SpecMismatch, Unsupported) as e:
                mism.append({'unit': u.name, 'function': nm, 'why': '%s: %s' % (type(e).__name__, str(e)[:300])})
                continue
            except (KeyError, AttributeError, IndexError, TypeError, z3.Z3Exception, RecursionError, AssertionError, ValueError) as e:
                mism.append({'unit': u.name, 'function': nm, 'why': 'verifier gave up: %s: %s' % (type(e).__name__, str(e)[:300])})
                continue
            ax = ex.axioms + card_axioms()
            if u.drop:
                obs = [o for o in obs if not (o.kind == 'ensures' and o.name.split('#')[0] in u.drop)]
            for o in obs:
                o.timeout = c.timeout
                jobs.append((o, ax))
            funcs.append({'unit': u.name, 'function': nm, 'file': os.path.relpath(f.file, REPO) if f.file else None,
                          'line': f.line, 'obligations': len(obs), '_obs': obs})
        assumed |= ex.assumed
        covers += [c for c in ex.covers if c]
        for k in getattr(ex, 'trusted', []):
            trusted.add(k)
    tgen = time.time() - t0
    solve.discharge(jobs, seconds=sec, deadline=min(hard, time.time() + (420 if TIER == 'quick' else 2400)), max_fail=12)
    # second chance with more time: a proof that merely ran out of time is not a violation
    for rnd in (1, 2):
        retry = [(o, a) for o, a in jobs if not solve.ok(o) and o.res == 'unknown' and o.expect != 'notunsat']
        if not retry or len(retry) > (12 if rnd == 1 else 6):
            break
        for o, a in retry:
            o.res = None
            o.timeout = sec * (2 if rnd == 1 else 5)
        solve.discharge(retry, seconds=sec * (2 if rnd == 1 else 5), ncpu=3 if rnd == 1 else 2, deadline=min(hard - 90, time.time() + 120), wide=True)
        for o, a in retry:
            if o.res == 'notrun':
                o.res = 'unknown'
    tsolve = time.time() - t0 - tgen
    bad, vac = [], []
    for o, a in jobs:
        if solve.ok(o):
            continue
        (vac if o.expect == 'notunsat' else bad).append(o)
    # a contradictory precondition or a function none of whose exits is reachable proves nothing
    real_vac = []
    for fr in funcs:
        pre = [o for o in fr['_obs'] if o.kind == 'vacuity' and o.expect == 'notunsat' and not solve.ok(o)]
        cov = [o for o in fr['_obs'] if o.kind == 'cover']
        dead = cov and all(not solve.ok(o) for o in cov)
        if pre or dead:
            real_vac.append(fr)
    proof_obs = [o for o, a in jobs if o.expect != 'notunsat']
    disc = [o for o in proof_obs if o.res == 'unsat']
    notrun = [o for o in proof_obs if o.res == 'notrun']
    bad = [o for o in bad if o.res != 'notrun'] + []
    if notrun and not bad:
        mism.append({'unit': '*', 'function': '*', 'why': '%d obligations not attempted within the time budget' % len(notrun)})
    for fr in real_vac:
        mism.append({'unit': fr['unit'], 'function': fr['function'],
                     'why': 'vacuous: precondition contradictory or no reachable exit under the contract'})
    backends = {}
    for o in disc:
        backends[o.backend] = backends.get(o.backend, 0) + 1
    hres = []
    violation = None
    known_hit = []
    rdir = os.path.join(ROOT, 'replays')
    os.makedirs(rdir, exist_ok=True)
    stress = bool(bad or mism)
    for h in getattr(mod, 'HARNESSES', []):
        left = hard - time.time()
        budget = h.get('budget', 12)
        if stress:
            budget = max(budget, h.get('stress', 60))
        if TIER == 'thorough':
            budget = max(budget, h.get('thorough', 240))
        budget = max(5, min(budget, left - 30))
        r = run_harness(h, SEED, budget, pid, rdir, known_findings(pid))
        hres.append(r)
        for k in r.get('known', []):
            if k not in known_hit:
                known_hit.append(k)
        if r.get('fail'):
            violation = r
            break
    for k in known_hit:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    rc = 0
    if bad:
        for o in bad[:20]:
            print('FAILED obligation %s in %s (%s, line %s): %s by %s' % (o.name, o.func, o.kind, o.line, o.res, o.backend))
    for m in mism:
        print('NOT-DECIDED-BY-PROOF %s / %s: %s -- bounded stand-in used' % (m['unit'], m['function'], m['why']))
    if violation:
        rc = 1
        path = violation['replay']
        if bad:
            with open(path, 'a') as f:
                f.write('\n# failed obligations:\n')
                for o in bad[:40]:
                    f.write('#   %s in %s line %s kind %s: %s (%s)\n' % (o.name, o.func, o.line, o.kind, o.res, o.backend))
        print('failing input: ' + violation.get('what', ''))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    elif bad:
        rc = 1
        path = os.path.join(rdir, '%s-obligation.txt' % pid)
        with open(path, 'w') as f:
            f.write('property %s: proof obligations generated from the current source that were not discharged\n' % pid)
            for o in bad[:40]:
                f.write('\nobligation %s\n  function %s line %s kind %s\n  verifier verdict: %s (%s, %.1fs)\n' % (
                    o.name, o.func, o.line, o.kind, o.res, o.backend, o.time))
                f.write('  goal: %s\n' % str(o.goal)[:1500])
                if o.model:
                    f.write('  model:\n    ' + o.model.replace('\n', '\n    ')[:3000] + '\n')
            f.write('\nre-run: cd /verif && python3-vt engine/run.py %s\n' % pid)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
    level = getattr(mod, 'LEVEL', 'proof')
    nbound = [{'harness': r['name'], 'label': 'bounded, not counted as proved', 'bound': r.get('bound', ''),
               'evaluations': r.get('evaluations', 0), 'distinct_nontrivial': r.get('distinct', 0),
               'wall_s': round(r.get('wall', 0), 1), 'ok': not r.get('fail')} for r in hres]
    samples = [s for r in hres for s in r.get('samples', [])][:6] or ['%s: %s' % (o.func, o.name) for o in disc[:5]]
    cov = {
        'obligations': len(proof_obs), 'discharged': len(disc),
        'checker_cmd': 'python3-vt engine/run.py %s  (clang 18 AST -> obligations -> z3 %s / z3-new / cvc5)' % (pid, z3.get_version_string()),
        'trusted_base': sorted(trusted) + ['engine/*.py (VC generator)', 'clang 18 AST', 'z3, cvc5 (soundness of unsat answers)'],
        'functions_under_contract': [{k: v for k, v in f.items() if k != '_obs'} for f in funcs],
        'by_backend': backends, 'solver_seconds': round(sum(o.time for o, a in jobs), 2),
        'failed_obligations': ['%s: %s' % (o.func, o.name) for o in bad[:50]],
        'vacuity_checks': sum(1 for o, a in jobs if o.expect == 'notunsat'),
        'vacuity_passed': sum(1 for o, a in jobs if o.expect == 'notunsat' and solve.ok(o)),
        'not_decided_by_proof': mism, 'bounded_checks': nbound,
        'evaluations': sum(r.get('evaluations', 0) for r in hres),
        'distinct_nontrivial': sum(r.get('distinct', 0) for r in hres),
        'rule': '; '.join(sorted(set(r.get('rule', '') for r in hres if r.get('rule')))) or 'no bounded part',
        'samples': samples,
        'explanation': getattr(mod, 'EXPLANATION', ''),
    }
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': cov,
          'assumptions': sorted(assumed) + list(getattr(mod, 'ASSUMPTIONS', [])),
          'wall_s': round(time.time() - t0, 2), 'violations': 1 if rc else 0}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d functions, %d/%d obligations discharged, %d bounded checks (%d evaluations), %.1fs (%.1fs generation, %.1fs solving)' % (
        pid, len(funcs), len(disc), len(proof_obs), len(hres), cov['evaluations'], time.time() - t0, tgen, tsolve))
    sys.exit(rc)


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':      # the same obligations, in the same order, on every run
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)
