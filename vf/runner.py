"""Runs the jobs of one property, decides every assertion with the solver, replays counterexamples.

  python -m vf.runner ID --tier quick|thorough      run a property's check
  python -m vf.runner --job ID JOBNAME TIER OUT      (internal) one job in its own process
  python -m vf.runner --replay FILE                  run a recorded counterexample on the real code
"""
import importlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')


def setup_path():
    for p in (VERIF, REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    x = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
    if x not in sys.path:
        sys.path.append(x)
    warnings.simplefilter('ignore')


class Timeout(BaseException):
    pass


def with_alarm(sec, fn):
    def h(*a):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, sec)
    try:
        return fn()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def load_jobs(pid, tier):
    from harness import registry
    return registry.jobs(pid, tier)


# ---------------------------------------------------------------- native run
class Native:
    """outcome of one concrete execution of a harness on the real code"""

    def __init__(self, job, model, limit=10.0):
        from .ctx import ConcreteCtx, Skip
        self.c = ConcreteCtx(model)
        self.exc = None
        self.skip = False
        self.timeout = False
        self.tb = ''
        devnull = open(os.devnull, 'w')
        so = sys.stdout
        try:
            sys.stdout = devnull
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with_alarm(limit, lambda: job.fn(self.c, *job.args))
        except Skip:
            self.skip = True
        except Timeout:
            self.timeout = True
        except Exception as ex:
            self.exc = type(ex).__name__
            self.msg = str(ex)[:300]
            self.tb = traceback.format_exc()
        finally:
            sys.stdout = so
            devnull.close()
            self.c.unpatch()

    def bad(self):
        if self.skip:
            return []
        r = list(self.c.fails)
        if self.exc:
            r.append('exception:' + self.exc)
        if self.timeout:
            r.append('nontermination')
        return r


# ---------------------------------------------------------------- merging engine
def run_merge(job, seed, deadline):
    from .pysym import Interp
    from .values import Unsupported, Dead
    from .ctx import SymCtx, evalv
    from .aig import SolverUnknown
    t0 = time.time()
    I = Interp([REPO.rstrip('/') + '/', VERIF + '/harness'], seed=seed, loop_bound=job.loop_bound, deadline=deadline)
    ctx = SymCtx(I)
    for orig, repl in job.opts.get('stubs', ()):
        I.models[orig] = lambda I, a, k, f=repl: I.call(I.tofunc(f), list(a), dict(k))
    res = {'job': job.name, 'engine': 'merge', 'violations': [], 'error': None}
    try:
        try:
            I.call(I.tofunc(job.fn), [ctx] + list(job.args), {})
        except Dead:
            pass
        res['t_exec'] = time.time() - t0
        # obligations
        obl = {}
        for label, bad, pc in ctx.checks:
            obl.setdefault(label, []).append(bad)
        ncheck = len(ctx.checks)
        exc = {}
        for g, e in I.sink:
            nm = e.__name__ if isinstance(e, type) else type(e).__name__
            exc.setdefault('exception:' + nm, []).append(g)
        for g, line, q in I.nonterm:
            exc.setdefault('nontermination', []).append(g)
        for k, v in exc.items():
            obl.setdefault(k, []).extend(v)
        res['assertions'] = ncheck
        res['obligations'] = len(obl) + (0 if exc else 1)
        decided = []
        for label, bads in obl.items():
            bad = I.AND(I.b.ors(bads), ctx.assumed)
            m = I.b.model_of(bad) if bad else None
            decided.append(label)
            if m is not None:
                res['violations'].append({'label': label, 'model': m})
        # vacuity
        miss = []
        cov = {}
        for label in job.covers:
            g = I.AND(ctx.covers.get(label, 0), ctx.assumed)
            m = I.b.model_of(g) if g else None
            if m is None:
                miss.append(label)
            else:
                cov[label] = {k: int(v) for k, v in m.items()}
        res['covers'] = sorted(cov)
        res['missing_covers'] = miss
        # validation of the encoding against the real code on concrete inputs
        ms = []
        sgn = I.b.lsig(ctx.assumed) if ctx.assumed != 1 else I.b.mask
        idx = [i for i in range(I.b.np) if sgn >> i & 1]
        I.b.rng.shuffle(idx)
        for i in idx[:job.validate]:
            ms.append({I.b.names[n]: bool(I.b.sig[n] >> i & 1) for n in I.b.inputs})
        if not ms:
            m = I.b.model_of(ctx.assumed if ctx.assumed != 1 else 1)
            if m is not None:
                ms.append(m)
        ms += [dict((k, bool(v)) for k, v in m.items()) for m in cov.values()]
        ms += [v['model'] for v in res['violations']]
        nval = 0
        mism = []
        for m in ms:
            md = {n: m.get(I.b.names[n], False) for n in I.b.inputs}
            ev = lambda l: I.b.evalm(l, md)
            want_bad = sorted({lab for lab, bads in obl.items() if any(ev(x) for x in bads)}) if ev(ctx.assumed) else None
            want_obs = [(nm, evalv(I, v, md)) for pc, nm, v in ctx.obs if ev(pc)]
            nat = Native(job, m)
            if nat.skip:
                if want_bad is not None:
                    mism.append({'model': m, 'what': 'assumption disagrees'})
                continue
            got_bad = sorted(set(nat.bad()))
            if want_bad is None:
                mism.append({'model': m, 'what': 'assumption disagrees (native run not skipped)'})
            elif got_bad != want_bad:
                mism.append({'model': m, 'what': 'outcome', 'symbolic': want_bad, 'native': got_bad, 'tb': nat.tb[-600:]})
            elif not want_bad and want_obs != nat.c.obs:
                mism.append({'model': m, 'what': 'observation', 'symbolic': repr(want_obs)[:600], 'native': repr(nat.c.obs)[:600]})
            nval += 1
        res['validated'] = nval
        res['mismatches'] = mism[:3]
        if mism:
            res['error'] = 'encoding disagrees with the real code: %r' % (mism[0],)
        if miss and not res['violations']:
            res['error'] = 'vacuous: not reachable: %s' % miss
        smp = next(iter(cov.values()), None)
        res['sample'] = {'inputs_bits': {k: v for k, v in list((smp or {}).items())[:40]}}
    except Unsupported as ex:
        res['error'] = 'unsupported: %s' % ex
        res['unsupported'] = True
        if os.environ.get('VF_DEBUG'):
            traceback.print_exc()
    except SolverUnknown as ex:
        res['error'] = 'solver gave no answer'
        res['unsupported'] = True
    except RecursionError as ex:
        res['error'] = 'encoder recursion limit'
        res['unsupported'] = True
    b = I.b
    res.update(functions=I.functions, natives=sorted(I.natives), queries=b.nq, sat=b.nsat, unsat=b.nunsat,
               solver_s=round(b.tsolve, 3), nodes=b.size(), inputs=len(b.inputs), wall=round(time.time() - t0, 2))
    return res


def run_fork(job, seed, deadline):
    from . import dse
    return dse.run(job, seed, deadline, Native)


def run_job(pid, name, tier, out, seed):
    setup_path()
    jobs = {j.name: j for j in load_jobs(pid, tier)}
    job = jobs[name]
    budget = job.budget
    t = time.time()
    res = None
    try:
        if job.engine == 'merge':
            res = run_merge(job, seed, t + budget)
            if res.get('unsupported') and job.fallback is not None:
                first = res['error']
                job.args = job.fallback
                r2 = run_fork(job, seed, t + 2 * budget + 60)
                r2['fallback_from'] = first
                res = r2
        else:
            res = run_fork(job, seed, t + budget)
    except MemoryError:
        res = {'job': name, 'error': 'out of memory', 'violations': []}
    except Exception as ex:
        res = {'job': name, 'error': 'internal: ' + traceback.format_exc()[-1500:], 'violations': []}
    res['bounds'] = job.bounds
    res['args'] = repr(job.args)
    with open(out, 'w') as f:
        json.dump(res, f, default=str)


# ---------------------------------------------------------------- main
def known(pid):
    r = {}
    fn = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if l.startswith('KNOWN-FINDING:') and 'property=%s ' % pid in l and 'key=' in l:
                r[l.split('key=')[1].split()[0]] = l
    return r


def settled(job, r, kn):
    args = job.args
    if r.get('fallback_from'):
        job.args = job.fallback
    try:
        return any(job.name + ':' + v['label'] not in kn and v['label'] in Native(job, v['model'], limit=20).bad()
                   for v in r['violations'])
    finally:
        job.args = args


def main(pid, tier):
    t0 = time.time()
    setup_path()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import tempfile
    jobs = load_jobs(pid, tier)
    tmp = tempfile.mkdtemp(prefix='vf_')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(tmp, 'mpl'), VERIF_SEED=str(seed))
    par = int(os.environ.get('VF_JOBS', '8'))
    queue = sorted(range(len(jobs)), key=lambda i: -jobs[i].cost)
    running = {}
    results = [None] * len(jobs)
    kn = known(pid)
    stop = False
    try:
        while (queue or running) and not stop:
            while queue and len(running) < par:
                i = queue.pop(0)
                out = os.path.join(tmp, '%d.json' % i)
                err = open(os.path.join(tmp, '%d.err' % i), 'w')
                p = subprocess.Popen([sys.executable, '-m', 'vf.runner', '--job', pid, jobs[i].name, tier, out],
                                     cwd=VERIF, env=env, stdout=err, stderr=err)
                running[i] = (p, out, time.time(), err)
            for i, (p, out, ts, err) in list(running.items()):
                lim = jobs[i].hard
                if p.poll() is None and time.time() - ts > lim:
                    p.kill()
                    p.wait()
                    results[i] = {'job': jobs[i].name, 'error': 'time limit %ds' % lim, 'violations': []}
                elif p.poll() is not None:
                    if os.path.exists(out):
                        results[i] = json.load(open(out))
                    else:
                        err.flush()
                        results[i] = {'job': jobs[i].name, 'violations': [], 'error': 'job process ended with %s: %s' % (
                            p.returncode, open(err.name).read()[-800:])}
                else:
                    continue
                err.close()
                del running[i]
                if os.environ.get('VF_VERBOSE'):
                    r = results[i]
                    print('  job %-34s %6.1fs eng=%s paths=%s q=%s nodes=%s val=%s viol=%s err=%s %s' % (
                        r['job'], time.time() - ts, r.get('engine'), r.get('paths'), r.get('queries'), r.get('nodes'), r.get('validated'),
                        [v['label'] for v in r['violations']], (r.get('error') or '')[:1500], ('FALLBACK from ' + r['fallback_from']) if r.get('fallback_from') else ''), flush=True)
                # one counterexample that the real code reproduces settles the verdict: the remaining jobs are not needed
                if not os.environ.get('VF_ALL') and settled(jobs[i], results[i], kn):
                    stop = True
            time.sleep(0.02)
    finally:
        for p, _, _, _ in running.values():
            p.kill()
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)

    # replay counterexamples on the real code
    viols, errors, knowns, notrep = [], [], [], []
    for i, r in enumerate(results):
        job = jobs[i]
        if r is None:
            r = results[i] = {'job': job.name, 'violations': [], 'error': None, 'bounds': 'not run: a violation was found first'}
        if r.get('fallback_from'):
            job.args = job.fallback
        for v in r['violations']:
            nat = Native(job, v['model'], limit=20)
            if v['label'] in nat.bad():
                key = job.name + ':' + v['label']
                if key in kn:
                    knowns.append(kn[key])
                    continue
                viols.append((job, v, nat, r))
            else:
                notrep.append('%s: %s does not reproduce natively (got %s)' % (job.name, v['label'], nat.bad()))
        if r.get('error'):
            errors.append('%s: %s' % (r['job'], r['error']))
    errors += notrep
    code = 0
    rp = os.path.join(VERIF, 'replays')
    first = None
    for k, (job, v, nat, r) in enumerate(viols[:5]):
        os.makedirs(rp, exist_ok=True)
        fn = os.path.join(rp, '%s_%d.json' % (pid, k))
        with open(fn, 'w') as f:
            json.dump({'property': pid, 'tier': tier, 'job': job.name, 'args': repr(job.args),
                       'fallback': bool(r.get('fallback_from')), 'label': v['label'],
                       'model': v['model'], 'inputs': {a: repr(b) for a, b in nat.c.inputs.items()},
                       'native_failures': nat.bad(), 'traceback': nat.tb}, f, indent=1, default=str)
        if k == 0:
            first = fn
        print('violated: %s in %s %s; inputs %s' % (v['label'], job.name, job.args,
              {a: b for a, b in list(nat.c.inputs.items())[:40]}))
        if nat.exc:
            print('   ', nat.exc, getattr(nat, 'msg', ''))
    for l in sorted(set(knowns)):
        print(l)
    if viols:
        print('VIOLATION property=%s replay=%s' % (pid, first))
        code = 1
    elif errors:
        for e in errors:
            print('ERROR', e)
        code = 2
    # evidence
    fns = {}
    for r in results:
        for f, c in (r.get('functions') or {}).items():
            fns[f] = fns.get(f, 0) + c
    tot = lambda k: sum((r.get(k) or 0) for r in results)
    cov = {
        'explanation': 'Symbolic execution of the current source of the listed functions, regenerated on this run; '
                       'every assertion, uncaught exception and loop bound was decided by z3 for all inputs within the '
                       'bounds of each job.',
        'functions_encoded': dict(sorted(fns.items())),
        'queries_discharged': tot('queries'), 'queries_sat': tot('sat'), 'queries_unsat': tot('unsat'),
        'solver_seconds': round(tot('solver_s'), 2),
        'assertions_decided': tot('assertions'),
        'paths': tot('paths'),
        'formula_nodes': tot('nodes'),
        'symbolic_inputs': tot('inputs'),
        'encoding_validated_on_concrete_inputs': tot('validated'),
        'jobs': [{'name': r['job'], 'engine': r.get('engine'), 'bounds': r.get('bounds'), 'args': r.get('args'),
                  'assertions': r.get('assertions'), 'queries': r.get('queries'), 'solver_s': r.get('solver_s'),
                  'paths': r.get('paths'), 'symbolic_inputs': r.get('inputs'), 'wall_s': r.get('wall'),
                  'reachability_witnesses': r.get('covers'), 'validated': r.get('validated'),
                  'fallback_from': r.get('fallback_from'), 'error': r.get('error'),
                  'violations': [v['label'] for v in r['violations']]} for r in results],
        'samples': [r.get('sample') for r in results if r.get('sample')][:3],
    }
    from harness import registry
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': registry.assumptions(pid), 'wall_s': round(time.time() - t0, 2), 'violations': len(viols)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if code == 0:
        print('OK property=%s tier=%s jobs=%d assertions=%d queries=%d solver=%.1fs wall=%.1fs' % (
            pid, tier, len(jobs), cov['assertions_decided'], cov['queries_discharged'], cov['solver_seconds'], time.time() - t0))
    return code


def replay(fn):
    setup_path()
    d = json.load(open(fn))
    job = {j.name: j for j in load_jobs(d['property'], d['tier'])}[d['job']]
    if d.get('fallback'):
        job.args = job.fallback
    nat = Native(job, d['model'], limit=30)
    print('inputs', nat.c.inputs)
    print('failures', nat.bad())
    print(nat.tb)
    return 1 if d['label'] in nat.bad() else 0


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == '--job':
        run_job(a[1], a[2], a[3], a[4], int(os.environ.get('VERIF_SEED', '1') or 1))
    elif a[0] == '--replay':
        sys.exit(replay(a[1]))
    else:
        tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
        sys.exit(main(a[0], tier))
