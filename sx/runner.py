"""Runs the harnesses of one property: explore, replay, report, evidence."""
import argparse
import concurrent.futures as cf
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import subprocess
import sys
import time
import traceback

from . import engine as E
from . import target

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN_FILE = os.path.join(VERIF, 'known_findings.json')


def load_known(prop):
    try:
        with open(KNOWN_FILE) as f:
            data = json.load(f)
    except FileNotFoundError:
        return {}
    return {e['id']: e for e in data['findings'] if e['property'] == prop and e['status'] == 'known'}


class Harness(object):
    """ctx wrapper handed to harness functions: adds call() and known-findings filtering."""


def run_harness(ctx, mod, job):
    if hasattr(mod, 'prepare'):
        mod.prepare(ctx)
    fn = getattr(mod, job['h'])
    return fn(ctx, **job.get('p', {}))


def call(ctx, what, f, *a, **k):
    """Run real code; an error it raises is a violation (what: description)."""
    try:
        return f(*a, **k)
    except RecursionError:
        raise
    except Exception as e:
        frames = traceback.extract_tb(e.__traceback__)
        inrepo = [fr for fr in frames if fr.filename.startswith(target.REPO + os.sep)]
        where = ('%s:%d' % (inrepo[-1].filename, inrepo[-1].lineno)) if inrepo else '?'
        msg = '%s: raised %s: %s (at %s)' % (E.text(what), type(e).__name__, str(e)[:200], where)
        raise CodeError(msg, e)


class NoAnswer(BaseException):
    """the code under one path does not come to an end (or wants more memory than there is)"""


PATH_LIMIT = {'quick': 60, 'thorough': 900}     # seconds for one symbolic path
REPLAY_LIMIT = 30                               # seconds for one concrete run of a harness


def _alarm(*a):
    raise NoAnswer()


def start_clock(seconds):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds, 2)


def stop_clock():
    signal.setitimer(signal.ITIMER_REAL, 0)


def limit_memory(tier):
    gb = 4 if tier == 'quick' else 12
    try:
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except (ValueError, OSError):
        pass


class CodeError(Exception):
    def __init__(self, msg, orig):
        Exception.__init__(self, msg)
        self.orig = orig


_MOD = None
_KNOWN = {}
_DEADLINE = None
_TRACE = None


def _patch_known(ctx, known):
    orig = ctx.check

    def check(prop, msg='assertion', known_=None, **kw):
        kn = kw.get('known', known_)
        if kn:
            kn = [(i, r) for i, r in kn if i in known]
        return orig(prop, msg, kn)
    ctx.check = check
    return ctx


def run_job(idx_job):
    idx, job, tier = idx_job
    mod, known = _MOD, _KNOWN
    t0 = time.time()
    res = dict(idx=idx, job=job['id'], cexs=[], spurious=[], error=None)
    ctx = E.SymCtx(tier=tier, max_paths=job.get('max_paths', 200000), deadline=_DEADLINE)
    _patch_known(ctx, known)
    errs = []

    def body(c):
        start_clock(PATH_LIMIT[tier])
        try:
            run_harness(c, mod, job)
            stop_clock()
        except (NoAnswer, MemoryError) as e:
            stop_clock()
            while c.solver.num_scopes() > c.nlev:
                c.solver.pop()
            c.stop = True
            c.code_error('no answer within the time or memory of one path (%s)' % type(e).__name__)
        except CodeError as e:
            stop_clock()
            m = c.describe_inputs() if hasattr(c, 'describe_inputs') else None
            c.code_error(str(e))
        except (E.Inconclusive, E.Infeasible, E._StopPath):
            stop_clock()
            raise
        except Exception as e:
            stop_clock()
            # an error in the harness itself, or in code the harness does not guard
            errs.append(traceback.format_exc())
            c.code_error('unguarded %s: %s' % (type(e).__name__, e))

    def code_error(msg):
        r = ctx._check()
        if r != E.z3.sat:
            ctx.stats['unknown'] += 1
            raise E._StopPath()
        cex = E.Counterexample(msg, ctx._model_inputs(ctx.solver.model()), [E.note_text(n) for n in ctx.notes])
        cex.kind = 'error'
        start_clock(REPLAY_LIMIT)
        ok, why = replay_here(mod, job, cex.inputs, tier)
        stop_clock()
        E.set_ctx(ctx)
        if ok:
            ctx.cexs.append(cex)
        else:
            ctx.stats['inconclusive'] += 1
            ctx.inc_reasons['error only under symbolic values: ' + msg[:150]] = \
                ctx.inc_reasons.get('error only under symbolic values: ' + msg[:150], 0) + 1
        raise E._StopPath()
    ctx.code_error = code_error
    try:
        ctx.explore(body, stop_on_cex=not job.get('all_cex'))
    except Exception:
        res['error'] = traceback.format_exc()
    for c in ctx.cexs:
        res['cexs'].append(dict(msg=c.msg, inputs=c.inputs, detail=c.detail, kind=getattr(c, 'kind', 'assert')))
    res['errs'] = errs[:3]
    res['stats'] = ctx.stats
    res['inc'] = ctx.inc_reasons
    res['covers'] = ctx.covers
    res['known'] = ctx.known_hits
    res['samples'] = ctx.samples[:1]
    res['wall'] = time.time() - t0
    res['fns'] = sorted(_TRACE.seen) if _TRACE else []
    return res


def replay_here(mod, job, inputs, tier):
    """Concrete run of a harness in this process.  True = the violation reproduces."""
    c = E.ConcCtx(inputs, tier)
    E.set_ctx(c)
    try:
        run_harness(c, mod, job)
    except E.Violation as v:
        return True, 'assertion false: %s' % v
    except CodeError as e:
        return True, str(e)
    except (E.Inconclusive, E.Infeasible) as e:
        return False, '%s: %s' % (type(e).__name__, e)
    except (NoAnswer, MemoryError) as e:
        stop_clock()
        return True, 'no answer within %d s and 4 GB (%s)' % (REPLAY_LIMIT, type(e).__name__)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any(fr.filename.startswith(target.REPO + os.sep) for fr in tb):
            return True, 'code raised %s: %s' % (type(e).__name__, e)
        return False, 'harness raised %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc())
    finally:
        E.set_ctx(None)
    return False, 'assertion holds on the real code'


def replay_main(path):
    with open(path) as f:
        d = json.load(f)
    target.load(symbolic=False)
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    mod = importlib.import_module(d['module'])
    if hasattr(mod, 'setup'):
        mod.setup(symbolic=False)
    limit_memory('quick')
    start_clock(REPLAY_LIMIT)
    ok, why = replay_here(mod, d['job'], d['inputs'], d['tier'])
    stop_clock()
    print(('REPRODUCED ' if ok else 'NOT-REPRODUCED ') + d['property'] + ': ' + why)
    return 0 if ok else 3


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--procs', type=int, default=0)
    ap.add_argument('--only', default=None, help='run only jobs whose id contains this')
    ap.add_argument('--verbose', '-v', action='store_true')
    ap.add_argument('--replay', default=None)
    ap.add_argument('--budget', type=float, default=0)
    a = ap.parse_args(argv)
    if a.replay:
        return replay_main(a.replay)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = a.property
    t0 = time.time()
    global _MOD, _KNOWN, _DEADLINE, _TRACE
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    _KNOWN = load_known(prop)
    _TRACE = target.FnTrace()
    _TRACE.start()
    target.load(symbolic=True)
    modname = prop.lower()
    mod = importlib.import_module(modname)
    if hasattr(mod, 'setup'):
        mod.setup(symbolic=True)
    _MOD = mod
    jobs = mod.jobs(tier)
    for j in jobs:
        j.setdefault('p', {})
    if a.only:
        jobs = [j for j in jobs if a.only in j['id']]
    budget = a.budget or (700 if tier == 'quick' else 6 * 3600)
    _DEADLINE = t0 + budget
    nproc = a.procs or min(8, os.cpu_count() or 1)
    limit_memory(tier)
    results = []
    fatal = None
    if nproc == 1:
        for i, j in enumerate(jobs):
            results.append(run_job((i, j, tier)))
    else:
        with cf.ProcessPoolExecutor(nproc, mp_context=mp.get_context('fork')) as ex:
            futs = [ex.submit(run_job, (i, j, tier)) for i, j in enumerate(jobs)]
            bad = 0
            for f in cf.as_completed(futs):
                if f.cancelled():
                    continue
                try:
                    results.append(f.result())
                    bad += bool(results[-1]['cexs'])
                    if bad == 4 and not a.verbose:      # enough to report: do not start further jobs
                        for g in futs:
                            g.cancel()
                except Exception as e:      # a worker died
                    fatal = 'worker failed: %r' % e
                    break
            if fatal:
                for f in futs:
                    f.cancel()
    results.sort(key=lambda r: r['idx'])
    if fatal:
        print('ERROR %s' % fatal)
        return 2

    # merge -------------------------------------------------------------------
    tot = {}
    inc, covers, known, fns = {}, {}, {}, set()
    for r in results:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
        for k, v in r['inc'].items():
            inc[k] = inc.get(k, 0) + v
        for k, v in r['covers'].items():
            covers[k] = covers.get(k, 0) + v
        for k, v in r['known'].items():
            known.setdefault(k, (r['job'], v))
        fns.update(r['fns'])
    err = [r for r in results if r['error']]
    empty = [r['job'] for r in results if r['stats']['paths'] == 0 and not r['error']
             and not r['stats']['truncated'] and r['stats']['inconclusive'] == 0]

    # replay every counterexample on the unmodified code -------------------------
    violations, spurious = [], []
    outdir = os.path.join(VERIF, 'replays')
    for r in results:
        for c in r['cexs']:
            d = dict(property=prop, module=modname, tier=tier, job=jobs[r['idx']], inputs=c['inputs'],
                     message=c['msg'], detail=c['detail'],
                     how='python3-vt %s/check.py %s --replay <this file>' % (VERIF, prop))
            os.makedirs(outdir, exist_ok=True)
            key = hashlib.sha1(json.dumps([d['job'], d['inputs']], sort_keys=True, default=str).encode()).hexdigest()[:12]
            path = os.path.join(outdir, '%s-%s.json' % (prop, key))
            with open(path, 'w') as f:
                json.dump(d, f, indent=1, default=str)
            if len(violations) >= 5:
                violations.append((r, c, path, 'not replayed (enough already)'))
                continue
            p = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), prop, '--replay', path],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300,
                               env=dict(os.environ, PYTHONHASHSEED='0'))
            out = p.stdout.decode('utf-8', 'replace').strip().splitlines()
            why = out[-1] if out else ''
            if p.returncode == 0:
                violations.append((r, c, path, why))
            else:
                spurious.append((r, c, path, '\n'.join(out[-5:])))

    wall = time.time() - t0
    write_evidence(prop, mod, tier, seed, jobs, results, tot, inc, covers, known, fns, violations, spurious, wall)

    print('%s tier=%s jobs=%d paths=%d checks=%d discharged=%d unknown=%d inconclusive=%d truncated=%d '
          'queries=%d solver=%.1fs wall=%.1fs' % (
              prop, tier, len(jobs), tot.get('paths', 0), tot.get('checks', 0), tot.get('discharged', 0),
              tot.get('unknown', 0), tot.get('inconclusive', 0), tot.get('truncated', 0), tot.get('queries', 0),
              tot.get('solver_s', 0), wall))
    if not a.verbose:
        for k, v in inc.items():
            if 'unguarded' in k:
                print('  inconclusive %6d  %s' % (v, k))
    if a.verbose:
        for k, v in sorted(inc.items(), key=lambda x: -x[1])[:20]:
            print('  inconclusive %6d  %s' % (v, k))
        for r in sorted(results, key=lambda r: -r['wall'])[:15]:
            print('  %7.1fs paths=%d %s' % (r['wall'], r['stats']['paths'], r['job']))
        for r in results:
            for e in r['errs']:
                print('  unguarded error in %s\n%s' % (r['job'], e))
    for kid in sorted(_KNOWN):
        if kid in known:
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, kid, _KNOWN[kid]['what']))
    for r, c, path, why in spurious:
        print('SPURIOUS %s: %s | %s | %s' % (r['job'], c['msg'], why, path))
    for r, c, path, why in violations[:int(os.environ.get('MAXCEX', '10'))]:
        print('  [%s] %s | %s' % (r['job'], c['msg'], why))
        if a.verbose:
            print('     inputs: %s' % {k: (v[2] if v[0] == 'choice' else v[1]) for k, v in c['inputs'].items()})
            for dline in c['detail']:
                print('     %s' % dline)
    if violations:
        for r, c, path, why in violations[:int(os.environ.get('MAXCEX', '10'))]:
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if err:
        print('ERROR in harness job %s:\n%s' % (err[0]['job'], err[0]['error']))
        return 2
    if empty:
        print('ERROR vacuous jobs (no feasible path): %s' % empty[:5])
        return 2
    if spurious:
        print('ERROR: a counterexample did not reproduce on the real code')
        return 2
    return 0


def write_evidence(prop, mod, tier, seed, jobs, results, tot, inc, covers, known, fns, violations, spurious, wall):
    level = getattr(mod, 'LEVEL', 'model_checking')
    samples = []
    for r in results:
        for s in r['samples']:
            if len(samples) < 6:
                samples.append(dict(job=r['job'], path_input=s))
    bounds = mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS
    cov = dict(
        states=tot.get('paths', 0),
        transitions=tot.get('branches', 0) + tot.get('paths', 0),
        traces_validated_against_impl=len(violations) + len(spurious),
        samples=samples,
        explanation='Symbolic execution of the real functions of /repo (imported from its working tree in this run). '
                    'states = feasible execution paths explored (each stands for all input values satisfying its path '
                    'condition); transitions = branch decisions taken by the solver plus path ends; at the end of '
                    'each path the assertion is a query over all remaining symbolic values. '
                    'Counterexamples are replayed on the unmodified code before being reported.',
        bounds=bounds,
        outside=getattr(mod, 'OUTSIDE', ''),
        harness_jobs=len(jobs),
        paths=tot.get('paths', 0), infeasible_paths=tot.get('infeasible', 0),
        assertions=tot.get('checks', 0), discharged=tot.get('discharged', 0),
        unknown=tot.get('unknown', 0), inconclusive_paths=tot.get('inconclusive', 0),
        inconclusive_reasons=dict(sorted(inc.items(), key=lambda x: -x[1])[:10]),
        truncated_jobs=tot.get('truncated', 0),
        solver='z3 ' + E.z3.get_version_string(), solver_queries=tot.get('queries', 0),
        solver_seconds=round(tot.get('solver_s', 0), 2),
        exhaustive=(tot.get('truncated', 0) == 0 and tot.get('inconclusive', 0) == 0 and tot.get('unknown', 0) == 0),
        functions_encoded=sorted(fns),
        reachability_witnesses=covers,
        known_findings_seen=sorted(known),
        spurious=len(spurious),
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(wall, 2),
              assumptions=getattr(mod, 'ASSUMPTIONS', []), violations=len(violations))
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
