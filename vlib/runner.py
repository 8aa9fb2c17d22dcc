"""Case runner shared by all checks.

A check registers with @prop(ID, ...) a function case(ctx) that generates one
workload from ctx.rng, drives the real freesif with it and reports what its
monitors observed through ctx.  Verdicts: violated (exit 1 + VIOLATION line),
held (exit 0), inconclusive or harness error (exit 2)."""
from __future__ import print_function

import json
import os
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib
from collections import Counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FREESIF_REPO', '/repo')
CASE_CPU_S = 90          # one case normally needs well under a second
PROPS = {}


class Prop(object):
    pass


def prop(pid, quick, thorough, rule, need, assumptions=()):
    """quick/thorough: number of cases; need: counters that must be > 0 for
    the run to be conclusive"""
    def deco(f):
        p = Prop()
        p.id, p.quick, p.thorough, p.rule = pid, quick, thorough, rule
        p.need, p.assumptions, p.case = list(need), list(assumptions), f
        PROPS[pid] = p
        return f
    return deco


class Violation(Exception):
    pass


class Inconclusive(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class _Gen(object):
    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        self.ctx.ingen += 1

    def __exit__(self, t, v, tb):
        if t is None:
            self.ctx.ingen -= 1


class Ctx(object):
    """One case: random source, scratch directory, counters and verdicts."""

    def __init__(self, pid, seed, idx, tier, scratch):
        import numpy as np
        from . import sif
        self.pid, self.seed, self.idx, self.tier = pid, seed, idx, tier
        self.rng = np.random.default_rng([seed, zlib.crc32(pid.encode()), idx])
        self.V = sif.Vals(self.rng)
        self.dir = scratch
        self.counts = Counter()
        self.sigs = set()
        self.samples = []
        self.problems = []
        self.ingen = 0
        self.note = ''

    # -- random helpers
    def p(self, x):
        return self.rng.random() < x

    def pick(self, seq):
        return seq[int(self.rng.integers(0, len(seq)))]

    def i(self, lo, hi):
        return int(self.rng.integers(lo, hi + 1))

    def subset(self, seq, kmin=0, kmax=None):
        seq = list(seq)
        kmax = len(seq) if kmax is None else min(kmax, len(seq))
        k = self.i(min(kmin, kmax), kmax)
        return [seq[int(j)] for j in
                sorted(self.rng.choice(len(seq), k, replace=False))]

    # -- generation phase: exceptions here are harness errors
    def gen(self):
        return _Gen(self)

    # -- observation
    def obs(self, key, n=1):
        self.counts[key] += int(n)

    def state(self, *sig):
        self.sigs.add(repr(sig))

    def sample(self, obj):
        if len(self.samples) < 1:
            self.samples.append(obj)

    def fail(self, msg):
        self.problems.append(str(msg)[:1500])
        raise Violation(msg)

    def bad(self, msg):
        """record a problem and go on"""
        if msg:
            self.problems.append(str(msg)[:1500])

    def expect(self, cond, msg):
        self.counts['comparisons'] += 1
        if not cond:
            self.fail(msg)

    def raises(self, exc, f, *a, **k):
        """f must raise exc"""
        try:
            r = f(*a, **k)
        except exc:
            self.counts['comparisons'] += 1
            return True
        except Exception as e:
            self.fail('{}{}: raised {!r}, expected {}'.format(
                getattr(f, '__name__', f), a, e, exc))
        self.fail('{}{}: returned {!r}, expected {}'.format(
            getattr(f, '__name__', f), a, str(r)[:200], exc))

    def eq(self, what, got, want, tol=0.):
        """arrays equal: shape, and values (bit equal after a cast to the
        wanted dtype unless tol, which is relative to the largest value)"""
        import numpy as np
        self.counts['comparisons'] += 1
        try:
            g = np.asarray(got)
        except Exception as e:
            self.fail('{}: not an array: {!r}'.format(what, e))
        w = np.asarray(want)
        if g.shape != w.shape:
            self.fail('{}: shape {} expected {}'.format(what, g.shape,
                                                         w.shape))
        self.counts['values'] += int(w.size)
        if w.size == 0:
            return
        if g.dtype.kind in 'SUO' or w.dtype.kind in 'SUO':
            ok = g.astype(str) == w.astype(str)
        else:
            if (g.dtype.kind == 'c') and (w.dtype.kind != 'c') \
                    and np.any(np.asarray(g).imag != 0):
                self.fail('{}: complex, expected real'.format(what))
            if tol:
                scale = max(float(np.max(np.abs(w))), 1e-30)
                with np.errstate(all='ignore'):
                    ok = np.abs(g - w) <= tol * scale
            else:
                ok = g == w
        if not np.all(ok):
            bad = np.argwhere(~np.asarray(ok))
            ix = tuple(int(x) for x in bad[0])
            self.fail('{}: {} of {} values differ, first at {}: got {!r} '
                      'expected {!r}'.format(what, len(bad), w.size, ix,
                                             g[ix], w[ix]))


def _close_leftovers():
    try:
        import tables as tb
        tb.file._open_files.close_all()
    except Exception:
        pass
    try:
        import freesif.data.file as ff
        ff._open_files.clear()
    except Exception:
        pass


def run_case(p, seed, idx, tier, scratchroot):
    d = tempfile.mkdtemp(prefix='case', dir=scratchroot)
    old = os.getcwd()
    os.chdir(d)
    ctx = None
    res = {'idx': idx, 'verdict': 'held', 'problems': [], 'counts': {},
           'sigs': [], 'samples': []}
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        ctx = Ctx(p.id, seed, idx, tier, d)
        p.case(ctx)
        if ctx.problems:
            res['verdict'] = 'violated'
    except Violation:
        res['verdict'] = 'violated'
    except Inconclusive as e:
        res['verdict'] = 'inconclusive'
        res['problems'] = ['inconclusive: {}'.format(e)]
    except CaseTimeout:
        if ctx and ctx.ingen:
            res['verdict'] = 'error'
        else:
            res['verdict'] = 'violated'
        res['problems'] = ['no result after {} s of cpu time'.format(
            CASE_CPU_S)]
    except Exception as e:
        tb = traceback.format_exc()
        nospace = isinstance(e, OSError) and e.errno in (28, 12, 24)
        if isinstance(e, MemoryError) or nospace or ctx is None or ctx.ingen:
            res['verdict'] = 'error'
        else:
            res['verdict'] = 'violated'
        res['problems'] = ['exception {!r}\n{}'.format(e, tb[-2500:])]
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        os.chdir(old)
        _close_leftovers()
        shutil.rmtree(d, ignore_errors=True)
    if ctx is not None:
        res['problems'] = ctx.problems + res['problems']
        if ctx.note and res['verdict'] != 'held':
            res['problems'].append('workload: ' + ctx.note[:1500])
        res['counts'] = dict(ctx.counts)
        res['sigs'] = sorted(ctx.sigs)
        res['samples'] = ctx.samples
    return res


def _on_prof(*a):
    raise CaseTimeout()


def _worker(p, seed, tier, idxs, deadline, outpath, scratchroot):
    signal.signal(signal.SIGPROF, _on_prof)
    warnings.simplefilter('ignore')
    with open(outpath, 'w') as out:
        for idx in idxs:
            if time.time() > deadline:
                break
            r = run_case(p, seed, idx, tier, scratchroot)
            out.write(json.dumps(r) + '\n')
            out.flush()
            if r['verdict'] in ('violated', 'error'):
                break


def _import_repo():
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    import freesif
    real = os.path.realpath(freesif.__file__)
    if not real.startswith(os.path.realpath(REPO) + os.sep):
        print('ERROR: freesif imported from {}'.format(real))
        sys.exit(2)
    return freesif


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--cases', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int)
    ap.add_argument('--noevidence', action='store_true')
    a = ap.parse_args(argv)
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    if a.prop not in PROPS:
        print('ERROR: unknown property', a.prop)
        return 2
    p = PROPS[a.prop]
    _import_repo()
    scratch = tempfile.mkdtemp(prefix='fsv_{}_'.format(p.id))
    t0 = time.time()
    try:
        if a.replay:
            rp = json.load(open(a.replay))
            signal.signal(signal.SIGPROF, _on_prof)
            r = run_case(p, rp['seed'], rp['idx'], rp['tier'], scratch)
            print(json.dumps({k: r[k] for k in ('verdict', 'problems',
                                                'counts')}, indent=1))
            return {'held': 0, 'violated': 1}.get(r['verdict'], 2)
        return _run(p, a, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _run(p, a, scratch, t0):
    ncases = a.cases or (p.quick if a.tier == 'quick' else p.thorough)
    budget = 240. if a.tier == 'quick' else 780.
    nw = a.workers or 8
    nw = max(1, min(nw, ncases))
    deadline = t0 + budget
    files, pids = [], []
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(nw):
        out = os.path.join(scratch, 'w{}.jsonl'.format(w))
        files.append(out)
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                ws = os.path.join(scratch, 's{}'.format(w))
                os.mkdir(ws)
                _worker(p, a.seed, a.tier, range(w, ncases, nw), deadline,
                        out, ws)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stderr.flush()
                os._exit(code)
        pids.append(pid)
    died = []
    for pid in pids:
        _, st = os.waitpid(pid, 0)
        if st != 0:
            died.append(st)
    results = []
    for f in files:
        if os.path.exists(f):
            for line in open(f):
                try:
                    results.append(json.loads(line))
                except ValueError:
                    pass
    results.sort(key=lambda r: r['idx'])
    counts, sigs, samples = Counter(), set(), []
    verdicts = Counter(r['verdict'] for r in results)
    for r in results:
        counts.update(r['counts'])
        sigs.update(r['sigs'])
        if len(samples) < 3:
            for s in r['samples']:
                samples.append({'case': r['idx'], 'input': s,
                                'observed': r['counts']})
    viol = [r for r in results if r['verdict'] == 'violated']
    if not samples:
        samples = [{'case': r['idx'], 'observed': r['counts']}
                   for r in results[:2]]
    ev = {
        'property': p.id, 'tier': a.tier, 'seed': a.seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': len(results),
            'distinct_nontrivial': len(sigs),
            'rule': p.rule,
            'samples': samples,
            'observed': dict(sorted(counts.items())),
            'verdicts': dict(verdicts),
        },
        'assumptions': p.assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    if not a.noevidence:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', p.id + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
    print('{} {} seed={} cases={} distinct={} wall={:.1f}s observed={}'.format(
        p.id, a.tier, a.seed, len(results), len(sigs), ev['wall_s'],
        ' '.join('{}={}'.format(k, v) for k, v in sorted(counts.items()))))
    if viol:
        r = viol[0]
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '{}_{}_{}.json'.format(p.id, a.seed, r['idx']))
        with open(path, 'w') as f:
            json.dump({'property': p.id, 'seed': a.seed, 'idx': r['idx'],
                       'tier': a.tier, 'problems': r['problems']}, f,
                      indent=1)
        for x in r['problems'][:6]:
            print('  ' + x)
        print('VIOLATION property={} replay={}'.format(p.id, path))
        return 1
    err = [r for r in results if r['verdict'] in ('error', 'inconclusive')]
    if err or died:
        for r in err[:3]:
            print('INCONCLUSIVE case {}: {}'.format(r['idx'],
                                                    r['problems'][:2]))
        if died:
            print('INCONCLUSIVE: worker status', died)
        return 2
    missing = [k for k in p.need if not counts.get(k)]
    if missing or not results:
        print('INCONCLUSIVE: nothing observed for', missing)
        return 2
    return 0
