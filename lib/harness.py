"""Driver: Hypothesis generates cases, a PyPy worker runs them against /repo, the oracles judge.

A check module (checks/<ID>.py) defines PROP and FACETS. A facet has a strategy producing a
JSON-able case, and run(case, ctx), which calls the code under test through ctx.prog(...) and raises
Violation when the property is broken on that case.
"""
import hashlib
import json
import multiprocessing as mp
import multiprocessing.util
import os
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, HERE)
import build  # noqa: E402
import wire  # noqa: E402

REPO = build.REPO
PYPY = build.PY
FAST = bool(os.environ.get('VERIF_FAST'))  # mutation campaigns: stop at the first failure, without shrinking


class Violation(Exception):
    """The property is broken on this case."""

    def __init__(self, site, msg):
        Exception.__init__(self, '%s: %s' % (site, msg))
        self.site = site


class HarnessError(Exception):
    pass


class Skip(Exception):
    """The case is outside the property's domain (counted, not judged)."""


class WorkerDied(Exception):
    pass


class WorkerHang(Exception):
    pass


class Worker(object):
    def __init__(self, lib, tmp):
        self.lib, self.tmp = lib, tmp
        self.p = None
        self.n = 0

    def start(self):
        env = {'HOME': self.tmp, 'PATH': '/opt/pypyvenv/bin:/usr/local/bin:/usr/bin:/bin', 'LANG': 'C.UTF-8',
               'PYTHONPATH': self.lib + ':' + REPO, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
               'MPLBACKEND': 'Agg', 'MPLCONFIGDIR': os.path.join(self.tmp, 'mpl'), 'OPENBLAS_NUM_THREADS': '1',
               'OMP_NUM_THREADS': os.environ.get('VERIF_OMP', '2'), 'OMP_WAIT_POLICY': 'passive', 'VERIF_REPO': REPO, 'TMPDIR': self.tmp,
               'MALLOC_PERTURB_': '165'}
        self.err = open(os.path.join(self.tmp, 'err-%d' % os.getpid()), 'w+b')
        self.p = subprocess.Popen([PYPY, os.path.join(HERE, 'lib', 'worker.py')], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err, env=env, cwd=self.tmp,
                                  start_new_session=True)
        self.n = 0
        self._recv(300)

    def _read(self, n, deadline):
        b = b''
        fd = self.p.stdout.fileno()
        while len(b) < n:
            left = deadline - time.time()
            if left <= 0:
                raise WorkerHang()
            r, _, _ = select.select([fd], [], [], min(left, 5))
            if r:
                c = os.read(fd, min(1 << 20, n - len(b)))
                if not c:
                    raise WorkerDied()
                b += c
        return b

    def _recv(self, timeout):
        import pickle
        dl = time.time() + timeout
        n = struct.unpack('<Q', self._read(8, dl))[0]
        return wire.dec(pickle.loads(self._read(n, dl)))

    def stop(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
            for f in (self.p.stdin, self.p.stdout, self.err):
                try:
                    f.close()
                except OSError:
                    pass
            self.p = None

    def errtail(self):
        try:
            self.err.flush()
            with open(self.err.name, 'rb') as f:
                return f.read()[-800:].decode('utf8', 'replace')
        except OSError:
            return ''

    def run(self, prog, timeout=150):
        if self.p is None or self.n >= 4000:
            self.stop()
            try:
                self.start()
            except (WorkerDied, WorkerHang):
                raise HarnessError('the worker did not start: ' + self.errtail())
        self.n += 1
        try:
            wire.send(self.p.stdin, prog)
            return self._recv(timeout)
        except (WorkerDied, BrokenPipeError):
            rc = self.p.wait()
            tail = self.errtail()
            self.stop()
            raise WorkerDied('worker ended with status %s; stderr: %s' % (rc, tail[-300:]))
        except WorkerHang:
            self.stop()
            raise WorkerHang('no answer within %ss' % timeout)


class Ctx(object):
    """What a facet's run() gets."""

    def __init__(self, worker):
        self.w = worker
        self.labels = {}
        self.nontrivial = False

    def label(self, *names):
        for n in names:
            self.labels[n] = self.labels.get(n, 0) + 1

    def prog(self, steps, timeout=150):
        try:
            return self.w.run(steps, timeout)
        except WorkerDied as e:
            if ' -9;' in str(e):
                raise HarnessError('worker killed (memory?): %s' % e)
            raise Violation('process', 'the interpreter died while running the API calls: %s' % e)
        except WorkerHang as e:
            raise Violation('process', 'the API calls did not return: %s' % e)

    def values(self, steps, timeout=150, expect=None):
        """Run a program in which no step may raise; returns the list of results."""
        out = self.prog(steps, timeout)
        for s, r in zip(steps, out):
            if 'exc' in r:
                site = s.get('m') or s.get('f') or s.get('kind') or s.get('op')
                if s.get('op') in ('forest', 'seed', 'setattr'):
                    raise HarnessError('step %s: %s' % (site, r['exc']))
                raise Violation(site, 'raised %s: %s\n%s' % r['exc'])
        return [r['ok'] for r in out]


def canon(case):
    return json.dumps(case, sort_keys=True)


def close(a, b, rtol=1e-9, atol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)))


def expect_close(site, got, want, rtol=1e-9, atol=1e-9, what=''):
    try:
        g = np.asarray(got, dtype=float)
    except (TypeError, ValueError):
        raise Violation(site, 'result is not numeric: %r' % (got,))
    w = np.asarray(want, dtype=float)
    if g.shape != w.shape:
        raise Violation(site, '%s shape %s, expected %s' % (what, g.shape, w.shape))
    ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
    if not np.all(ok):
        i = tuple(int(k) for k in np.argwhere(~ok)[0])
        raise Violation(site, '%s differs at %s: got %r, expected %r (of %d differing entries)'
                        % (what, i, float(g[i]), float(w[i]), int(np.sum(~ok))))


class Facet(object):
    def __init__(self, name, strategy, run, quick=100, thorough=2000, shards=2, rule=''):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough, self.shards, self.rule = quick, thorough, shards, rule


_worker = None


def _shard(args):
    """One shard of one facet. Returns a plain dict. The worker stays with the process for its next shard."""
    (prop, fname, shard, n, seed, lib, budget, root) = args
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    import importlib
    mod = importlib.import_module('checks.' + prop)
    facet = [f for f in mod.FACETS if f.name == fname][0]
    global _worker
    t0 = time.time()
    if _worker is None:
        _worker = Worker(lib, tempfile.mkdtemp(prefix='w-', dir=root))
        mp.util.Finalize(None, _worker.stop, exitpriority=10)
    w = _worker
    res = {'facet': fname, 'shard': shard, 'evaluations': 0, 'nontrivial': 0, 'skipped': 0, 'labels': {},
           'samples': [], 'fail': None, 'error': None, 'cut': 0, 'hashes': []}
    try:
        _hyp(facet, n, seed, w, res, budget)
    except BaseException as e:  # noqa
        res['error'] = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-2500:])
    finally:
        if os.environ.get('VERIF_TIMES'):
            print('%6.1f s from %.1f %s/%s' % (time.time() - t0, t0 % 1000, fname, shard), file=sys.stderr)
        if res['error'] or res['fail']:
            w.stop()
    return res


def _hyp(facet, n, seed, w, res, budget):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    t0 = time.time()
    state = {'first_fail': None, 'known': {}, 'best': None}
    seen = set()
    # ignore generation time of the (tiny) strategies; every random choice is Hypothesis's own
    st = settings(max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
                  phases=(Phase.generate,) if FAST else (Phase.generate, Phase.shrink), print_blob=False,
                  suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                         HealthCheck.large_base_example])
    strat = facet.strategy() if callable(facet.strategy) else facet.strategy

    @hypothesis.seed(seed)
    @st
    @given(strat)
    def test(case):
        key = hashlib.sha1(canon(case).encode()).hexdigest()
        if key in state['known']:
            raise state['known'][key]
        if state['first_fail'] is None and time.time() - t0 > budget:
            res['cut'] += 1
            return
        if state['first_fail'] is not None and time.time() - state['first_fail'] > 45:
            return
        ctx = Ctx(w)
        try:
            facet.run(case, ctx)
        except Skip:
            if state['first_fail'] is None:
                res['skipped'] += 1
            return
        except Violation as v:
            if state['first_fail'] is None:
                state['first_fail'] = time.time()
            # known failures are re-raised without running again, so shrinking ends in bounded time
            state['known'][key] = v
            c = canon(case)
            if state['best'] is None or len(c) < len(canon(state['best'][0])):
                state['best'] = (case, str(v), v.site)
            raise
        finally:
            if state['first_fail'] is None:
                res['evaluations'] += 1
                for k, c in ctx.labels.items():
                    res['labels'][k] = res['labels'].get(k, 0) + 1
                if ctx.nontrivial and key not in seen:
                    seen.add(key)
                    if len(res['samples']) < 2:
                        res['samples'].append(case)

    try:
        test()
    except Violation:
        pass
    except hypothesis.errors.Flaky:
        if state['best'] is None:
            raise
    res['nontrivial'] = len(seen)
    if state['best'] is not None:
        res['fail'] = state['best']


def run_case(prop, fname, case, lib):
    """Run one case in a fresh worker, without Hypothesis. Returns None or the violation text."""
    import importlib
    mod = importlib.import_module('checks.' + prop)
    facet = [f for f in mod.FACETS if f.name == fname][0]
    os.makedirs(os.path.join(HERE, 'build'), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='w-', dir=os.path.join(HERE, 'build'))
    w = Worker(lib, tmp)
    try:
        facet.run(case, Ctx(w))
    except Skip:
        return None
    except Violation as v:
        return v
    finally:
        w.stop()
        shutil.rmtree(tmp, ignore_errors=True)
    return None


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)


def main(argv):
    import importlib
    prop = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    only = None
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    for i, a in enumerate(argv[2:], 2):
        if a in ('quick', 'thorough'):
            tier = a
        elif a == '--replay':
            replay = argv[i + 1]
        elif a == '--facet':
            only = argv[i + 1].split(',')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    try:
        lib, how = build.ensure()
    except Exception as e:
        print('BUILD ERROR: %s' % e)
        return 3
    tb = time.time() - t0
    mod = importlib.import_module('checks.' + prop)
    if replay:
        with open(replay) as f:
            r = json.load(f)
        v = run_case(prop, r['facet'], r['case'], lib)
        if v is None:
            print('REPLAY: the case passes')
            return 0
        print('REPLAY: %s' % v)
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    for f in os.listdir(os.path.join(HERE, 'build')):  # left by an interrupted run
        p = os.path.join(HERE, 'build', f)
        if f.startswith(('w-', 'r-')) and time.time() - os.path.getmtime(p) > 3600:
            shutil.rmtree(p, ignore_errors=True)
    facets = [f for f in mod.FACETS if only is None or f.name in only]
    tasks = []
    root = tempfile.mkdtemp(prefix='r-', dir=os.path.join(HERE, 'build'))
    for f in facets:
        n = f.quick if tier == 'quick' else f.thorough
        shards = 8 if tier != 'quick' or n >= 80 else f.shards
        per = max(1, int(scale * n / shards))
        for s in range(shards):
            sd = int(hashlib.sha256(('%d/%s/%s/%d' % (seed, prop, f.name, s)).encode()).hexdigest()[:12], 16)
            budget = 240 if tier == 'quick' else float(os.environ.get('VERIF_BUDGET', '1500'))
            tasks.append((prop, f.name, s, per, sd, lib, budget, root))
    results = []
    procs = int(os.environ.get('VERIF_PROCS', '8'))
    ctx = mp.get_context('fork')
    pool = ctx.Pool(min(procs, len(tasks)))
    try:
        for r in pool.imap_unordered(_shard, tasks, chunksize=1):
            results.append(r)
            if FAST and (r['fail'] or r['error']):
                pool.terminate()
                break
        else:
            pool.close()
    except BaseException:
        pool.terminate()
        raise
    finally:
        pool.join()
        shutil.rmtree(root, ignore_errors=True)
    results.sort(key=lambda r: (r['facet'], r['shard']))
    errors = [r for r in results if r['error']]
    # known findings: replay the recorded failing input of each
    known_lines, extra = [], []
    for k in load_known():
        if k.get('status') != 'known' or k['property'] != prop:
            continue
        v = run_case(prop, k['facet'], k['case'], lib)
        if v is not None:
            if k.get('site') and v.site != k['site']:
                extra.append((k['facet'], k['case'], str(v), v.site))
            else:
                known_lines.append('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    fails = [(r['facet'],) + tuple(r['fail']) for r in results if r['fail']] + extra
    status, lines = 0, []
    seen_sites = set()
    for (fname, case, msg, site) in sorted(fails, key=lambda x: len(canon(x[1]))):
        if (fname, site) in seen_sites:
            continue
        seen_sites.add((fname, site))
        v = run_case(prop, fname, case, lib)
        if v is None and site == 'process':
            errors.append({'facet': fname, 'error': 'a worker failure did not reproduce: ' + msg})
            continue
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s-%s.json' % (prop, fname, hashlib.sha1(canon(case).encode()).hexdigest()[:10]))
        with open(p, 'w') as f:
            json.dump({'property': prop, 'facet': fname, 'case': case, 'seed': seed, 'tier': tier,
                       'message': str(v) if v is not None else msg,
                       'reproduced_in_fresh_process': v is not None}, f, indent=1)
        print('  [%s] %s' % (fname, (str(v) if v is not None else msg)[:1500]))
        lines.append('VIOLATION property=%s replay=%s' % (prop, p))
        status = 1
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {
              'evaluations': sum(r['evaluations'] for r in results),
              'distinct_nontrivial': sum(r['nontrivial'] for r in results),
              'rule': mod.RULE,
              'samples': [{'facet': r['facet'], 'case': s} for r in results if r['shard'] == 0
                          for s in r['samples'][:1]],
              'facets': {}},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(time.time() - t0, 1), 'violations': len(lines)}
    for f in facets:
        rs = [r for r in results if r['facet'] == f.name]
        lab = {}
        for r in rs:
            for k, c in r['labels'].items():
                lab[k] = lab.get(k, 0) + c
        ev['coverage']['facets'][f.name] = {
            'evaluations': sum(r['evaluations'] for r in rs), 'nontrivial': sum(r['nontrivial'] for r in rs),
            'outside_domain': sum(r['skipped'] for r in rs), 'cut_by_budget': sum(r['cut'] for r in rs),
            'cases_by_label': dict(sorted(lab.items()))}
    ev['coverage']['extensions'] = how
    ev['coverage']['build_s'] = round(tb, 1)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in known_lines:
        print(k)
    for name, c in ev['coverage']['facets'].items():
        print('%s/%s: %d cases, %d non-trivial%s' % (prop, name, c['evaluations'], c['nontrivial'],
                                                    ', %d cut' % c['cut_by_budget'] if c['cut_by_budget'] else ''))
    print('%s: %d cases, %d non-trivial, %.1fs (build %.1fs)' % (
        prop, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], time.time() - t0, tb))
    for l in lines:
        print(l)
    if status:
        return 1
    if errors:
        for r in errors:
            print('HARNESS ERROR [%s]: %s' % (r['facet'], r['error']))
        return 2
    return 0


