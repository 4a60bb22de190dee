"""Runner: drives Hypothesis over the sub-checks of one property.

A property module (pvp/props/cXX.py) registers sub-checks with ``@sub``.  A
sub-check is a function ``fn(case, ctx)`` over a JSON-able ``case`` drawn from
a Hypothesis strategy.  It raises ``Fail`` when the property does not hold for
that case.  ``ctx.label`` classifies the case, ``ctx.trivial`` marks it as not
counting as non-trivial.  Every random choice is Hypothesis's, seeded from
VERIF_SEED.
"""
import hashlib
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')


class Fail(Exception):
    """The property does not hold for this case."""


class OracleError(BaseException):
    """The reference model itself failed: a harness error."""


class Sub:
    def __init__(self, fn, strategy, quick, thorough, shards, shrink_s):
        self.fn, self.strategy = fn, strategy
        self.name = fn.__name__
        self.quick, self.thorough = quick, thorough
        self.shards = shards
        self.shrink_s = shrink_s
        self.doc = (fn.__doc__ or '').strip()


_SUBS = {}


def sub(strategy, quick=200, thorough=None, shards=1, shrink_s=40):
    """Register a sub-check. ``strategy``: a strategy, or a callable."""
    def deco(fn):
        s = Sub(fn, strategy, quick, thorough or quick * 25, shards, shrink_s)
        reg = _SUBS.setdefault(fn.__module__, {})
        if s.name in reg:
            raise RuntimeError('duplicate sub-check ' + s.name)
        reg[s.name] = s
        return fn
    return deco


def add(module, name, fn, strategy, doc='', **kw):
    """Register a generated sub-check under an explicit name."""
    fn.__module__, fn.__name__, fn.__doc__ = module, name, doc
    sub(strategy, **kw)(fn)


class Ctx:
    def __init__(self):
        self.labels = {}
        self.reset()

    def reset(self):
        self.nontrivial = True
        self._seen = set()

    def label(self, *names):
        for name in map(str, names):
            if name and name not in self._seen:
                self._seen.add(name)
                self.labels[name] = self.labels.get(name, 0) + 1

    def trivial(self):
        self.nontrivial = False


def _in_repo(tb):
    for fr in traceback.extract_tb(tb):
        if os.path.abspath(fr.filename).startswith(REPO + '/pvlib'):
            return True
    return False


# errors that say something about the machine, not about the code
_MACHINE = (MemoryError, ImportError, OSError, RecursionError)


def run_case(s, case, ctx):
    """Run one case; turn unexpected exceptions into Fail where they come
    from the code under test or from its unusable output."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            s.fn(case, ctx)
    except Fail:
        raise
    except Exception as e:
        mod = type(e).__module__ or ''
        if mod.startswith('hypothesis'):
            raise
        tb = ''.join(traceback.format_exception(e)[-6:])
        last = traceback.extract_tb(e.__traceback__)[-1].filename
        if '/pvp/refs/' in last:
            raise OracleError(tb) from e
        if isinstance(e, _MACHINE) and not _in_repo(e.__traceback__):
            raise
        if isinstance(e, MemoryError):
            raise
        where = 'pvlib raised' if _in_repo(e.__traceback__) else \
            'the oracle could not use the result:'
        raise Fail(f'{where} {type(e).__name__}: {e}\n{tb}') from e


def _seed_for(seed, name, shard):
    h = hashlib.sha256(f'{seed}/{name}/{shard}'.encode()).digest()
    return int.from_bytes(h[:8], 'big')


def _load(prop):
    return importlib.import_module('pvp.props.' + prop.lower())


class Hang(BaseException):
    """One case did not finish (not an Exception: no retry, no shrinking)."""


# cases take milliseconds, a few of them (compilation, fits) some seconds
HANG_S = int(os.environ.get('VP_HANG', '150'))


def _on_alarm(signum, frame):
    raise Hang(f'did not return within {HANG_S} s\n'
               + ''.join(traceback.format_stack(frame)[-6:]))


def _task(args):
    prop, name, shard, n, seed = args
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine
    s = _SUBS['pvp.props.' + prop.lower()][name]
    engine.MAX_SHRINKING_SECONDS = s.shrink_s
    ctx = Ctx()
    st_ = {'n': 0, 'nt': set(), 'samples': [], 'fail': None, 'ntn': 0}
    strat = s.strategy() if callable(s.strategy) else s.strategy
    t0 = time.time()

    @hypothesis.seed(_seed_for(seed, name, shard))
    @settings(max_examples=n, database=None, deadline=None,
              phases=(Phase.generate, Phase.shrink), print_blob=False,
              report_multiple_bugs=False,
              suppress_health_check=[HealthCheck.too_slow,
                                     HealthCheck.data_too_large,
                                     HealthCheck.large_base_example,
                                     HealthCheck.differing_executors])
    @given(strat)
    def go(case):
        ctx.reset()
        st_['n'] += 1
        signal.alarm(HANG_S)
        try:
            run_case(s, case, ctx)
        except (Fail, Hang) as e:
            st_['fail'] = (case, str(e))
            raise
        finally:
            signal.alarm(0)
        if ctx.nontrivial:
            st_['ntn'] += 1
            js = json.dumps(case, sort_keys=True)
            h = hashlib.blake2b(js.encode(), digest_size=8).digest()
            if h not in st_['nt']:
                st_['nt'].add(h)
                # keep an early, a middle and a late sample
                if len(st_['nt']) in (2, 37, 151) and len(js) < 1500:
                    st_['samples'].append(json.loads(js))

    err = None
    signal.signal(signal.SIGALRM, _on_alarm)
    try:
        go()
    except (Fail, Hang):
        pass
    except BaseException as e:
        if st_['fail'] is not None and \
                type(e).__name__ in ('FlakyFailure', 'Flaky',
                                     'FlakyReplay'):
            # the outcome for one input is not a function of that input:
            # the failure itself was still observed on the real code
            c, m = st_['fail']
            st_['fail'] = (c, m + '\n(not stable on re-execution)')
        else:
            err = ''.join(traceback.format_exception(e)[-8:])
            if isinstance(e, KeyboardInterrupt):
                raise
    return dict(name=name, shard=shard, n=st_['n'], nt=st_['nt'],
                ntn=st_['ntn'], samples=st_['samples'], labels=ctx.labels,
                fail=st_['fail'], err=err, wall=time.time() - t0)


def _check_import():
    import pvlib
    f = os.path.abspath(pvlib.__file__)
    if not f.startswith(REPO + '/'):
        raise RuntimeError(f'pvlib imported from {f}, not from {REPO}')


def _known(prop):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)['findings']
                if k['property'] == prop and k['status'] == 'known']


def _replay(prop, path):
    with open(path) as f:
        r = json.load(f)
    s = _SUBS['pvp.props.' + prop.lower()][r['sub']]
    try:
        run_case(s, r['case'], Ctx())
    except Fail as e:
        print(e)
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    print('replay: the property holds for this case')
    return 0


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only', help='development: run one sub-check')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    prop = a.prop.upper()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    try:
        _check_import()
        mod = _load(prop)
    except Exception:
        traceback.print_exc()
        print('harness error: cannot import')
        return 2
    if a.replay:
        return _replay(prop, a.replay)
    subs = _SUBS[mod.__name__]
    if a.only:
        subs = {k: v for k, v in subs.items() if a.only in k}
    tasks = []
    # the cheap checks run several times their base number of cases
    with open(os.path.join(HERE, 'pvp', 'quick.json')) as f:
        mult = json.load(f).get(prop, 1)
    for s in subs.values():
        n = s.quick * mult if a.tier == 'quick' else s.thorough
        n = max(1, int(n * a.scale))
        shards = s.shards * mult if a.tier == 'quick' else max(8, s.shards)
        shards = min(shards, n)
        for i in range(shards):
            k = n // shards + (1 if i < n % shards else 0)
            tasks.append((prop, s.name, i, k, seed))
    # longest first is unknown; interleave shards so work spreads
    tasks.sort(key=lambda t: (-subs[t[1]].shards, t[2]))
    budget = 780 if a.tier == 'quick' else 6 * 3600
    agg = {}
    fails, errs, done = [], [], 0
    mp = multiprocessing.get_context('fork')
    pool = mp.Pool(min(a.jobs, len(tasks)))
    try:
        it = pool.imap_unordered(_task, tasks)
        stop_at = None
        while done < len(tasks):
            left = budget - (time.time() - t0)
            if stop_at is not None:
                left = min(left, stop_at - time.time())
            if left <= 0:
                break
            try:
                r = it.next(timeout=left)
            except multiprocessing.TimeoutError:
                break
            done += 1
            g = agg.setdefault(r['name'], dict(n=0, ntn=0, nt=set(),
                                               labels={}, samples=[],
                                               wall=0.))
            g['n'] += r['n']
            g['ntn'] += r['ntn']
            g['nt'] |= r['nt']
            g['wall'] += r['wall']
            g['samples'] += r['samples'][:2]
            for k, v in r['labels'].items():
                g['labels'][k] = g['labels'].get(k, 0) + v
            if r['fail']:
                fails.append(r)
                if stop_at is None:
                    stop_at = time.time() + 20
            elif r['err']:
                errs.append(r)
    finally:
        pool.terminate()
        pool.join()
    timed_out = done < len(tasks) and not fails
    # known findings
    known_lines = []
    for k in _known(prop):
        s = _SUBS[mod.__name__].get(k['sub'])
        try:
            run_case(s, k['case'], Ctx())
        except Fail:
            known_lines.append(
                f"KNOWN-FINDING: property={prop} {k['what']}")
        except Exception:
            errs.append(dict(name=k['sub'], err=traceback.format_exc()))
    for line in known_lines:
        print(line)
    # evidence
    seen = set()
    replays = []
    rdir = os.path.join(HERE, 'replay')
    for r in fails:
        if r['name'] in seen:
            continue
        seen.add(r['name'])
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-{r['name']}.json")
        with open(path, 'w') as f:
            json.dump(dict(property=prop, sub=r['name'], case=r['fail'][0],
                           message=r['fail'][1], seed=seed, tier=a.tier,
                           replay_cmd=f'python3 check.py {prop} --replay '
                                      f'{path}'), f, indent=1)
        replays.append((r['name'], path, r['fail'][1]))
    samples = []
    for name in sorted(agg):
        for c in agg[name]['samples'][:1]:
            if len(samples) < 25:
                samples.append({'sub_check': name, 'case': c})
    wall = time.time() - t0
    ev = dict(
        property=prop, tier=a.tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=sum(g['n'] for g in agg.values()),
            distinct_nontrivial=sum(len(g['nt']) for g in agg.values()),
            rule=mod.RULE,
            samples=samples,
            sub_checks={k: dict(evaluations=g['n'],
                                distinct_nontrivial=len(g['nt']),
                                labels=dict(sorted(g['labels'].items())),
                                cpu_s=round(g['wall'], 2),
                                states=subs[k].doc.split('\n\n')[0])
                        for k, g in sorted(agg.items())},
            tasks_completed=done, tasks_planned=len(tasks)),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
        wall_s=round(wall, 2), violations=len(replays))
    if not a.only:
        edir = os.path.join(HERE, 'evidence')
        os.makedirs(edir, exist_ok=True)
        tmp = os.path.join(edir, f'.{prop}.tmp')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(edir, f'{prop}.json'))
    for k, g in sorted(agg.items()):
        if a.v:
            print(f"{k:42s} n={g['n']:6d} nt={len(g['nt']):6d} "
                  f"{g['wall']:7.1f}s  {dict(sorted(g['labels'].items()))}")
    print(f"{prop} {a.tier} seed={seed}: {ev['coverage']['evaluations']} "
          f"cases, {ev['coverage']['distinct_nontrivial']} distinct "
          f"non-trivial, {wall:.1f}s")
    for e in errs:
        print('harness error in', e['name'], '\n', e['err'])
    if replays:
        for name, path, msg in replays:
            print(f'--- {name}: {msg[:3000]}')
            print(f'VIOLATION property={prop} replay={path}')
        sys.stdout.flush()
        return 1
    if errs:
        return 2
    if timed_out:
        print('inconclusive: time budget reached')
        return 2
    return 0
