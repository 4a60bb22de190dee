"""C13 clear-sky detection."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib.clearsky import detect_clearsky

from ..cmp import Fail, close, raises, require, snapshot, unchanged
from ..core import sub
from ..gen import ints, fixed, flt, opt, uni

RULE = ('Random series (smooth curve, scaled, with bumps, gaps and zeros), '
        'sampling intervals 0.5-30 min, window lengths and thresholds, '
        'compared with a per-window reference; non-trivial = some but not '
        'all samples flagged.')

DEF = dict(mean_diff=75, max_diff=75, lower_line_length=-5,
           upper_line_length=10, var_diff=.005, slope_dev=8)


def _interp(x, ys):
    return float(np.interp(x, [1, 5, 15, 30], ys))


def reference(meas, clear, dt, win, th, max_iter):
    """per-window statistics of Reno & Hansen; returns flags, components,
    alpha, smallest margin of any decision"""
    n = len(meas)
    spw = int(win / dt)
    half = spw // 2
    margin = [np.inf]

    def lt(a, b, scale=1.):
        if np.isnan(a) or np.isnan(b):
            return False
        margin[0] = min(margin[0], abs(a - b) / max(1e-3, abs(b), scale))
        return a < b
    alpha = 1.
    for it in range(max_iter):
        comp = {k: [None] * n for k in ('c1', 'c2', 'c3', 'c4', 'c5', 'c6',
                                        'len', 'nstd', 'slope')}
        flags = [False] * n
        stats = {}
        for j in range(n - spw + 1):
            m = meas[j:j + spw]
            c = clear[j:j + spw]
            sc = [alpha * x for x in c]
            mm, cm = sum(m) / spw, sum(c) / spw
            mx = np.max(m)
            cx = np.max(c)
            dm = np.diff(m)
            dc = np.diff(sc)
            ll = np.sum(np.hypot(dm, dt)) - np.sum(np.hypot(dc, dt))
            with np.errstate(all='ignore'):
                nstd = np.std(dm / dt, ddof=1) / np.float64(mm)
            sl = np.max(np.abs(dm - dc))
            k = j + half
            stats[k] = (mm, cm, mx, cx, ll, nstd, sl)
            c1 = lt(abs(mm - alpha * cm), th['mean_diff'])
            c2 = lt(abs(mx - alpha * cx), th['max_diff'])
            c3a = lt(th['lower_line_length'], ll)
            c3b = lt(ll, th['upper_line_length'])
            c4 = lt(nstd, th['var_diff'])
            c5 = lt(sl, th['slope_dev'])
            c6 = cm != 0 and not np.isnan(cm)
            comp['c1'][k], comp['c2'][k] = c1, c2
            comp['c3'][k] = c3a and c3b
            comp['c4'][k], comp['c5'][k], comp['c6'][k] = c4, c5, c6
            comp['len'][k], comp['nstd'][k], comp['slope'][k] = ll, nstd, sl
            if c1 and c2 and c3a and c3b and c4 and c5 and c6:
                for q in range(j, j + spw):
                    flags[q] = True
        cc = sum(clear[q] ** 2 for q in range(n)
                 if flags[q] and not np.isnan(clear[q]))
        prev = alpha
        if cc > 0:
            alpha = sum(meas[q] * clear[q] for q in range(n)
                        if flags[q]) / cc
            fr = alpha * 1e4 % 1
            margin[0] = min(margin[0], abs(fr - .5))
        if round(alpha * 1e4) == round(prev * 1e4):
            return flags, comp, alpha, margin[0], True, stats
    return flags, comp, alpha, margin[0], False, stats


@st.composite
def cases(draw):
    n = draw(st.integers(4, 40))
    dt = draw(st.sampled_from([.5, 1, 1, 2, 5, 10, 15, 30]))
    k = draw(st.integers(3, 12))
    frac = draw(st.sampled_from([0, 0, .5]))
    shape = draw(st.sampled_from(['sin', 'flat', 'ramp', 'edge']))
    bumps = draw(st.lists(st.tuples(st.integers(0, n - 1),
                                    flt(-400, 400, (0,)),
                                    st.integers(1, 6)),
                          max_size=3))
    nan = draw(st.one_of(st.none(), st.tuples(
        st.sampled_from(['meas', 'clear']), st.integers(0, n - 1))))
    th = {}
    if draw(st.booleans()):
        th = dict(mean_diff=draw(flt(5, 150)), max_diff=draw(flt(5, 150)),
                  lower_line_length=draw(flt(-80, 0)),
                  upper_line_length=draw(flt(0, 100)),
                  var_diff=draw(flt(.001, .1)), slope_dev=draw(flt(1, 120)))
    return dict(n=n, dt=dt, k=k, frac=frac, shape=shape,
                peak=draw(flt(100, 1100)), phase=draw(uni(0, 1)),
                scale=draw(flt(.6, 1.4, (1,))), bumps=[list(b) for b in bumps],
                noise=draw(flt(0, 20, (0, 0))),
                seed=draw(ints(0, 10**6)),
                nan=list(nan) if nan else None, th=th,
                infer=draw(st.integers(0, 4)) == 0,
                iters=draw(st.sampled_from([None, None, 1, 2])),
                kind=draw(st.sampled_from(['series', 'array', 'mixed'])),
                tz=draw(st.sampled_from([None, 'UTC', 'Europe/Berlin'])))


def build(case):
    n, dt = case['n'], case['dt']
    t = np.arange(n)
    if case['shape'] == 'sin':
        clear = case['peak'] * np.sin(np.pi * ((t * dt / 720
                                                + .9 * case['phase']) % 1))
    elif case['shape'] == 'flat':
        clear = np.full(n, case['peak'])
    elif case['shape'] == 'ramp':
        clear = case['peak'] * (.5 + .5 * t / n)
    else:
        clear = np.maximum(0, case['peak'] * (t - n * case['phase']) / n)
    meas = clear * case['scale']
    rng = np.random.RandomState(case['seed'])
    meas = meas + case['noise'] * rng.uniform(-1, 1, n)
    for i, b, w in case['bumps']:
        meas[i:i + w] += b
    meas = np.maximum(meas, 0)
    if case['nan']:
        (meas if case['nan'][0] == 'meas' else clear)[case['nan'][1]] = \
            np.nan
    idx = pd.date_range('2020-06-01 08:00', periods=n,
                        freq=f'{int(dt * 60)}s', tz=case['tz'])
    return meas, clear, idx


@sub(cases, quick=900, shards=6)
def detection(case, ctx):
    """flags, components and scaling factor equal the per-window
    reference"""
    meas, clear, idx = build(case)
    dt = case['dt']
    win = (case['k'] + case['frac']) * dt
    kw = dict(window_length=win, **case['th'])
    th = {**DEF, **case['th']}
    if case['infer']:
        if dt < 1:
            raises(ValueError, detect_clearsky, pd.Series(meas, index=idx),
                   pd.Series(clear, index=idx), infer_limits=True,
                   what='interval below one minute')
            ctx.trivial()
            return
        kw = dict(infer_limits=True)
        win = _interp(dt, [50, 60, 90, 120])
        th = dict(mean_diff=75, max_diff=_interp(dt, [60, 65, 75, 90]),
                  lower_line_length=-45, upper_line_length=80,
                  var_diff=_interp(dt, [.005, .01, .032, .07]),
                  slope_dev=_interp(dt, [50, 60, 75, 96]))
    if case['iters'] is not None:
        kw['max_iterations'] = case['iters']
    spw = int(win / dt)
    m, c = pd.Series(meas, index=idx), pd.Series(clear, index=idx)
    if case['kind'] == 'array':
        args = (meas.copy(), clear.copy(), idx)
    elif case['kind'] == 'mixed':
        args = (m, clear.copy())
    else:
        args = (m, c)
    if len(idx) < spw:
        raises(ValueError, detect_clearsky, *args, **kw,
               what='fewer samples than a window')
        ctx.trivial()
        return
    before = snapshot(list(args[:2]))
    got, comp, alpha = detect_clearsky(*args, return_components=True, **kw)
    unchanged(before, list(args[:2]), 'input')
    plain = detect_clearsky(*args, **kw)
    if case['kind'] == 'array':
        require(isinstance(got, np.ndarray), f'array in, {type(got)} out')
    else:
        require(isinstance(got, pd.Series) and got.index.equals(idx),
                'Series in, not out')
    got = np.asarray(got)
    require(got.dtype == bool, f'dtype {got.dtype}')
    require(np.array_equal(got, np.asarray(plain)),
            'return_components changes the flags')
    flags, rc, ra, margin, conv, stats = reference(
        meas, clear, dt, win, th, case['iters'] or 20)
    if margin < 1e-7:
        ctx.trivial()
        return
    require(list(got) == flags, f'flags {got.astype(int)}, expected '
            f'{np.array(flags, int)}')
    close(alpha, ra, 1e-9, 1e-9, 'alpha')
    names = dict(c1='mean_diff_flag', c2='max_diff_flag',
                 c3='line_length_flag', c4='slope_nstd_flag',
                 c5='slope_max_flag', c6='mean_nan_flag')
    allw = np.ones(len(idx), bool)
    for a, b in names.items():
        e = np.array([bool(x) for x in rc[a]])
        require(np.array_equal(np.asarray(comp[b], bool), e),
                f'{b} {np.asarray(comp[b])} expected {e}')
        allw &= e
    require(np.array_equal(np.asarray(comp['windows'], bool), allw),
            'windows flag')
    for k, (mm, cm, mx, cx, ll, nstd, sl) in stats.items():
        close(comp['mean_diff'].iloc[k], abs(mm - ra * cm), 1e-9, 1e-7,
              'mean_diff')
        close(comp['max_diff'].iloc[k], abs(mx - ra * cx), 1e-9, 1e-7,
              'max_diff')
        close(comp['line_length'].iloc[k], ll, 1e-9, 1e-7, 'line_length')
        close(comp['slope_nstd'].iloc[k], nstd, 1e-8, 1e-9, 'slope_nstd')
        close(comp['slope_max'].iloc[k], sl, 1e-9, 1e-7, 'slope_max')
    if not conv:
        ctx.label('not converged')
    if abs(ra - 1) > 1e-3:
        ctx.label('rescaled')
    ctx.label(case['kind'])
    if case['infer']:
        ctx.label('inferred limits')
    if all(flags) or not any(flags):
        ctx.trivial()


@sub(lambda: fixed(n=st.integers(12, 60), peak=flt(300, 1100),
                   scale=flt(.95, 1.05, (1,)), k=st.integers(3, 8),
                   dip=st.one_of(st.none(), st.integers(0, 59))), quick=200)
def identical(case, ctx):
    """a smooth clear-sky curve itself is clear at every sample; a deep
    one-sample dip is not, samples farther than a window away stay clear"""
    n, k = case['n'], case['k']
    t = np.arange(n) - n / 2
    clear = case['peak'] * (1 - (t / n) ** 2 * .02)
    meas = clear * case['scale']
    idx = pd.date_range('2020-06-01 08:00', periods=n, freq='min', tz='UTC')
    i = case['dip']
    if i is not None and i < n:
        meas[i] *= .3
    r = np.asarray(detect_clearsky(
        pd.Series(meas, index=idx), pd.Series(clear, index=idx),
        window_length=k))
    if i is None or i >= n:
        require(r.all(), f'not clear: {r.astype(int)}')
        return
    require(not r[i], 'dip flagged clear')
    far = np.ones(n, bool)
    far[max(0, i - k + 1):i + k] = False
    # samples left of the dip need a full window left of it
    if i < k:
        far[:i] = False
    if n - 1 - i < k:
        far[i + 1:] = False
    require(r[far].all(), f'{r.astype(int)} dip at {i}')


@sub(lambda: fixed(n=st.integers(8, 20), bad=st.sampled_from(
    ['gap', 'short', 'notimes'])), quick=40)
def rejected(case, ctx):
    """unequal intervals, windows below three samples and arrays without
    times are refused"""
    idx = pd.date_range('2020-06-01 08:00', periods=case['n'], freq='5min')
    v = np.linspace(500, 600, case['n'])
    if case['bad'] == 'gap':
        idx = idx.delete(case['n'] // 2)
        raises(NotImplementedError, detect_clearsky,
               pd.Series(v[1:], index=idx), pd.Series(v[1:], index=idx),
               window_length=20, what='gap')
    elif case['bad'] == 'short':
        raises(ValueError, detect_clearsky, pd.Series(v, index=idx),
               pd.Series(v, index=idx), window_length=14.9, what='short')
    else:
        raises(ValueError, detect_clearsky, v, v, window_length=20,
               what='no times')
