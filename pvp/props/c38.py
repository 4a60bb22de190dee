"""C38: soiling models."""
import datetime
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pvlib import soiling
from ..core import sub
from ..cmp import close, require, same_index, snapshot, unchanged
from ..gen import flt, fixed, opt

RULE = """Rain histories of 2 to 60 samples, mostly dry, in multiples of
0.25 mm so that accumulated rain is exact and can equal the threshold; steps
of 15 min to 1 day, regular or (HSU) irregular; windows from one step to
several days; wash dates inside the record; naive, UTC and local time.
Non-trivial: at least one cleaning after some soiling, or the maximum was
reached."""
ASSUMPTIONS = ['Kimber: regular index (the model reads the step from the '
               'first interval) and wash dates that are times of the record.']

RAIN = st.one_of(st.just(0.), st.just(0.), st.just(0.),
                 st.integers(1, 40).map(lambda k: k / 4))
STEPS = st.sampled_from(['15min', '30min', '1h', '3h', '6h', '12h', '24h'])
TZ = st.sampled_from([None, 'UTC', 'Etc/GMT+7', 'America/New_York'])
START = st.sampled_from(['2021-01-01', '2021-03-12', '2021-10-29 12:00',
                         '2020-02-27 00:30'])


def sums(t, rain, width):
    """rain in (t - width, t] for every sample"""
    return [sum(r for s, r in zip(t, rain) if x - width < s <= x)
            for x in t]


# ------------------------------------------------------------------ HSU
@st.composite
def hsu_case(draw):
    n = draw(st.integers(2, 40))
    irregular = draw(st.integers(0, 2)) == 0
    c = dict(n=n, step=draw(STEPS), start=draw(START), tz=draw(TZ),
             rain=draw(st.lists(RAIN, min_size=n, max_size=n)),
             gaps=draw(st.lists(st.integers(1, 8), min_size=n - 1,
                                max_size=n - 1)) if irregular else None,
             thr=draw(st.integers(1, 24)) / 4,
             accum=draw(st.sampled_from([None, '15min', '1h', '3h', '24h',
                                         '72h'])),
             tilt=draw(flt(0, 90, (0, 30, 90))),
             kind=draw(st.sampled_from(['scalar', 'array', 'series'])),
             depo=draw(opt(st.tuples(flt(1e-4, 1e-2), flt(1e-4, 1e-2)))))
    m = n if c['kind'] != 'scalar' else 1
    pm = flt(0, 2e-3, (0, 2e-5))
    c['pm25'] = draw(st.lists(pm, min_size=m, max_size=m))
    c['pm10'] = draw(st.lists(pm, min_size=m, max_size=m))
    c['vtilt'] = draw(st.booleans()) and m > 1
    return c


@sub(hsu_case, quick=400)
def hsu(case, ctx):
    """mass deposits at the published rate, is removed when the rain of the
    accumulation period reaches the threshold, and lowers the soiling ratio
    by the published curve"""
    n = case['n']
    step = pd.Timedelta(case['step'])
    g = case['gaps'] or [1] * (n - 1)
    off = [0] + list(np.cumsum(g))
    i0 = pd.Timestamp(case['start'], tz=case['tz'])
    idx = pd.DatetimeIndex([i0 + int(k) * step for k in off])
    rain = pd.Series(case['rain'], index=idx, name='rain')
    put = {'scalar': lambda v: v[0], 'array': np.array,
           'series': lambda v: pd.Series(v, index=idx)}[case['kind']]
    tilt = [case['tilt'] * (1 - k / (2 * n)) for k in range(n)] \
        if case['vtilt'] else [case['tilt']] * n
    kw = dict(surface_tilt=put(tilt) if case['vtilt'] else case['tilt'],
              pm2_5=put(case['pm25']), pm10=put(case['pm10']))
    v25, v10 = .0009, .004
    if case['depo']:
        v25, v10 = case['depo']
        kw['depo_veloc'] = {'2_5': v25, '10': v10}
    width = pd.Timedelta('1h')
    if case['accum']:
        width = kw['rain_accum_period'] = pd.Timedelta(case['accum'])
    before = snapshot((rain, kw))
    out = soiling.hsu(rain, case['thr'], **kw)
    unchanged(before, (rain, kw), 'inputs')
    same_index(out, idx, 'soiling ratio')
    acc = sums(list(idx), case['rain'], width)
    m, exp, cleaned = 0., [], 0
    for k in range(n):
        p25 = case['pm25'][k if len(case['pm25']) > 1 else 0]
        p10 = case['pm10'][k if len(case['pm10']) > 1 else 0]
        sec = step.total_seconds() * (g[k - 1] if k else g[0])
        m += (p25 * v25 + max(p10 - p25, 0) * v10) * sec * math.cos(
            math.radians(tilt[k]))
        if acc[k] >= case['thr']:
            cleaned += m > 0
            m = 0.
        exp.append(1 - .3437 * math.erf(.17 * m**.8473))
    close(out.values, exp, 1e-9, 1e-9, 'soiling ratio', info=case)
    require(((out <= 1) & (out >= 1 - .3437)).all(), 'outside [0.6563, 1]')
    if not cleaned:
        ctx.trivial()
    ctx.label(case['kind'], 'irregular' if case['gaps'] else 'regular',
              'cleaned' if cleaned else 'never-cleaned')


# --------------------------------------------------------------- Kimber
@st.composite
def kimber_case(draw):
    step = draw(st.sampled_from(['15min', '1h', '3h', '6h', '12h', '24h']))
    n = draw(st.one_of(st.integers(2, 4), st.integers(2, 60),
                       st.integers(2, 60)))
    return dict(
        n=n, step=step, start=draw(st.sampled_from(
            ['2021-01-01', '2021-03-11', '2021-10-29', '2020-02-27'])),
        tz=draw(TZ), rain=draw(st.lists(RAIN, min_size=n, max_size=n)),
        integer=draw(st.integers(0, 4)) == 0,
        thr=draw(st.one_of(st.none(), st.integers(0, 40).map(
            lambda k: k / 4))),
        rate=draw(opt(flt(0, .05, (.0015,)))),
        grace=draw(opt(st.integers(1, 20))),
        maxs=draw(opt(flt(.001, .5, (.3,)))),
        initial=draw(opt(flt(0, .4, (0,)))),
        accum=draw(opt(st.sampled_from([1, 3, 12, 24, 48, 72]))),
        wash=draw(st.lists(st.integers(0, 59), max_size=3)),
        washed=draw(st.sampled_from(['none', 'date', 'timestamp'])))


@sub(kimber_case, quick=500)
def kimber(case, ctx):
    """soiling builds up at the daily rate up to the maximum; rain above the
    threshold within the accumulation period resets it and keeps it at zero
    for the grace period; a manual wash resets it once"""
    n, step = case['n'], pd.Timedelta(case['step'])
    # elapsed time is what counts, also over a change to summer time
    idx = pd.DatetimeIndex([pd.Timestamp(case['start'], tz=case['tz'])
                            + k * step for k in range(n)])
    r = [float(round(x)) for x in case['rain']] if case['integer'] \
        else case['rain']
    rain = pd.Series(r, index=idx, name='rain')
    if case['integer']:
        rain = rain.astype(int)
    kw = {a: case[b] for a, b in [
        ('cleaning_threshold', 'thr'), ('soiling_loss_rate', 'rate'),
        ('grace_period', 'grace'), ('max_soiling', 'maxs'),
        ('initial_soiling', 'initial'), ('rain_accum_period', 'accum')]
        if case[b] is not None}
    wash = set()
    if case['washed'] == 'timestamp':
        wash = {k % n for k in case['wash']}
        kw['manual_wash_dates'] = [idx[k].tz_localize(None)
                                   for k in sorted(wash)]
    elif case['washed'] == 'date':
        wash = {k for k in range(n) if idx[k] == idx[k].normalize()
                and k in [j % n for j in case['wash']]}
        kw['manual_wash_dates'] = tuple(idx[k].date() for k in sorted(wash))
        require(all(isinstance(d, datetime.date)
                    for d in kw['manual_wash_dates']), 'harness')
    if case['tz'] == 'America/New_York' and case['washed'] == 'timestamp':
        # naive times in the repeated hour would be ambiguous
        kw['manual_wash_dates'] = [idx[k].tz_localize(None) for k in wash
                                   if idx[k].hour not in (1, 2)]
        wash = {k for k in wash if idx[k].hour not in (1, 2)}
    before = snapshot((rain, kw))
    out = soiling.kimber(rain, **kw)
    unchanged(before, (rain, kw), 'inputs')
    same_index(out, idx, 'soiling')
    thr = 6 if case['thr'] is None else case['thr']
    rate = .0015 if case['rate'] is None else case['rate']
    mx = .3 if case['maxs'] is None else case['maxs']
    t = list(idx)
    acc = sums(t, r, pd.Timedelta(hours=case['accum'] or 24))
    event = [a > thr for a in acc]
    grace = pd.Timedelta(days=case['grace'] or 14)
    s, exp, resets, full = case['initial'] or 0., [], 0, 0
    for k in range(n):
        if k:
            s += rate * step.total_seconds() / 86400
        if k in wash or any(e and t[k] - grace < x <= t[k]
                            for x, e in zip(t, event)):
            resets += s > 0
            s = 0.
        full += s >= mx
        exp.append(min(s, mx))
    close(out.values, exp, 1e-9, 1e-12, 'soiling', info=case)
    if not resets and not full:
        ctx.trivial()
    ctx.label(case['washed'], 'reset' if resets else 'no-reset',
              'full' if full else 'below-max')


@sub(kimber_case, quick=120)
def causal(case, ctx):
    """soiling up to a time does not depend on later rain"""
    n = case['n']
    if n < 4:
        ctx.trivial()
        return
    idx = pd.date_range(case['start'], periods=n, freq=case['step'],
                        tz='UTC')
    rain = pd.Series(case['rain'], index=idx)
    k = max(2, n // 2)
    for fn in (lambda r: soiling.kimber(r, grace_period=2),
               lambda r: soiling.hsu(r, 1., 20., 2e-5, 4e-5,
                                     rain_accum_period=pd.Timedelta('3h'))):
        close(fn(rain).values[:k], fn(rain.iloc[:k]).values, 1e-12, 1e-15,
              'prefix')
