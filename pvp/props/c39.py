"""C39: snow coverage and loss."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pvlib import snow
from ..core import sub
from ..cmp import close, require, same_index, snapshot, unchanged, Fail
from ..gen import flt, fixed, opt
from ..elem import elem, P, S

RULE = """Histories of 3 to 40 samples: snowfall mostly zero and in multiples
of 0.25 cm, irradiance in multiples of 20 W/m2, temperatures in quarters of a
degree, so that comparisons with thresholds are exact and equality occurs;
steps of 15 min to 1 day and irregular steps; gaps (NaN) in any series; with
and without snow depth.  Non-trivial: coverage that starts above zero or is
renewed, and slides."""

Q = 4.
SNOW = st.one_of(st.just(0.), st.just(0.), st.just(0.), st.integers(
    0, 40).map(lambda k: k / Q))
TEMP = st.integers(-60, 60).map(lambda k: k / Q)
POA = st.one_of(st.just(0.), st.integers(0, 50).map(lambda k: k * 20.))
NAN = math.nan


@st.composite
def history(draw):
    n = draw(st.one_of(st.integers(3, 5), st.integers(3, 40),
                       st.integers(3, 40)))
    c = dict(n=n, step=draw(st.sampled_from(
        ['15min', '30min', '1h', '2h', '6h', '24h'])),
        tz=draw(st.sampled_from([None, 'UTC', 'Etc/GMT+7'])),
        gaps=draw(st.one_of(st.none(), st.none(), st.lists(
            st.integers(1, 6), min_size=n - 1, max_size=n - 1))))
    for k, s in [('snow', SNOW), ('temp', TEMP), ('poa', POA)]:
        v = draw(st.lists(s, min_size=n, max_size=n))
        if draw(st.integers(0, 5)) == 0:
            v[draw(st.integers(0, n - 1))] = NAN
        c[k] = v
    c['depth'] = draw(st.one_of(st.none(), st.lists(
        st.integers(0, 12).map(lambda k: k / Q), min_size=n, max_size=n)))
    c['thr'] = draw(opt(st.integers(0, 12).map(lambda k: k / Q)))
    c['thd'] = draw(opt(st.integers(0, 12).map(lambda k: k / Q)))
    c['tilt'] = draw(flt(0, 90, (0, 20, 90)))
    c['vtilt'] = draw(st.integers(0, 3)) == 0
    c['initial'] = draw(opt(flt(0, 1, (0, 1, .5))))
    c['can'] = draw(opt(st.sampled_from([-80., -40., -160., -20.])))
    c['amount'] = draw(opt(flt(0, .6, (.197,))))
    return c


def build(c):
    n = c['n']
    step = pd.Timedelta(c['step'])
    g = c['gaps'] or [1] * (n - 1)
    off = [0] + [int(x) for x in np.cumsum(g)]
    idx = pd.DatetimeIndex([pd.Timestamp('2021-01-04 06:00', tz=c['tz'])
                            + k * step for k in off])
    hours = [x * step.total_seconds() / 3600 for x in g]
    return idx, hours, len(set(g)) == 1


def covered_ref(c, hours, regular):
    out = []
    thr = 1. if c['thr'] is None else c['thr']
    thd = 1. if c['thd'] is None else c['thd']
    for k in range(c['n']):
        if k:
            rate = c['snow'][k] / hours[k - 1]
        else:
            rate = c['snow'][0] / hours[0] if regular else 0.
        v = rate > thr
        if c['depth'] is not None:
            v = v and c['depth'][k] >= thd
        out.append(v)
    return out


def args(c, idx):
    kw = {}
    if c['depth'] is not None:
        kw['snow_depth'] = pd.Series(c['depth'], index=idx)
    if c['thr'] is not None:
        kw['threshold_snowfall'] = c['thr']
    if c['thd'] is not None:
        kw['threshold_depth'] = c['thd']
    return kw


@sub(history, quick=300)
def fully_covered(case, ctx):
    """snowfall rate of the period above the threshold, with enough snow on
    the ground"""
    idx, hours, regular = build(case)
    s = pd.Series(case['snow'], index=idx)
    kw = args(case, idx)
    before = snapshot((s, kw))
    out = snow.fully_covered_nrel(s, **kw)
    unchanged(before, (s, kw), 'inputs')
    same_index(out, idx, 'covered')
    if out.dtype != bool:
        raise Fail(f'dtype {out.dtype}')
    e = covered_ref(case, hours, regular)
    close(out.values.astype(float), [float(x) for x in e], 0, 0, 'covered',
          info=case)
    if len(set(e)) < 2:
        ctx.trivial()
    ctx.label('depth' if case['depth'] is not None else 'no-depth',
              'regular' if regular else 'irregular')


@sub(history, quick=500)
def coverage(case, ctx):
    """full after a covering snowfall, slides by the published amount in the
    periods in which it can, stays otherwise, gone when the ground is bare;
    within [0, 1]; the past does not depend on the future"""
    idx, hours, regular = build(case)
    n = case['n']
    S = {k: pd.Series(case[k], index=idx) for k in ('snow', 'temp', 'poa')}
    kw = args(case, idx)
    tilt = [case['tilt'] * (1 - k / (2. * n)) for k in range(n)] \
        if case['vtilt'] else [case['tilt']] * n
    t = pd.Series(tilt, index=idx) if case['vtilt'] else case['tilt']
    for a, b in [('initial_coverage', 'initial'),
                 ('can_slide_coefficient', 'can'),
                 ('slide_amount_coefficient', 'amount')]:
        if case[b] is not None:
            kw[a] = case[b]
    before = snapshot((S, t, kw))
    out = snow.coverage_nrel(S['snow'], S['poa'], S['temp'], t, **kw)
    unchanged(before, (S, t, kw), 'inputs')
    same_index(out, idx, 'coverage')
    new = covered_ref(case, hours, regular)
    can = case['can'] or -80.
    amt = .197 if case['amount'] is None else case['amount']
    thd = 1. if case['thd'] is None else case['thd']
    cov = case['initial'] or 0.
    exp, slid = [], 0
    for k in range(n):
        if new[k]:
            cov = 1.
        elif case['depth'] is not None and case['depth'][k] < thd:
            cov = 0.
        elif k and case['temp'][k] > case['poa'][k] / can:
            d = amt * math.sin(math.radians(tilt[k])) * hours[k - 1]
            slid += cov > 0 and d > 0
            cov = max(0., cov - d)
        exp.append(cov)
    close(out.values, exp, 1e-9, 1e-9, 'coverage', info=case)
    require(((out >= 0) & (out <= 1)).all(), 'outside [0, 1]')
    m = max(3, n // 2)
    if m < n and (len(set((case['gaps'] or [1])[:m - 1])) > 1) != regular:
        kp = {k: (v.iloc[:m] if isinstance(v, pd.Series) else v)
              for k, v in kw.items()}
        p = snow.coverage_nrel(
            S['snow'].iloc[:m], S['poa'].iloc[:m], S['temp'].iloc[:m],
            t.iloc[:m] if case['vtilt'] else t, **kp)
        close(p.values, out.values[:m], 1e-12, 1e-12, 'prefix')
    if not slid:
        ctx.trivial()
    ctx.label('depth' if case['depth'] is not None else 'no-depth',
              'renewed' if any(new) else 'initial-only',
              'slid' if slid else 'static')


elem(__name__, 'dc_loss', snow.dc_loss_nrel,
     dict(snow_coverage=P(flt(0, 1, (0, 1, .5, 1 / 3)), nan=True),
          num_strings=S(st.integers(1, 12))),
     lambda snow_coverage, num_strings: math.nan
     if math.isnan(snow_coverage)
     else math.ceil(snow_coverage * num_strings) / num_strings,
     modes=('scalar', 'array', 'series'), quick=200,
     skip=lambda snow_coverage, num_strings: not math.isnan(snow_coverage)
     and 0 < abs(snow_coverage * num_strings
                 - round(snow_coverage * num_strings)) < 1e-9,
     doc='covered strings are lost entirely')


# ------------------------------------------------------------- Townsend
@st.composite
def townsend_case(draw):
    n = draw(st.sampled_from([12, 12, 6, 3, 1]))

    def lst(s):
        return draw(st.lists(s, min_size=n, max_size=n))
    return dict(
        n=n, kind=draw(st.sampled_from(['array', 'series'])),
        snow=lst(st.one_of(st.just(0.), flt(0, 300))),
        events=lst(st.one_of(st.integers(0, 20), st.just(0), st.just(1))),
        fevents=draw(st.booleans()), tilt=draw(flt(0, 90, (0, 20))),
        rh=lst(flt(10, 100)), temp=lst(flt(-30, 20)),
        poa=lst(flt(5e3, 2.5e5)), slant=draw(flt(.3, 8)),
        edge=draw(flt(0, 4, (0, .8))), string=draw(opt(flt(.5, 1, (.75,)))),
        repose=draw(opt(flt(25, 55, (40,)))),
        front=draw(opt(st.sampled_from(['scalar', 'array']))),
        frac=lst(flt(.5, 1, (1,))))


@sub(townsend_case, quick=400)
def townsend(case, ctx):
    """the published monthly loss, with the previous month's snow (the last
    month before the first), between 0 and 1"""
    n = case['n']
    put = np.array if case['kind'] == 'array' else (
        lambda v: pd.Series(v, index=range(1, n + 1)))
    ev = [x + (.5 if case['fevents'] and (x or k % 3) else 0)
          for k, x in enumerate(case['events'])]
    kw = dict(snow_total=put(case['snow']), snow_events=put(ev),
              surface_tilt=case['tilt'], relative_humidity=put(case['rh']),
              temp_air=put(case['temp']), poa_global=put(case['poa']),
              slant_height=case['slant'], lower_edge_height=case['edge'])
    if case['string'] is not None:
        kw['string_factor'] = case['string']
    if case['repose'] is not None:
        kw['angle_of_repose'] = case['repose']
    frac = [1.] * n
    if case['front']:
        frac = case['frac'] if case['front'] == 'array' \
            else case['frac'][:1] * n
        kw['front_side_fraction'] = put(frac) \
            if case['front'] == 'array' else frac[0]
    before = snapshot(kw)
    out = snow.loss_townsend(**kw)
    unchanged(before, kw, 'inputs')
    if case['kind'] == 'series':
        same_index(out, kw['temp_air'].index, 'loss')

    def eff(k):
        s = case['snow'][k] / 2.54
        return .5 * s * (1 + 1 / max(ev[k], 1)) if ev[k] > 0 else 0.
    exp = []
    for k in range(n):
        se = eff(k - 1) / 3 + 2 * eff(k) / 3
        c = math.cos(math.radians(case['tilt']))
        d = max(.1, (case['edge'] * 39.37)**2 - se**2)
        gam = case['slant'] * 39.37 * se * c / d * 2 * math.tan(
            math.radians(case['repose'] or 40))
        v = 5.7e4 * se * c**2 * (1 - .51 * math.exp(-gam)) * (
            case['rh'][k] / 100) / (case['temp'][k] + 273.15)**2 / (
            case['poa'][k] / 1000)**.67 * (case['string'] or 1.) * frac[k]
        exp.append(min(1., max(0., v)))
    close(np.asarray(out), exp, 1e-9, 1e-12, 'loss', info=case)
    if not any(0 < x < 1 for x in exp):
        ctx.trivial()
    ctx.label(case['kind'], 'front-' + str(case['front']))
