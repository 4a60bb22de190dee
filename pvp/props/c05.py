"""C05 extraterrestrial radiation and Earth-Sun distance."""
import datetime as dt
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib import irradiance as irr
from pvlib import solarposition as sp

from ..cmp import Fail, arr, close, raises, require, same_index
from ..core import sub
from ..gen import ints, epoch, fixed, flt, opt, zone
from ..refs import spa as R

RULE = ('Random dates in every accepted type and container, methods, solar '
        'constants, epoch years; every case is non-trivial.')
ASSUMPTIONS = ['PyEphem as installed is the independent distance.']
METHODS = ['spencer', 'asce', 'pyephem', 'nrel', 'SPENCER', 'Asce']


def ephem_dist(u):
    import ephem
    s = ephem.Sun()
    s.compute(ephem.Date(u / 86400. + 25567.5))
    return s.earth_distance


def ratio(method, doy, u):
    """(R0/R)^2"""
    m = method.lower()
    if m == 'asce':
        return 1 + .033 * math.cos(2 * math.pi / 365 * doy)
    if m == 'spencer':
        b = 2 * math.pi / 365 * (doy - 1)
        return (1.00011 + .034221 * math.cos(b) + .00128 * math.sin(b)
                + .000719 * math.cos(2 * b) + 7.7e-5 * math.sin(2 * b))
    if m == 'nrel':
        return R.earth_distance(u, 67.) ** -2
    return ephem_dist(u) ** -2


def tol(method):
    return 2e-8 if method.lower() == 'pyephem' else 1e-9


@sub(lambda: fixed(t=st.lists(epoch(), min_size=1, max_size=4),
                   tz=st.one_of(st.none(), zone), m=st.sampled_from(METHODS),
                   sc=opt(flt(1300, 1420, (1366.1, 1361))),
                   kind=st.sampled_from(['index', 'index', 'Timestamp',
                                         'datetime', 'datetime64', 'date']),
                   unit=st.sampled_from(['s', 'us', 'ns'])),
     quick=600, shards=4)
def datetime_like(case, ctx):
    """dates: solar constant over the squared distance (or the published
    series of the UTC day of year)"""
    ix = pd.DatetimeIndex(np.array(case['t'], dtype='datetime64[s]')
                          ).as_unit(case['unit'])
    kind = case['kind']
    us = list(case['t'])
    if kind == 'index':
        arg = ix if case['tz'] is None else \
            ix.tz_localize('UTC').tz_convert(case['tz'])
    else:
        us = us[:1]
        ts = ix[0]
        if kind == 'datetime64':
            arg = np.datetime64(ts.to_datetime64())
        elif kind == 'date':
            arg = dt.date(ts.year, ts.month, ts.day)
            us = [us[0] // 86400 * 86400]
        else:
            if case['tz'] is not None:
                ts = ts.tz_localize('UTC').tz_convert(case['tz'])
            arg = ts.to_pydatetime() if kind == 'datetime' else ts
    kw = {} if case['sc'] is None else {'solar_constant': case['sc']}
    sc = 1366.1 if case['sc'] is None else case['sc']
    r = irr.get_extra_radiation(arg, method=case['m'], **kw)
    if kind == 'index':
        same_index(r, arg, 'get_extra_radiation')
    else:
        require(np.size(r) == 1, f'{kind}: result of size {np.size(r)}')
        if kind != 'Timestamp':
            require(np.ndim(r) == 0, f'{kind}: {type(r).__name__}')
    want = []
    for u in us:
        t = pd.Timestamp(u, unit='s')
        want.append(sc * ratio(case['m'], t.day_of_year, u))
    close(np.atleast_1d(arr(r)), want, tol(case['m']), 0,
          f"{case['m']} {kind}")
    ctx.label(kind)
    ctx.label(case['m'].lower())


DOY = st.one_of(ints(1, 366), ints(1, 365).map(float),
                flt(1, 366))


@sub(lambda: fixed(d=st.lists(DOY, min_size=1, max_size=5),
                   m=st.sampled_from(METHODS), ey=opt(st.integers(1990,
                                                                  2040)),
                   kind=st.sampled_from(['int', 'float', 'array', 'array',
                                         'np int']),
                   sc=opt(flt(1300, 1420))), quick=400, shards=4)
def day_of_year(case, ctx):
    """days of the year: the same relation, in the epoch year"""
    d, kind = case['d'], case['kind']
    if kind == 'array':
        arg = np.array(d, dtype=float)
    else:
        d = d[:1]
        if kind == 'float':
            arg = float(d[0])
        else:
            d = [int(d[0])]
            arg = d[0] if kind == 'int' else np.int64(d[0])
    kw = {}
    if case['ey'] is not None:
        kw['epoch_year'] = case['ey']
    if case['sc'] is not None:
        kw['solar_constant'] = case['sc']
    ey = case['ey'] or 2014
    sc = case['sc'] or 1366.1
    r = irr.get_extra_radiation(arg, method=case['m'], **kw)
    if kind == 'array':
        require(isinstance(r, np.ndarray) and r.shape == arg.shape,
                f'array in, {type(r).__name__} out')
    else:
        require(np.ndim(r) == 0, f'scalar in, {type(r).__name__} out')
    t0 = pd.Timestamp(ey - 1, 12, 31).timestamp()
    want = [sc * ratio(case['m'], x, t0 + 86400 * x) for x in d]
    close(np.atleast_1d(arr(r)), want, max(tol(case['m']), 2e-8), 0,
          f"{case['m']} {kind}")
    ctx.label(kind)


@sub(lambda: fixed(t=epoch(), tz=zone, sc=flt(1300, 1420)), quick=200)
def methods_agree(case, ctx):
    """all methods agree within 1 %, nrel and pyephem within 0.01 %, and all
    date types give the same"""
    ts = pd.Timestamp(case['t'], unit='s', tz='UTC').tz_convert(case['tz'])
    v = {m: float(np.ravel(arr(irr.get_extra_radiation(
        ts, solar_constant=case['sc'], method=m)))[0])
        for m in ('spencer', 'asce', 'pyephem', 'nrel')}
    for m in v:
        require(abs(v[m] / v['nrel'] - 1) < .01, f'{m}: {v}')
        require(.96 * case['sc'] < v[m] < 1.04 * case['sc'], f'{m}: {v}')
    require(abs(v['pyephem'] / v['nrel'] - 1) < 1e-4, f'{v}')


@sub(lambda: fixed(t=st.lists(epoch(), min_size=1, max_size=4),
                   tz=st.one_of(st.none(), zone), dt=opt(flt(-10, 90)),
                   kind=st.sampled_from(['index', 'Timestamp', 'list'])),
     quick=300, shards=2)
def earth_sun_distance(case, ctx):
    """nrel_earthsun_distance is the SPA radius vector and
    pyephem_earthsun_distance PyEphem's distance, labelled as passed"""
    ix = pd.DatetimeIndex(np.array(case['t'], dtype='datetime64[s]'))
    if case['tz'] is not None:
        ix = ix.tz_localize('UTC').tz_convert(case['tz'])
    p = sp.pyephem_earthsun_distance(ix)
    same_index(p, ix, 'pyephem_earthsun_distance')
    close(p, [ephem_dist(u) for u in case['t']], 1e-8, 0, 'pyephem')
    us = case['t']
    arg = ix
    if case['kind'] == 'Timestamp':
        arg, us = ix[0], us[:1]
    elif case['kind'] == 'list':
        arg = list(ix)
    n = sp.nrel_earthsun_distance(arg, delta_t=case['dt'])
    require(len(n) == len(us) and (n.index == ix[:len(us)]).all(),
            'nrel_earthsun_distance index')
    want = []
    for u in us:
        t = pd.Timestamp(u, unit='s')
        d = R.delta_t(t.year, t.month) if case['dt'] is None else case['dt']
        want.append(R.earth_distance(u, d))
    close(n, want, 1e-10, 0, 'nrel')
    k = irr.get_extra_radiation(ix, method='nrel', delta_t=case['dt'])
    close(k.iloc[:len(us)], [1366.1 / w**2 for w in want], 1e-9, 0,
          'delta_t passed through')


@sub(lambda: fixed(m=st.text(alphabet='abcnrelspy', max_size=6)), quick=30)
def unknown_method(case, ctx):
    """unknown methods are rejected"""
    if case['m'] in ('asce', 'nrel'):
        ctx.trivial()
        return
    raises(ValueError, irr.get_extra_radiation, 100, method=case['m'])
