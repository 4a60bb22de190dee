"""C02 solar position depends only on instant and place."""
import datetime as dt
import math
import sys
import types

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib import solarposition as sp

from ..cmp import Fail, close, raises, require, same_index, snapshot, unchanged
from ..core import sub
from ..gen import epoch, fixed, flt, opt, zone, ZONES
from ..refs import spa as R
from .c01 import LAT, LON, ang, check_point

RULE = ('Random batches of instants, zones, datetime units, orders, splits, '
        'methods, engines and thread counts; a case is non-trivial when the '
        'two sides are written differently (other zone, unit, order, batch '
        'or engine).')

# whole seconds so that every datetime unit can hold the instant; ordinary
# PyEphem range
T = st.lists(epoch(), min_size=1, max_size=6)
METH = st.sampled_from(['nrel_numpy', 'nrel_numpy', 'pyephem', 'ephemeris'])
# the Kepler iteration of 'ephemeris' stops on the worst element of a batch
TOL = {'nrel_numpy': 1e-7, 'pyephem': 1e-9, 'ephemeris': 5e-4}


def index(secs, tz='UTC', unit='ns'):
    ix = pd.DatetimeIndex(np.array(secs, dtype='datetime64[s]')).as_unit(unit)
    if tz is None:
        return ix
    return ix.tz_localize('UTC').tz_convert(tz)


def compare(a, b, tol, what):
    require(sorted(a.columns) == sorted(b.columns), what + ': columns differ')
    for c in a.columns:
        x, y = a[c].to_numpy(), b[c].to_numpy()
        if 'azimuth' in c:
            e = np.radians(a['elevation'].to_numpy())
            d = np.abs((x - y + 180) % 360 - 180) * np.maximum(
                np.cos(e), 1e-6)
        elif c == 'solar_time':
            d = np.abs((x - y + 12) % 24 - 12)
        else:
            d = np.abs(x - y)
        if c.startswith('apparent') and tol > 1e-6:
            # refraction formula of 'ephemeris' has small steps
            d = np.where(d < .02, 0, d)
        if not np.all(d <= tol):
            i = int(np.argmax(~(d <= tol)))
            raise Fail(f'{what}: {c}[{i}] {x[i]!r} != {y[i]!r}')


UNITS = ['s', 'ms', 'us', 'ns']


@sub(lambda: fixed(t=T, tz1=st.sampled_from(ZONES), u1=st.sampled_from(UNITS),
                   tz2=st.one_of(st.none(), st.sampled_from(ZONES)),
                   u2=st.sampled_from(UNITS), lat=LAT, lon=LON, m=METH,
                   dtn=st.booleans()), quick=500, shards=8)
def zone_and_unit(case, ctx):
    """the same instants in another zone / datetime unit / naive as UTC give
    the same numbers, labelled as passed"""
    a, b = (index(case['t'], case['tz1'], case['u1']),
            index(case['t'], case['tz2'], case['u2']))
    kw = {'delta_t': None} if case['dtn'] and case['m'] == 'nrel_numpy' \
        else {}
    ra = sp.get_solarposition(a, case['lat'], case['lon'], method=case['m'],
                              **kw)
    rb = sp.get_solarposition(b, case['lat'], case['lon'], method=case['m'],
                              **kw)
    same_index(ra, a, 'first result')
    same_index(rb, b, 'second result')
    compare(ra, rb, 1e-9, f"{case['tz1']}[{case['u1']}] vs "
                          f"{case['tz2']}[{case['u2']}]")
    ctx.label('naive' if case['tz2'] is None else 'aware')
    ctx.label(case['m'])
    if case['u1'] != case['u2']:
        ctx.label('units differ')
    if (case['tz1'], case['u1']) == (case['tz2'], case['u2']):
        ctx.trivial()


@sub(lambda: fixed(t=T, tz=st.one_of(st.none(), zone), lat=LAT, lon=LON,
                   m=METH, dtn=st.booleans(),
                   cut=st.lists(st.integers(0, 5), min_size=1, max_size=8)),
     quick=400, shards=8)
def batch_independence(case, ctx):
    """any selection (subset, repeats, any order) of the instants gives the
    corresponding rows"""
    ix = index(case['t'], case['tz'])
    pos = [i % len(ix) for i in case['cut']]
    kw = {'delta_t': None} if case['dtn'] and case['m'] == 'nrel_numpy' \
        else {}
    full = sp.get_solarposition(ix, case['lat'], case['lon'],
                                method=case['m'], **kw)
    part = sp.get_solarposition(ix[pos], case['lat'], case['lon'],
                                method=case['m'], **kw)
    same_index(part, ix[pos], 'selection')
    compare(full.iloc[pos], part, TOL[case['m']], 'selection vs batch')
    ctx.label(case['m'])
    if pos == list(range(len(ix))):
        ctx.trivial()


@sub(lambda: fixed(t=epoch(), us=st.sampled_from([0, 0, 250000, 999999]),
                   tz=zone, lat=LAT, lon=LON, m=METH,
                   kind=st.sampled_from(['datetime', 'Timestamp',
                                         'naive datetime',
                                         'naive Timestamp'])), quick=250,
     shards=4)
def single_timestamp(case, ctx):
    """a single datetime or Timestamp is a one-element index"""
    ts = pd.Timestamp(case['t'], unit='s', tz='UTC') + pd.Timedelta(
        case['us'], unit='us')
    if case['kind'].startswith('naive'):
        ts = ts.tz_localize(None)
    else:
        ts = ts.tz_convert(case['tz'])
    arg = ts.to_pydatetime() if 'datetime' in case['kind'] else ts
    a = sp.get_solarposition(arg, case['lat'], case['lon'], method=case['m'])
    b = sp.get_solarposition(pd.DatetimeIndex([ts]), case['lat'],
                             case['lon'], method=case['m'])
    require(len(a) == 1 and a.index[0] == ts, f'index {a.index}')
    require(a.index[0].utcoffset() == ts.utcoffset(), 'utc offset changed')
    compare(a, b, 1e-9, case['kind'])
    # direct spa_python call
    if case['m'] == 'nrel_numpy':
        c = sp.spa_python(arg, case['lat'], case['lon'])
        compare(c, b, 1e-9, 'spa_python ' + case['kind'])
    ctx.label(case['kind'])


@sub(lambda: fixed(t=T, lat=LAT, lon=LON, m=st.sampled_from(
    ['nrel_numpy', 'NREL_NUMPY', 'pyephem', 'ephemeris']),
    alt=opt(flt(-400, 8000, (0,))), p=opt(flt(50000, 105000, (101325,))),
    temp=opt(flt(-50, 50, (0,)))), quick=300, shards=4)
def pressure_altitude_defaults(case, ctx):
    """altitude and pressure default through the standard atmosphere, and the
    dispatcher passes everything to the named method"""
    kw = {}
    if case['alt'] is not None:
        kw['altitude'] = case['alt']
    if case['p'] is not None:
        kw['pressure'] = case['p']
    if case['temp'] is not None:
        kw['temperature'] = case['temp']
    ix = index(case['t'])
    got = sp.get_solarposition(ix, case['lat'], case['lon'],
                               method=case['m'], **kw)
    alt, p = case['alt'], case['p']
    # standard atmosphere, written out
    if alt is None and p is None:
        alt, p = 0., 101325.
    elif alt is None:
        alt = 44331.5 - 4946.62 * p ** 0.190263
    elif p is None:
        p = 100 * ((44331.514 - alt) / 11880.516) ** (1 / 0.1902632)
    t = 12. if case['temp'] is None else case['temp']
    m = case['m'].lower()
    if m == 'nrel_numpy':
        want = sp.spa_python(ix, case['lat'], case['lon'], altitude=alt,
                             pressure=p, temperature=t)
        for i, s in enumerate(case['t']):
            w, edge = R.solar_position(s, case['lat'], case['lon'], alt,
                                       p / 100, t, 67., .5667)
            check_point(got.iloc[i].to_dict(), w, edge, str(ix[i]))
    elif m == 'pyephem':
        want = sp.pyephem(ix, case['lat'], case['lon'], altitude=alt,
                          pressure=p, temperature=t)
    else:
        want = sp.ephemeris(ix, case['lat'], case['lon'], pressure=p,
                            temperature=t)
    compare(got, want, 1e-6, f'get_solarposition({m})')
    ctx.label(f"alt {'given' if case['alt'] is not None else 'default'}, "
              f"p {'given' if case['p'] is not None else 'default'}")


@sub(lambda: fixed(m=st.text(alphabet='abcnrelphm_', min_size=0,
                             max_size=8)), quick=40)
def unknown_method(case, ctx):
    """unknown methods are rejected"""
    if case['m'] in ('nrel_numpy', 'nrel_numba', 'pyephem', 'ephemeris',
                     'nrel_c'):
        ctx.trivial()
        return
    raises(ValueError, sp.get_solarposition, index([0]), 0, 0,
           method=case['m'], what='unknown method')


@sub(lambda: fixed(t=st.lists(epoch(), min_size=1, max_size=20), tz=zone,
                   lat=LAT, lon=LON, n=st.integers(1, 8),
                   alt=flt(-400, 8000, (0,)), p=flt(0, 110000, (101325,)),
                   temp=flt(-60, 50), dt=opt(flt(-10, 90)),
                   ref=st.one_of(st.none(), flt(0, 1))), quick=60, shards=1)
def numba_engine(case, ctx):
    """the numba engine gives the SPA position for any batch length and
    thread count"""
    ix = index(case['t'], case['tz'])
    kw = {}
    if case['ref'] is not None:
        kw['atmos_refract'] = case['ref']
    df = sp.get_solarposition(ix, case['lat'], case['lon'],
                              altitude=case['alt'], pressure=case['p'],
                              temperature=case['temp'], method='nrel_numba',
                              numthreads=case['n'], delta_t=case['dt'], **kw)
    same_index(df, ix, 'numba')
    r = .5667 if case['ref'] is None else case['ref']
    utc = ix.tz_convert('UTC')
    for i, s in enumerate(case['t']):
        d = case['dt']
        if d is None:
            d = R.delta_t(utc[i].year, utc[i].month)
        w, edge = R.solar_position(s, case['lat'], case['lon'], case['alt'],
                                   case['p'] / 100, case['temp'], d, r)
        check_point(df.iloc[i].to_dict(), w, edge, f'numba {ix[i]}')
    ctx.label('threads > instants' if case['n'] > len(ix) else
              'threads <= instants')
    ctx.label(f"{case['n']} threads")


@sub(lambda: fixed(t=T, tz=st.one_of(st.none(), zone), lat=LAT, lon=LON,
                   alt=opt(flt(-400, 8000, (0,))),
                   p=opt(flt(50000, 110000, (101325,))),
                   temp=opt(flt(-60, 50)), dt=opt(flt(-10, 90)),
                   raw=st.booleans()), quick=150, shards=2)
def nrel_c_arguments(case, ctx):
    """method='nrel_c' hands every argument to the C routine's wrapper and
    labels its results; the C routine is replaced by the reference SPA"""
    ix = index(case['t'], case['tz'])

    def spa_calc(year, month, day, hour, minute, second, time_zone,
                 latitude, longitude, elevation, pressure, temperature,
                 delta_t, **kw):
        u = (dt.datetime(year, month, day, hour, minute, int(second))
             - dt.datetime(1970, 1, 1)).total_seconds() - time_zone * 3600
        w, _ = R.solar_position(u, latitude, longitude, elevation, pressure,
                                temperature, delta_t, .5667)
        return dict(year=year, time_zone=time_zone, latitude=latitude,
                    longitude=longitude, elevation=elevation,
                    pressure=pressure, temperature=temperature,
                    delta_t=delta_t, azimuth=w['azimuth'],
                    zenith=w['apparent_zenith'], e=w['apparent_elevation'],
                    e0=w['elevation'])
    mod = types.ModuleType('pvlib.spa_c_files.spa_py')
    mod.spa_calc = spa_calc
    old = sys.modules.get('pvlib.spa_c_files.spa_py')
    sys.modules['pvlib.spa_c_files.spa_py'] = mod
    kw = {}
    for k, n in (('alt', 'altitude'), ('p', 'pressure'),
                 ('temp', 'temperature'), ('dt', 'delta_t')):
        if case[k] is not None:
            kw[n] = case[k]
    try:
        df = sp.get_solarposition(ix, case['lat'], case['lon'],
                                  method='nrel_c', **kw)
        if case['raw']:
            raw = sp.get_solarposition(ix, case['lat'], case['lon'],
                                       method='nrel_c', raw_spa_output=True,
                                       **kw)
            same_index(raw, ix, 'raw output')
            require('timezone' in raw.columns, 'raw output has no timezone')
    finally:
        if old is None:
            del sys.modules['pvlib.spa_c_files.spa_py']
        else:
            sys.modules['pvlib.spa_c_files.spa_py'] = old
    same_index(df, ix, 'nrel_c')
    want = sp.get_solarposition(ix, case['lat'], case['lon'],
                                method='nrel_numpy', **kw)
    compare(df, want[list(df.columns)], 2e-6, 'nrel_c vs nrel_numpy')
    require(sorted(df.columns) == ['apparent_elevation', 'apparent_zenith',
                                   'azimuth', 'elevation', 'zenith'],
            f'columns {list(df.columns)}')
    for i, s in enumerate(case['t']):
        require(abs(df['zenith'].iloc[i] + df['elevation'].iloc[i] - 90)
                < 1e-9, 'zenith + elevation')
