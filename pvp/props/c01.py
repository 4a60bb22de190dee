"""C01 solar position is the SPA position of each instant."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib import solarposition as sp
from pvlib import spa

from ..cmp import Fail, arr, close, require, same_index, within
from ..core import sub
from ..gen import ints, epoch, fixed, flt, opt, zone
from ..refs import spa as R

RULE = ('Random instants (1950-2050 with year ends, leap days and '
        'midnights; for the core routine years -1999 to 6000), places '
        '(poles, equator, date line), altitude, pressure, temperature, '
        'delta-T and refraction settings; every case is non-trivial '
        '(compares all outputs of at least one instant).')
ASSUMPTIONS = ['The periodic-term tables of the SPA report are taken over '
               'as data; PyEphem is the independent check of the tables.']

COLS = ['apparent_zenith', 'zenith', 'apparent_elevation', 'elevation',
        'azimuth', 'equation_of_time']
LAT = flt(-90, 90, (0, 23.4367, -23.4367, 66.56, 45))
LON = flt(-180, 180, (0, -105, 90, 179.99))


def ang(a, b):
    return abs((a - b + 180) % 360 - 180)


def check_point(out, want, edge, what):
    """out, want: dicts of floats"""
    e0 = want['elevation']
    ce = max(math.cos(math.radians(e0)), 1e-9)
    tol = 1e-6 if abs(e0) < 89 else 4e-6
    for c in ('zenith', 'elevation'):
        if not abs(out[c] - want[c]) <= tol:
            raise Fail(f'{what}: {c} {out[c]!r}, SPA {want[c]!r}')
    if edge > 2e-6:
        for c in ('apparent_zenith', 'apparent_elevation'):
            if not abs(out[c] - want[c]) <= 2 * tol:
                raise Fail(f'{what}: {c} {out[c]!r}, SPA {want[c]!r}')
    if ce > 1e-6 and not ang(out['azimuth'], want['azimuth']) <= 2e-6 / ce:
        raise Fail(f"{what}: azimuth {out['azimuth']!r}, SPA "
                   f"{want['azimuth']!r}")
    if not abs(out['equation_of_time'] - want['equation_of_time']) <= 1e-5:
        raise Fail(f"{what}: equation of time {out['equation_of_time']!r}, "
                   f"SPA {want['equation_of_time']!r}")


def invariants(df):
    close(df['zenith'] + df['elevation'], 90., 0, 1e-9, 'zenith+elevation')
    close(df['apparent_zenith'] + df['apparent_elevation'], 90., 0, 1e-9,
          'apparent zenith+elevation')
    within(df['azimuth'], 0, 360, 0, 'azimuth')
    within(df['apparent_elevation'] - df['elevation'], 0, 2., 1e-3,
           'refraction')


def index_of(case):
    ns = [int(s) * 10**9 + ms * 10**6 for s, ms in case['t']]
    ix = pd.DatetimeIndex(np.array(ns, dtype='datetime64[ns]'))
    return ix.tz_localize('UTC').tz_convert(case['tz'])


TIMES = st.lists(st.tuples(epoch(), st.sampled_from([0, 0, 500, 123, 999])),
                 min_size=1, max_size=4).map(lambda x: [list(v) for v in x])


@sub(lambda: fixed(t=TIMES, tz=zone, lat=LAT, lon=LON,
                   alt=flt(-400, 8000, (0,)), p=flt(0, 110000, (101325,)),
                   temp=flt(-60, 50, (12,)),
                   dt=st.one_of(flt(-10, 90), st.just(67.), st.none()),
                   ref=st.one_of(st.none(), flt(0, 1))), quick=1600, shards=8)
def spa_python(case, ctx):
    """spa_python equals the scalar SPA reference, instant by instant"""
    ix = index_of(case)
    df = sp.spa_python(ix, case['lat'], case['lon'], altitude=case['alt'],
                       pressure=case['p'], temperature=case['temp'],
                       delta_t=case['dt'], atmos_refract=case['ref'])
    same_index(df, ix, 'spa_python')
    require(sorted(df.columns) == sorted(COLS), f'columns {list(df.columns)}')
    invariants(df)
    r = .5667 if case['ref'] is None else case['ref']
    utc = ix.tz_convert('UTC')
    for i, (s, ms) in enumerate(case['t']):
        d = case['dt']
        if d is None:
            d = R.delta_t(utc[i].year, utc[i].month)
        want, edge = R.solar_position(s + ms / 1e3, case['lat'], case['lon'],
                                      case['alt'], case['p'] / 100,
                                      case['temp'], d, r)
        check_point(df.iloc[i].to_dict(), want, edge, f'{ix[i]}')
        ctx.label('sun up' if want['elevation'] > 0 else 'sun down')
    if case['dt'] is None:
        ctx.label('delta_t calculated')


FAR = ints(-125000000000, 127000000000)


@sub(lambda: fixed(t=st.lists(FAR, min_size=1, max_size=4), lat=LAT, lon=LON,
                   alt=flt(-400, 8000, (0,)), p=flt(0, 1100, (1013.25,)),
                   temp=flt(-60, 50), dt=st.lists(flt(-1000, 20000),
                                                  min_size=4, max_size=4),
                   dts=st.booleans(), ref=flt(0, 1)), quick=800, shards=4)
def core_far_dates(case, ctx):
    """spa.solar_position over the validity range of the SPA, with scalar and
    per-instant delta-T"""
    u = np.array(case['t'], dtype=float)
    d = case['dt'][0] if case['dts'] else np.array(case['dt'][:len(u)])
    out = spa.solar_position(u, case['lat'], case['lon'], case['alt'],
                             case['p'], case['temp'], d, case['ref'])
    for i, t in enumerate(u):
        dti = case['dt'][0] if case['dts'] else case['dt'][i]
        want, edge = R.solar_position(t, case['lat'], case['lon'],
                                      case['alt'], case['p'], case['temp'],
                                      dti, case['ref'])
        # double precision of the time argument: the sidereal angle loses
        # digits with distance from J2000
        got = dict(zip(COLS, [float(np.ravel(o)[i]) for o in out]))
        check_point(got, want, edge, f'unix {t}')
    ctx.label('scalar delta_t' if case['dts'] else 'vector delta_t')


@sub(lambda: fixed(t=st.lists(FAR, min_size=1, max_size=5),
                   dt=flt(-1000, 20000)), quick=150, shards=2)
def earthsun_distance(case, ctx):
    """spa.earthsun_distance is the SPA radius vector"""
    u = np.array(case['t'], dtype=float)
    r = spa.earthsun_distance(u, case['dt'], 1)
    close(r, [R.earth_distance(t, case['dt']) for t in u], 1e-10, 0,
          'earth-sun distance')


YEAR = st.one_of(ints(-2500, 3500), ints(1850, 2200),
                 st.sampled_from([-500, -501, 499, 500, 1599, 1600, 1699,
                                  1700, 1799, 1800, 1859, 1860, 1899, 1900,
                                  1919, 1920, 1940, 1941, 1960, 1961, 1985,
                                  1986, 2004, 2005, 2049, 2050, 2149, 2150]))


@sub(lambda: fixed(y=st.lists(YEAR, min_size=1, max_size=6),
                   m=st.integers(1, 12), mode=st.sampled_from(
                       ['scalar', 'array'])), quick=300)
def deltat(case, ctx):
    """calculate_deltat is the Espenak-Meeus polynomial of that year"""
    want = [R.delta_t(y, case['m']) for y in case['y']]
    if case['mode'] == 'scalar':
        r = spa.calculate_deltat(case['y'][0], case['m'])
        require(np.ndim(r) == 0, 'scalar expected')
        want = want[:1]
    else:
        r = spa.calculate_deltat(np.array(case['y']),
                                 np.full(len(case['y']), case['m']))
    close(np.atleast_1d(r), want, 1e-9, 1e-7, 'delta T')


@sub(lambda: fixed(t=TIMES, tz=zone, lat=LAT, lon=LON), quick=500, shards=4)
def ephemeris_agreement(case, ctx):
    """the default method agrees with an independent ephemeris (PyEphem's own
    position, no atmosphere) within 0.006 deg, delta-T from the year"""
    import ephem
    ix = index_of(case)
    df = sp.get_solarposition(ix, case['lat'], case['lon'], delta_t=None)
    invariants(df)
    obs = ephem.Observer()
    obs.lat, obs.lon = math.radians(case['lat']), math.radians(case['lon'])
    obs.pressure, obs.elevation = 0, 0
    sun = ephem.Sun()
    for i, (s, ms) in enumerate(case['t']):
        # Dublin Julian day number
        obs.date = (s + ms / 1e3) / 86400. + 25567.5
        sun.compute(obs)
        e, a = math.degrees(sun.alt), math.degrees(sun.az)
        row = df.iloc[i]
        require(abs(row.elevation - e) < 6e-3,
                f'{ix[i]}: elevation {row.elevation} PyEphem {e}')
        d = ang(row.azimuth, a) * math.cos(math.radians(e))
        require(d < 6e-3, f'{ix[i]}: azimuth {row.azimuth} PyEphem {a}')


@sub(lambda: fixed(y=st.one_of(ints(1, 3000), st.integers(1580, 1585)),
                   m=st.integers(1, 12), d=st.integers(1, 31),
                   s=ints(0, 86399), us=ints(0, 999999)),
     quick=400)
def julian_days(case, ctx):
    """Julian days of calendar dates (Julian calendar up to 4 October 1582)
    and of the Unix time of the same instant"""
    c = case
    greg = (c['y'], c['m'], c['d']) >= (1582, 10, 15)
    dim = [31, 29 if c['y'] % 4 == 0 and (
        not greg or c['y'] % 100 or not c['y'] % 400) else 28,
        31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    day = min(c['d'], dim[c['m'] - 1])
    if (1582, 10, 4) < (c['y'], c['m'], day) < (1582, 10, 15):
        ctx.trivial()
        return
    # days before 1 March of year 0, counted month by month
    y = c['y']
    n = 365 * y + (y - 1) // 4 + 1        # leap days of the years before
    if greg:
        n -= (y - 1) // 100 - (y - 1) // 400
    n += sum(dim[:c['m'] - 1]) + day - 1
    # 1 January of year 0: Julian calendar -4712-01-01 noon is day 0
    jd = 1721057.5 + n + (2 if greg else 0)
    jd += (c['s'] + c['us'] / 1e6) / 86400
    h, mi, sec = c['s'] // 3600, c['s'] // 60 % 60, c['s'] % 60
    got = spa.julian_day_dt(c['y'], c['m'], day, h, mi, sec, c['us'])
    close(got, jd, 0, 2e-9, f'julian day of {c}')
    if greg:
        close(spa.julian_day((jd - 2440587.5) * 86400), jd, 0, 2e-9,
              'julian day of unix time')
    ctx.label('Gregorian' if greg else 'Julian')
