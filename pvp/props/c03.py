"""C03 alternative and analytical solar position formulas."""
import datetime as dt
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib import solarposition as sp

from ..cmp import Fail, close, raises, require, same_index, within
from ..core import sub
from ..elem import P, S, elem
from ..gen import ints, epoch, fixed, flt, opt, uni, zone, ZONES
from ..refs import spa as R
from .c01 import LAT, LON, ang

RULE = ('Random instants, places, atmospheric settings, days of year and '
        'hour angles; non-trivial = a finite, non-zero expected output, for '
        'calc_time a bracketed crossing exists.')
ASSUMPTIONS = ['PyEphem is used as installed both by pvlib and by the '
               'comparison; SPA reference as in C01.']

T = st.lists(epoch(), min_size=1, max_size=5)
FRAC = st.one_of(st.just([0]), st.lists(ints(0, 999), min_size=1,
                                        max_size=5))


def instants(case):
    """seconds of the instants, some with milliseconds, some of them when
    the Earth is at perihelion or aphelion"""
    t, f = case['t'], case['ms']
    t = [s + f[i % len(f)] / 1000 for i, s in enumerate(t)]
    if case.get('apsis') is not None:
        t[-1] = round(94755600 + case['apsis'] * 365.2596 * 43200, 3)
    return t


PI = math.pi


def index(secs, tz='UTC'):
    return pd.DatetimeIndex(np.array(
        [round(s * 1000) for s in secs], dtype='datetime64[ms]')
        ).tz_localize('UTC').tz_convert(tz)


def observer(lat, lon, alt, p, temp):
    import ephem
    o = ephem.Observer()
    o.lat, o.lon = math.radians(lat), math.radians(lon)
    o.elevation, o.pressure, o.temp = alt, p / 100, temp
    return o


@sub(lambda: fixed(t=T, ms=FRAC, tz=zone, lat=LAT, lon=LON,
                   alt=flt(-400, 8000, (0,)),
                   p=flt(0, 110000, (101325,)), temp=flt(-50, 50, (12,)),
                   dp=st.sampled_from([0, 0, -900]),
                   dtemp=st.sampled_from([0, 0, 2.5])),
     quick=400, shards=8)
def pyephem(case, ctx):
    """pyephem is PyEphem's own sun for that observer, with and without
    refraction, and agrees with the SPA within 0.01 deg (delta-T aside)"""
    import ephem
    ts = instants(case)
    ix = index(ts, case['tz'])
    p = [max(case['p'] + i * case['dp'], 0.) for i in range(len(ts))]
    temp = [case['temp'] + i * case['dtemp'] for i in range(len(ts))]
    df = sp.pyephem(ix, case['lat'], case['lon'], altitude=case['alt'],
                    pressure=pd.Series(p, ix) if case['dp'] else p[0],
                    temperature=np.array(temp) if case['dtemp']
                    else temp[0])
    same_index(df, ix, 'pyephem')
    require(set(df.columns) == {'apparent_elevation', 'apparent_azimuth',
                                'elevation', 'azimuth', 'apparent_zenith',
                                'zenith'}, f'columns {list(df.columns)}')
    close(df.zenith + df.elevation, 90, 0, 1e-9, 'zenith+elevation')
    close(df.apparent_zenith + df.apparent_elevation, 90, 0, 1e-9,
          'apparent zenith+elevation')
    sun = ephem.Sun()
    for i, s in enumerate(ts):
        row = df.iloc[i]
        o = observer(case['lat'], case['lon'], case['alt'], p[i], temp[i])
        o.date = s / 86400. + 25567.5
        sun.compute(o)
        # strings vs radians for the coordinates: last digits differ
        require(abs(row.apparent_elevation - math.degrees(sun.alt)) < 1e-5,
                f'apparent elevation {row.apparent_elevation} PyEphem '
                f'{math.degrees(sun.alt)} at {ix[i]}')
        ce = max(math.cos(sun.alt), 1e-4)
        require(ang(row.apparent_azimuth, math.degrees(sun.az)) * ce < 1e-5,
                f'apparent azimuth {row.apparent_azimuth} PyEphem '
                f'{math.degrees(sun.az)}')
        o.pressure = 0
        sun.compute(o)
        require(abs(row.elevation - math.degrees(sun.alt)) < 1e-5,
                f'elevation {row.elevation} PyEphem {math.degrees(sun.alt)}')
        require(ang(row.azimuth, math.degrees(sun.az)) * ce < 1e-5,
                f'azimuth {row.azimuth} PyEphem {math.degrees(sun.az)}')
        u = pd.Timestamp(s, unit='s')
        w, _ = R.solar_position(s, case['lat'], case['lon'], case['alt'],
                                p[i] / 100, temp[i],
                                R.delta_t(u.year, u.month), .5667)
        require(abs(row.elevation - w['elevation']) < .01,
                f"elevation {row.elevation} SPA {w['elevation']}")
        require(ang(row.azimuth, w['azimuth'])
                * math.cos(math.radians(w['elevation'])) < .01,
                f"azimuth {row.azimuth} SPA {w['azimuth']}")
        if w['elevation'] > 15:
            require(abs(row.apparent_elevation - w['apparent_elevation'])
                    < .015, f'apparent elevation {row.apparent_elevation} '
                            f"SPA {w['apparent_elevation']}")
            ctx.label('refraction compared')


def ephemeris_ref(s, lat, lon):
    """low-precision Newcomb sun (epoch 1900), Kepler solved exactly"""
    d = s / 86400. + 25567.5           # days since 1899-12-31 12:00 UT
    d0 = math.floor(d - .5) + .5       # preceding midnight
    h = (d - d0) * 24
    T0 = d0 / 36525
    g0 = (6 / 24 + 38 / 1440 + (45.836 + 8640184.542 * T0
                                + .0929 * T0**2) / 86400)
    gmst = (360 * (g0 - math.floor(g0))
            + 360 * 1.0027379093 * h / 24) % 360
    T1 = d / 36525
    ob = math.radians(23.452294 - .0130125 * T1 - 1.64e-6 * T1**2
                      + 5.03e-7 * T1**3)
    per = (281.22083 + 4.70684e-5 * d + .000453 * T1**2 + 3e-6 * T1**3)
    M = math.radians((358.47583 + .985600267 * d - .00015 * T1**2
                      - 3e-6 * T1**3) % 360)
    e = .01675104 - 4.18e-5 * T1 - 1.26e-7 * T1**2
    E = M
    for _ in range(30):
        E -= (E - e * math.sin(E) - M) / (1 - e * math.cos(E))
    nu = 2 * math.atan2(math.sqrt(1 + e) * math.sin(E / 2),
                        math.sqrt(1 - e) * math.cos(E / 2))
    lam = math.radians((per + math.degrees(nu)) % 360 - 20 / 3600)
    dec = math.asin(math.sin(ob) * math.sin(lam))
    ra = math.atan2(math.cos(ob) * math.sin(lam), math.cos(lam))
    H = math.radians(gmst + lon) - ra
    phi = math.radians(lat)
    up = math.sin(phi) * math.sin(dec) \
        + math.cos(phi) * math.cos(dec) * math.cos(H)
    no = math.cos(phi) * math.sin(dec) \
        - math.sin(phi) * math.cos(dec) * math.cos(H)
    ea = -math.cos(dec) * math.sin(H)
    return (math.degrees(math.atan2(up, math.hypot(no, ea))),
            math.degrees(math.atan2(ea, no)) % 360,
            (12 + math.degrees(H) / 15) % 24)


def aim(s, lat, el):
    """longitude at which the sun is el degrees high, as nearly as the
    latitude allows"""
    _, _, h = ephemeris_ref(s, lat, 0.)
    noon = (12 - h) * 15
    lo, hi = noon, noon + 180
    for _ in range(40):
        m = (lo + hi) / 2
        if ephemeris_ref(s, lat, m)[0] > el:
            lo = m
        else:
            hi = m
    return (lo + 180) % 360 - 180


def refraction(el, p, temp):
    if not -1 < el <= 85:
        return 0.
    t = math.tan(math.radians(el))
    if el > 5:
        r = 58.1 / t - .07 / t**3 + 8.6e-5 / t**5
    elif el > -.575:
        r = 1735 - 518.2 * el + 103.4 * el**2 - 12.79 * el**3 + .711 * el**4
    else:
        r = -20.774 / t
    return r * 283 / (273 + temp) * p / 101325 / 3600


@sub(lambda: fixed(t=T, ms=FRAC, apsis=st.one_of(
    st.none(), st.none(), ints(-2, 130)), tz=zone, lat=LAT, lon=LON,
                   p=flt(0, 110000, (101325,)), temp=flt(-50, 50, (12,)),
                   aim=opt(st.one_of(uni(-1.2, .1), uni(4.8, 5.2), uni(
                       84.9, 85.1), uni(-2, 6)))),
     quick=700, shards=8)
def ephemeris(case, ctx):
    """the Ephemeris method is its published low-precision sun, agrees with
    the SPA within 0.03 deg, and refracts by the published formula"""
    ts = instants(case)
    ix = index(ts, case['tz'])
    lon = case['lon']
    if case['aim'] is not None:
        lon = aim(ts[0], case['lat'], case['aim'])
    df = sp.ephemeris(ix, case['lat'], lon, pressure=case['p'],
                      temperature=case['temp'])
    same_index(df, ix, 'ephemeris')
    require(set(df.columns) == {'apparent_elevation', 'elevation', 'azimuth',
                                'apparent_zenith', 'zenith', 'solar_time'},
            f'columns {list(df.columns)}')
    close(df.zenith + df.elevation, 90, 0, 1e-9, 'zenith+elevation')
    close(df.apparent_zenith + df.apparent_elevation, 90, 0, 1e-9,
          'apparent zenith+elevation')
    within(df.azimuth, 0, 360, 0, 'azimuth')
    within(df.solar_time, 0, 24, 1e-9, 'solar time')
    for i, s in enumerate(ts):
        row = df.iloc[i]
        e, a, t = ephemeris_ref(s, case['lat'], lon)
        require(abs(row.elevation - e) < 2e-5,
                f'{ix[i]}: elevation {row.elevation}, reference {e}')
        ce = math.cos(math.radians(e))
        require(ang(row.azimuth, a) * ce < 2e-5,
                f'{ix[i]}: azimuth {row.azimuth}, reference {a}')
        require(abs((row.solar_time - t + 12) % 24 - 12) < 2e-6,
                f'{ix[i]}: solar time {row.solar_time}, reference {t}')
        el = row.elevation
        if min(abs(el - k) for k in (5, 85, -.575, -1)) > 1e-9:
            r = refraction(el, case['p'], case['temp'])
            require(abs(row.apparent_elevation - el - r) < 1e-9,
                    f'refraction at {el}: {row.apparent_elevation - el}, '
                    f'published {r}')
            if r:
                ctx.label('refracted')
        u = pd.Timestamp(s, unit='s')
        w, _ = R.solar_position(s, case['lat'], lon, 0, 1013.25, 12,
                                R.delta_t(u.year, u.month), .5667)
        require(abs(el - w['elevation']) < .03,
                f"elevation {el} SPA {w['elevation']}")
        require(ang(row.azimuth, w['azimuth']) * ce < .03,
                f"azimuth {row.azimuth} SPA {w['azimuth']}")


DOY = st.one_of(ints(1, 366).map(float), flt(1, 366.99))


def _b(n):
    return 2 * PI / 365 * (n - 1)


def _eot_spencer(dayofyear):
    b = _b(dayofyear)
    return 720 / PI * (7.5e-6 + .001868 * math.cos(b) - .032077 * math.sin(b)
                       - .014615 * math.cos(2 * b)
                       - .040849 * math.sin(2 * b))


def _eot_pvcdrom(dayofyear):
    b = 2 * PI / 365 * (dayofyear - 81)
    return 9.87 * math.sin(2 * b) - 7.53 * math.cos(b) - 1.5 * math.sin(b)


def _dec_spencer(dayofyear):
    b = _b(dayofyear)
    return (.006918 - .399912 * math.cos(b) + .070257 * math.sin(b)
            - .006758 * math.cos(2 * b) + .000907 * math.sin(2 * b)
            - .002697 * math.cos(3 * b) + .00148 * math.sin(3 * b))


def _dec_cooper(dayofyear):
    return math.radians(23.45) * math.sin(2 * PI / 365 * (284 + dayofyear))


for _n, _f, _r in (('equation_of_time_spencer71',
                    sp.equation_of_time_spencer71, _eot_spencer),
                   ('equation_of_time_pvcdrom', sp.equation_of_time_pvcdrom,
                    _eot_pvcdrom),
                   ('declination_spencer71', sp.declination_spencer71,
                    _dec_spencer),
                   ('declination_cooper69', sp.declination_cooper69,
                    _dec_cooper)):
    elem(__name__, _n, _f, dict(dayofyear=P(DOY, nan=True)),
         lambda dayofyear, _r=_r: _r(dayofyear)
         if math.isfinite(dayofyear) else float('nan'), quick=120,
         rtol=1e-10, atol=1e-10, doc='the published expression')


@sub(lambda: fixed(y=st.integers(1980, 2040), n=ints(1, 366)),
     quick=200)
def analytical_agree_with_spa(case, ctx):
    """equations of time within 1.3 min and declinations within 1.6 deg
    (Spencer: 0.7 deg) of the SPA's"""
    t = pd.Timestamp(case['y'], 1, 1, 12, tz='UTC') + pd.Timedelta(
        days=case['n'] - 1)
    n = t.day_of_year
    g = R.geocentric(t.timestamp(), 67.)
    require(abs(sp.equation_of_time_spencer71(n) - g['eot']) < 1.3,
            f'spencer eot day {n}')
    require(abs(sp.equation_of_time_pvcdrom(n) - g['eot']) < 1.3,
            f'pvcdrom eot day {n}')
    d = math.radians(g['delta'])
    require(abs(sp.declination_spencer71(n) - d) < math.radians(.7),
            f'spencer declination day {n}')
    require(abs(sp.declination_cooper69(n) - d) < math.radians(1.6),
            f'cooper declination day {n}')


RL = flt(-PI / 2, PI / 2, (0, .4))
RH = flt(-PI, PI, (0, PI / 2, -PI / 2))
RD = flt(-.4091, .4091, (0,))


def _vec(lat, ha, dec):
    up = math.sin(lat) * math.sin(dec) \
        + math.cos(lat) * math.cos(dec) * math.cos(ha)
    no = math.cos(lat) * math.sin(dec) \
        - math.sin(lat) * math.cos(dec) * math.cos(ha)
    ea = -math.cos(dec) * math.sin(ha)
    return ea, no, up


def _zen(latitude, hourangle, declination):
    if not all(map(math.isfinite, (latitude, hourangle, declination))):
        return float('nan')
    ea, no, up = _vec(latitude, hourangle, declination)
    return math.atan2(math.hypot(ea, no), up)


elem(__name__, 'solar_zenith_analytical', sp.solar_zenith_analytical,
     dict(latitude=P(RL), hourangle=P(RH, nan=True), declination=P(RD)),
     _zen, quick=300, rtol=0, atol=3e-8,
     doc='angle between the sun vector and the vertical')


@sub(lambda: fixed(lat=RL, ha=st.lists(RH, min_size=1, max_size=5), dec=RD,
                   mode=st.sampled_from(['scalar', 'array', 'series'])),
     quick=400, shards=2)
def solar_azimuth_analytical(case, ctx):
    """azimuth of the sun vector, including at noon, midnight, zenith and
    poles (where any azimuth is accepted)"""
    lat, dec = case['lat'], case['dec']
    ha = case['ha'][:1] if case['mode'] == 'scalar' else case['ha']
    zs = [_zen(lat, h, dec) for h in ha]
    if case['mode'] == 'scalar':
        H, Z = ha[0], zs[0]
    elif case['mode'] == 'array':
        H, Z = np.array(ha), np.array(zs)
    else:
        ix = pd.date_range('2020-01-01', periods=len(ha), freq='h')
        H, Z = pd.Series(ha, index=ix), pd.Series(zs, index=ix)
    r = sp.solar_azimuth_analytical(lat, H, dec, Z)
    r = np.atleast_1d(np.asarray(r, dtype=float))
    require(len(r) == len(ha), 'length')
    within(r, 0, 2 * PI, 1e-9, 'azimuth')
    good = 0
    for a, h, z in zip(r, ha, zs):
        ea, no, up = _vec(lat, h, dec)
        den = math.sin(z) * math.cos(lat)
        if den < 1e-6:
            ctx.label('pole or zenith')
            continue
        want = math.atan2(ea, no) % (2 * PI)
        sa = abs(math.sin(want))
        # arccos is ill conditioned towards north and south, where values
        # within 1e-8 of +-1 are snapped
        tol = 2e-4 + 1e-7 / math.sqrt(den) if sa < 1e-3 else \
            1e-13 / den / sa + 1e-9
        d = abs((a - want + PI) % (2 * PI) - PI)
        require(d <= tol, f'azimuth {a!r}, sun vector {want!r} for latitude '
                          f'{lat!r} hour angle {h!r} declination {dec!r}')
        good += 1
        if abs(h) < 1e-9:
            ctx.label('noon, sun ' + ('north' if no > 0 else 'south'))
    if not good:
        ctx.trivial()


@sub(lambda: fixed(t=T, tz=st.sampled_from(
    ZONES + ['America/Los_Angeles', 'Pacific/Fiji', 'Pacific/Apia']),
    lon=LON, eot=flt(-17, 17, (0,)), sw=st.integers(0, 60),
    h=st.integers(0, 23)), quick=400, shards=4)
def hour_angle(case, ctx):
    """hour angle is 15 deg per hour of UTC from noon plus longitude plus the
    equation of time, on the local date, also on days with a clock change"""
    ix = index(case['t'], case['tz'])
    extra = switch_day(case['tz'], case['sw'], case['h'])
    if extra is not None:
        ix = ix.append(pd.DatetimeIndex([extra]))
    try:
        ha = sp.hour_angle(ix, case['lon'], case['eot'])
    except ValueError as e:
        # an ambiguous local midnight has no unique answer
        if 'Cannot infer dst' in str(e):
            ctx.trivial()
            return
        raise
    for i, t in enumerate(ix):
        day = pd.Timestamp(t.date())
        hrs = (t.tz_convert('UTC').tz_localize(None) - day
               ) / pd.Timedelta('1h')
        w = 15 * (hrs - 12) + case['lon'] + case['eot'] / 4
        require(abs(np.ravel(ha)[i] - w) < 1e-8,
                f'{t}: hour angle {np.ravel(ha)[i]!r}, expected {w!r}')
    if extra is not None:
        ctx.label('clock change day')


def switch_day(tz, k, hour):
    """an instant at `hour` UTC after the k-th clock change since 1990"""
    import zoneinfo
    z = zoneinfo.ZoneInfo(tz)
    t0 = dt.datetime(1990 + k // 2, 1, 1, tzinfo=dt.timezone.utc)
    prev = t0.astimezone(z).utcoffset()
    n = 0
    for d in range(1, 366):
        t = t0 + dt.timedelta(days=d)
        o = t.astimezone(z).utcoffset()
        if o != prev:
            if n == k % 2:
                return pd.Timestamp(t - dt.timedelta(hours=23 - hour)
                                    ).tz_convert(tz)
            n += 1
            prev = o
    return None


@sub(lambda: fixed(t=epoch(), lon=LON, lat=flt(-85, 85), tz=zone), quick=300,
     shards=2)
def analytical_chain(case, ctx):
    """hour angle with the SPA equation of time, the SPA declination and the
    analytical zenith and azimuth give the SPA sun within 0.02 deg; with
    Spencer's series within 2 deg"""
    ix = index([case['t']], case['tz'])
    n = ix.dayofyear.to_numpy()
    g = R.geocentric(case['t'], 67.)
    lat = math.radians(case['lat'])
    w, _ = R.solar_position(case['t'], case['lat'], case['lon'], 0, 1013.25,
                            12, 67., .5667)
    for eot, dec, tol in ((g['eot'], math.radians(g['delta']), .02),
                          (sp.equation_of_time_spencer71(n),
                           sp.declination_spencer71(n), 2.)):
        ha = np.radians(sp.hour_angle(ix, case['lon'], eot))
        z = sp.solar_zenith_analytical(lat, ha, dec)
        dz = abs(math.degrees(float(np.ravel(z)[0])) - w['zenith'])
        require(dz < tol, f"zenith {np.degrees(z)} SPA {w['zenith']}")
        # the sign of the hour angle decides morning or afternoon
        ha = (ha + PI) % (2 * PI) - PI
        a = sp.solar_azimuth_analytical(lat, ha, dec, z)
        da = ang(math.degrees(float(np.ravel(a)[0])), w['azimuth']) \
            * math.sin(math.radians(w['zenith']))
        require(da < tol, f"azimuth {np.degrees(a)} SPA {w['azimuth']}")


@sub(lambda: fixed(t=epoch(), lat=flt(-80, 80), lon=LON,
                   f=uni(0, 1), span=uni(.5, 11), p=flt(0, 105000),
                   alt=flt(0, 3000), temp=flt(-20, 40), us=ints(
                       0, 999999), tz=st.one_of(st.none(), zone)),
     quick=250, shards=4)
def calc_time(case, ctx):
    """at the returned time the sun has the requested altitude, inside the
    bounds; a value not bracketed is rejected"""
    import ephem
    o = observer(case['lat'], case['lon'], case['alt'], case['p'],
                 case['temp'])
    sun = ephem.Sun()

    def alt(t):
        o.date = t.timestamp() / 86400. + 25567.5
        sun.compute(o)
        return float(sun.alt)
    lo = pd.Timestamp(case['t'], unit='s', tz='UTC').to_pydatetime() \
        + dt.timedelta(microseconds=case['us'])
    hi = lo + dt.timedelta(hours=case['span'])
    a, b = alt(lo), alt(hi)
    v = a + (b - a) * case['f']
    blo, bhi = lo, hi
    if case['tz'] is not None:
        import zoneinfo
        blo, bhi = (x.astimezone(zoneinfo.ZoneInfo(case['tz']))
                    for x in (lo, hi))
    else:
        blo, bhi = lo.replace(tzinfo=None), hi.replace(tzinfo=None)
    kw = dict(altitude=case['alt'], pressure=case['p'],
              temperature=case['temp'])
    if abs(b - a) < 1e-3 or not min(a, b) + 1e-6 < v < max(a, b) - 1e-6:
        ctx.trivial()
        return
    r = sp.calc_time(blo, bhi, case['lat'], case['lon'], 'alt', v, **kw)
    require(r.tzinfo is not None, 'result has no time zone')
    require(lo - dt.timedelta(seconds=1) <= r <= hi + dt.timedelta(seconds=1),
            f'{r} not in [{lo}, {hi}]')
    # refraction switches off abruptly below the horizon in PyEphem
    e0, e1 = alt(r - dt.timedelta(seconds=1)), alt(
        r + dt.timedelta(seconds=1))
    got = alt(r)
    jump = max(abs(e0 - got), abs(e1 - got)) > 2e-4
    require(abs(got - v) < 1e-6 or jump and min(
        e0, e1) - 1e-6 <= v <= max(e0, e1) + 1e-6, f'altitude at {r} is {got}, requested {v}')
    top = max(a, b, alt(lo + (hi - lo) / 2))
    raises(ValueError, sp.calc_time, blo, bhi, case['lat'], case['lon'],
           'alt', 1.6 + top * 0, what='value beyond the zenith', **kw)
