"""C04 sunrise, transit and sunset of the local day."""
import datetime as dt
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib import solarposition as sp

from ..cmp import Fail, arr, close, raises, require, same_index
from ..core import sub
from ..gen import ints, epoch, fixed, flt, opt, uni, ZONES
from ..refs import spa as R
from .c03 import observer, switch_day

RULE = ('Random dates (incl. clock-change days, any time of day), zones '
        '(incl. both sides of the date line), places within 10 h of the zone '
        'meridian, all latitudes; non-trivial = the event exists and was '
        'located on the reference sun.')
ASSUMPTIONS = ['Events of the SPA method that fall on another UTC date than '
               'the transit are the same-UTC-date events moved by a whole '
               'day, as the published algorithm does; this inaccuracy (up to '
               'a few minutes) is a listed known finding.']

LZ = ZONES + ['Asia/Beirut', 'Pacific/Fiji', 'Pacific/Tongatapu', 'Pacific/Kiritimati',
              'Pacific/Midway', 'Pacific/Chatham', 'America/Santiago',
              'Asia/Kathmandu', 'Etc/GMT-12', 'Etc/GMT+11', 'Pacific/Apia']
APIA = 1325239200      # Samoa skipped 2011-12-30
LAT = st.one_of(flt(-65, 65, (0, 23.4, 45, 60, -35)), flt(-65, 65),
                flt(-65, 65), flt(-89, 89, (65.5, -66.5)))


def lon_for(tz, secs, shift):
    off = pd.Timestamp(secs[0], unit='s', tz='UTC').tz_convert(
        tz).utcoffset().total_seconds() / 3600
    return (15 * off + shift + 180) % 360 - 180


def index(secs, tz):
    return pd.DatetimeIndex(np.array(secs, dtype='datetime64[s]')
                            ).tz_localize('UTC').tz_convert(tz)


def geo_elev(u, lat, lon, dtt):
    g = R.geocentric(u, dtt)
    H = math.radians(g['nu'] + lon - g['alpha'])
    phi, d = math.radians(lat), math.radians(g['delta'])
    e = math.degrees(math.asin(max(-1, min(1, math.sin(phi) * math.sin(d)
                     + math.cos(phi) * math.cos(d) * math.cos(H)))))
    return e, (math.degrees(H) + 180) % 360 - 180


def near0(t):
    u = t.timestamp() % 86400
    return min(u, 86400 - u) < 120


SPAN = st.lists(epoch(), min_size=1, max_size=3)


def moved(case, secs):
    """instants on both sides of Samoa's change of the date line"""
    if case['tz'] != 'Pacific/Apia':
        return secs
    return [APIA + (-1) ** k * (s % 400000) for k, s in enumerate(secs + [
        86400 + secs[0]])]


@sub(lambda: fixed(t=SPAN, tz=st.sampled_from(LZ), shift=flt(-150, 150, (0,)),
                   lat=LAT, sw=st.integers(0, 60), h=st.integers(0, 23),
                   dt=st.one_of(st.just(67.), flt(-10, 90), st.none()),
                   strict=st.just(False)), quick=600, shards=8)
def spa_events(case, ctx):
    """SPA sunrise/sunset: geocentric sun at -0.8333 deg rising/setting;
    transit: hour angle zero on the local date of the input; missing exactly
    when the sun does not rise or set"""
    secs = list(case['t'])
    ex = switch_day(case['tz'], case['sw'], case['h'])
    if ex is not None:
        secs.append(int(ex.timestamp()))
        ctx.label('clock change day')
    ix = index(secs, case['tz'])
    lat = case['lat']
    lon = lon_for(case['tz'], secs, case['shift'])
    df = sp.sun_rise_set_transit_spa(ix, lat, lon, delta_t=case['dt'])
    same_index(df, ix, 'sun_rise_set_transit_spa')
    require(sorted(df.columns) == ['sunrise', 'sunset', 'transit'],
            f'columns {list(df.columns)}')
    good = 0
    for i, t in enumerate(ix):
        tr = df['transit'].iloc[i]
        d = case['dt']
        if d is None:
            u = t.tz_convert('UTC')
            d = R.delta_t(u.year, u.month)
        require(tr.utcoffset() == tr.tz_convert(case['tz']).utcoffset(),
                'transit not in the zone of the input')
        # a UTC date with two transits (or none) cannot be told apart
        if near0(tr):
            ctx.label('transit at 0 UTC')
            continue
        require(tr.date() == t.date(), f'transit {tr} is not on the local '
                                       f'day of {t} (longitude {lon})')
        tu = tr.timestamp()
        e, H = geo_elev(tu, lat, lon, d)
        require(abs(H) < .01, f'hour angle {H} at transit {tr}')
        day0 = math.floor(tu / 86400) * 86400
        dec = math.radians(R.geocentric(day0 - d, d)['delta'])
        phi = math.radians(lat)
        ca = (math.sin(math.radians(-.8333)) - math.sin(phi) * math.sin(dec)
              ) / (math.cos(phi) * math.cos(dec))
        for name, sgn in (('sunrise', -1), ('sunset', 1)):
            ev = df[name].iloc[i]
            if abs(ca) > 1 + 1e-6:
                require(ev is pd.NaT or pd.isna(ev),
                        f'{name} {ev} although the sun does not cross the '
                        f'horizon at {lat} on {t}')
                ctx.label('polar day or night')
                continue
            # declination and time of the crossing interact: one Newton
            # step of the published algorithm is not accurate there
            if abs(ca) > .97 or abs(lat) > 72:
                ctx.label('grazing')
                continue
            require(not pd.isna(ev), f'{name} missing at {lat} on {t}')
            require(ev.utcoffset() == ev.tz_convert(case['tz']).utcoffset(),
                    f'{name} not in the zone of the input')
            eu = ev.timestamp()
            off = math.floor(eu / 86400) * 86400 - day0
            wrap = off != 0
            if wrap and abs(eu - day0 - (0 if sgn < 0 else 86400)) < 400:
                ctx.label('event near 0 UTC')
                continue
            if not wrap and min(eu - day0, day0 + 86400 - eu) < 400:
                ctx.label('event near 0 UTC')
                continue
            # one Newton step: quadratic error in the daily drift
            tol = .012 + .02 / (1 - abs(ca)) * (abs(lat) > 50)
            ee, hh = geo_elev(eu, lat, lon, d)
            if wrap and not case['strict'] and abs(ee + .8333) >= tol:
                ee, hh = geo_elev(eu - off, lat, lon, d)
            require(abs(ee + .8333) < tol,
                    f'sun is at {ee} at {name} {ev} (latitude {lat}, '
                    f'longitude {lon})')
            require(hh * sgn > 0, f'{name} {ev}: hour angle {hh}')
            require(0 < (eu - tu) * sgn < 43200 + 1800,
                    f'{name} {ev} and transit {tr} out of order')
            good += 1
            if wrap:
                ctx.label('event on another UTC date')
    if not good:
        ctx.trivial()


@sub(lambda: fixed(d=ints(-7000, 29000), tz=st.sampled_from(LZ),
                   shift=flt(-100, 100, (0,)), lat=flt(-60, 60),
                   a=ints(0, 86399), b=ints(0, 86399)),
     quick=250, shards=4)
def spa_same_day(case, ctx):
    """all timestamps of one local day get the same events, whatever the
    other timestamps of the call"""
    day = pd.Timestamp('1970-01-01') + pd.Timedelta(days=case['d'])
    ts = pd.DatetimeIndex([day + pd.Timedelta(seconds=s)
                           for s in (case['a'], case['b'], 43200)])
    ts = ts.tz_localize(case['tz'], nonexistent='shift_forward',
                        ambiguous=np.array([True] * 3))
    ts = ts[[t.date() == day.date() for t in ts]]
    lon = lon_for(case['tz'], [ts[-1].timestamp()], case['shift'])
    df = sp.sun_rise_set_transit_spa(ts, case['lat'], lon)
    one = sp.sun_rise_set_transit_spa(ts[-1:], case['lat'], lon)
    if near0(one['transit'].iloc[0]):
        ctx.trivial()
        return
    for c in ('sunrise', 'sunset', 'transit'):
        for v in df[c]:
            require(abs((v - one[c].iloc[0]).total_seconds()) < 1e-3,
                    f'{c} {v} != {one[c].iloc[0]} on one local day')
    require((df['sunrise'] < df['transit']).all()
            and (df['transit'] < df['sunset']).all(), 'order of the events')


@sub(lambda: fixed(t=SPAN, tz=st.sampled_from(LZ), lat=flt(-60, 60, (0,)),
                   lon=flt(-180, 180), np_=st.sampled_from(
                       ['next', 'previous', 'Next', 'PREVIOUS']),
                   alt=flt(0, 3000, (0,)), p=flt(0, 105000, (0, 101325)),
                   temp=flt(-40, 40, (12,)),
                   hor=st.sampled_from(['0:00', '-0:34', '+5:00', '-6:00',
                                        '1:30'])), quick=400, shards=8)
def ephem_events(case, ctx):
    """PyEphem-based events: the upper limb is at the horizon, rising or
    setting (transit: on the meridian), and it is the next / previous one"""
    import ephem
    ix = index(case['t'], case['tz'])
    df = sp.sun_rise_set_transit_ephem(
        ix, case['lat'], case['lon'], next_or_previous=case['np_'],
        altitude=case['alt'], pressure=case['p'], temperature=case['temp'],
        horizon=case['hor'])
    same_index(df, ix, 'sun_rise_set_transit_ephem')
    require(sorted(df.columns) == ['sunrise', 'sunset', 'transit'],
            f'columns {list(df.columns)}')
    dd, mm = case['hor'].replace('+', '').replace('-', '').split(':')
    hor = (int(dd) + int(mm) / 60) * (-1 if '-' in case['hor'] else 1)
    o = observer(case['lat'], case['lon'], case['alt'], case['p'],
                 case['temp'])
    sun = ephem.Sun()

    def at(u):
        o.date = u / 86400. + 25567.5
        sun.compute(o)
        ha = (math.degrees(o.sidereal_time() - sun.ra) + 180) % 360 - 180
        return math.degrees(sun.alt + sun.radius), ha
    nxt = case['np_'].lower() == 'next'
    def own(s, c):
        o.date, o.horizon = s / 86400. + 25567.5, case['hor']
        sun = ephem.Sun()
        d = getattr(o, case['np_'].lower() + '_' + {
            'sunrise': 'rising', 'sunset': 'setting'}.get(c, c))(sun)
        o.horizon = 0
        return (float(d) - 25567.5) * 86400
    for i, s in enumerate(case['t']):
        for c in ('sunrise', 'sunset', 'transit'):
            ev = df[c].iloc[i]
            require(ev.utcoffset() == ev.tz_convert(case['tz']).utcoffset(),
                    f'{c} not in the zone of the input')
            u = ev.timestamp()
            dlt = u - s if nxt else s - u
            require(-1 <= dlt <= 86400 + 900,
                    f'{c} {ev} is not the {case["np_"]} one of {ix[i]}')
            ref = own(s, c)
            require(abs(u - ref) < .05, f'{c} {ev}, PyEphem '
                    f'{pd.Timestamp(ref, unit="s")}')
            e, ha = at(u)
            if c == 'transit':
                require(abs(ha) < .02, f'hour angle {ha} at transit {ev}')
            else:
                e1, _ = at(u + 60)
                e0, _ = at(u - 60)
                # PyEphem locates the crossing to about a second; near its
                # refraction switch the altitude jumps
                lo, hi = min(e0, e1), max(e0, e1)
                require(abs(e - hor) < .02 or lo - .01 <= hor <= hi + .01,
                        f'upper limb at {e} at {c} {ev}, horizon {hor}')
                require((ha < 0) == (c == 'sunrise'), f'{c} {ev}: hour '
                                                      f'angle {ha}')
    ctx.label(case['np_'].lower())


@sub(lambda: fixed(t=SPAN, tz=st.sampled_from(LZ), shift=flt(-150, 150, (0,)),
                   lat=flt(-90, 90, (0, 66, 70)), dec=flt(-.4091, .4091,
                                                          (0,)),
                   eot=flt(-17, 17, (0,)), sw=st.integers(0, 60),
                   h=st.integers(0, 23), vec=st.booleans()), quick=400,
     shards=4)
def geometric_events(case, ctx):
    """geometric events: analytical zenith 90 deg, hour angle of the sunset
    formula, on the local date of the input"""
    secs = list(case['t'])
    ex = switch_day(case['tz'], case['sw'], case['h'])
    if ex is not None:
        secs.append(int(ex.timestamp()))
    secs = moved(case, secs)
    ix = index(secs, case['tz'])
    lon = lon_for(case['tz'], secs, case['shift'])
    eot, dec = case['eot'], case['dec']
    if case['vec']:
        eot = np.full(len(ix), eot)
        dec = np.full(len(ix), dec)
    try:
        res = sp.sun_rise_set_transit_geometric(ix, case['lat'], lon, dec,
                                                eot)
    except ValueError as e:
        # local midnight ambiguous (clock change at midnight)
        if 'Cannot infer dst' in str(e):
            ctx.trivial()
            ctx.label('clock change at midnight')
            return
        raise
    require(len(res) == 3, 'three results')
    x = -math.tan(case['dec']) * math.tan(math.radians(case['lat']))
    good = 0
    for k, name in enumerate(('sunrise', 'sunset', 'transit')):
        for i, t in enumerate(ix):
            ev = res[k][i]
            if name != 'transit' and abs(x) > 1 + 1e-12:
                require(pd.isna(ev), f'{name} {ev} in polar day or night')
                ctx.label('polar')
                continue
            if name != 'transit' and abs(x) > 1 - 1e-9:
                continue
            w = 0. if name == 'transit' else math.degrees(math.acos(x)) * (
                -1 if name == 'sunrise' else 1)
            base = pd.Timestamp(t.date(), tz='UTC').timestamp()
            off = t.utcoffset().total_seconds() / 3600
            far = lon + 360 * round((15 * off - lon) / 360)
            want = base + 3600 * (12 + (w - far - case['eot'] / 4) / 15)
            if far != lon:
                ctx.label('zone beyond the antimeridian')
            require(not pd.isna(ev), f'{name} missing')
            require(abs(ev.timestamp() - want) < 1e-2,
                    f'{name} of {t}: {ev}, expected '
                    f'{pd.Timestamp(want, unit="s", tz="UTC")}')
            require(ev.utcoffset() == ev.tz_convert(case['tz']).utcoffset(),
                    f'{name} not in the zone of the input')
            good += 1
    if not good:
        ctx.trivial()


@sub(lambda: fixed(d=ints(0, 29000), tz=st.sampled_from(LZ),
                   shift=flt(-60, 60, (0,)), lat=flt(-58, 58, (0,))),
     quick=250, shards=4)
def methods_agree(case, ctx):
    """SPA and PyEphem (same horizon convention) within 3 min, geometric
    within 25 min, for the local day of the input"""
    t = pd.Timestamp('1970-01-01') + pd.Timedelta(days=case['d'])
    t = pd.DatetimeIndex([t + pd.Timedelta(hours=3, minutes=30)]
                         ).tz_localize(case['tz'])
    lon = lon_for(case['tz'], [t[0].timestamp()], case['shift'])
    a = sp.sun_rise_set_transit_spa(t, case['lat'], lon)
    n = t.dayofyear.to_numpy()
    try:
        g = sp.sun_rise_set_transit_geometric(
            t, case['lat'], lon, sp.declination_spencer71(n),
            sp.equation_of_time_spencer71(n))
    except ValueError as e:
        if 'Cannot infer dst' in str(e):
            ctx.trivial()
            return
        raise
    tr = a['transit'].iloc[0]
    if near0(tr):
        ctx.trivial()
        return
    before = pd.DatetimeIndex([tr])
    pr = sp.sun_rise_set_transit_ephem(before, case['lat'], lon, 'previous',
                                       pressure=0, horizon='-0:34')
    ne = sp.sun_rise_set_transit_ephem(before, case['lat'], lon, 'next',
                                       pressure=0, horizon='-0:34')
    for c, e, k in (('sunrise', pr, 0), ('sunset', ne, 1)):
        x = (a[c].iloc[0] - e[c].iloc[0]).total_seconds()
        require(abs(x) < 360, f'{c}: SPA {a[c].iloc[0]}, PyEphem '
                              f'{e[c].iloc[0]}')
        y = (a[c].iloc[0] - g[k][0]).total_seconds()
        require(abs(y) < 1500, f'{c}: SPA {a[c].iloc[0]}, geometric '
                               f'{g[k][0]}')
    y = (tr - g[2][0]).total_seconds()
    require(abs(y) < 120, f'transit: SPA {tr}, geometric {g[2][0]}')


@sub(lambda: fixed(t=epoch(), m=st.sampled_from(['spa', 'ephem',
                                                 'geometric']),
                   w=st.text(alphabet='nextprviousX', max_size=9)), quick=60)
def rejects(case, ctx):
    """naive timestamps and unknown directions are rejected"""
    ix = index([case['t']], 'UTC')
    nv = ix.tz_localize(None)
    if case['m'] == 'spa':
        raises(ValueError, sp.sun_rise_set_transit_spa, nv, 10, 10)
    elif case['m'] == 'ephem':
        raises(ValueError, sp.sun_rise_set_transit_ephem, nv, 10, 10)
        if case['w'].lower() not in ('next', 'previous'):
            raises(ValueError, sp.sun_rise_set_transit_ephem, ix, 10, 10,
                   next_or_previous=case['w'])
    else:
        raises(ValueError, sp.sun_rise_set_transit_geometric, nv, 10, 10,
               .1, 3.)
