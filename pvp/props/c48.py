"""C48 Location methods and time zones."""
import datetime as dt
import pathlib
import warnings
import zoneinfo

import h5py
import numpy as np
import pandas as pd
import pvlib
import pytz
from hypothesis import strategies as st
from pvlib import (atmosphere, clearsky, irradiance, solarposition)
from pvlib import location as L

from .. import sysgen as sg
from ..cmp import close, raises, require, snapshot, unchanged
from ..core import sub
from ..gen import ints, ZONES, epoch, fixed, flt, opt, uni, zone

RULE = ('Places anywhere, explicit and looked-up altitudes, random times in '
        'random zones, every model choice and keyword; non-trivial = more '
        'than one time or a keyword given.')

APPARENT = ['simple', 'kasten1966', 'kastenyoung1989', 'gueymard1993',
            'pickering2002', 'gueymard2003']
TRUE = ['youngirvine1967', 'young1994']


def place(lat=90):
    return fixed(lat=flt(-lat, lat, (0,)), lon=flt(-180, 180, (0,)),
                 alt=opt(flt(-400, 5000, (0,))),
                 name=st.sampled_from([None, 'x']))


LAND = [(39, -105), (52, 20), (25, 80), (0, 22), (-10, -55), (-25, 135),
        (60, 95), (32, 88), (31.5, 35.5), (45, -75), (36, -117), (-32, -69)]


def land():
    """mostly places on land"""
    near = st.tuples(st.sampled_from(LAND), uni(-6, 6), uni(-6, 6)).map(
        lambda t: (t[0][0] + t[1] + .03, t[0][1] + t[2] + .03))
    return st.tuples(place(), near, st.integers(0, 4)).map(
        lambda t: dict(t[0], lat=t[1][0], lon=t[1][1]) if t[2] else t[0])


def times():
    return fixed(e=st.lists(epoch(), min_size=1, max_size=4, unique=True),
                 tz=zone)


def index(t):
    return pd.DatetimeIndex(pd.to_datetime(t['e'], unit='s', utc=True)
                            ).tz_convert(t['tz'])


def make(p, **k):
    return L.Location(p['lat'], p['lon'], altitude=p['alt'], name=p['name'],
                      **k)


def reference_altitude(lat, lon):
    """value of the map cell that holds the point; None on a cell edge"""
    y, x = (90 - lat) * 12, (lon + 180) * 12
    for v in (y, x):
        if abs(v - round(v)) < 1e-6 and 0 < round(v) and not (
                v == 2160 or v == 4320):
            return None
    i, j = min(int(y), 2159), min(int(x), 4319)
    f = pathlib.Path(pvlib.__file__).parent / 'data' / 'Altitude.h5'
    with h5py.File(f, 'r') as h:
        v = int(h['Altitude'][i, j])
    return 0 if v == 255 else v * 28 - 450


@sub(lambda: fixed(p=land(), tz=zone, set=opt(flt(-90, 90)),
                   bad=st.sampled_from(['lat+', 'lat-', 'lon+', 'lon-'])),
     quick=800)
def altitude(case, ctx):
    """attributes, and the altitude looked up when none is given"""
    p = case['p']
    want = reference_altitude(p['lat'], p['lon'])
    got = L.lookup_altitude(p['lat'], p['lon'])
    if want is not None:
        close(got, want, 0, 1e-9, 'lookup_altitude')
    loc = make(p, tz=case['tz'])
    close(loc.altitude, got if p['alt'] is None else p['alt'], 0, 0,
          'altitude')
    require((loc.latitude, loc.longitude, loc.name, loc.tz) == (
        p['lat'], p['lon'], p['name'], case['tz']), 'attributes')
    r = repr(loc)
    for k in ('name', 'latitude', 'longitude', 'altitude', 'tz'):
        require(f'{k}: {getattr(loc, k)}' in r, f'{k} missing in {r!r}')
    k, s = case['bad'][:3], float(case['bad'][3] + '1')
    d = abs(case['set'] or 0) + .1
    args = (s * (90 + d), p['lon']) if k == 'lat' else (
        p['lat'], s * (180 + d))
    raises(ValueError, L.lookup_altitude, *args, what='outside the map')
    ctx.label('looked up' if p['alt'] is None else 'given')
    if not want:
        ctx.trivial()


TZ = st.one_of(
    st.tuples(st.just('name'), zone), st.tuples(st.just('zoneinfo'), zone),
    st.tuples(st.just('pytz'), zone),
    st.tuples(st.just('int'), st.integers(-12, 14)),
    st.tuples(st.just('float'), st.integers(-12, 14)),
    st.tuples(st.just('utc'), st.just(0)))
BAD = st.sampled_from(['Nowhere/City', 'EST7', '', 5.5, -3.25, 99, -99, 1e3,
                       None, [1], {'a': 1}, 'UTC+1', float('nan')])


def zone_arg(kind, v):
    return {'name': lambda: v, 'zoneinfo': lambda: zoneinfo.ZoneInfo(v),
            'pytz': lambda: pytz.timezone(v), 'int': lambda: v,
            'float': lambda: float(v), 'utc': lambda: dt.timezone.utc}[kind]()


def offset(z, e):
    return dt.datetime.fromtimestamp(e, z).utcoffset()


@sub(lambda: fixed(tz=TZ, then=TZ, bad=BAD, e=st.lists(
    epoch(0), min_size=1, max_size=5)), quick=800)
def zones(case, ctx):
    """a zone denotes the same offsets however it is given"""
    def check(loc, kind, v):
        require(isinstance(loc.tz, str), f'tz is {loc.tz!r}')
        z = zoneinfo.ZoneInfo(loc.tz)
        for e in case['e']:
            if kind in ('int', 'float', 'utc'):
                want = dt.timedelta(hours=v)
            else:
                want = offset(zoneinfo.ZoneInfo(v), e)
            require(offset(z, e) == want,
                    f'{kind} {v}: offset {offset(z, e)}, expected {want}')
        if kind in ('name', 'zoneinfo', 'pytz'):
            require(loc.tz == v, f'tz {loc.tz!r}, expected {v!r}')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            require(str(loc.pytz) == loc.tz, 'pytz and tz differ')
    loc = L.Location(32, -110, zone_arg(*case['tz']), 700)
    check(loc, *case['tz'])
    bad = (TypeError, ValueError, KeyError)
    raises(bad, L.Location, 32, -110, case['bad'], 700, what='invalid zone')
    raises(bad, setattr, loc, 'tz', case['bad'], what='invalid zone')
    check(loc, *case['tz'])
    loc.tz = zone_arg(*case['then'])
    check(loc, *case['then'])
    raises(AttributeError, setattr, loc, 'pytz', pytz.utc,
           what='assigning pytz')
    ctx.label(case['tz'][0])


SOLPOS = ['nrel_numpy', 'ephemeris', 'pyephem']


@sub(lambda: fixed(p=place(), t=times(), kw=sg.present(
    pressure=flt(5e4, 1.1e5), temperature=flt(-40, 50),
    method=st.sampled_from(SOLPOS))), quick=400, shards=2)
def position(case, ctx):
    """get_solarposition"""
    p, t, kw = case['p'], index(case['t']), case['kw']
    loc = make(p, tz=case['t']['tz'])
    want = solarposition.get_solarposition(
        t, p['lat'], p['lon'], loc.altitude, **dict(dict(
            pressure=atmosphere.alt2pres(loc.altitude), temperature=12), **kw))
    sg.same(loc.get_solarposition(t, **kw), want, 'get_solarposition')
    if not kw and len(t) == 1:
        ctx.trivial()


@sub(lambda: fixed(p=place(), t=times(), model=st.sampled_from(
    APPARENT + TRUE), given=st.booleans(), order=st.booleans(),
    solpos=st.lists(st.tuples(flt(0, 100, (90,)), flt(0, 2)),
                    min_size=4, max_size=4)), quick=500)
def airmass(case, ctx):
    """get_airmass uses true or refracted zenith as the model needs"""
    p, t = case['p'], index(case['t'])
    loc = make(p, tz=case['t']['tz'])
    if case['given']:
        sp = pd.DataFrame({'zenith': [a for a, _ in case['solpos'][:len(t)]]},
                          index=t)
        sp['apparent_zenith'] = sp['zenith'] - [
            b for _, b in case['solpos'][:len(t)]]
        if case['order']:
            sp = sp[['apparent_zenith', 'zenith']]
        kw = dict(solar_position=sp)
    else:
        sp, kw = loc.get_solarposition(t), dict(times=t)
    b = snapshot(sp)
    z = sp['zenith' if case['model'] in TRUE else 'apparent_zenith']
    rel = atmosphere.get_relative_airmass(z, case['model'])
    want = pd.DataFrame({
        'airmass_relative': rel, 'airmass_absolute':
        atmosphere.get_absolute_airmass(
            rel, atmosphere.alt2pres(loc.altitude))}, index=t)
    sg.same(loc.get_airmass(model=case['model'], **kw), want, 'get_airmass')
    unchanged(b, sp, 'solar_position')
    if case['model'] == 'kastenyoung1989':
        sg.same(loc.get_airmass(**kw), want, 'default model')
    raises(ValueError, loc.get_airmass, model=case['model'] + '1', **kw,
           what='unknown model')
    if not np.isfinite(rel).any():
        ctx.trivial()
    ctx.label(case['model'])


CLEAR = ['ineichen', 'haurwitz', 'simplified_solis']


@sub(lambda: fixed(
    p=place(), t=times(), model=st.sampled_from(CLEAR), given=st.booleans(),
    common=sg.present(dni_extra=flt(1300, 1450), pressure=flt(6e4, 1.1e5)),
    kw=fixed(ineichen=sg.present(linke_turbidity=flt(1, 8),
                                 airmass_absolute=flt(.5, 10),
                                 perez_enhancement=st.booleans(),
                                 interp_turbidity=st.booleans()),
             simplified_solis=sg.present(aod700=flt(0, .45),
                                         precipitable_water=flt(.2, 10)),
             haurwitz=st.just({})),
    tl=st.lists(flt(1, 8), min_size=4, max_size=4),
    solpos=st.lists(st.tuples(flt(0, 100), flt(0, 2)),
                    min_size=4, max_size=4)), quick=600, shards=2)
def clear_sky(case, ctx):
    """get_clearsky for every model"""
    p, t, m = case['p'], index(case['t']), case['model']
    loc = make(p, tz=case['t']['tz'])
    if 'linke_turbidity' in case['kw'][m]:
        case['kw'][m].pop('interp_turbidity', None)
    kw = dict(case['common'], **case['kw'][m])
    pres = kw.get('pressure', atmosphere.alt2pres(loc.altitude))
    extra = kw.get('dni_extra')
    if extra is None:
        extra = irradiance.get_extra_radiation(t)
    if case['given']:
        sp = pd.DataFrame({'zenith': [a for a, _ in case['solpos'][:len(t)]]},
                          index=t)
        sp['apparent_zenith'] = sp['zenith'] - [
            b for _, b in case['solpos'][:len(t)]]
        sp['apparent_elevation'] = 90 - sp['apparent_zenith']
        kw['solar_position'] = sp
    else:
        sp = solarposition.get_solarposition(
            t, p['lat'], p['lon'], altitude=loc.altitude, pressure=pres,
            temperature=12)
    b = snapshot(kw)
    asked = []

    def table(time, latitude, longitude, *a, **k):
        asked.append((latitude, longitude, a, k))
        return pd.Series(case['tl'][:len(time)], index=time)
    old = clearsky.lookup_linke_turbidity
    clearsky.lookup_linke_turbidity = table      # the table is not shipped
    try:
        got = loc.get_clearsky(t, m, **kw)
        if m == 'ineichen':
            got2 = loc.get_clearsky(t, **kw)
    finally:
        clearsky.lookup_linke_turbidity = old
    unchanged(b, kw, 'arguments')
    if m == 'haurwitz':
        want = clearsky.haurwitz(sp['apparent_zenith'])
    elif m == 'simplified_solis':
        want = clearsky.simplified_solis(
            sp['apparent_elevation'], pressure=pres, dni_extra=extra,
            **case['kw'][m])
    else:
        ka = dict(case['kw'][m])
        tl = ka.pop('linke_turbidity', None)
        interp = ka.pop('interp_turbidity', True)
        if tl is None:
            tl = pd.Series(case['tl'][:len(t)], index=t)
            for la, lo, a, k in asked:
                require((la, lo) == (p['lat'], p['lon']),
                        'turbidity of another place')
                require((list(a) + [True])[-1] == interp if 'interp_turbidity'
                        not in k else k['interp_turbidity'] == interp,
                        'interp_turbidity not passed on')
            ctx.label('turbidity looked up')
        am = ka.pop('airmass_absolute', None)
        if am is None:
            am = atmosphere.get_absolute_airmass(
                atmosphere.get_relative_airmass(sp['apparent_zenith']),
                atmosphere.alt2pres(loc.altitude))
        want = clearsky.ineichen(sp['apparent_zenith'], am, tl, loc.altitude,
                                 dni_extra=extra, **ka)
        sg.same(got2, want, 'default model')
    sg.same(got[want.columns], want, m)
    require(set(got.columns) == set(want.columns), 'columns')
    raises(ValueError, loc.get_clearsky, t, m + '1', solar_position=sp,
           what='unknown model')
    if not (np.asarray(want['ghi'], float) > 0).any():
        ctx.trivial()
    ctx.label(m)


@sub(lambda: fixed(p=place(58), t=times(), m=st.sampled_from(
    ['spa', 'pyephem', 'geometric']), kw=fixed(
        spa=sg.present(delta_t=flt(50, 80)),
        pyephem=sg.present(next_or_previous=st.sampled_from(
            ['next', 'previous']), altitude=flt(0, 2000),
            horizon=st.sampled_from(['-0:34', '+0:00']),
            pressure=flt(5e4, 1.1e5), temperature=flt(-20, 40)),
        geometric=st.just({})),
    dec=st.lists(flt(-.4, .4), min_size=4, max_size=4),
    eot=st.lists(flt(-15, 15), min_size=4, max_size=4)),
    quick=300, shards=2)
def rise_set(case, ctx):
    """get_sun_rise_set_transit"""
    p, t, m = case['p'], index(case['t']), case['m']
    loc = make(p, tz=case['t']['tz'])
    kw = dict(case['kw'][m])
    if m == 'geometric':
        kw = dict(declination=np.array(case['dec'][:len(t)]),
                  equation_of_time=np.array(case['eot'][:len(t)]))
        r = solarposition.sun_rise_set_transit_geometric(
            t, p['lat'], p['lon'], **kw)
        want = dict(sunrise=r[0], sunset=r[1], transit=r[2])
    else:
        want = {'spa': solarposition.sun_rise_set_transit_spa,
                'pyephem': solarposition.sun_rise_set_transit_ephem}[m](
                    t, p['lat'], p['lon'], **kw)
    got = loc.get_sun_rise_set_transit(t, m, **kw)
    require(set(got.columns) == {'sunrise', 'sunset', 'transit'}
            and got.index.equals(t), 'columns or index')
    for k in ('sunrise', 'sunset', 'transit'):
        g, e = pd.DatetimeIndex(got[k]), pd.DatetimeIndex(want[k])
        require(str(g.tz) == str(e.tz) and g.equals(e), f'{k}: {g}, '
                f'expected {e}')
    if m == 'spa':
        require(loc.get_sun_rise_set_transit(t, **kw).equals(got),
                'default method')
    raises(ValueError, loc.get_sun_rise_set_transit, t, m + '1',
           what='unknown method')
    ctx.label(m)


@sub(lambda: fixed(kind=st.sampled_from(['tmy2', 'tmy3', 'epw']),
                   lat=flt(-90, 90), lon=flt(-180, 180), alt=flt(-400, 5000),
                   tz=st.integers(-12, 14), attach=st.booleans(),
                   name=st.sampled_from(['A', 'New Town', 'é'])), quick=400)
def from_file(case, ctx):
    """places described by file metadata"""
    c = case
    meta = dict(latitude=c['lat'], longitude=c['lon'], altitude=c['alt'],
                TZ=c['tz'] if c['kind'] == 'tmy2' else float(c['tz']))
    meta.update({'tmy2': dict(WBAN='1', City=c['name'], State='CO'),
                 'tmy3': dict(USAF=3, Name=c['name'], State='CO'),
                 'epw': {'loc': 'LOCATION', 'city': c['name'],
                         'state-prov': '', 'country': 'X'}}[c['kind']])
    b = snapshot(meta)
    data = pd.DataFrame({'ghi': [1.]}) if c['attach'] else None
    f = L.Location.from_epw if c['kind'] == 'epw' else L.Location.from_tmy
    loc = f(meta, data) if c['attach'] else f(meta)
    unchanged(b, meta, 'metadata')
    require((loc.latitude, loc.longitude, loc.altitude, loc.name) == (
        c['lat'], c['lon'], c['alt'], c['name']), 'attributes')
    require(offset(zoneinfo.ZoneInfo(loc.tz), 10**9)
            == dt.timedelta(hours=c['tz']), f'tz {loc.tz}')
    if c['attach']:
        require(loc.weather is data, 'weather is not the data')
        if c['kind'] != 'epw':
            require(loc.tmy_data is data, 'tmy_data is not the data')
    else:
        require(not hasattr(loc, 'weather'), 'weather without data')
    require(isinstance(loc, L.Location), 'class')


@sub(lambda: fixed(t=times(), z=zone, kind=st.sampled_from(
    ['datetime', 'Timestamp', 'index', 'Series', 'DataFrame']),
    naive=st.booleans(), us=ints(0, 999999)), quick=300)
def to_utc(case, ctx):
    """localize_to_utc: the instant that the time denotes at the place"""
    from pvlib import tools
    c = case
    loc = L.Location(10, 20, tz=c['z'])
    ix = index(dict(c['t'], e=sorted(c['t']['e']))) + pd.Timedelta(
        c['us'], 'us')
    if c['naive']:
        wall = ix.tz_convert(c['z']).tz_localize(None)
        try:
            ix = wall.tz_localize(c['z'])
        except ValueError:                  # the clock was set back
            ctx.trivial()
            return
    else:
        wall = ix
    if c['kind'] in ('datetime', 'Timestamp'):
        x = wall[0]
        if c['kind'] == 'datetime':
            x = x.to_pydatetime()
        got = tools.localize_to_utc(x, loc)
        require(got == ix[0] and got.utcoffset() == dt.timedelta(0),
                f'{x!r} at {c["z"]}: {got!r}')
    else:
        v = np.arange(len(ix)) * 1.5
        x = (wall if c['kind'] == 'index' else pd.Series(v, wall)
             if c['kind'] == 'Series' else pd.DataFrame({'a': v}, wall))
        b = snapshot(x)
        got = tools.localize_to_utc(x, loc)
        unchanged(b, x)
        require(type(got) is type(x), f'{type(got)} for {type(x)}')
        gi = got if c['kind'] == 'index' else got.index
        require(list(gi) == list(ix) and str(gi.tz) == 'UTC',
                f'{wall} at {c["z"]}: {gi}')
        if c['kind'] != 'index':
            require((np.ravel(got) == v).all(), 'values changed')
    ctx.label(c['kind'], 'naive' if c['naive'] else 'aware')


@sub(lambda: fixed(s=ints(-2 * 10**9, 4 * 10**9), us=st.one_of(
    st.just(0), ints(0, 999999)), z=st.sampled_from(ZONES),
    z2=st.sampled_from(ZONES), naive=st.booleans()), quick=200)
def dublin_days(case, ctx):
    """datetime_to_djd counts days since 1899-12-31 12:00 UTC and
    djd_to_datetime is its inverse, in the zone asked for"""
    from pvlib import tools
    c = case
    t = dt.datetime(1970, 1, 1, tzinfo=dt.timezone.utc) + dt.timedelta(
        seconds=c['s'], microseconds=c['us'])
    x = t.replace(tzinfo=None) if c['naive'] else t.astimezone(
        zoneinfo.ZoneInfo(c['z']))
    want = 25567.5 + (c['s'] + c['us'] / 1e6) / 86400
    d = tools.datetime_to_djd(x)
    require(abs(d - want) < 3e-11, f'{x!r}: {d!r}, expected {want!r}')
    kw = {} if c['naive'] else dict(tz=c['z2'])
    back = tools.djd_to_datetime(d, **kw)
    require(abs((back - t).total_seconds()) < 3e-6, f'{x!r}: back {back!r}')
    off = dt.timedelta(0) if c['naive'] else back.astimezone(
        zoneinfo.ZoneInfo(c['z2'])).utcoffset()
    require(back.utcoffset() == off, f'{back!r} in the wrong zone')
