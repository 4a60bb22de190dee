"""C52 Web data clients."""
import datetime as dt
import gzip
import io
import os
import shutil
import tempfile
import warnings
import zipfile

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib import iotools

from .. import iogen as ig
from ..cmp import Fail, raises, require
from ..core import sub
from ..gen import ints, fixed
from ..webgen import ftp, query, reply, web
from . import c51
from .c51 import Rnd, columns, header, names, stamp, times

RULE = ('Generated argument sets and service responses for every download '
        'client, answered by a stub HTTP layer that records the request '
        '(loopback server or stub FTP for the file archives): the request '
        'must carry the arguments, the result must equal the payload, '
        'service errors must surface with their message; non-trivial = a '
        'payload of three or more records or an error response.')
ASSUMPTIONS = ['request formats are those of the service documentation as '
               'restated in the pvlib docstrings']

MAP = st.sampled_from([None, True, False])
MSG = st.sampled_from([
    'API_KEY_INVALID', 'Location over the sea. Please, select another',
    'endyear: Incorrect value', 'No data for "x" at 10 % of sites',
    'You have exceeded your rate limit.', 'déjà vu: 7/24'])
KEY = st.sampled_from(['DEMO_KEY', 'a+b/c==', 'k y&z', '0f3b-ÄÖ'])
LATLON = dict(lat=st.one_of(ints(-90000, 90000),
                            st.sampled_from([0, -1, 10])),
              lon=st.one_of(ints(-180000, 180000),
                            st.sampled_from([0, -1, 10])))


def says(fn, exc, text, what):
    """fn raises `exc` whose message contains the service's text"""
    try:
        r = fn()
    except exc as e:
        require(text in str(e), f'{what}: the message {text!r} of the '
                f'service is lost in {e!r}')
    except Exception as e:
        raise Fail(f'{what}: raised {e!r}, expected {exc}')
    else:
        raise Fail(f'{what}: an error response became {type(r).__name__}')


def once(seen, what):
    require(len(seen) == 1, f'{what}: {len(seen)} requests')
    return seen[0]


def opt(kw, **k):
    for name, v in k.items():
        if v is not None:
            kw[name] = v
    return kw


# ----------------------------------------------------------------- NSRDB
NSRDB = {
    'aggregated': ('nsrdb-GOES-aggregated-v4-0-0-download.csv', False),
    'tmy': ('nsrdb-GOES-tmy-v4-0-0-download.csv', True),
    'conus': ('nsrdb-GOES-conus-v4-0-0-download.csv', False),
    'full_disc': ('nsrdb-GOES-full-disc-v4-0-0-download.csv', False),
    'polar': ('nsrdb-polar-v4-0-0-download.csv', False),
    'polar_tmy': ('nsrdb-polar-tmy-v4-0-0-download.csv', True)}
PSM_ASK = {'ghi': 'ghi', 'dhi': 'dhi', 'dni': 'dni',
           'ghi_clear': 'clearsky_ghi', 'dhi_clear': 'clearsky_dhi',
           'dni_clear': 'clearsky_dni', 'solar_zenith': 'solar_zenith_angle',
           'temp_air': 'air_temperature', 'temp_dew': 'dew_point',
           'relative_humidity': 'relative_humidity',
           'pressure': 'surface_pressure', 'wind_speed': 'wind_speed',
           'wind_direction': 'wind_direction', 'albedo': 'surface_albedo',
           'precipitable_water': 'total_precipitable_water', 'aod': 'aod',
           'cloud_type': 'cloud_type', 'air_temperature': 'air_temperature',
           'alpha': 'alpha', 'surface_albedo': 'surface_albedo'}
PSM_DEFAULT = ('air_temperature,dew_point,dhi,dni,ghi,surface_albedo,'
               'surface_pressure,wind_direction,wind_speed')


@sub(lambda: c51.psm4_case(
    fn=st.sampled_from(list(NSRDB)), key=KEY,
    year=st.one_of(st.none(), st.integers(1998, 2024),
                   st.sampled_from(['tmy', 'tdy-2020', '2019'])),
    interval=st.sampled_from([None, 5, 10, 30, 60]),
    params=st.one_of(st.none(), st.lists(st.sampled_from(list(PSM_ASK)),
                                         min_size=1, max_size=6,
                                         unique=True)),
    leap=MAP, utc=MAP, who=st.booleans(), url=st.sampled_from(
        [None, None, 'https://mirror.example.org/x/y.csv']),
    la=st.floats(-90, 90), lo=st.floats(-180, 180),
    err=st.sampled_from([None, None, None, 'json', 'text']), msg=MSG,
    status=st.sampled_from([400, 403, 429, 500])), quick=400)
def nsrdb(case, ctx):
    c = case
    f = getattr(iotools, 'get_nsrdb_psm4_' + c['fn'])
    path, tmy = NSRDB[c['fn']]
    text, cols, want, ts, head = c51.psm4_text(c, Rnd(c['seed']))
    year = c['year']
    if year is None and not tmy:
        year = 2020
    kw = opt({}, year=year, time_step=c['interval'], parameters=c['params'],
             leap_day=c['leap'], utc=c['utc'], url=c['url'],
             map_variables=c['map'])
    if c['who']:
        kw.update(full_name='Zoë Doe', affiliation='A & B, "C"')
    if c['err'] == 'json':
        r = reply({'errors': [c['msg']], 'inputs': {}}, c['status'])
    elif c['err'] == 'text':
        r = reply(f'<html>{c["msg"]}</html>', c['status'])
    else:
        r = reply(text, ctype='text/csv')
    what = f'get_nsrdb_psm4_{c["fn"]}'
    with web(lambda q: r) as seen:
        def call():
            return f(c['la'], c['lo'], c['key'], 'a.b+c@d.org', **kw)
        if c['err']:
            import requests
            says(call, requests.HTTPError, c['msg'], what)
        else:
            data, meta = call()
    q = once(seen, what)
    require(q.method == 'GET' and q.url == (
        c['url'] or 'https://developer.nlr.gov/api/nsrdb/v2/solar/' + path),
        f'{what}: {q.method} {q.url}')
    wkt = q.query.pop('wkt', '')
    require(wkt.startswith('POINT(') and wkt.endswith(')')
            and wkt.count(' ') == 1, f'{what}: wkt {wkt!r}')
    lo, la = wkt[6:-1].split(' ')
    require(abs(float(lo) - c['lo']) <= 5.0001e-5
            and abs(float(la) - c['la']) <= 5.0001e-5,
            f'{what}: wkt {wkt!r} for latitude {c["la"]}, longitude '
            f'{c["lo"]}')
    leap = c['leap'] if c['leap'] is not None else not tmy
    query(q, dict(
        api_key=c['key'], email='a.b+c@d.org', reason='pvlib python',
        full_name='Zoë Doe' if c['who'] else 'pvlib python',
        affiliation='A & B, "C"' if c['who'] else 'pvlib python',
        mailing_list='false', names=str('tmy' if year is None else year),
        attributes=PSM_DEFAULT if c['params'] is None else ','.join(
            PSM_ASK[k] for k in c['params']),
        leap_day=str(leap).lower(), utc=str(bool(c['utc'])).lower(),
        interval=c['interval'] or 60), what)
    if not c['err']:
        c51.psm4_check(data, meta, c, cols, want, ts, head)
        if c['n'] < 3:
            ctx.trivial()
    ctx.label(c['fn'], 'error' if c['err'] else 'data')


# ----------------------------------------------------------------- PVGIS
YEAR = st.one_of(st.none(), st.none(), st.tuples(
    st.integers(2005, 2023), st.sampled_from(['int', 'str', 'ts', 'dt'])))
HORIZON = st.one_of(st.none(), st.none(), st.lists(st.sampled_from(
    [0, 10, 20.5, 90, 3]), min_size=1, max_size=8))


def year_arg(y):
    if y is None:
        return None
    y, how = y
    return {'int': y, 'str': f'{y}-06-01', 'ts': pd.Timestamp(y, 12, 31, 23),
            'dt': dt.datetime(y, 1, 1)}[how]


def pvgis_error(c):
    if c['err'] == 'json':
        return reply({'message': c['msg'], 'status': c['status']},
                     c['status'])
    return reply(f'<html>{c["msg"]}</html>', c['status'])


def pvgis_refused(c, call, what):
    import requests
    says(call, requests.HTTPError,
         c['msg'] if c['err'] == 'json' else str(c['status']), what)


PVGIS_ERR = dict(err=st.sampled_from([None, None, None, None, 'json',
                                      'text']), msg=MSG,
                 status=st.sampled_from([400, 404, 429, 500]),
                 url=st.sampled_from([None, None,
                                      'https://mirror.example.org/api/v9/']))
PVGIS = 'https://re.jrc.ec.europa.eu/api/'


@sub(lambda: c51.hourly_case(
    fmt=st.sampled_from([None, 'json', 'csv']), y0=YEAR, y1=YEAR,
    db=st.sampled_from([None, 'PVGIS-SARAH3', 'PVGIS-ERA5']), horizon=HORIZON,
    comp=MAP, tilt=st.sampled_from([None, 0, 30, 45.5, 90]),
    azimuth=st.sampled_from([None, 0, 90, 180, 180.5, 270, 359]),
    useh=MAP, pv=MAP, power=st.sampled_from([None, 1, 2.5]),
    tech=st.sampled_from([None, 'CIS', 'CdTe']),
    mount=st.sampled_from([None, 'building']),
    loss=st.sampled_from([None, 0, 14.5]), track=st.sampled_from(
        [None, 0, 1, 5]), ot=MAP, oa=MAP, **PVGIS_ERR), quick=400)
def pvgis_hourly(case, ctx):
    c, what = case, 'get_pvgis_hourly'
    fmt = c['fmt'] or 'json'
    text, emeta = (c51.hourly_json if fmt == 'json' else c51.hourly_csv)(c)
    r = pvgis_error(c) if c['err'] else reply(
        text, ctype='application/json' if fmt == 'json' else 'text/csv')
    kw = opt({}, start=year_arg(c['y0']), end=year_arg(c['y1']),
             raddatabase=c['db'], components=c['comp'],
             surface_tilt=c['tilt'], surface_azimuth=c['azimuth'],
             outputformat=c['fmt'], usehorizon=c['useh'],
             userhorizon=c['horizon'], pvcalculation=c['pv'],
             peakpower=c['power'], pvtechchoice=c['tech'],
             mountingplace=c['mount'], loss=c['loss'],
             trackingtype=c['track'], optimal_surface_tilt=c['ot'],
             optimalangles=c['oa'], url=c['url'], map_variables=c['map'])
    with web(lambda q: r) as seen:
        def call():
            return iotools.get_pvgis_hourly(c['lat'] / 1e3, c['lon'] / 1e3,
                                            **kw)
        if c['err']:
            pvgis_refused(c, call, what)
        else:
            data, meta = call()
    q = once(seen, what)
    require(q.method == 'GET' and q.url == (c['url'] or PVGIS)
            + 'seriescalc', f'{what}: {q.method} {q.url}')

    def d(k, default):
        return default if c[k] is None else c[k]
    want = dict(lat=c['lat'] / 1e3, lon=c['lon'] / 1e3, outputformat=fmt,
                angle=d('tilt', 0), aspect=d('azimuth', 180) - 180,
                pvcalculation=int(d('pv', 0)),
                pvtechchoice=d('tech', 'crystSi'),
                mountingplace=d('mount', 'free'), trackingtype=d('track', 0),
                components=int(d('comp', 1)), usehorizon=int(d('useh', 1)),
                optimalangles=int(d('oa', 0)),
                optimalinclination=int(d('ot', 0)), loss=d('loss', 0))
    opt(want, raddatabase=c['db'], peakpower=c['power'],
        startyear=c['y0'] and c['y0'][0], endyear=c['y1'] and c['y1'][0])
    if c['horizon'] is not None:
        got = q.query.pop('userhorizon', '')
        require([float(x) for x in got.split(',')] == c['horizon'],
                f'{what}: userhorizon {got!r} for {c["horizon"]}')
    query(q, want, what)
    if not c['err']:
        c51.hourly_check(data, meta, emeta, c)
        if c['n'] < 3:
            ctx.trivial()
    ctx.label(fmt, 'error' if c['err'] else 'data')


@sub(lambda: fixed(
    seed=ints(0, 10**6), offset_min=st.sampled_from([0, 0, 30]),
    alt=ints(-400, 5000), map=MAP, offset_line=st.booleans(),
    fmt=st.sampled_from([None, 'json', 'csv']), eol=st.sampled_from(
        ['\n', '\r\n']), ito=ints(-5000, 5000),
    roll=st.one_of(st.none(), st.integers(-12, 14)),
    coerce=st.sampled_from(['default', 'default', None, 1990, 2001, 2020]),
    useh=MAP, horizon=HORIZON, y0=st.sampled_from([None, 2005, 2010]),
    y1=st.sampled_from([None, 2016, 2023]), **LATLON, **PVGIS_ERR),
    quick=80, thorough=800, shards=4)
def pvgis_tmy(case, ctx):
    c, what = case, 'get_pvgis_tmy'
    fmt = c['fmt'] or 'json'
    if c['err']:
        r = pvgis_error(c)
    else:
        text, emeta = (c51.tmy_json if fmt == 'json' else c51.tmy_csv)(c)
        r = reply(text)
    kw = opt({}, outputformat=c['fmt'], usehorizon=c['useh'],
             userhorizon=c['horizon'], startyear=c['y0'], endyear=c['y1'],
             map_variables=c['map'], url=c['url'],
             roll_utc_offset=c['roll'])
    if c['coerce'] != 'default':
        kw['coerce_year'] = c['coerce']
    with web(lambda q: r) as seen:
        def call():
            return iotools.get_pvgis_tmy(c['lat'] / 1e3, c['lon'] / 1e3,
                                         **kw)
        if c['err']:
            pvgis_refused(c, call, what)
        else:
            data, meta = call()
    q = once(seen, what)
    require(q.method == 'GET' and q.url == (c['url'] or PVGIS) + 'tmy',
            f'{what}: {q.method} {q.url}')
    want = dict(lat=c['lat'] / 1e3, lon=c['lon'] / 1e3, outputformat=fmt)
    if c['useh'] is False:
        want['usehorizon'] = 0
    else:
        require(float(q.query.pop('usehorizon', 1)) == 1,
                f'{what}: usehorizon')
    opt(want, startyear=c['y0'], endyear=c['y1'])
    if c['horizon'] is not None:
        got = q.query.pop('userhorizon', '')
        require([float(x) for x in got.split(',')] == c['horizon'],
                f'{what}: userhorizon {got!r} for {c["horizon"]}')
    query(q, want, what)
    ctx.label(fmt, 'error' if c['err'] else 'data')
    if c['err']:
        return
    on = c['map'] is not False
    if c['coerce'] is None and c['roll'] is None:
        return c51.tmy_check(data, meta, emeta, c, on)
    # the requested year in the requested zone, starting at midnight on
    # January 1st local time
    year = 1990 if c['coerce'] in (None, 'default') else c['coerce']
    tz = c['roll'] or 0
    _, ts, vals = c51.tmy_parts(c)
    got = names(c51.TMY_COLS, c51.PVG_MAP, on)
    require(list(data.columns) == got, f'columns {list(data.columns)}')
    require(len(data) == len(ts), f'{len(data)} rows')
    n = len(ts)
    for k, v in zip(got, vals):
        g = data[k].to_numpy()
        require(g.dtype.kind == 'f', f'{k} is {g.dtype}')
        e = v[(np.arange(n) - tz) % n]
        bad = np.flatnonzero(g != e)
        if len(bad):
            require(False, f'{k}[{bad[0]}] = {g[bad[0]]}, expected '
                    f'{e[bad[0]]} (rolled by {tz} h)')
    wall = pd.DatetimeIndex([t.replace(year=year) for t in ts])
    g = data.index
    require(isinstance(g, pd.DatetimeIndex) and g.tz is not None
            and bool((g.tz_localize(None) == wall).all())
            and {t.utcoffset().total_seconds() for t in g[::500]}
            == {tz * 3600}, f'index {g[:3]} for year {year}, offset {tz} h')
    require(meta == emeta, f'metadata {meta}, expected {emeta}')


@sub(lambda: fixed(
    seed=ints(0, 10**6), offset_min=st.just(0), map=MAP,
    fmt=st.sampled_from(['epw', 'epw', 'epw', 'basic', 'pdf']),
    roll=st.one_of(st.none(), st.integers(-12, 14)),
    coerce=st.sampled_from(['default', 'default', None, 2001, 2020]),
    file=st.sampled_from([None, 'x.epw', 'y.EPW', 'z.txt']), **LATLON),
    quick=24, thorough=300, shards=4)
def pvgis_tmy_epw(case, ctx):
    """the EPW form of a typical year is read as an EPW file is, then
    brought to the requested year and zone; other forms are refused"""
    c, what = case, 'get_pvgis_tmy'
    _, ts, _ = c51.tmy_parts(c)
    r = np.random.default_rng(c['seed'])
    v = np.round(r.uniform(0, 99, (len(ts), 29)), 1)
    rows = [','.join([f'{t.year},{t.month},{t.day},{t.hour + 1},60,_',
                      *map(str, x)]) for t, x in zip(ts, v.tolist())]
    text = '\n'.join([
        f'LOCATION,unknown,-,unknown,ECMWF/ERA,unknown,{c["lat"] / 1e3},'
        f'{c["lon"] / 1e3},0.0,12.0', 'DESIGN CONDITIONS,0',
        'TYPICAL/EXTREME PERIODS,0', 'GROUND TEMPERATURES,0',
        'HOLIDAYS/DAYLIGHT SAVINGS,Yes,0,0,0', 'COMMENTS 1,a', 'COMMENTS 2,b',
        'DATA PERIODS,1,1,Data,Sunday,1/1,12/31', *rows]) + '\n'
    eframe, emeta = iotools.read_epw(io.StringIO(text))
    kw = opt({}, outputformat=c['fmt'], map_variables=c['map'],
             roll_utc_offset=c['roll'])
    if c['coerce'] != 'default':
        kw['coerce_year'] = c['coerce']
    with web(lambda q: reply(text)) as seen:
        def call():
            return iotools.get_pvgis_tmy(c['lat'] / 1e3, c['lon'] / 1e3,
                                         **kw)
        if c['fmt'] == 'epw':
            data, meta = call()
        else:
            try:
                call()
            except Exception:
                pass
            else:
                raise Fail(f'{what}: format {c["fmt"]} accepted')
            return ctx.trivial()
    q = once(seen, what)
    require(q.query.get('outputformat') == 'epw', f'{what}: {q.query}')
    require(meta == emeta, f'{what}: metadata {meta}, expected {emeta}')
    tz = c['roll'] or 0
    year = 1990 if c['coerce'] in (None, 'default') else c['coerce']
    require(list(data.columns) == list(eframe.columns), f'{what}: columns')
    same = c['coerce'] is None and c['roll'] is None
    for k in eframe:
        e = eframe[k].to_numpy()
        require(list(data[k]) == list(e if same else np.roll(e, tz)),
                f'{what}: {k} rolled by {tz} h')
    ig.stamps(data.index, ts if same else [t.replace(year=year) for t in ts],
              0 if same else tz * 3600)
    if c['file']:
        d = tempfile.mkdtemp()
        try:
            f = os.path.join(d, c['file'])
            with open(f, 'w') as h:
                h.write(text)
            fmt = {} if c['file'] != 'z.txt' else {'pvgis_format': 'epw'}
            data, meta = iotools.read_pvgis_tmy(
                f, **fmt, **opt({}, map_variables=c['map']))
            require(meta == emeta and data.index.equals(eframe.index)
                    and data.equals(eframe), 'read_pvgis_tmy of an EPW file')
            raises(ValueError, iotools.read_pvgis_tmy, f,
                   pvgis_format='basic', what='format basic')
        finally:
            shutil.rmtree(d)
    ctx.label(str(c['coerce']), 'roll' if c['roll'] else 'no roll')


@sub(lambda: fixed(
    seed=ints(0, 10**6), n=st.sampled_from([4, 8, 12, 48, 24]),
    **LATLON, **PVGIS_ERR), quick=200)
def pvgis_horizon(case, ctx):
    c, r = case, Rnd(case['seed'])
    what = 'get_pvgis_horizon'
    az = [-180 + 360 / c['n'] * k for k in range(c['n'] + 1)]
    el = [r.num(0, 40, 1) for _ in az]
    el[-1] = el[0]
    m = {'inputs': {'location': {'description': 'x'}}, 'outputs': {
        'horizon_profile': {'type': 'series'}}}
    doc = {'inputs': {'location': {'latitude': c['lat'] / 1e3}},
           'outputs': {'horizon_profile': [{'A': a, 'H_hor': e}
                                           for a, e in zip(az, el)],
                       'winter_solstice': [{'A_sun(w)': 0}]}, 'meta': m}
    rep = pvgis_error(c) if c['err'] else reply(doc)
    kw = opt({}, url=c['url'])
    if c['seed'] % 2:
        kw['timeout'] = 17
    with web(lambda q: rep) as seen:
        def call():
            return iotools.get_pvgis_horizon(c['lat'] / 1e3, c['lon'] / 1e3,
                                             **kw)
        if c['err']:
            pvgis_refused(c, call, what)
        else:
            data, meta = call()
    q = once(seen, what)
    require(q.method == 'GET' and q.url == (c['url'] or PVGIS)
            + 'printhorizon', f'{what}: {q.method} {q.url}')
    query(q, dict(lat=c['lat'] / 1e3, lon=c['lon'] / 1e3,
                  outputformat='json'), what)
    if c['seed'] % 2:
        require(q.timeout == 17, f'{what}: timeout {q.timeout}')
    ctx.label('error' if c['err'] else 'data')
    if c['err']:
        return
    require(isinstance(data, pd.Series) and data.name == 'horizon_elevation'
            and data.index.name == 'horizon_azimuth', f'{data}')
    require(len(data) == c['n'] and all(
        abs(g - a - 180) < 1e-9 for g, a in zip(data.index, az))
        and list(data) == el[:-1], f'{what}: profile {dict(data)}, served '
        f'{list(zip(az, el))}')
    require(meta == m, f'{what}: metadata {meta}')


# ------------------------------------------------------------------ CAMS
@sub(lambda: c51.cams_case(
    ident=st.sampled_from([None, 'mcclear', 'cams_radiation']),
    height=st.sampled_from([None, None, 0, 12, 1500.5, -5]),
    ask=st.sampled_from(['1h', '1min', '15min', '1d', '1M', None]),
    ref=st.sampled_from([None, 'UT', 'TST']), verbose=MAP,
    url=st.sampled_from([None, None, 'api.example.org']),
    d0=ints(0, 7000), days=ints(0, 500),
    how=st.sampled_from(['ts', 'str', 'dt', 'aware']),
    mail=st.sampled_from(['a@b.org', 'first.last+x@sub.b.org']),
    err=st.sampled_from([None, None, None, 'xml']), msg=MSG,
    status=st.sampled_from([400, 500])), quick=400)
def cams(case, ctx):
    c, what = case, 'get_cams'
    text, *rest = c51.cams_text(c)
    if c['err']:
        r = reply('<?xml version="1.0"?><ows:ExceptionReport><ows:Exception>'
                  f'<ows:ExceptionText>{c["msg"]}</ows:ExceptionText>'
                  '</ows:Exception></ows:ExceptionReport>', c['status'],
                  'text/xml; charset=utf-8')
    else:
        r = reply(text, ctype='text/csv')
    a = dt.datetime(2004, 2, 1) + dt.timedelta(days=c['d0'])
    b = a + dt.timedelta(days=c['days'])

    def day(t):
        return {'ts': pd.Timestamp(t), 'str': t.strftime('%Y-%m-%d'),
                'dt': t, 'aware': pd.Timestamp(t, tz='UTC')}[c['how']]
    kw = c51.cams_kw(c)
    opt(kw, identifier=c['ident'], altitude=c['height'], time_step=c['ask'],
        time_ref=c['ref'], verbose=c['verbose'], url=c['url'])
    la, lo = c['lat'] / 1e4, c['lon'] / 1e4
    step, ref = c['ask'] or '1h', c['ref'] or 'UT'
    loud = bool(c['verbose']) and step == '1min' and ref == 'UT'
    with web(lambda q: r) as seen, warnings.catch_warnings(
            record=True) as w:
        warnings.simplefilter('always')

        def call():
            return iotools.get_cams(la, lo, day(a), day(b), c['mail'], **kw)
        if c['err']:
            import requests
            says(call, requests.HTTPError, c['msg'], what)
        else:
            data, meta = call()
    if c['verbose'] and not loud:
        require(any('erbose' in str(x.message) for x in w),
                f'{what}: verbose dropped silently')
    q = once(seen, what)
    host = c['url'] or 'api.soda-solardata.com'
    require(q.method == 'GET' and q.url == f'https://{host}/service/wps',
            f'{what}: {q.method} {q.url}')
    raw = dict(x.split('=', 1) for x in q.raw_query.split('&'))
    inputs = raw.pop('DataInputs', '')
    want = dict(Service='WPS', Request='Execute',
                Identifier='get_' + (c['ident'] or 'mcclear'),
                version='1.0.0', RawDataOutput='irradiation')
    require(raw == want, f'{what}: query {raw}, expected {want}')
    got = dict(x.split('=', 1) for x in inputs.split(';'))
    require(got.pop('username', '').replace('%2B', '+')
            == c['mail'].replace('@', '%2540'),
            f'{what}: username in {inputs}')
    num = dict(latitude=la, longitude=lo,
               altitude=-999 if c['height'] is None else c['height'])
    for k, v in num.items():
        require(float(got.pop(k, 'nan')) == v, f'{what}: {k} in {inputs}')
    want = dict(date_begin=a.strftime('%Y-%m-%d'),
                date_end=b.strftime('%Y-%m-%d'), time_ref=ref,
                summarization={'1min': 'PT01M', '15min': 'PT15M',
                               '1h': 'PT01H', '1d': 'P01D',
                               '1M': 'P01M'}[step],
                verbose=str(loud).lower())
    require(got == want, f'{what}: {got}, expected {want}')
    if not c['err']:
        c51.cams_check(data, meta, c, *rest)
        if c['n'] < 3:
            ctx.trivial()
    ctx.label(step, 'error' if c['err'] else 'data')


@sub(lambda: fixed(
    what=st.sampled_from(['step', 'ident']),
    step=st.sampled_from(['1H', '5min', 'PT01H', '', '60']),
    ident=st.sampled_from(['mcclear2', 'McClear', 'cams', ''])), quick=40)
def cams_refuses(case, ctx):
    c = case
    kw = dict(time_step=c['step']) if c['what'] == 'step' else dict(
        identifier=c['ident'])
    with web(lambda q: reply('x')) as seen:
        raises(ValueError, lambda: iotools.get_cams(
            50, 8, '2020-01-01', '2020-01-02', 'a@b.c', **kw),
            what=f'get_cams {kw}')
    require(not seen, 'a bad request was sent')


# --------------------------------------------------------- SolarAnywhere
SA = {'GlobalHorizontalIrradiance_WattsPerMeterSquared': 'ghi',
      'DirectNormalIrradiance_WattsPerMeterSquared': 'dni',
      'DiffuseHorizontalIrradiance_WattsPerMeterSquared': 'dhi',
      'AmbientTemperature_DegreesC': 'temp_air',
      'WindSpeed_MetersPerSecond': 'wind_speed',
      'RelativeHumidity_Percent': 'relative_humidity',
      'ClearSkyGHI_WattsPerMeterSquared': 'ghi_clear',
      'ClearSkyDNI_WattsPerMeterSquared': 'dni_clear',
      'ClearSkyDHI_WattsPerMeterSquared': 'dhi_clear',
      'Albedo_Unitless': 'albedo'}
SA_DEFAULT = ['StartTime', 'ObservationTime', 'EndTime',
              'GlobalHorizontalIrradiance_WattsPerMeterSquared',
              'DirectNormalIrradiance_WattsPerMeterSquared',
              'DiffuseHorizontalIrradiance_WattsPerMeterSquared',
              'AmbientTemperature_DegreesC', 'WindSpeed_MetersPerSecond',
              'Albedo_Unitless', 'DataVersion']


@sub(lambda: fixed(
    seed=ints(0, 10**6), n=st.integers(1, 30), start=stamp(),
    off=st.sampled_from([0, 0, -480, 330]), map=MAP, key=KEY,
    period=st.sampled_from(['none', 'naive', 'aware', 'str']),
    source=st.sampled_from([None, 'SolarAnywhere3_6', 'SolarAnywhereTGYLatest'
                            ]), res=st.sampled_from([None, 5, 30, 60]),
    space=st.sampled_from([None, .005, .1]), dyn=MAP,
    poe=st.sampled_from([None, None, 5, 90, 1.5, '20']),
    vars=st.booleans(), miss=st.sampled_from([None, 'Omit']),
    url=st.sampled_from([None, None, 'https://mirror.example.org/v9']),
    pending=st.integers(0, 4), err=st.sampled_from(
        [None, None, None, 'post', 'result', 'slow']), msg=MSG,
    late=st.sampled_from(['ObservationTime', 'x']), **LATLON), quick=400)
def solaranywhere(case, ctx):
    c, r = case, Rnd(case['seed'])
    what = 'get_solaranywhere'
    vs = ['StartTime', 'ObservationTime', 'EndTime'] + r.pick(list(SA)) + \
        ['DataVersion'] if c['vars'] else list(SA_DEFAULT)
    res = c['res'] or 60
    ts = times(c['start'] // res * res, c['n'] + 1, res)
    o = c['off']
    z = f'{"-" if o < 0 else "+"}{abs(o) // 60:02d}:{abs(o) % 60:02d}'
    iso = [t.isoformat() + z for t in ts]
    rec = []
    for i in range(c['n']):
        d = {}
        for k in vs:
            if k in SA:
                d[k] = None if r.r.rand() < .05 else r.num(-40, 1400, 2)
            elif k == 'DataVersion':
                d[k] = 'SolarAnywhere3_6'
            elif k == 'EndTime':
                d[k] = iso[i + 1]
            else:
                d[k] = iso[i]
        rec.append(d)
    src = {'Latitude': str(c['lat'] / 1e3), 'Longitude': c['lon'] / 1e3,
           'Elevation_Meters': '134', 'Provider': 'CPR'}
    ok = {'Status': 'Done', 'WeatherDataResults': [{
        'Status': 'Success', 'ErrorMessages': [],
        'WeatherDataPeriods': {'TimeResolution_Minutes': res,
                               'WeatherDataPeriods': rec},
        'WeatherSourceInformation': src}]}
    bad = {'Status': 'Done', 'WeatherDataResults': [{
        'Status': 'Failure', 'ErrorMessages': [{'Message': c['msg']}]}]}
    polls = [0]

    def serve(q):
        if q.method == 'POST':
            if c['err'] == 'post':
                return reply({'Message': c['msg']}, 403)
            return reply({'WeatherRequestId': 'id-7', 'Status': 'Ok'})
        polls[0] += 1
        if polls[0] <= c['pending'] or c['err'] == 'slow':
            return reply({'Status': 'InProgress'})
        return reply(bad if c['err'] == 'result' else ok)
    kw = opt({}, source=c['source'], time_resolution=c['res'],
             spatial_resolution=c['space'], true_dynamics=c['dyn'],
             probability_of_exceedance=c['poe'], missing_data=c['miss'],
             url=c['url'], map_variables=c['map'])
    if c['vars']:
        kw['variables'] = vs
    if c['err'] == 'slow':
        kw['timeout'] = -1
    a = b = None
    if c['period'] != 'none':
        a, b = pd.Timestamp(ts[0]), pd.Timestamp(ts[-1])
        if c['period'] == 'aware':
            a, b = (t.tz_localize(dt.timezone(dt.timedelta(minutes=o)))
                    for t in (a, b))
        kw.update(start=a if c['period'] != 'str' else str(a),
                  end=b if c['period'] != 'str' else str(b))
    refused = c['poe'] in (1.5, '20')
    with web(serve) as seen:
        def call():
            return iotools.get_solaranywhere(c['lat'] / 1e3, c['lon'] / 1e3,
                                             c['key'].replace(
                                                 'ÄÖ', '7'), **kw)
        if refused:
            raises(ValueError, call, what='fractional probability')
            require(not seen, 'a bad request was sent')
            return ctx.trivial()
        if c['err'] == 'slow':
            raises(TimeoutError, call, what=what)
        elif c['err']:
            says(call, ValueError if c['err'] == 'post' else RuntimeError,
                 c['msg'], what)
        else:
            data, meta = call()
    base = c['url'] or 'https://service.solaranywhere.com/api/v2'
    q = seen[0]
    require(q.method == 'POST' and q.url == base + '/WeatherData',
            f'{what}: {q.method} {q.url}')
    for q in seen:
        require(q.headers.get('X-Api-Key') == c['key'].replace('ÄÖ', '7'),
                f'{what}: key {q.headers}')
    got = seen[0].json()
    want = {'Sites': [{'Latitude': c['lat'] / 1e3,
                       'Longitude': c['lon'] / 1e3}],
            'Options': {'OutputFields': vs, 'SummaryOutputFields': [],
                        'SpatialResolution_Degrees': c['space'] or .01,
                        'TimeResolution_Minutes': res,
                        'WeatherDataSource': c['source']
                        or 'SolarAnywhereLatest',
                        'MissingDataHandling': c['miss'] or 'FillAverage'}}
    if c['dyn']:
        want['Options']['ApplyTrueDynamics'] = True
    if c['poe'] is not None:
        want['Options']['ProbabilityOfExceedance'] = c['poe']
    if a is not None:
        for k, t in (('StartTime', a), ('EndTime', b)):
            g = pd.Timestamp(got['Options'].pop(k, None))
            require(g.tzinfo is not None, f'{what}: {k} {g} has no zone')
            e = t if t.tzinfo else t.tz_localize('UTC')
            require(g == e, f'{what}: {k} {g}, asked {e}')
    require(got == want, f'{what}: asked {got}, expected {want}')
    ctx.label('error' if c['err'] else 'data')
    if c['err'] == 'post':
        return once(seen, what)
    for q in seen[1:]:
        require(q.method == 'GET' and q.url == base
                + '/WeatherDataResult/id-7', f'{what}: {q.method} {q.url}')
    if c['err']:
        return
    require(len(seen) == c['pending'] + 2, f'{what}: {len(seen)} requests')
    columns(data, names(vs, SA, c['map'] is not False),
            [[d[k] for d in rec] for k in vs])
    ig.stamps(data.index, ts[:-1], o * 60)
    header(meta, {'Provider': 'CPR', 'time_resolution': res,
                  'spatial_resolution': c['space'] or .01,
                  'latitude': c['lat'] / 1e3, 'longitude': c['lon'] / 1e3,
                  'altitude': 134.0})
    if c['n'] < 3:
        ctx.trivial()


# --------------------------------------------------------------- Solcast
SOLCAST = {'air_temp': ('temp_air', lambda x: x),
           'surface_pressure': ('pressure', lambda x: x * 100),
           'dewpoint_temp': ('temp_dew', lambda x: x),
           'gti': ('poa_global', lambda x: x),
           'wind_speed_10m': ('wind_speed', lambda x: x),
           'wind_direction_10m': ('wind_direction', lambda x: x),
           'azimuth': ('solar_azimuth', lambda x: -x % 360),
           'precipitable_water': ('precipitable_water', lambda x: x / 10),
           'zenith': ('solar_zenith', lambda x: x),
           'clearsky_dhi': ('dhi_clear', lambda x: x),
           'clearsky_dni': ('dni_clear', lambda x: x),
           'clearsky_ghi': ('ghi_clear', lambda x: x),
           'clearsky_gti': ('poa_global_clear', lambda x: x)}
SOLCAST_OTHER = ['ghi', 'dni', 'dhi', 'cloud_opacity', 'albedo',
                 'relative_humidity']
SOLCAST_KEY = {'tmy': 'estimated_actuals', 'historic': 'estimated_actuals',
               'forecast': 'forecasts', 'live': 'estimated_actuals'}
ISO = {5: 'PT5M', 15: 'PT15M', 30: 'PT30M', 60: 'PT60M'}


@sub(lambda: fixed(
    fn=st.sampled_from(list(SOLCAST_KEY)), seed=ints(0, 10**6),
    n=st.integers(1, 30), start=stamp(), step=st.sampled_from(list(ISO)),
    map=MAP, hour_iso=st.booleans(), key=st.sampled_from(['abc', 'x-7/=']),
    extra=st.dictionaries(st.sampled_from(
        ['hours', 'tilt', 'output_parameters', 'period', 'array_type']),
        st.sampled_from([1, 168, 'dni,ghi', 'PT15M', 12.5]), max_size=3),
    span=st.sampled_from(['end', 'duration', 'neither']),
    how=st.sampled_from(['str', 'ts', 'dt']),
    err=st.sampled_from([None, None, None, 400, 402, 429, 500]), msg=MSG,
    **LATLON), quick=400)
def solcast(case, ctx):
    c, r = case, Rnd(case['seed'])
    what = 'get_solcast_' + c['fn']
    cols = r.pick(list(SOLCAST) + SOLCAST_OTHER) or ['ghi']
    r.r.shuffle(cols)
    ts = times(c['start'] // c['step'] * c['step'], c['n'] + 1, c['step'])
    vals = [[r.num(-180, 180, 1) if k == 'azimuth' else r.num(-40, 1400, 1)
             for _ in range(c['n'])] for k in cols]
    iso = 'PT1H' if c['step'] == 60 and c['hour_iso'] else ISO[c['step']]
    rec = [dict([('period_end', t.strftime('%Y-%m-%dT%H:%M:%S.0000000Z')),
                 ('period', iso)] + [(k, v[i]) for k, v in zip(cols, vals)])
           for i, t in enumerate(ts[1:])]
    rep = reply({SOLCAST_KEY[c['fn']]: rec}) if not c['err'] else reply(
        {'response_status': {'message': c['msg']}}, c['err'])
    kw = dict(c['extra'])
    opt(kw, map_variables=c['map'])
    a, b = ts[0], ts[-1]
    f = {'str': lambda t: t.strftime('%Y-%m-%dT%H:%M:%SZ'),
         'ts': lambda t: pd.Timestamp(t, tz='UTC'), 'dt': lambda t: t}[
             c['how']]
    if c['fn'] == 'historic':
        kw['start'] = f(a)
        if c['span'] == 'end':
            kw['end'] = f(b)
        elif c['span'] == 'duration':
            kw['duration'] = 'P7D'
    with web(lambda q: rep) as seen:
        def call():
            return getattr(iotools, what)(c['lat'] / 1e3, c['lon'] / 1e3,
                                          api_key=c['key'], **kw)
        if c['err']:
            says(call, Exception, c['msg'], what)
        else:
            data, meta = call()
    q = once(seen, what)
    require(q.method == 'GET' and q.url == 'https://api.solcast.com.au/data/'
            + c['fn'] + '/radiation_and_weather', f'{what}: {q.url}')
    require(q.headers.get('Authorization') == 'Bearer ' + c['key'],
            f'{what}: {q.headers}')
    require(q.query.pop('api_key', c['key']) == c['key'], f'{what}: key')
    want = dict(latitude=c['lat'] / 1e3, longitude=c['lon'] / 1e3,
                format='json', **c['extra'])
    if c['fn'] == 'historic':
        if c['span'] == 'duration':
            want['duration'] = 'P7D'
        for k, t in [('start', a)] + [('end', b)] * (c['span'] == 'end'):
            g = pd.Timestamp(q.query.pop(k, None))
            require(g.tz_localize(None) == t, f'{what}: {k}={g}, asked {t}')
    query(q, want, what)
    ctx.label(c['fn'], 'error' if c['err'] else 'data')
    if c['err']:
        return
    require(meta == dict(latitude=c['lat'] / 1e3, longitude=c['lon'] / 1e3),
            f'{what}: metadata {meta}')
    if c['map'] is False:
        require(list(data.columns) == ['period_end', 'period'] + cols,
                f'{what}: columns {list(data.columns)}')
        for k in data:
            ig.column(data[k], [d[k] for d in rec], k)
    else:
        columns(data, [SOLCAST[k][0] if k in SOLCAST else k for k in cols],
                [[SOLCAST[k][1](x) if k in SOLCAST else x for x in v]
                 for k, v in zip(cols, vals)])
        half = dt.timedelta(minutes=c['step'] / 2)
        ig.stamps(data.index, [t + half for t in ts[:-1]], 0)
    if c['n'] < 3:
        ctx.trivial()


# -------------------------------------------------------------- Solargis
SG_MAP = {'GHI': 'ghi', 'GHIc': 'ghi_clear', 'DNI': 'dni',
          'DNIc': 'dni_clear', 'DIF': 'dhi', 'GTI': 'poa_global',
          'GTIc': 'poa_global_clear', 'SE': 'solar_elevation',
          'SA': 'solar_azimuth', 'TEMP': 'temp_air', 'TD': 'temp_dew',
          'AP': 'pressure', 'RH': 'relative_humidity', 'WS': 'wind_speed',
          'WD': 'wind_direction', 'INC': 'aoi', 'PWAT': 'precipitable_water'}
SG_OTHER = ['KT', 'PAR', 'PREC', 'SDWE', 'SFWE', 'WG', 'CI_FLAG']
SG_NINE = {'GHI', 'GHIc', 'DNI', 'DNIc', 'DIF', 'GTI', 'GTIc', 'KT', 'PAR',
           'PREC', 'PWAT', 'SDWE', 'SFWE'}
SG_STEP = {5: 'MIN_5', 10: 'MIN_10', 15: 'MIN_15', 30: 'MIN_30',
           60: 'HOURLY', 'PT05M': 'MIN_5', 'PT5M': 'MIN_5',
           'PT10M': 'MIN_10', 'PT15M': 'MIN_15', 'PT30': 'MIN_30',
           'PT60M': 'HOURLY', 'PT1H': 'HOURLY', 'P1D': 'DAILY',
           'P1M': 'MONTHLY', 'P1Y': 'YEARLY'}
SG_CONV = {'SA': lambda x: x + 180, 'AP': lambda x: x * 100,
           'PWAT': lambda x: x / 10}


@sub(lambda: fixed(
    seed=ints(0, 10**6), n=st.integers(1, 25), start=stamp(),
    step=st.sampled_from([5, 15, 30, 60]), off=st.sampled_from([0, 120, -480]
                                                               ),
    res=st.sampled_from(list(SG_STEP)), kind=st.sampled_from(
        [None, 'start', 'center', 'end']), tz=st.sampled_from(
        [None, 'GMT+02', 'GMT-08']), shade=MAP, map=MAP,
    one=st.booleans(), name=st.sampled_from(['Site A', 'x: y', '']),
    alt=st.sampled_from(['7.0', '-3.0', '1234.5']),
    how=st.sampled_from(['ts', 'str', 'dt']),
    url=st.sampled_from([None, None, 'https://mirror.example.org/v9']),
    err=st.sampled_from([None, None, None, 400, 403, 500]), msg=MSG,
    **LATLON), quick=400)
def solargis(case, ctx):
    import xml.etree.ElementTree as ET
    c, r = case, Rnd(case['seed'])
    what = 'get_solargis'
    cols = r.pick(list(SG_MAP) + SG_OTHER) or ['GHI']
    r.r.shuffle(cols)
    if c['one']:
        cols = cols[:1]
    ts = times(c['start'] // c['step'] * c['step'], c['n'], c['step'])
    vals = [[-9.0 if r.r.rand() < .2 else float(r.r.randint(-20, 1200))
             if r.r.rand() < .3 else r.num(-40, 1100, 1)
             for _ in ts] for _ in cols]
    o = c['off']
    z = f'{"-" if o < 0 else "+"}{abs(o) // 60:02d}:{abs(o) % 60:02d}'
    rows = ''.join(
        f'<row dateTime="{t.isoformat()}.000{z}" values="'
        + ' '.join(f'{v[i]:.1f}' for v in vals) + '"/>'
        for i, t in enumerate(ts))
    head = (f'#15 MINUTE VALUES OF SOLAR RADIATION\n#\n#Issued: 2023-09-03 '
            f'12:40\n#Site name: {c["name"]}\n#Latitude: {c["lat"] / 1e3:.6f}'
            f'\n#Longitude: {c["lon"] / 1e3:.6f}\n#Elevation: {c["alt"]} m '
            'a.s.l.\n#Output from: v2.2\n#Summarization type: instantaneous'
            '\n#Summarization period: 01/01/2022 - 31/01/2022\n#Azimuth: 0')
    text = ('<?xml version="1.0"?><dataDeliveryResponse xmlns="http://'
            'geomodel.eu/schema/ws/data" xmlns:ns2="http://geomodel.eu/'
            f'schema/common/geo"><site id="s" lat="1" lng="2"><metadata>'
            f'{head}</metadata><columns>{" ".join(cols)}</columns>{rows}'
            '</site></dataDeliveryResponse>')
    rep = reply({'message': c['msg']}, c['err']) if c['err'] else reply(
        text, ctype='application/xml')
    a = dt.datetime(*ts[0].timetuple()[:3])
    b = dt.datetime(*ts[-1].timetuple()[:3])
    f = {'ts': pd.Timestamp, 'str': str, 'dt': lambda t: t}[c['how']]
    kw = opt({}, timestamp_type=c['kind'], tz=c['tz'],
             terrain_shading=c['shade'], url=c['url'],
             map_variables=c['map'])
    with web(lambda q: rep) as seen:
        def call():
            return iotools.get_solargis(
                c['lat'] / 1e3, c['lon'] / 1e3, f(a), f(b), cols, 'demo-7',
                c['res'], **kw)
        if c['err']:
            import requests
            says(call, requests.HTTPError, c['msg'], what)
        else:
            data, meta = call()
    q = once(seen, what)
    require(q.method == 'POST' and q.url == (
        c['url'] or 'https://solargis.info/ws/rest/datadelivery/request'),
        f'{what}: {q.method} {q.url}')
    query(q, dict(key='demo-7'), what)
    root = ET.fromstring(q.body)
    ns = '{http://geomodel.eu/schema/data/request}'
    require(root.tag == '{http://geomodel.eu/schema/ws/data}'
            'dataDeliveryRequest', f'{what}: {root.tag}')
    site, proc = root.find(ns + 'site'), root.find(ns + 'processing')
    got = dict(dateFrom=root.get('dateFrom'), dateTo=root.get('dateTo'),
               lat=float(site.get('lat')), lng=float(site.get('lng')),
               key=proc.get('key'), summ=proc.get('summarization'),
               shade=proc.get('terrainShading'),
               kind=proc.find(ns + 'timestampType').text,
               tz=proc.find(ns + 'timeZone').text)
    want = dict(dateFrom=a.strftime('%Y-%m-%d'),
                dateTo=b.strftime('%Y-%m-%d'), lat=c['lat'] / 1e3,
                lng=c['lon'] / 1e3, key=' '.join(cols),
                summ=SG_STEP[c['res']],
                shade=str(c['shade'] is not False).lower(),
                kind=(c['kind'] or 'center').upper(), tz=c['tz'] or 'GMT+00')
    require(got == want, f'{what}: asked {got}, expected {want}')
    ctx.label('error' if c['err'] else 'data')
    if c['err']:
        return
    e = [[None if x == -9 and k in SG_NINE else x for x in v]
         for k, v in zip(cols, vals)]
    if c['map'] is not False:
        e = [[None if x is None else SG_CONV.get(k, float)(x) for x in v]
             for k, v in zip(cols, e)]
    columns(data, names(cols, SG_MAP, c['map'] is not False), e)
    for k in data:
        require(data[k].dtype.kind == 'f', f'{k} is {data[k].dtype}')
    ig.stamps(data.index, ts, o * 60)
    m = {k: v.strip() if isinstance(v, str) else v for k, v in meta.items()}
    header(m, {'issued': '2023-09-03 12:40', 'site name': c['name'],
               'latitude': c['lat'] / 1e3, 'longitude': c['lon'] / 1e3,
               'altitude': float(c['alt']),
               'summarization type': 'instantaneous',
               'summarization period': '01/01/2022 - 31/01/2022'})
    if c['n'] < 3:
        ctx.trivial()


# ------------------------------------------------------------- Meteonorm
MN = {'global_horizontal_irradiance': 'ghi',
      'diffuse_horizontal_irradiance': 'dhi',
      'direct_normal_irradiance': 'dni', 'direct_horizontal_irradiance':
      'bhi', 'global_clear_sky_irradiance': 'ghi_clear',
      'diffuse_clear_sky_irradiance': 'dhi_clear',
      'direct_normal_clear_sky_irradiance': 'dni_clear',
      'direct_horizontal_clear_sky_irradiance': 'bhi_clear',
      'diffuse_tilted_irradiance': 'poa_diffuse',
      'direct_tilted_irradiance': 'poa_direct',
      'global_tilted_irradiance': 'poa', 'temperature': 'temp_air',
      'dew_point_temperature': 'temp_dew'}
MN_OTHER = ['relative_humidity', 'wind_speed', 'snow_depth',
            'precipitation']
MN_STEP = {'1h': '1_hour', 'h': '1_hour', '15min': '15_minutes',
           '1min': '1_minute', 'min': '1_minute'}
MN_END = {'forecast_basic': 'forecast/basic',
          'forecast_precision': 'forecast/precision',
          'observation_realtime': 'observation/realtime',
          'observation_training': 'observation/training',
          'tmy': 'climate/tmy'}
WHEN = ['naive', 'str', 'date', 'utc', 'aware', 'offset', 'now', 'rel',
        'zulu']


def when(kind, minutes):
    """(argument, expected instant or verbatim text)"""
    t = pd.Timestamp(2003, 3, 1) + pd.Timedelta(minutes=minutes)
    if kind == 'naive':
        return t.to_pydatetime(), t
    if kind == 'str':
        return str(t), t
    if kind == 'date':
        return t.strftime('%Y-%m-%d'), t.normalize()
    if kind == 'utc':
        return t.tz_localize('UTC'), t
    if kind == 'zulu':
        return t.strftime('%Y-%m-%dT%H:%M:%SZ'), t
    if kind == 'aware':
        return t.tz_localize('UTC').tz_convert('Asia/Tokyo'), t
    if kind == 'offset':
        return (t - pd.Timedelta(hours=7)).strftime(
            '%Y-%m-%dT%H:%M:%S-07:00'), t
    return {'now': 'now', 'rel': f'+{minutes % 48}hours'}[kind], None


@sub(lambda: fixed(
    fn=st.sampled_from(list(MN_END)), seed=ints(0, 10**6),
    n=st.integers(1, 30), start=stamp(), step=st.sampled_from([1, 15, 60]),
    map=MAP, key=st.sampled_from(['abc', 'x-7/=']),
    ask=st.one_of(st.sampled_from(['all', 'ghi', 'temperature']),
                  st.lists(st.sampled_from(list(MN) + list(MN.values())
                                           + MN_OTHER), min_size=1,
                           max_size=5, unique=True)),
    d0=st.tuples(st.sampled_from(WHEN), ints(0, 9_000_000)),
    d1=st.tuples(st.sampled_from(WHEN), ints(0, 9_000_000)),
    tilt=st.sampled_from([None, 0, 12.5, 90]), azimuth=st.sampled_from(
        [None, 0, 180, 271.5]), freq=st.sampled_from(
            [None, *MN_STEP, '1_hour', '15_minutes']),
    horizon=st.sampled_from([None, 'auto', 'flat', 'x']),
    interval=MAP, url=st.sampled_from(
        [None, None, 'https://mirror.example.org/v9/']),
    empty=st.booleans(), tmy=ints(0, 2**9 - 1),
    err=st.sampled_from([None, None, None, 400, 403, 500]), msg=MSG,
    old=st.sampled_from([None, None, 'latest', 9]), **LATLON), quick=500)
def meteonorm(case, ctx):
    c, r = case, Rnd(case['seed'])
    what = 'get_meteonorm_' + c['fn']
    cols = r.pick(list(MN) + MN_OTHER) or ['temperature']
    ts = times(c['start'] // c['step'] * c['step'], c['n'] + 1, c['step'])
    vals = [[r.num(-40, 1400, 1) for _ in range(c['n'])] for _ in cols]
    iso = [t.strftime('%Y-%m-%dT%H:%M:%SZ') for t in ts]
    values = dict(zip(cols, vals))
    if c['empty']:
        values = {'surface_albedo': None, **values, 'cloud_cover': None}
    m = {'version': 'v9.1', 'lat': c['lat'] / 1e3, 'lon': c['lon'] / 1e3,
         'altitude': 4, 'parameters': [{'name': 'x'}]}
    rep = reply({'error': {'code': c['err'], 'message': c['msg']}},
                c['err']) if c['err'] else reply(
        {'meta': m, 'start_times': iso[:-1], 'end_times': iso[1:],
         'values': values})
    hz = [1, 2.5, 0] if c['horizon'] == 'x' else c['horizon']
    kw = opt({}, parameters=c['ask'], surface_tilt=c['tilt'],
             surface_azimuth=c['azimuth'], horizon=hz,
             interval_index=c['interval'], map_variables=c['map'],
             url=c['url'])
    ask = [c['ask']] if isinstance(c['ask'], str) else c['ask']
    back = {v: k for k, v in MN.items()}
    want = dict(lat=c['lat'] / 1e3, lon=c['lon'] / 1e3,
                surface_tilt=c['tilt'] or 0,
                surface_azimuth=180 if c['azimuth'] is None
                else c['azimuth'],
                parameters=','.join(back.get(k, k) for k in ask),
                horizon='1,2.5,0' if c['horizon'] == 'x'
                else c['horizon'] or 'auto', response_format='json')
    if c['fn'] != 'forecast_basic':
        opt(kw, time_step=c['freq'])
        want['frequency'] = MN_STEP.get(c['freq'], c['freq']) if c['freq'] \
            else '1_hour' if c['fn'] == 'tmy' else '15_minutes'
    args = [c['lat'] / 1e3, c['lon'] / 1e3]
    moments = {}
    if c['fn'] == 'tmy':
        t = c['tmy']
        opt(kw, terrain_situation='sea/lake' if t & 1 else None,
            albedo=(.25 if t & 4 else 0) if t & 2 else None,
            turbidity=([3.5] * 11 + [4] if t & 16 else 'auto')
            if t & 8 else None, random_seed=7 if t & 32 else None,
            clear_sky_radiation_model='solis' if t & 64 else None,
            future_scenario='ssp1_26' if t & 128 else None,
            future_year=2050 if t & 256 else None)
        want.update(situation=kw.get('terrain_situation', 'open'),
                    turbidity=','.join(['3.5'] * 11 + ['4'])
                    if t & 8 and t & 16 else 'auto',
                    clear_sky_radiation_model=kw.get(
                        'clear_sky_radiation_model', 'esra'))
        for k in ('albedo', 'random_seed', 'future_scenario', 'future_year'):
            if k in kw:
                want[k] = kw[k]
        # has no effect, apart from a warning
        opt(kw, data_version=c['old'])
    else:
        for k, d in (('start', c['d0']), ('end', c['d1'])):
            arg, moments[k] = when(*d)
            args.append(arg)
            if moments[k] is None:
                want[k] = arg
                moments.pop(k)
    with web(lambda q: rep) as seen:
        def call():
            return getattr(iotools, what)(*args, api_key=c['key'], **kw)
        if c['err']:
            import requests
            says(call, requests.HTTPError, c['msg'], what)
        else:
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always')
                data, meta = call()
            old = [w for w in ws if 'data_version' in str(w.message)]
            require(len(old) == ('data_version' in kw),
                    f'{what}: {len(old)} warnings about data_version')
    q = once(seen, what)
    require(q.method == 'GET' and q.url == (
        c['url'] or 'https://api.meteonorm.com/v1/') + MN_END[c['fn']],
        f'{what}: {q.method} {q.url}')
    require(q.headers.get('Authorization') == 'Bearer ' + c['key'],
            f'{what}: {q.headers}')
    for k, t in moments.items():
        g = q.query.pop(k, '')
        require(g.endswith('Z') and pd.Timestamp(g[:-1]) == t.floor('s'),
                f'{what}: {k}={g}, asked {args} = {t} UTC')
    query(q, want, what)
    ctx.label(c['fn'], 'error' if c['err'] else 'data')
    if c['err']:
        return
    on = c['map'] is not False
    columns(data, names(cols, MN, on), vals)
    if c['interval']:
        ix = data.index
        require(isinstance(ix, pd.IntervalIndex) and ix.closed == 'left',
                f'{what}: index {ix}')
        ig.stamps(ix.left, ts[:-1], 0)
        ig.stamps(ix.right, ts[1:], 0)
    else:
        half = dt.timedelta(minutes=c['step'] / 2)
        ig.stamps(data.index, [t + half for t in ts[:-1]], 0)
    e = dict(m)
    if on:
        e['latitude'], e['longitude'] = e.pop('lat'), e.pop('lon')
    header(meta, e)
    if c['n'] < 3:
        ctx.trivial()


# ------------------------------------------------------------ NASA POWER
NP_MAP = {'ALLSKY_SFC_SW_DWN': 'ghi', 'ALLSKY_SFC_SW_DIFF': 'dhi',
          'ALLSKY_SFC_SW_DNI': 'dni', 'ALLSKY_SRF_ALB': 'albedo',
          'ALLSKY_SFC_LW_DWN': 'longwave_down',
          'CLRSKY_SFC_SW_DIFF': 'dhi_clear', 'CLRSKY_SFC_SW_DNI':
          'dni_clear', 'CLRSKY_SFC_SW_DWN': 'ghi_clear', 'PS': 'pressure',
          'RH2M': 'relative_humidity', 'T2M': 'temp_air', 'T2MDEW':
          'temp_dew', 'TQV': 'precipitable_water', 'TOA_SW_DWN': 'ghi_extra',
          'WS2M': 'wind_speed_2m', 'WS10M': 'wind_speed'}
NP_OTHER = ['PRECTOTCORR', 'WD10M', 'WS50M']


@sub(lambda: fixed(
    seed=ints(0, 10**6), n=st.integers(1, 40), start=stamp(),
    map=MAP, ask=st.one_of(
        st.none(), st.sampled_from(['ghi', 'T2M', 'PRECTOTCORR']),
        st.lists(st.sampled_from(list(NP_MAP) + list(NP_MAP.values())
                                 + NP_OTHER), min_size=1, max_size=5,
                 unique=True)), community=st.sampled_from([None, 'ag', 'sb']
                                                          ),
    height=st.sampled_from([None, 0, 12.5]), wind=st.sampled_from(
        [None, 10, 300]), surface=st.sampled_from([None, 'vegtype_1',
                                                   'openwater']),
    how=st.sampled_from(['ts', 'str', 'dt']), fill=st.sampled_from(
        [-999.0, -999, 9999.0]),
    url=st.sampled_from([None, None, 'https://mirror.example.org/v9']),
    err=st.sampled_from([None, None, None, 422, 429, 500]), msg=MSG,
    **LATLON), quick=400)
def nasa_power(case, ctx):
    c, r = case, Rnd(case['seed'])
    what = 'get_nasa_power'
    cols = r.pick(list(NP_MAP) + NP_OTHER) or ['T2M']
    r.r.shuffle(cols)
    ts = times(c['start'] // 60 * 60, c['n'], 60)
    vals = [[None if r.r.rand() < .1 else r.num(-40, 1400, 2) for _ in ts]
            for _ in cols]
    stamped = [t.strftime('%Y%m%d%H') for t in ts]
    head = {'title': 'NASA/POWER', 'api': {'version': 'v2.6'},
            'sources': ['SYN1DEG'], 'fill_value': c['fill'],
            'time_standard': 'UTC', 'start': '2', 'end': '3'}
    pars = {k: {'units': 'u', 'longname': k} for k in cols}
    doc = {'type': 'Feature', 'geometry': {
        'type': 'Point', 'coordinates': [c['lon'] / 1e3, c['lat'] / 1e3,
                                         97.5]},
        'properties': {'parameter': {
            k: {s: c['fill'] if x is None else x
                for s, x in zip(stamped, v)} for k, v in zip(cols, vals)}},
        'header': head, 'messages': [], 'parameters': pars,
        'times': {'data': 1.5, 'process': .1}}
    rep = reply({'header': 'x', 'messages': [c['msg']]}, c['err']) \
        if c['err'] else reply(doc)
    a = dt.datetime(*ts[0].timetuple()[:3])
    b = dt.datetime(*ts[-1].timetuple()[:3])
    f = {'ts': pd.Timestamp, 'str': str, 'dt': lambda t: t}[c['how']]
    kw = opt({}, parameters=c['ask'], community=c['community'],
             elevation=c['height'], wind_height=c['wind'],
             wind_surface=c['surface'], map_variables=c['map'],
             url=c['url'])
    with web(lambda q: rep) as seen:
        def call():
            return iotools.get_nasa_power(c['lat'] / 1e3, c['lon'] / 1e3,
                                          f(a), f(b), **kw)
        if c['err']:
            import requests
            says(call, requests.HTTPError, c['msg'], what)
        else:
            data, meta = call()
    q = once(seen, what)
    require(q.method == 'GET' and q.url == (
        c['url'] or 'https://power.larc.nasa.gov/api/temporal/hourly/point'),
        f'{what}: {q.method} {q.url}')
    back = {v: k for k, v in NP_MAP.items()}
    ask = ['dni', 'dhi', 'ghi', 'temp_air', 'wind_speed'] \
        if c['ask'] is None else [c['ask']] if isinstance(c['ask'], str) \
        else c['ask']
    want = opt(dict(latitude=c['lat'] / 1e3, longitude=c['lon'] / 1e3,
                    start=a.strftime('%Y%m%d'), end=b.strftime('%Y%m%d'),
                    community=c['community'] or 're',
                    parameters=','.join(back.get(k, k) for k in ask),
                    format='json', header='True'),
               **{'time-standard': 'utc', 'site-elevation': c['height'],
                  'wind-elevation': c['wind'],
                  'wind-surface': c['surface']})
    query(q, want, what)
    ctx.label('error' if c['err'] else 'data')
    if c['err']:
        return
    on = c['map'] is not False
    k = dict(PS=1000, TQV=.1) if on else {}
    columns(data, names(cols, NP_MAP, on),
            [[None if x is None else x * k.get(n, 1) for x in v]
             for n, v in zip(cols, vals)])
    ig.stamps(data.index, ts, 0)
    header(meta, dict(head, times=doc['times'], parameters=pars,
                      latitude=c['lat'] / 1e3, longitude=c['lon'] / 1e3,
                      altitude=97.5))
    if c['n'] < 3:
        ctx.trivial()


# ------------------------------------------------------------------ ACIS
AC_MAP = {'pcpn': 'precipitation', 'maxt': 'temp_air_max',
          'avgt': 'temp_air_average', 'obst': 'temp_air_observation',
          'mint': 'temp_air_min', 'cdd': 'cooling_degree_days',
          'hdd': 'heating_degree_days', 'gdd': 'growing_degree_days',
          'snow': 'snowfall', 'snwd': 'snowdepth'}
AC_GRID = ['pcpn', 'maxt', 'mint', 'avgt', 'cdd', 'hdd', 'gdd']
AC_STN = ['maxt', 'mint', 'avgt', 'obst', 'pcpn', 'snow', 'snwd', 'cdd',
          'hdd', 'gdd']
AC_UNIT = {'pcpn': 'mm', 'snow': 'cm', 'snwd': 'cm'}
STN_META = {'name', 'state', 'sids', 'sid_dates', 'll', 'elev', 'uid',
            'county', 'climdiv', 'valid_daterange', 'tzo', 'network'}


def acis_reply(c, doc):
    if c['err'] == 'json':
        return reply({'error': c['msg']})
    if c['err'] == 'http':
        return reply(c['msg'], 500)
    return reply(doc)


def acis_call(c, call, what):
    import requests
    says(call, requests.HTTPError, c['msg'] if c['err'] == 'json' else '500',
         what)


@sub(lambda: fixed(
    fn=st.sampled_from(['prism', 'nrcc', 'mpe', 'station_data']),
    seed=ints(0, 10**6), n=st.integers(1, 40), start=stamp(),
    map=MAP, grid=st.sampled_from([1, 3, '1']), station=st.sampled_from(
        ['ORL', '72219013', 94728, 'USW00094728']),
    trace=st.sampled_from([None, 0, .001, .05, np.nan]),
    elev=st.sampled_from([None, 0, 12, 5280.5, -282]),
    how=st.sampled_from(['ts', 'str', 'dt']), wait=st.sampled_from([None, 9]),
    url=st.sampled_from([None, None, 'https://mirror.example.org/v9']),
    err=st.sampled_from([None, None, None, None, 'json', 'http']), msg=MSG,
    **LATLON), quick=500)
def acis(case, ctx):
    c, r = case, Rnd(case['seed'])
    what = 'get_acis_' + c['fn']
    stn = c['fn'] == 'station_data'
    cols = AC_STN if stn else ['pcpn'] if c['fn'] == 'mpe' else AC_GRID
    ts = times(c['start'] // 1440 * 1440, c['n'], 1440)
    rows, want = [], [[] for _ in cols]
    trace = .001 if c['trace'] is None else c['trace']
    for t in ts:
        row = [t.strftime('%Y-%m-%d')]
        for j, k in enumerate(cols):
            u = r.r.rand()
            v = r.num(-40, 300, 1)
            if u < .1:
                x, e = ('M' if stn else -999), None
            elif stn and u < .2:
                x, e = 'T', None if np.isnan(trace) else trace
            else:
                x, e = (str(v) if stn else v), v
            row.append(x)
            want[j].append(e)
        rows.append(row)
    m = {}
    if stn:
        m = {'ll': [c['lon'] / 1e3, c['lat'] / 1e3], 'name': 'X Y',
             'sids': ['94728 1'], 'tzo': -5}
    else:
        m = {'lat': c['lat'] / 1e3, 'lon': c['lon'] / 1e3}
    e_meta = {k: v for k, v in m.items() if k != 'll'}
    e_meta.update(lat=c['lat'] / 1e3, lon=c['lon'] / 1e3)
    if c['elev'] is not None and c['fn'] != 'mpe':
        m['elev'] = c['elev']
        e_meta['elev'] = c['elev'] * .3048
    rep = acis_reply(c, {'meta': m, 'data': rows})
    a, b = ts[0], ts[-1]
    f = {'ts': pd.Timestamp, 'str': str, 'dt': lambda t: t}[c['how']]
    kw = opt({}, map_variables=c['map'], url=c['url'], timeout=c['wait'])
    args = [c['lat'] / 1e3, c['lon'] / 1e3, f(a), f(b)]
    if stn:
        args = [c['station'], f(a), f(b)]
        opt(kw, trace_val=c['trace'])
    if c['fn'] == 'nrcc':
        kw['grid'] = c['grid']
    with web(lambda q: rep) as seen:
        def call():
            return getattr(iotools, what)(*args, **kw)
        if c['err']:
            acis_call(c, call, what)
        else:
            data, meta = call()
    q = once(seen, what)
    require(q.method == 'POST' and q.url == (
        c['url'] or 'https://data.rcc-acis.org/'
        + ('StnData' if stn else 'GridData')), f'{what}: {q.url}')
    require(c['wait'] is None or q.timeout == c['wait'], f'{what}: timeout')
    got = q.json()
    require([x['name'] for x in got['elems']] == cols and all(
        x['interval'] == 'dly' and x['units'] == AC_UNIT.get(
            x['name'], 'degreeC') for x in got['elems']),
        f'{what}: elements {got["elems"]}')
    got.pop('elems')
    fields = got.pop('meta')
    if isinstance(fields, str):
        fields = fields.split(',')
    require(set(fields) == (STN_META if stn else {'ll'} if c['fn'] == 'mpe'
                            else {'ll', 'elev'}), f'{what}: meta {fields}')
    ask = dict(sdate=a.strftime('%Y-%m-%d'), edate=b.strftime('%Y-%m-%d'),
               output='json')
    if stn:
        ask['sid'] = str(c['station'])
    else:
        loc = got.pop('loc').split(',')
        require([float(x) for x in loc] == [c['lon'] / 1e3, c['lat'] / 1e3],
                f'{what}: loc {loc}')
        ask['grid'] = {'prism': '21', 'mpe': '2', 'nrcc': str(c['grid'])}[
            c['fn']]
        got['grid'] = str(got.get('grid'))
    require(got == ask, f'{what}: asked {got}, expected {ask}')
    ctx.label(c['fn'], 'error' if c['err'] else 'data')
    if c['err']:
        return
    on = c['map'] is not False
    columns(data, names(cols, AC_MAP, on), want)
    for k in data:
        require(data[k].dtype.kind in 'fi', f'{k} is {data[k].dtype}')
    require(data.index.tz is None and list(data.index) == [
        pd.Timestamp(t) for t in ts], f'{what}: index {data.index}')
    if on:
        for k, v in (('lat', 'latitude'), ('lon', 'longitude'),
                     ('elev', 'altitude')):
            if k in e_meta:
                e_meta[v] = e_meta.pop(k)
    header(meta, e_meta)
    if c['n'] < 3:
        ctx.trivial()


@sub(lambda: fixed(
    seed=ints(0, 10**6), n=st.integers(0, 12), dates=st.sampled_from(
        ['both', 'none', 'start', 'end']), lat2=ints(-90000, 90000),
    lon2=ints(-180000, 180000),
    err=st.sampled_from([None, None, None, None, 'json', 'http']), msg=MSG,
    **LATLON), quick=150)
def acis_stations(case, ctx):
    c, r = case, Rnd(case['seed'])
    what = 'get_acis_available_stations'
    st_ = [{'name': f'S{i}', 'state': 'KY', 'sids': [f'{i} 1'],
            'elev': float(r.r.randint(-10, 3000)), 'uid': i,
            'll': [r.num(-180, 180, 4), r.num(-90, 90, 4)], 'tzo': -5}
           for i in range(c['n'])]
    rep = acis_reply(c, {'meta': st_})
    la = sorted([c['lat'] / 1e3, c['lat2'] / 1e3])
    lo = sorted([c['lon'] / 1e3, c['lon2'] / 1e3])
    kw = {}
    if c['dates'] in ('both', 'start'):
        kw['start'] = '2020-02-29'
    if c['dates'] in ('both', 'end'):
        kw['end'] = pd.Timestamp(2021, 1, 1)
    with web(lambda q: rep) as seen:
        def call():
            return iotools.get_acis_available_stations(la, lo, **kw)
        if c['err']:
            acis_call(c, call, what)
        else:
            data = call()
    q = once(seen, what)
    require(q.url == 'https://data.rcc-acis.org/StnMeta', f'{q.url}')
    got = q.json()
    box = [float(x) for x in got['bbox'].split(',')]
    require(box == [lo[0], la[0], lo[1], la[1]], f'{what}: bbox {box} for '
            f'latitudes {la}, longitudes {lo}')
    if c['dates'] == 'both':
        require((got['sdate'], got['edate']) == ('2020-02-29', '2021-01-01'),
                f'{what}: {got}')
    ctx.label('error' if c['err'] else 'data')
    if c['err']:
        return
    require(len(data) == c['n'], f'{what}: {len(data)} stations')
    for i, s in enumerate(st_):
        g = dict(data.iloc[i])
        require(g['name'] == f'S{i}' and g['longitude'] == s['ll'][0]
                and g['latitude'] == s['ll'][1] and g['uid'] == i,
                f'{what}: {g}, served {s}')
    if c['n'] < 3:
        ctx.trivial()


# ------------------------------------------------------------------ ERA5
E5_LONG = {'d2m': '2m_dewpoint_temperature', 't2m': '2m_temperature',
           'sp': 'surface_pressure', 'ssrd':
           'surface_solar_radiation_downwards', 'fdir':
           'total_sky_direct_solar_radiation_at_surface',
           'tp': 'total_precipitation', 'strd':
           'surface_thermal_radiation_downwards'}
E5_MAP = {'d2m': 'temp_dew', 't2m': 'temp_air', 'sp': 'pressure',
          'ssrd': 'ghi', 'fdir': 'bhi', 'strd': 'longwave_down',
          'tp': 'precipitation'}
E5_OTHER = {'u10': '10m_u_component_of_wind', 'v10':
            '10m_v_component_of_wind', 'msl': 'mean_sea_level_pressure',
            'sst': 'sea_surface_temperature', 'skt': 'skin_temperature',
            'u100': '100m_u_component_of_wind'}


def kelvin(x):
    return x - 273.15


E5_CONV = {**{k: kelvin for k in ('d2m', 't2m', 'sst', 'skt')},
           **{k: lambda x: x / 3600 for k in ('ssrd', 'fdir', 'strd')},
           'tp': lambda x: x * 100}
DAY = ['naive', 'str', 'date', 'utc', 'aware', 'offset']


@sub(lambda: fixed(
    seed=ints(0, 10**6), n=st.integers(0, 40), start=stamp(),
    map=MAP, own=st.booleans(), key=st.sampled_from(['abc-7', 'x/=']),
    d0=st.tuples(st.sampled_from(DAY), ints(0, 9_000_000)),
    d1=st.tuples(st.sampled_from(DAY), ints(0, 9_000_000)),
    wait=st.integers(0, 5), url=st.sampled_from(
        [None, None, 'https://mirror.example.org/v9/']),
    err=st.sampled_from([None, None, None, None, 'submit', 'failed',
                         'slow', 'file']), msg=MSG,
    limit=st.sampled_from([None, 5, 20]), **LATLON), quick=400)
def era5(case, ctx):
    import requests
    c, r = case, Rnd(case['seed'])
    what = 'get_era5'
    cols = r.pick(list(E5_LONG) + list(E5_OTHER)) or ['t2m']
    r.r.shuffle(cols)
    ask = [E5_MAP[k] if k in E5_MAP and c['own'] else {**E5_LONG, **E5_OTHER
                                                       }[k] for k in cols]
    ts = times(c['start'] // 60 * 60, c['n'], 60)
    vals = [[None if r.r.rand() < .05 else r.num(-40, 1e6, 3) for _ in ts]
            for _ in cols]
    text = ','.join(['valid_time'] + cols + ['latitude', 'longitude']) + '\n'
    for i, t in enumerate(ts):
        text += ','.join([t.strftime('%Y-%m-%d %H:%M:%S')] + [
            '' if v[i] is None else repr(v[i]) for v in vals]
            + ['40.25', '-79.75']) + '\n'
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, 'w', zipfile.ZIP_DEFLATED) as z:
        z.writestr('reanalysis-era5.csv', text)
    base = c['url'] or 'https://cds.climate.copernicus.eu/api/retrieve/v1/'
    job = f'job-{c["seed"]}'
    href = f'https://files.example.org/{c["seed"]}/result.zip'
    md = {'origin': 'api', 'messages': ['be patient'], 'datasetMetadata': {}}
    polls = [0]

    def serve(q):
        if q.method == 'POST':
            if c['err'] == 'submit':
                return reply({'title': 'required licences not accepted',
                              'detail': c['msg'], 'status': 403}, 403)
            return reply({'jobID': job, 'status': 'accepted',
                          'metadata': dict(md)}, 201)
        if q.url == base + 'jobs/' + job:
            polls[0] += 1
            if polls[0] <= c['wait'] or c['err'] == 'slow':
                return reply({'status': ['accepted', 'running'][
                    polls[0] % 2]})
            return reply({'status': 'failed' if c['err'] == 'failed'
                          else 'successful'})
        if q.url == base + f'jobs/{job}/results':
            return reply({'asset': {'value': {'href': href}}})
        require(q.url == href, f'{what}: unexpected request {q.url}')
        if c['err'] == 'file':
            return reply(f'<html>{c["msg"]}</html>', 503)
        return reply(buf.getvalue(), ctype='application/zip')
    dates, days = [], []
    for d in (c['d0'], c['d1']):
        arg, t = when(*d)
        dates.append(arg)
        # text with an offset and aware times are in another zone
        days.append(t.strftime('%Y-%m-%d'))
    kw = opt({}, map_variables=c['map'], url=c['url'], timeout=c['limit'])
    with web(serve) as seen:
        def call():
            return iotools.get_era5(c['lat'] / 1e3, c['lon'] / 1e3, *dates,
                                    ask, c['key'], **kw)
        if c['err'] == 'submit':
            says(call, Exception, c['msg'], what)
        elif c['err'] == 'slow':
            raises(requests.exceptions.Timeout, call, what=what)
        elif c['err']:
            raises(Exception, call, what=what)
        else:
            data, meta = call()
    q = seen[0]
    require(q.method == 'POST' and q.url == base + 'processes/reanalysis-'
            'era5-single-levels-timeseries/execution',
            f'{what}: {q.method} {q.url}')
    for q in seen[:2]:
        require(q.headers.get('PRIVATE-TOKEN') == c['key'],
                f'{what}: {q.headers}')
    for q in seen[1:]:
        if not q.url.startswith(base):
            require(c['key'] not in str(q.headers.get('PRIVATE-TOKEN')),
                    'the key was sent to the file server')
    got = seen[0].json()
    want = {'inputs': {
        'variable': [{**E5_LONG, **E5_OTHER}[k] for k in cols],
        'location': {'longitude': c['lon'] / 1e3, 'latitude': c['lat'] / 1e3},
        'date': ['/'.join(days)], 'data_format': 'csv'}}
    require(got == want, f'{what}: asked {got}, expected {want}')
    ctx.label('error' if c['err'] else 'data')
    if c['err']:
        return
    require(polls[0] == c['wait'] + 1, f'{what}: {polls[0]} polls')
    on = c['map'] is not False
    columns(data, names(cols, E5_MAP, on), [
        [x if x is None or not on else E5_CONV.get(k, float)(x) for x in v]
        for k, v in zip(cols, vals)])
    if c['n']:
        ig.stamps(data.index, ts, 0)
        md.update(latitude=40.25, longitude=-79.75)
    header(meta, dict(md, jobID=job))
    if c['n'] < 3:
        ctx.trivial()


# ---------------------------------------------------------------- MERRA2
M2 = {'SWGDN': 'ghi', 'SWGDNCLR': 'ghi_clear', 'ALBEDO': 'albedo',
      'LWGNT': 'longwave_net', 'LWGAB': 'longwave_down', 'T2M': 'temp_air',
      'PS': 'pressure', 'TOTEXTTAU': 'aod550', 'QV2M': 'QV2M'}


@sub(lambda: fixed(
    seed=ints(0, 10**6), n=st.integers(1, 30), start=stamp(),
    map=MAP, many=st.booleans(), user=st.sampled_from(['me', 'a.b@c']),
    pw=st.sampled_from(['secret', 'p:w d%']), zone=st.sampled_from(
        [None, 'UTC', 'Asia/Tokyo', 'Etc/GMT+7']), text=st.booleans(),
    undef=st.sampled_from(['999999986991104.0', '-9999', '1e+15']),
    err=st.sampled_from([None, None, None, None, 'login', 'data']),
    status=st.sampled_from([401, 403, 500]), **LATLON), quick=400)
def merra2(case, ctx):
    import base64
    import requests
    c, r = case, Rnd(case['seed'])
    what = 'get_merra2'
    cols = r.pick(list(M2), .4) or ['SWGDN']
    r.r.shuffle(cols)
    sets = [['M2T1NXRAD.5.12.4', 'M2T1NXSLV.5.12.4', 'M2T1NXAER.5.12.4'][
        r.r.randint(3) if c['many'] else 0] for _ in cols]
    ts = times(c['start'] // 60 * 60 + 30, c['n'], 60)
    vals = [[None if r.r.rand() < .1 else r.num(-40, 1400, 3) for _ in ts]
            for _ in cols]
    la, lo = c['lat'] / 1e3 + 1.234e-6, c['lon'] / 1e3
    metas, texts = [], {}
    for k, s, v in zip(cols, sets, vals):
        m = {'prod_name': s.replace('.', '_') + '_' + k, 'param_short_name':
             k, 'param_name': f'{k}, all "sky" (total)', 'unit': 'W m-2',
             'begin_time': ts[0].isoformat(), 'lat': str(round(la, 2)),
             'lon': str(round(lo, 2)), 'undef': c['undef']}
        metas.append(m)
        texts[m['prod_name']] = '\n'.join(
            [f'{a},{b}' for a, b in m.items()] + [
                '', 'Timestamp (UTC),Data'] + [
                f'{t.isoformat()},{c["undef"] if x is None else x}'
                for t, x in zip(ts, v)]) + '\n'

    def serve(q):
        if 'urs.earthdata' in q.url:
            if c['err'] == 'login':
                return reply({'error': 'invalid'}, c['status'])
            return reply({'access_token': 'tok-7', 'token_type': 'Bearer'})
        if c['err'] == 'data':
            return reply('sorry', c['status'])
        require(q.query.get('data') in texts, f'{what}: data '
                f'{q.query.get("data")}, expected one of {list(texts)}')
        return reply(texts[q.query['data']])
    ends = [pd.Timestamp(t, tz=c['zone']) for t in (ts[0], ts[-1])]
    utc = [t if t.tz is None else t.tz_convert('UTC').tz_localize(None)
           for t in ends]
    with web(serve) as seen:
        def call():
            return iotools.get_merra2(
                la, lo, *[str(t) if c['text'] else t for t in ends],
                c['user'], c['pw'], sets if c['many'] else sets[0], cols,
                **opt({}, map_variables=c['map']))
        if c['err']:
            says(call, requests.HTTPError, str(c['status']), what)
        else:
            data, meta = call()
    q = seen[0]
    require(q.method == 'POST' and q.url == 'https://urs.earthdata.nasa.gov/'
            'api/users/find_or_create_token', f'{what}: {q.method} {q.url}')
    auth = base64.b64encode(f'{c["user"]}:{c["pw"]}'.encode()).decode()
    require(q.headers.get('Authorization') == 'Basic ' + auth,
            f'{what}: {q.headers}')
    for q in seen[1:]:
        require(q.method == 'GET' and q.url == 'https://api.giovanni.'
                'earthdata.nasa.gov/timeseries' and
                q.headers.get('Authorization') == 'Bearer tok-7',
                f'{what}: {q.method} {q.url} {q.headers}')
        loc = [float(x) for x in q.query['location'].strip('[]').split(',')]
        require(abs(loc[0] - la) <= 5.1e-5 and abs(loc[1] - lo) <= 5.1e-5,
                f'{what}: location {loc} for {la, lo}')
        got = [pd.Timestamp(x) for x in q.query['time'].split('/')]
        require(got == utc, f'{what}: time {got}, asked {utc} UTC')
    ctx.label('error' if c['err'] else 'data')
    if c['err']:
        return
    require([q.query['data'] for q in seen[1:]] == list(texts),
            f'{what}: asked {[q.query["data"] for q in seen[1:]]}')
    on = c['map'] is not False
    columns(data, names(cols, M2, on), [
        [None if x is None else kelvin(x) if k == 'T2M' and on else x
         for x in v] for k, v in zip(cols, vals)])
    ig.stamps(data.index, ts, 0)
    header(meta, dict(zip(cols, metas), dataset=sets if c['many'] else
                      sets[0], latitude=round(la, 2), longitude=round(lo, 2)))
    if c['n'] < 3:
        ctx.trivial()


# ------------------------------------------------------------------ MIDC
@sub(lambda: fixed(
    site=st.sampled_from(['BMS', 'UAT', 'HSU', 'NREL X']),
    seed=ints(0, 10**6), n=st.integers(1, 30),
    day=ints(0, 9000), start=ints(0, 1300),
    tz=st.sampled_from([('MST', -7), ('PST', -8), ('EST', -5)]),
    nc=st.integers(1, 5), pad=st.integers(0, 3), m=st.integers(0, 31),
    how=st.sampled_from(['ts', 'str', 'dt']), wait=st.sampled_from([None, 9]),
    err=st.sampled_from([None, None, None, None, 404, 500])), quick=200)
def midc_raw(case, ctx):
    import requests
    c, r = case, Rnd(case['seed'])
    what = 'read_midc_raw_data_from_nrel'
    d = dt.datetime(1998, 1, 1) + dt.timedelta(days=c['day'])
    cols = ['Global PSP [W/m^2]', 'Direct NIP [W/m^2]', 'Diffuse [W/m^2]',
            'Temp @ 2m [deg C]', 'Wind Speed @ 2m [m/s]'][:c['nc']]
    ts = [d + dt.timedelta(minutes=c['start'] + i) for i in range(c['n'])]
    vals = [[r.num(-7999, 1400, 4) for _ in ts] for _ in cols]
    text = ','.join(['', 'Year', 'DOY', c['tz'][0]] + cols) + '\n'
    for i, t in enumerate(ts):
        text += ','.join(['0', str(t.year), str(t.timetuple().tm_yday),
                          str(t.hour * 100 + t.minute)] + [
            f'{v[i]:.4f}' for v in vals] + ['1.5'] * c['pad']) + '\n'
    vm = {k: f'v{i}' for i, k in enumerate(cols) if c['m'] >> i & 1}
    f = {'ts': pd.Timestamp, 'str': str, 'dt': lambda t: t}[c['how']]
    b = ts[-1]
    kw = opt({}, timeout=c['wait'])
    if vm:
        kw['variable_map'] = vm
    rep = reply('sorry', c['err']) if c['err'] else reply(text)
    with web(lambda q: rep) as seen:
        def call():
            return iotools.read_midc_raw_data_from_nrel(
                c['site'], f(d), f(b), **kw)
        if c['err']:
            says(call, requests.HTTPError, str(c['err']), what)
        else:
            data = call()
    q = once(seen, what)
    require(q.url == 'https://midcdmz.nlr.gov/apps/data_api.pl',
            f'{what}: {q.url}')
    query(q, dict(site=c['site'], begin=d.strftime('%Y%m%d'),
                  end=b.strftime('%Y%m%d')), what)
    require(q.timeout == (c['wait'] or 30), f'{what}: timeout {q.timeout}')
    ctx.label('error' if c['err'] else 'data')
    if c['err']:
        return
    require(list(data.columns)[-len(cols):] == [vm.get(k, k) for k in cols],
            f'{what}: columns {list(data.columns)}')
    for k, v in zip(cols, vals):
        ig.column(data[vm.get(k, k)], v, k)
    ig.stamps(data.index, ts, c['tz'][1] * 3600)
    if c['n'] < 3:
        ctx.trivial()


# -------------------------------------------------- daily/monthly archives
def surf_file(sta, d, k, r):
    out = f' {sta}\n  {40 + k}.000 -105.000 {100 + k} m version 1\n'
    rows = []
    for i in range(2):
        rows.append((d + dt.timedelta(minutes=60 * i + k % 60),
                     r.num(0, 999, 1)))
        t, v = rows[-1]
        out += (f' {t.year} {t.timetuple().tm_yday} {t.month} {t.day} '
                f'{t.hour} {t.minute} {t.hour + t.minute / 60:.3f} 50.00 '
                f'{v:.1f} 0 ' + ' '.join(f'{j}.5 0' for j in range(19))
                + '\n')
    return out, rows


def sol_file(sta, d, k, r):
    out = f' {sta}\n   {40 + k}.00000 -105.00000 {100 + k} -7  version 1\n'
    rows = []
    msn = sta == 'msn'
    for i in range(2):
        rows.append((d + dt.timedelta(minutes=60 * i + k % 60),
                     r.num(0, 999, 1)))
        t, v = rows[-1]
        out += (f'{t.year} {t.timetuple().tm_yday:3d} {t.month:2d} '
                f'{t.day:2d} {t.hour:2d} {t.minute:2d} '
                f'{t.hour + t.minute / 60:6.3f} {50:6.2f} {v:7.1f} 0'
                + f' {7.5:7.1f} 0' * (7 if msn else 4)
                + f' {1.25:9.3f}' * (7 if msn else 4) + '\n')
    return out, rows


def span(c):
    """requested period as arguments and as dates"""
    d0 = dt.datetime(1999, 1, 1) + dt.timedelta(days=c['day'])
    a = d0 + dt.timedelta(minutes=c['m0'])
    b = d0 + dt.timedelta(days=c['days'], minutes=c['m1'])
    if b < a:
        a, b = d0, max(b, d0)
    return d0, a, b


DAYARG = st.sampled_from(['ts', 'str', 'dt'])


@sub(lambda: fixed(
    net=st.sampled_from(['surfrad', 'solrad']), sta=st.sampled_from(
        ['tbl', 'ALE', 'msn', 'Gwn']), seed=ints(0, 10**6),
    day=st.one_of(ints(0, 9000), st.sampled_from(
        [58, 364, 423, 424, 728, 788, 1154])), days=st.integers(0, 4),
    m0=st.sampled_from([0, 0, 1, 720, 1439]),
    m1=st.sampled_from([0, 0, 1, 720, 1439]), gone=st.integers(0, 31),
    how=DAYARG, map=MAP), quick=150)
def radiation_archive(case, ctx):
    c, r = case, Rnd(case['seed'])
    what = 'get_' + c['net']
    surf = c['net'] == 'surfrad'
    d0, a, b = span(c)
    sta = c['sta'].lower()
    files, all_, text, rows = {}, [], [], []
    k, d = 0, d0
    while d <= b:
        name = f'{sta}/{d.year}/{sta}{d:%y}{d.timetuple().tm_yday:03d}.dat'
        all_.append(name)
        if not c['gone'] >> k & 1:
            t, w = (surf_file if surf else sol_file)(sta, d, k, r)
            files['/x/' + name] = t.encode()
            text.append((name, t))
            rows += w
        k, d = k + 1, d + dt.timedelta(days=1)
    f = {'ts': pd.Timestamp, 'str': str, 'dt': lambda t: t}[c['how']]
    kw = opt({}, map_variables=c['map']) if surf else {}
    fn = getattr(iotools, what)
    with ig.served(files) as u, warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        if not files:
            raises(Exception, lambda: fn(c['sta'], f(a), f(b), url=u + '/x/',
                                         **kw), what=what + ' without files')
            return ctx.label('no file')
        data, meta = fn(c['sta'], f(a), f(b), url=u + '/x/', **kw)
    told = ' '.join(str(x.message) for x in w)
    for name in all_:
        require((name in told) == ('/x/' + name not in files),
                f'{what}: {name} missing or not, warnings: {told}')
    read = getattr(iotools, 'read_' + c['net'])
    parts = []
    for name, t in text:
        with ig.given(t, 'path', os.path.basename(name)) as p:
            parts.append(read(p, **kw))
    require(data.equals(pd.concat([p[0] for p in parts])),
            f'{what}: not the rows of the files in order')
    key = 'dw_solar' if surf and c['map'] is False else 'ghi'
    ig.column(data[key], [v for _, v in rows], key)
    ig.stamps(data.index, [t for t, _ in rows], 0)
    header(meta, dict(parts[-1][1], station=sta, filenames=all_))
    if len(rows) < 3:
        ctx.trivial()
    ctx.label(c['net'], f'{len(all_) - len(files)} missing')


def month_start(t, k=0):
    m = t.year * 12 + t.month - 1 + k
    return dt.datetime(m // 12, m % 12 + 1, 1)


@sub(lambda: fixed(
    sta=st.sampled_from(['EU', 'BU', 'SI']), typ=st.sampled_from(
        [None, 'PO', 'RO', 'RF']), seed=ints(0, 10**6),
    day=st.one_of(ints(0, 8000), st.sampled_from([0, 30, 364, 58])),
    days=st.sampled_from([0, 1, 27, 31, 62, 100]),
    m0=st.sampled_from([0, 0, 1, 720, 1439]),
    m1=st.sampled_from([0, 0, 1, 720, 1439]), gone=st.integers(0, 31),
    how=DAYARG, map=MAP), quick=150)
def srml_archive(case, ctx):
    c, r = case, Rnd(case['seed'])
    what = 'get_srml'
    d0, a, b = span(c)
    files, all_, want, ts, text = {}, [], [], [], []
    k, m = 0, month_start(a)
    while m <= b:
        name = f'{c["sta"]}{c["typ"] or "PO"}{m:%y%m}.txt'
        all_.append(name)
        if not c['gone'] >> k & 1:
            t = f'94255\t{m.year}\t1001\t0\n'
            for i in range(24):
                v = r.num(0, 999, 1)
                want.append(v)
                ts.append(m + dt.timedelta(hours=i))
                t += f'{m.timetuple().tm_yday}\t{(i + 1) * 100}\t{v}\t11\n'
            files['/x/' + name] = t.encode()
            text.append((name, t))
        k, m = k + 1, month_start(m, 1)
    f = {'ts': pd.Timestamp, 'str': str, 'dt': lambda t: t}[c['how']]
    kw = opt({}, filetype=c['typ'], map_variables=c['map'])
    with ig.served(files) as u, warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        if not files:
            raises(Exception, lambda: iotools.get_srml(
                c['sta'], f(a), f(b), url=u + '/x/', **kw),
                what=what + ' without files')
            return ctx.label('no file')
        data, meta = iotools.get_srml(c['sta'], f(a), f(b), url=u + '/x/',
                                      **kw)
    told = ' '.join(str(x.message) for x in w)
    for name in all_:
        require((name in told) == ('/x/' + name not in files),
                f'{what}: {name} missing or not, warnings: {told}')
    kw.pop('filetype', None)
    parts = []
    for name, t in text:
        with ig.given(t, 'path', name) as p:
            parts.append(iotools.read_srml(p, **kw))
    require(data.equals(pd.concat(parts)), f'{what}: not the rows of the '
            'files in order')
    key = '1001' if c['map'] is False else 'ghi_1'
    ig.column(data[key], want, key)
    ig.stamps(data.index, ts, -8 * 3600)
    header(meta, dict(filetype=c['typ'] or 'PO', station=c['sta'],
                      filenames=all_))
    ctx.label(f'{len(all_) - len(files)} missing')


def bsrn_text(m, sid, r, n):
    lines = ['*U0001', f' {sid:2d} {m.month:2d} {m.year}  1',
             '         2         3', '*U0002', ' -1 -1 -1', '-1', '*U0003',
             'XXX', '*U0004', ' -1 -1 -1', '  3  4', 'Rd',
             f'{"+41":<20} {"+42":<20}', f'{"XXX":<15} a@b.c',
             f' {100 + m.month:7.3f} {200:7.3f} {5:4d} {"06610":>5}',
             ' -1 -1 -1', '  -1  -1', '*U0100']
    want, ts = [], []
    for i in range(n):
        v = int(r.r.randint(0, 999))
        q = ' '.join(['   5', '  1.0', '   1', '   9'])
        lines += [f' {i + 1:2d} {7:4d}   {v:4d}   1.0    1    9   {q}',
                  ' ' * 11 + f'{q}   {q}     20.5  50.0  950']
        want.append(v)
        ts.append(m + dt.timedelta(days=i, minutes=7))
    return '\n'.join(lines) + '\n', want, ts


@sub(lambda: fixed(
    sta=st.sampled_from(['tam', 'CAB', 'Pay']), seed=ints(0, 10**6),
    day=st.one_of(ints(0, 8000), st.sampled_from([0, 30, 364, 58])),
    days=st.sampled_from([0, 1, 27, 31, 62, 100]), n=st.integers(1, 5),
    m0=st.sampled_from([0, 0, 1, 720, 1439]),
    m1=st.sampled_from([0, 0, 1, 720, 1439]), gone=st.integers(0, 31),
    how=DAYARG, save=st.booleans(), fault=st.sampled_from(
        [None, None, None, None, 'station', 'perm', 'incomplete'])),
    quick=250)
def bsrn_archive(case, ctx):
    import ftplib
    c, r = case, Rnd(case['seed'])
    what = 'get_bsrn'
    d0, a, b = span(c)
    sta = c['sta'].lower()
    files, all_, want, ts = {}, [], [], []
    k, m = 0, month_start(a)
    while m <= b:
        name = f'{sta}{m:%m%y}.dat.gz'
        all_.append(name)
        if not c['gone'] >> k & 1:
            t, v, s = bsrn_text(m, k + 1, r, c['n'])
            files[sta, name] = gzip.compress(t.encode())
            want, ts = want + v, ts + s
        k, m = k + 1, month_start(m, 1)
    have = [x[1] for x in files]
    replies = {}
    if c['fault'] == 'perm':
        replies[sta, all_[-1]] = ftplib.error_perm('530 Not logged in.')
    elif c['fault'] == 'incomplete':
        replies[sta, all_[-1]] = '426 Failure writing network stream.'
    if c['fault'] != 'station':
        files[sta, 'README'] = b''
    else:
        files = {('zzz', n): x for (_, n), x in files.items()}
    f = {'ts': pd.Timestamp, 'str': str, 'dt': lambda t: t}[c['how']]
    d = tempfile.mkdtemp(prefix='pvp-bsrn-')
    kw = dict(save_path=d) if c['save'] else {}
    try:
        with ftp(files, replies) as log, warnings.catch_warnings(
                record=True) as w:
            warnings.simplefilter('always')

            def call():
                return iotools.get_bsrn(c['sta'], f(a), f(b), 'me', 'p w',
                                        **kw)
            if c['fault']:
                raises({'station': KeyError, 'perm': ftplib.error_perm,
                        'incomplete': ftplib.Error}[c['fault']], call,
                       what=f'{what}: {c["fault"]}')
                return ctx.label('error')
            data, meta = call()
        saved = {n: open(os.path.join(d, n), 'rb').read()
                 for n in os.listdir(d)}
    finally:
        shutil.rmtree(d)
    who = [x[2:] for x in log if x[0] == 'login' and x[2]]
    require(who == [('me', 'p w')], f'{what}: login {who}')
    require([x[1].split(' ')[1].rsplit('/')[-1] for x in log
             if x[0] == 'retr'] == all_, f'{what}: retrieved {log}')
    require(saved == ({n: files[sta, n] for n in have} if c['save'] else {}),
            f'{what}: saved {list(saved)}, available {have}')
    told = [str(x.message) for x in w]
    if not have:
        require(len(data) == 0 and told, f'{what}: nothing found, {data}')
        return ctx.label('no file')
    for n in all_:
        require(any(n in t for t in told) == (n not in have),
                f'{what}: {n} missing or not, warnings: {told}')
    ig.column(data['ghi'], want, 'ghi')
    ig.stamps(data.index, ts, 0)
    require(abs(meta['latitude'] - 10 - int(have[-1][3:5])) < 1e-9
            and meta['start date'].month == int(have[-1][3:5]),
            f'{what}: metadata not of the last file: {meta}')
    if len(want) < 3:
        ctx.trivial()
    ctx.label(f'{len(all_) - len(have)} missing')
