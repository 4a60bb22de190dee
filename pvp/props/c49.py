"""C49 Typical-year file readers (TMY2, TMY3, EPW)."""
import calendar
import datetime as dt
import io
import warnings

import pandas as pd
from hypothesis import strategies as st
from pvlib import iotools
from pvlib.iotools import tmy
from pvlib.location import Location

from .. import iogen as ig
from ..cmp import Fail, require
from ..core import sub
from ..gen import ints, fixed

RULE = ('Generated TMY2, TMY3 and EPW files of 1 to 40 records with every '
        'column filled at random, whole and fractional zones, records around '
        'hour 24, month ends and the end of February; non-trivial = three '
        'or more records.')

# ------------------------------------------------------------------- TMY3
T3 = ('ETR (W/m^2)|ETRN (W/m^2)|GHI (W/m^2)|GHI source|GHI uncert (%)|'
      'DNI (W/m^2)|DNI source|DNI uncert (%)|DHI (W/m^2)|DHI source|'
      'DHI uncert (%)|GH illum (lx)|GH illum source|Global illum uncert (%)|'
      'DN illum (lx)|DN illum source|DN illum uncert (%)|DH illum (lx)|'
      'DH illum source|DH illum uncert (%)|Zenith lum (cd/m^2)|'
      'Zenith lum source|Zenith lum uncert (%)|TotCld (tenths)|TotCld source|'
      'TotCld uncert (code)|OpqCld (tenths)|OpqCld source|'
      'OpqCld uncert (code)|Dry-bulb (C)|Dry-bulb source|'
      'Dry-bulb uncert (code)|Dew-point (C)|Dew-point source|'
      'Dew-point uncert (code)|RHum (%)|RHum source|RHum uncert (code)|'
      'Pressure (mbar)|Pressure source|Pressure uncert (code)|'
      'Wdir (degrees)|Wdir source|Wdir uncert (code)|Wspd (m/s)|Wspd source|'
      'Wspd uncert (code)|Hvis (m)|Hvis source|Hvis uncert (code)|'
      'CeilHgt (m)|CeilHgt source|CeilHgt uncert (code)|Pwat (cm)|'
      'Pwat source|Pwat uncert (code)|AOD (unitless)|AOD source|'
      'AOD uncert (code)|Alb (unitless)|Alb source|Alb uncert (code)|'
      'Lprecip depth (mm)|Lprecip quantity (hr)|Lprecip source|'
      'Lprecip uncert (code)').split('|')
T3_MAP = {'GHI (W/m^2)': 'ghi', 'ETR (W/m^2)': 'ghi_extra',
          'DNI (W/m^2)': 'dni', 'ETRN (W/m^2)': 'dni_extra',
          'DHI (W/m^2)': 'dhi', 'Pressure (mbar)': 'pressure',
          'Wdir (degrees)': 'wind_direction', 'Wspd (m/s)': 'wind_speed',
          'Dry-bulb (C)': 'temp_air', 'Dew-point (C)': 'temp_dew',
          'RHum (%)': 'relative_humidity', 'Alb (unitless)': 'albedo',
          'Pwat (cm)': 'precipitable_water'}


def cell(i, j, seed, kind):
    """a reproducible value for row i, column j"""
    h = (seed * 7919 + i * 104729 + j * 1299709 + 12345) * 2654435761 % 2**32
    if kind == 'flag':
        return 'ABCDEF?12'[h % 9]
    if kind == 'code':
        return str(h % 10)
    if kind == 'int':
        return str(h % 1500 - (h >> 16) % 3 * 40)
    return f'{(h % 100000 - 20000) / 1000:.{1 + h % 3}f}'


def kind3(c):
    return 'flag' if 'source' in c else 'code' if 'uncert' in c else (
        'float' if any(k in c for k in ('bulb', 'point', 'Wspd', 'Pwat',
                                        'AOD', 'Alb')) else 'int')


def hours(leap=False):
    """start (month, day, hour 1-24) and number of records"""
    return st.tuples(
        st.one_of(st.sampled_from([(2, 28, 20), (2, 28, 24), (12, 31, 1),
                                   (1, 31, 22), (3, 1, 1), (2, 27, 23),
                                   (6, 30, 24), (1, 1, 1), (12, 30, 20)]),
                  st.integers(1, 12).flatmap(lambda m: st.tuples(
                      st.just(m), st.integers(1, 28), st.integers(1, 24)))),
        st.integers(1, 40))


def records(start, n, year):
    """(date, hour 1-24) of consecutive hours of a 365-day year"""
    m, d, h = start
    out = []
    for _ in range(n):
        out.append((m, d, h))
        h += 1
        if h > 24:
            h, d = 1, d + 1
            if d > calendar.monthrange(2001, m)[1]:
                d, m = 1, m + 1
        if m > 12:
            break
    return out


LABEL = st.text('abcdefghij KLMNé.-', min_size=1, max_size=12).map(
    lambda s: s.strip() or 'x')
OFF = st.sampled_from([-8, -5, 0, 3, 9, 5.5, -3.5, 5.75, 12, -12, 9.5])


@sub(lambda: fixed(start=hours(), year=st.sampled_from(
    [1976, 1996, 1999, 2000, 2004, 2021]), coerce=st.sampled_from(
        [None, None, 1990, 2020, 2015]), map=st.sampled_from(
            [None, True, False]), midnight=st.sampled_from(['24', '24', '00']),
    minute=st.sampled_from([0, 0, 30, 15, 59, 1]), tz=OFF, name=LABEL,
    quote=st.booleans(), lat=ints(-9000, 9000),
    lon=ints(-18000, 18000), alt=ints(-90, 4000),
    usaf=ints(0, 999999), seed=ints(0, 10**6), how=ig.how(),
    enc=st.sampled_from([None, 'utf-8', 'iso-8859-1']),
    trailing=st.booleans(), years=st.lists(st.integers(1976, 2005),
                                           min_size=12, max_size=12)),
    quick=300, shards=2)
def tmy3(case, ctx):
    c = case
    rec = records(*c['start'], c['year'])
    multi = c['coerce'] is not None       # months from different years
    lines, want_t, rows = [], [], []
    for i, (m, d, h) in enumerate(rec):
        y = c['years'][m - 1] if multi else c['year']
        day = dt.date(y, m, d)
        end = dt.datetime(y, m, d) + dt.timedelta(hours=h)
        if (end.month, end.day) == (2, 29):
            end += dt.timedelta(days=1)   # no 29 February in a typical year
        if h == 24 and c['midnight'] == '00':
            nxt = dt.date(y, m, d) + dt.timedelta(days=1)
            stamp = f'{nxt:%m/%d/%Y},00'
        else:
            stamp = f'{day:%m/%d/%Y},{h:02d}'
        vals = [cell(i, j, c['seed'], kind3(k)) for j, k in enumerate(T3)]
        rows.append(vals)
        lines.append(f'{stamp}:{c["minute"]:02d},' + ','.join(vals))
        end += dt.timedelta(minutes=c['minute'])
        if c['coerce'] is not None:
            end = end.replace(year=c['coerce'] + (i == len(rec) - 1))
        want_t.append(end)
    name = f'"{c["name"]}"' if c['quote'] else c['name']
    head = [str(c['usaf']), name, 'CO', f'{c["tz"]:g}.0' if
            c['tz'] % 1 == 0 else f'{c["tz"]}', f'{c["lat"] / 100:.3f}',
            f'{c["lon"] / 100:.3f}', str(c['alt'])]
    text = ','.join(head) + (',"x / y",,' if c['trailing'] else '') + '\n'
    text += 'Date (MM/DD/YYYY),Time (HH:MM),' + ','.join(T3) + '\n'
    text += '\n'.join(lines) + '\n'
    kw = {k: v for k, v in dict(coerce_year=c['coerce'],
                                map_variables=c['map']).items()
          if v is not None}
    enc = c['enc'] or 'utf-8'
    if c['enc']:
        kw['encoding'] = enc
    with ig.given(text, c['how'], encoding=enc) as f:
        data, meta = iotools.read_tmy3(f, **kw)
    names = [k if c['map'] is False else T3_MAP.get(k, k) for k in T3]
    first = ['Date (MM/DD/YYYY)', 'Time (HH:MM)']
    require(list(data.columns) == first + names,
            f'columns {list(data.columns)}')
    ig.stamps(data.index, want_t, c['tz'] * 3600)
    for j, k in enumerate(names):
        ig.column(data[k], [r[j] for r in rows], k)
    want = dict(USAF=c['usaf'], Name=name, State='CO', TZ=float(c['tz']),
                latitude=c['lat'] / 100, longitude=c['lon'] / 100,
                altitude=float(c['alt']))
    if meta.get('Name') == c['name']:
        want['Name'] = c['name']
    require(meta == want, f'metadata {meta}, expected {want}')
    if c['tz'] % 1 == 0:
        loc = Location.from_tmy(meta, data)
        require(loc.latitude == want['latitude']
                and loc.altitude == want['altitude'], 'location')
    if len(rec) < 3:
        ctx.trivial()
    ctx.label(f'midnight {c["midnight"]}')
    if any(r == (2, 28, 24) for r in rec):
        ctx.label('end of February')


# ------------------------------------------------------------------- TMY2
# TMY2 manual table 3-2: width of every element, in order
T2 = [('ETR', 4, 0), ('ETRN', 4, 0), ('GHI', 4, 1), ('DNI', 4, 1),
      ('DHI', 4, 1), ('GHillum', 4, 1), ('DNillum', 4, 1), ('DHillum', 4, 1),
      ('Zenithlum', 4, 1), ('TotCld', 2, 1), ('OpqCld', 2, 1),
      ('DryBulb', 4, 1), ('DewPoint', 4, 1), ('RHum', 3, 1),
      ('Pressure', 4, 1), ('Wdir', 3, 1), ('Wspd', 3, 1), ('Hvis', 4, 1),
      ('CeilHgt', 5, 1), ('PresentWeather', 10, 0), ('Pwat', 3, 1),
      ('AOD', 3, 1), ('SnowDepth', 3, 1), ('LastSnowfall', 2, 1)]


@sub(lambda: fixed(
    start=hours(), year=st.integers(61, 90), tz=st.integers(-11, 12),
    wban=ints(1, 99999), city=st.text('ABCDEF_', min_size=1,
                                             max_size=20),
    ns=st.sampled_from('NS'), ew=st.sampled_from('EW'),
    lat=st.tuples(st.integers(0, 89), st.integers(0, 59)),
    lon=st.tuples(ints(0, 179), st.integers(0, 59)),
    alt=ints(-50, 4000), seed=ints(0, 10**6),
    how=ig.how('str', 'path'), crlf=st.booleans()), quick=200)
def tmy2(case, ctx):
    c = case
    rec = records(*c['start'], 1900 + c['year'])
    if any((m, d) == (2, 29) for m, d, _ in rec):
        raise Fail('harness: leap day')
    lines, rows = [], []
    for i, (m, d, h) in enumerate(rec):
        row = dict(year=c['year'], month=m, day=d, hour=h)
        s = f' {c["year"]:02d}{m:02d}{d:02d}{h:02d}'
        for j, (k, w, flags) in enumerate(T2):
            x = (c['seed'] * 31 + i * 7919 + j * 104729) * 2654435761 % 2**40
            v = x % 10**w
            if k in ('DryBulb', 'DewPoint') and x >> 36 & 1:
                v = -(v % 1000)
            row[k] = v
            s += f'{v:0{w}d}'
            if flags:
                row[k + 'Source'] = 'ABCDEFGH?'[x >> 8 & 7]
                row[k + 'Uncertainty'] = x % 10
                s += row[k + 'Source'] + str(x % 10)
        rows.append(row)
        lines.append(s)
    nl = '\r\n' if c['crlf'] else '\n'
    head = (f' {c["wban"]:05d} {c["city"]:<22} FL {c["tz"]:3d} {c["ns"]} '
            f'{c["lat"][0]:2d} {c["lat"][1]:2d} {c["ew"]} {c["lon"][0]:3d} '
            f'{c["lon"][1]:2d} {c["alt"]:5d}')
    text = nl.join([head] + lines) + nl
    with ig.given(text, c['how']) as f:
        data, meta = iotools.read_tmy2(f)
    require(list(data.columns) == list(rows[0]), 'columns: '
            f'{[k for k in data.columns if k not in rows[0]]} instead of '
            f'{[k for k in rows[0] if k not in data.columns]}')
    for k in rows[0]:
        ig.column(data[k], [r[k] for r in rows], k)
    ig.stamps(data.index, [dt.datetime(1900 + c['year'], m, d, h - 1)
                           for m, d, h in rec], c['tz'] * 3600)
    lat = (c['lat'][0] + c['lat'][1] / 60) * (1 if c['ns'] == 'N' else -1)
    lon = (c['lon'][0] + c['lon'][1] / 60) * (1 if c['ew'] == 'E' else -1)
    want = dict(WBAN=f'{c["wban"]:05d}', City=c['city'], State='FL',
                TZ=c['tz'], altitude=c['alt'])
    require(set(meta) == {*want, 'latitude', 'longitude'}, 'metadata keys')
    for k, v in want.items():
        require(meta[k] == v, f'{k}: {meta[k]!r}, expected {v!r}')
    for k, v in dict(latitude=lat, longitude=lon).items():
        require(abs(meta[k] - v) < 1e-9, f'{k}: {meta[k]!r}, expected {v!r}')
    loc = Location.from_tmy(meta)
    require((loc.latitude, loc.longitude, loc.name) == (
        meta['latitude'], meta['longitude'], c['city']), 'location')
    if len(rec) < 3:
        ctx.trivial()


# -------------------------------------------------------------------- EPW
EPW = ('temp_air temp_dew relative_humidity atmospheric_pressure etr etrn '
       'ghi_infrared ghi dni dhi global_hor_illum direct_normal_illum '
       'diffuse_horizontal_illum zenith_luminance wind_direction wind_speed '
       'total_sky_cover opaque_sky_cover visibility ceiling_height '
       'present_weather_observation present_weather_codes '
       'precipitable_water aerosol_optical_depth snow_depth '
       'days_since_last_snowfall albedo liquid_precipitation_depth '
       'liquid_precipitation_quantity').split()
EFLOAT = {'temp_air', 'temp_dew', 'wind_speed', 'visibility', 'albedo',
          'aerosol_optical_depth', 'liquid_precipitation_depth',
          'precipitable_water'}


@sub(lambda: fixed(
    start=hours(), years=st.lists(st.integers(1953, 2023), min_size=12,
                                  max_size=12),
    coerce=st.sampled_from([None, None, 1990, 2020]), tz=OFF,
    minute=st.sampled_from([0, 60, 30]), city=LABEL, state=LABEL,
    lat=ints(-9000, 9000), lon=ints(-18000, 18000),
    alt=ints(-90, 4000), seed=ints(0, 10**6),
    comment=st.sampled_from(['', '"a, b", c', 'x']),
    crlf=st.booleans(), via=st.sampled_from(
        ['str', 'path', 'buffer', 'str', 'path', 'buffer', 'url']),
    old=st.booleans()), quick=300, shards=2)
def epw(case, ctx):
    c = case
    rec = records(*c['start'], 2001)
    lines, rows, want_t = [], [], []
    for i, (m, d, h) in enumerate(rec):
        y = c['years'][m - 1]
        row = dict(year=y, month=m, day=d, hour=h, minute=c['minute'],
                   data_source_unct='?9?9*0A7')
        for j, k in enumerate(EPW):
            row[k] = cell(i, j, c['seed'],
                          'float' if k in EFLOAT else 'int')
        row['present_weather_codes'] = f'{i % 10}99999999'
        lines.append(','.join(str(v) for v in row.values()))
        if c['coerce']:
            row['year'] = y = c['coerce']
        rows.append(row)
        want_t.append(dt.datetime(y, m, d, h - 1))
    nl = '\r\n' if c['crlf'] else '\n'
    head = ['LOCATION', c['city'], c['state'], 'ABC', 'TMY3', '724699',
            f'{c["lat"] / 100:.2f}', f'{c["lon"] / 100:.2f}',
            f'{c["tz"]:.2f}', f'{c["alt"]}.0']
    text = nl.join([
        ','.join(head), 'DESIGN CONDITIONS,1,a,b', 'TYPICAL/EXTREME PERIODS,0',
        'GROUND TEMPERATURES,0', 'HOLIDAYS/DAYLIGHT SAVINGS,No,0,0,0',
        'COMMENTS 1,' + c['comment'], 'COMMENTS 2,',
        'DATA PERIODS,1,1,Data,Sunday, 1/ 1,12/31', *lines]) + nl
    kw = dict(coerce_year=c['coerce']) if c['coerce'] else {}
    if c['via'] == 'url':
        with ig.served({'/a b.epw'.replace(' ', '_'): text.encode()}) as u:
            data, meta = iotools.read_epw(u + '/a_b.epw', **kw)
    else:
        with ig.given(text, c['via']) as f:
            data, meta = iotools.read_epw(f, **kw)
    require(list(data.columns) == list(rows[0]), 'columns')
    for k in rows[0]:
        ig.column(data[k], [r[k] for r in rows], k)
    ig.stamps(data.index, want_t, c['tz'] * 3600)
    want = {'loc': 'LOCATION', 'city': c['city'], 'state-prov': c['state'],
            'country': 'ABC', 'data_type': 'TMY3', 'WMO_code': '724699',
            'latitude': c['lat'] / 100, 'longitude': c['lon'] / 100,
            'TZ': float(c['tz']), 'altitude': float(c['alt'])}
    require(meta == want, f'metadata {meta}, expected {want}')
    if c['tz'] % 1 == 0:
        loc = Location.from_epw(meta, data)
        require(loc.name == c['city'] and loc.longitude
                == c['lon'] / 100, 'location')
    if c['old']:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            d2, m2 = iotools.epw.parse_epw(io.StringIO(text), **kw)
        require(d2.equals(data) and d2.index.equals(data.index)
                and m2 == meta, 'parse_epw differs from read_epw')
    if len(rec) < 3:
        ctx.trivial()
    ctx.label(c['via'])
