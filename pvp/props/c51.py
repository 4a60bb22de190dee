"""C51 Satellite and reanalysis file readers."""
import csv
import datetime as dt
import io
import json

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib import iotools

from .. import iogen as ig
from ..cmp import raises, require
from ..core import sub
from ..gen import ints, fixed

RULE = ('Generated PSM4, PVGIS hourly and typical-year, CAMS and '
        'SolarAnywhere files with random column subsets, values, periods, '
        'zones, labels and header lines, read from paths and buffers; '
        'non-trivial = three or more records.')


class Rnd:
    def __init__(self, seed):
        self.r = np.random.RandomState(seed)

    def num(self, lo, hi, dec):
        v = [lo, hi, 0][self.r.randint(3)] if self.r.rand() < .1 \
            else self.r.uniform(lo, hi)
        return float(f'{v:.{dec}f}')

    def pick(self, seq, p=.6):
        return [k for k in seq if self.r.rand() < p]


def stamp():
    """a start instant (minutes after 1998-01-01), often near a turn of year
    or a leap day"""
    base = dt.datetime(1998, 1, 1)
    return st.one_of(
        ints(0, 14_000_000),
        st.tuples(st.integers(2000, 2024), st.sampled_from(
            [(2, 28, 23, 0), (12, 31, 22, 0), (2, 29, 0, 0), (1, 1, 0, 0)])
        ).map(lambda z: int((dt.datetime(
            z[0], z[1][0], min(z[1][1], 28 if z[0] % 4 else 29), *z[1][2:])
            - base).total_seconds() // 60)))


def times(start, n, step):
    t0 = dt.datetime(1998, 1, 1) + dt.timedelta(minutes=start)
    return [t0 + dt.timedelta(minutes=step * i) for i in range(n)]


def names(want, mapping, on):
    return [mapping.get(k, k) if on else k for k in want]


def columns(data, got, want):
    """`data` has exactly the columns `got` holding `want` (same order)"""
    require(list(data.columns) == got,
            f'columns {list(data.columns)}, expected {got}')
    for k, v in zip(got, want):
        ig.column(data[k], v, k)


def header(meta, want):
    for k, v in want.items():
        require(k in meta, f'metadata lacks {k!r}: {meta}')
        same = meta[k] == v and (isinstance(v, str) == isinstance(meta[k],
                                                                  str))
        require(same, f'metadata {k!r} = {meta[k]!r}, expected {v!r}')
    require(set(meta) == set(want), f'metadata keys {sorted(meta)}, expected '
            f'{sorted(want)}')


# ------------------------------------------------------------------ PSM4
PSM_MAP = {
    'GHI': 'ghi', 'DHI': 'dhi', 'DNI': 'dni', 'Clearsky GHI': 'ghi_clear',
    'Clearsky DHI': 'dhi_clear', 'Clearsky DNI': 'dni_clear',
    'Solar Zenith Angle': 'solar_zenith', 'Temperature': 'temp_air',
    'Dew Point': 'temp_dew', 'Relative Humidity': 'relative_humidity',
    'Pressure': 'pressure', 'Wind Speed': 'wind_speed',
    'Wind Direction': 'wind_direction', 'Surface Albedo': 'albedo',
    'Precipitable Water': 'precipitable_water', 'AOD': 'aod'}
PSM_COLS = list(PSM_MAP) + [
    'Cloud Type', 'Fill Flag', 'Alpha', 'Asymmetry', 'Ozone', 'SSA',
    'Cloud Fill Flag', 'GaAs (Bauhuis et al., 2009)',
    'Reconstruction, "best"', 'Global Spectrum, 0.3 um']


def psm4_text(c, r):
    """(text, expected columns, values, times, header)"""
    cols = r.pick(PSM_COLS) or ['GHI']
    r.r.shuffle(cols)
    ts = times(c['start'] // c['step'] * c['step'], c['n'], c['step'])
    head = {
        'Source': 'NSRDB', 'Location ID': str(c['seed']),
        'City': '-', 'State': '-', 'Country': '-',
        'Latitude': c['lat'] / 100, 'Longitude': c['lon'] / 100,
        'Time Zone': c['tz'], 'Elevation': c['alt'],
        'Local Time Zone': c['local'], 'Dew Point Units': 'c',
        'Clearsky GHI Units': 'w/m2', 'Cloud Type 1': 'Probably Clear',
        'Cloud Type -15': 'N/A', 'Fill Flag 0': 'N/A',
        'Note': 'a, quoted "field"', 'Version': '4.0.0'}
    all_ = ['Year', 'Month', 'Day', 'Hour', 'Minute'] + cols
    rows, want = [], {k: [] for k in all_}
    for t in ts:
        row = [t.year, t.month, t.day, t.hour, t.minute]
        for k in cols:
            if k in ('Cloud Type', 'Fill Flag'):
                row.append(int(r.r.randint(-15, 13)))
            elif r.r.rand() < .3:
                row.append(int(r.r.randint(-20, 1200)))
            else:
                row.append(r.num(-50, 1400, 2))
        rows.append(row)
        for k, v in zip(all_, row):
            want[k].append(v)
    out = io.StringIO()
    w = csv.writer(out, lineterminator=c['eol'])
    pad = [''] * c['pad']
    w.writerow(list(head))
    w.writerow(list(head.values()))
    w.writerow(all_ + pad)
    for row in rows:
        w.writerow(row + pad)
    return out.getvalue(), all_, [want[k] for k in all_], ts, head


def psm4_check(data, meta, c, cols, want, ts, head):
    on = c['map'] is not False
    columns(data, names(cols, PSM_MAP, on), want)
    ig.stamps(data.index, ts, 3600 * c['tz'])
    e = dict(head)
    if on:
        for a, b in [('Latitude', 'latitude'), ('Longitude', 'longitude'),
                     ('Elevation', 'altitude')]:
            e[b] = e.pop(a)
    header(meta, e)
    for k in ('Year', 'Hour', 'Cloud Type', 'Fill Flag'):
        if k in data:
            require(data[k].dtype.kind == 'i', f'{k} dtype {data[k].dtype}')


def psm4_case(**k):
    return fixed(
        seed=ints(0, 10**6), n=st.integers(1, 40), start=stamp(),
        step=st.sampled_from([5, 15, 30, 60]), tz=st.integers(-12, 12),
        local=st.integers(-12, 12), lat=ints(-9000, 9000),
        lon=ints(-18000, 18000), alt=ints(-100, 5000),
        map=st.sampled_from([None, True, False]),
        eol=st.sampled_from(['\n', '\n', '\r\n']),
        pad=st.sampled_from([0, 0, 1, 3]), **k)


@sub(lambda: psm4_case(via=ig.how()), quick=500)
def psm4(case, ctx):
    c = case
    text, cols, want, ts, head = psm4_text(c, Rnd(c['seed']))
    kw = {} if c['map'] is None else dict(map_variables=c['map'])
    with ig.given(text, c['via']) as f:
        data, meta = iotools.read_nsrdb_psm4(f, **kw)
    psm4_check(data, meta, c, cols, want, ts, head)
    if c['n'] < 3:
        ctx.trivial()
    ctx.label(c['via'])


# ----------------------------------------------------------------- PVGIS
PVG_MAP = {
    'G(h)': 'ghi', 'Gb(n)': 'dni', 'Gd(h)': 'dhi', 'G(i)': 'poa_global',
    'Gb(i)': 'poa_direct', 'Gd(i)': 'poa_sky_diffuse',
    'Gr(i)': 'poa_ground_diffuse', 'H_sun': 'solar_elevation',
    'T2m': 'temp_air', 'RH': 'relative_humidity', 'SP': 'pressure',
    'WS10m': 'wind_speed', 'WD10m': 'wind_direction'}
HOURLY = ['P', 'G(i)', 'Gb(i)', 'Gd(i)', 'Gr(i)', 'H_sun', 'T2m', 'WS10m']
DESC = {
    'P': 'PV system power (W)', 'G(i)': 'Global irradiance on the inclined '
    'plane (plane of the array) (W/m2)', 'T2m': '2-m air temperature '
    '(degree Celsius)', 'WS10m': '10-m total wind speed (m/s)',
    'Int': '1 means solar radiation values are reconstructed'}


def hourly_parts(c):
    r = Rnd(c['seed'])
    cols = r.pick(HOURLY) + ['Int']
    t0 = c['start'] // 60 * 60 + c['minute']
    ts = times(t0, c['n'], 60)
    vals = [[r.num(-30, 1400, 2) for _ in ts] for _ in cols[:-1]]
    vals.append([float(r.r.randint(0, 2)) for _ in ts])
    desc = {k: DESC.get(k, f'{k} of the site (unit)') for k in cols}
    loc = dict(latitude=c['lat'] / 1000, longitude=c['lon'] / 1000,
               elevation=float(c['alt']))
    return cols, ts, vals, desc, loc


def hourly_json(c):
    cols, ts, vals, desc, loc = hourly_parts(c)
    inputs = {'location': dict(loc), 'meteo_data': {
        'radiation_db': 'PVGIS-SARAH2', 'use_horizon': True,
        'horizon_db': None}, 'pv_module': {'peak_power': 1.5}}
    minp = {'location': {'description': 'Selected location'}}
    src = {'inputs': inputs,
           'outputs': {'hourly': [
               dict([('time', t.strftime('%Y%m%d:%H%M'))]
                    + [(k, v[i]) for k, v in zip(cols, vals)])
               for i, t in enumerate(ts)]},
           'meta': {'inputs': minp, 'outputs': {'hourly': {
               'type': 'time series', 'variables': desc}}}}
    e = {'inputs': dict(inputs, descriptions=minp),
         'outputs': src['meta']['outputs']}
    return json.dumps(src), e


def hourly_csv(c):
    cols, ts, vals, desc, loc = hourly_parts(c)
    e = c['eol']
    sep = c['sep']
    extra = {'Slope': '30 deg.', 'Azimuth': '-12 deg. (optimum)',
             'Nominal power of the PV system (c-Si) (kWp)': '1.5',
             'System losses (%)': '14.0'}
    extra = {k: extra[k] for k in list(extra)[:c['extra']]}
    rdb = ['PVGIS-SARAH', 'PVGIS-ERA5', 'PVGIS-SARAH3'][c['seed'] % 3]
    lines = [f'Latitude (decimal degrees):{sep}{loc["latitude"]:.3f}',
             f'Longitude (decimal degrees):{sep}{loc["longitude"]:.3f}',
             f'Elevation (m):{sep}{c["alt"]}',
             f'Radiation database:{sep}{rdb}', '', '']
    lines += [f'{k}:{sep}{v} ' for k, v in extra.items()]
    lines += ['time,' + ','.join(cols)]
    for i, t in enumerate(ts):
        lines.append(','.join([t.strftime('%Y%m%d:%H%M')]
                              + [repr(v[i]) for v in vals]))
    lines += [''] + [f'{k}: {v}' for k, v in desc.items()]
    lines += ['', '', '', 'PVGIS (c) European Union, 2001-2021', '']
    meta = {'inputs': dict(loc, radiation_database=rdb, **extra),
            'descriptions': desc}
    return e.join(lines), meta


def hourly_check(data, meta, emeta, c):
    cols, ts, vals, desc, loc = hourly_parts(c)
    columns(data, names(cols, PVG_MAP, c['map'] is not False), vals)
    ig.stamps(data.index, ts, 0)
    require(data['Int'].dtype.kind == 'i', f'Int is {data["Int"].dtype}')
    for k in data:
        require(data[k].dtype.kind in 'if', f'{k} is {data[k].dtype}')
    require(meta == emeta, f'metadata {meta}, expected {emeta}')


def hourly_case(**k):
    return fixed(
        seed=ints(0, 10**6), n=st.integers(1, 40), start=stamp(),
        minute=st.sampled_from([0, 10, 11, 30, 59]),
        lat=ints(-90000, 90000), lon=ints(-180000, 180000),
        alt=ints(-400, 5000), map=st.sampled_from(
            [None, True, False]), eol=st.sampled_from(['\n', '\r\n']),
        sep=st.sampled_from(['\t', ' ']), extra=st.integers(0, 4), **k)


@sub(lambda: hourly_case(
    fmt=st.sampled_from(['json', 'csv']), via=ig.how(),
    given=st.booleans(), suffix=st.sampled_from(['low', 'UP', 'other'])),
    quick=500)
def pvgis_hourly(case, ctx):
    c = case
    text, emeta = (hourly_json if c['fmt'] == 'json' else hourly_csv)(c)
    kw = {} if c['map'] is None else dict(map_variables=c['map'])
    name = 'f.' + {'low': c['fmt'], 'UP': c['fmt'].upper(),
                   'other': 'txt'}[c['suffix']]
    with ig.given(text, c['via'], name) as f:
        if c['given']:
            kw['pvgis_format'] = c['fmt']
        elif c['via'] == 'buffer':
            raises(TypeError, lambda: iotools.read_pvgis_hourly(f, **kw),
                   what='buffer without a format')
            return ctx.trivial()
        elif c['suffix'] == 'other':
            raises(ValueError, lambda: iotools.read_pvgis_hourly(f, **kw),
                   what='unknown suffix')
            return ctx.trivial()
        data, meta = iotools.read_pvgis_hourly(f, **kw)
    hourly_check(data, meta, emeta, c)
    if c['n'] < 3:
        ctx.trivial()
    ctx.label(c['fmt'])


@sub(lambda: hourly_case(bad=st.sampled_from(
    ['basic', 'epw', 'JSON', 'xml', '']), via=ig.how(), cut=st.booleans()),
    quick=100)
def pvgis_hourly_refuses(case, ctx):
    c = case
    text, _ = hourly_csv(c)
    if c['cut']:
        # a header without its data section
        text = text.split('time,')[0]
        with ig.given(text, c['via'], 'f.csv') as f:
            raises(ValueError, lambda: iotools.read_pvgis_hourly(
                f, pvgis_format='csv'), what='file without data')
        return
    with ig.given(text, c['via'], 'f.csv') as f:
        raises(ValueError, lambda: iotools.read_pvgis_hourly(
            f, pvgis_format=c['bad']), what=f'format {c["bad"]!r}')


TMY_COLS = ['T2m', 'RH', 'G(h)', 'Gb(n)', 'Gd(h)', 'IR(h)', 'WS10m', 'WD10m',
            'SP']


def tmy_parts(c):
    r = Rnd(c['seed'])
    years = [int(y) for y in r.r.randint(2005, 2024, 12)]
    off = int(c['offset_min'])
    ts = []
    for m, y in enumerate(years):
        days = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m]
        for k in range(days * 24):
            ts.append(dt.datetime(y, m + 1, 1) + dt.timedelta(
                hours=k, minutes=off))
    vals = np.round(r.r.uniform(-40, 1300, (len(TMY_COLS), len(ts))), 2)
    return years, ts, vals


def tmy_loc(c):
    loc = dict(latitude=c['lat'] / 1000, longitude=c['lon'] / 1000,
               elevation=float(c['alt']))
    return loc


def tmy_json(c):
    years, ts, vals = tmy_parts(c)
    inputs = {'location': dict(tmy_loc(c), irradiance_time_offset=.1761),
              'meteo_data': {'radiation_db': 'PVGIS-SARAH3',
                             'year_min': 2005}}
    minp = {'location': {'description': 'Selected location'}}
    sel = [{'month': m + 1, 'year': y} for m, y in enumerate(years)]
    v = vals.T.tolist()
    src = {'inputs': inputs, 'outputs': {
        'months_selected': sel, 'tmy_hourly': [
            dict([('time(UTC)', t.strftime('%Y%m%d:%H%M'))]
                 + list(zip(TMY_COLS, v[i]))) for i, t in enumerate(ts)]},
        'meta': {'inputs': minp, 'outputs': {'tmy_hourly': {
            'variables': DESC}}}}
    meta = {'inputs': dict(inputs, descriptions=minp),
            'outputs': src['meta']['outputs'], 'months_selected': sel}
    return json.dumps(src), meta


def tmy_csv(c):
    years, ts, vals = tmy_parts(c)
    loc = tmy_loc(c)
    lines = [f'Latitude (decimal degrees): {loc["latitude"]:.3f}',
             f'Longitude (decimal degrees): {loc["longitude"]:.3f}',
             f'Elevation (m): {loc["elevation"]}']
    inp = dict(loc)
    if c['offset_line']:
        lines.append(f'Irradiance Time Offset (h): {c["ito"] / 1e4}')
        inp['irradiance time offset'] = c['ito'] / 1e4
    lines.append('month,year')
    lines += [f'{m + 1},{y}' for m, y in enumerate(years)]
    lines.append('time(UTC),' + ','.join(TMY_COLS))
    v = vals.T.tolist()
    for t, row in zip(ts, v):
        lines.append(t.strftime('%Y%m%d:%H%M,')
                     + ','.join(map(repr, row)))
    desc = {k: DESC.get(k, f'{k} of the site (unit)') for k in TMY_COLS}
    lines += [''] + [f'{k}: {d}' for k, d in desc.items()]
    lines += ['', 'PVGIS (c) European Union, 2001-2025', '']
    meta = {'inputs': inp, 'descriptions': desc, 'months_selected': [
        {'month': m + 1, 'year': y} for m, y in enumerate(years)]}
    return c['eol'].join(lines), meta


def tmy_check(data, meta, emeta, c, on):
    years, ts, vals = tmy_parts(c)
    got = names(TMY_COLS, PVG_MAP, on)
    require(list(data.columns) == got, f'columns {list(data.columns)}')
    require(len(data) == len(ts), f'{len(data)} rows')
    for k, v in zip(got, vals):
        g = data[k].to_numpy()
        require(g.dtype.kind == 'f', f'{k} is {g.dtype}')
        bad = np.flatnonzero(g != v)
        if len(bad):
            require(False, f'{k}[{bad[0]}] = {g[bad[0]]}, written '
                    f'{v[bad[0]]}')
    want = pd.DatetimeIndex(ts).tz_localize('UTC')
    require(isinstance(data.index, pd.DatetimeIndex)
            and data.index.tz is not None
            and bool((data.index == want).all())
            and data.index[0].utcoffset().total_seconds() == 0,
            f'index {data.index[:3]} ... expected {want[:3]}')
    require(meta == emeta, f'metadata {meta}, expected {emeta}')


@sub(lambda: fixed(
    seed=ints(0, 10**6), offset_min=st.sampled_from([0, 0, 30]),
    lat=ints(-90000, 90000), lon=ints(-180000, 180000),
    alt=ints(-400, 5000), map=st.sampled_from([None, True, False]),
    fmt=st.sampled_from(['json', 'csv', 'csv']),
    via=st.sampled_from(['str', 'path', 'buffer']),
    eol=st.sampled_from(['\n', '\r\n']), offset_line=st.booleans(),
    ito=ints(-5000, 5000), given=st.booleans()),
    quick=60, thorough=600, shards=4)
def pvgis_tmy(case, ctx):
    c = case
    text, emeta = (tmy_json if c['fmt'] == 'json' else tmy_csv)(c)
    kw = {} if c['map'] is None else dict(map_variables=c['map'])
    via = c['via']
    if via == 'buffer' and c['fmt'] == 'csv':
        via = 'bytes'
    if c['given'] or via in ('buffer', 'bytes'):
        kw['pvgis_format'] = c['fmt']
    with ig.given(text, via, 'f.' + c['fmt']) as f:
        data, meta = iotools.read_pvgis_tmy(f, **kw)
    tmy_check(data, meta, emeta, c, c['map'] is not False)
    ctx.label(c['fmt'], 'offset line' if c['offset_line'] else 'plain')


@sub(lambda: fixed(fmt=st.sampled_from(['basic', 'xml', 'CSV', 'txt']),
                   given=st.booleans(), via=ig.how()), quick=60)
def pvgis_tmy_refuses(case, ctx):
    c = case
    with ig.given('{}\n', c['via'], 'f.' + c['fmt']) as f:
        kw = dict(pvgis_format=c['fmt']) if c['given'] else {}
        if not c['given'] and (c['fmt'] == 'CSV' or c['via'] == 'buffer'):
            return ctx.trivial()
        raises(ValueError, lambda: iotools.read_pvgis_tmy(f, **kw),
               what=f'format {c["fmt"]!r}')


# ------------------------------------------------------------------ CAMS
CAMS_MAP = {
    'TOA': 'ghi_extra', 'Clear sky GHI': 'ghi_clear',
    'Clear sky BHI': 'bhi_clear', 'Clear sky DHI': 'dhi_clear',
    'Clear sky BNI': 'dni_clear', 'GHI': 'ghi', 'BHI': 'bhi', 'DHI': 'dhi',
    'BNI': 'dni', 'sza': 'solar_zenith'}
CAMS_INT = ['TOA', 'Clear sky GHI', 'Clear sky BHI', 'Clear sky DHI',
            'Clear sky BNI', 'GHI', 'BHI', 'DHI', 'BNI', 'GHI no corr',
            'BHI no corr', 'DHI no corr', 'BNI no corr']
CAMS_OTHER = ['Reliability', 'sza', 'summer/winter split', 'tco3', 'tcwv',
              'AOD BC', 'alpha', 'Aerosol type', 'albedo', 'Cloud type']
PERIOD = {'1min': ('0 year 0 month 0 day 0 h 1 min 0 s', 1),
          '15min': ('0 year 0 month 0 day 0 h 15 min 0 s', 15),
          '1h': ('0 year 0 month 0 day 1 h 0 min 0 s', 60),
          '1d': ('0 year 0 month 1 day 0 h 0 min 0 s', 1440),
          '1M': ('0 year 1 month 0 day 0 h 0 min 0 s', None)}


def month(t, k):
    m = t.month - 1 + k
    return dt.datetime(t.year + m // 12, m % 12 + 1, 1)


def cams_text(c):
    r = Rnd(c['seed'])
    cols = r.pick(CAMS_INT, .7) + r.pick(CAMS_OTHER, .4)
    if not cols:
        cols = ['TOA']
    t0 = dt.datetime(1998, 1, 1) + dt.timedelta(minutes=c['start'])
    text, step = PERIOD[c['step']]
    if step is None:
        t0 = t0.replace(day=1, hour=0, minute=0)
        edges = [month(t0, k) for k in range(c['n'] + 1)]
    else:
        m = c['start'] // step * step
        edges = times(m, c['n'] + 1, step)
    vals = [[None if r.r.rand() < .1 else r.num(0, 1e5, 4)
             for _ in range(c['n'])] for _ in cols]
    head = [('Coding', 'utf-8'), ('File format version', '4'),
            ('Title', 'CAMS McClear v3.1 model of clear-sky irradiation.'),
            ('Provider', 'MINES ParisTech (France)'),
            ('More information at', 'http://www.soda-pro.com/web-services'),
            ('Date begin (ISO 8601)', edges[0].isoformat() + '.0'),
            ('Latitude (positive North, ISO 19115)', f'{c["lat"]/1e4:.4f}'),
            ('Longitude (positive East, ISO 19115)', f'{c["lon"]/1e4:.4f}'),
            ('Altitude (m)', f'{c["alt"]}.00'),
            ('Elevation of CAMS cell (m)', '28.64'),
            ('Time reference', 'Universal time (UT)'),
            ('Summarization (integration) period', text),
            ('noValue', 'nan')]
    lines = [f'# {k}: {v}' for k, v in head]
    lines[4:4] = ['# The research has received funding from the Union.',
                  '#           Calls on the McClear clear-sky model.',
                  '# urn:x-inspire:specification:DS-AC-MF', '#',
                  '#     uom:"Wh m-2" [unit]']
    lines += ['#', '# Columns:', '# 1. Observation period (ISO 8601)']
    lines += [f'#{i + 2:2d}. {k}. Some description (unit)'
              for i, k in enumerate(cols)]
    lines += ['#', '# Observation period;' + ';'.join(cols)]
    obs = []
    for i in range(c['n']):
        o = f'{edges[i].isoformat()}.0/{edges[i + 1].isoformat()}.0'
        obs.append(o)
        lines.append(';'.join([o] + [
            'nan' if v[i] is None else f'{v[i]:.4f}' for v in vals]))
    meta = {k: v for k, v in head if k.split()[0] not in (
        'Latitude', 'Longitude', 'Altitude')}
    meta.update(latitude=c['lat'] / 1e4, longitude=c['lon'] / 1e4,
                altitude=float(c['alt']), time_step=c['step'])
    return '\n'.join(lines) + '\n', cols, vals, edges, obs, meta


def cams_check(data, meta, c, cols, vals, edges, obs, emeta):
    integ = bool(c['integrated'])
    on = c['map'] is not False
    want = []
    for k, v in zip(cols, vals):
        if k in CAMS_INT and not integ:
            v = [None if x is None else x / ((
                edges[i + 1] - edges[i]).total_seconds() / 3600)
                for i, x in enumerate(v)]
        want.append(v)
    columns(data, ['Observation period'] + names(cols, CAMS_MAP, on),
            [obs] + want)
    label = c['label'] or ('right' if c['step'] == '1M' else 'left')
    ts = edges[:-1] if label == 'left' else edges[1:]
    if c['step'] in ('1d', '1M'):
        if c['step'] == '1M' and label == 'right':
            ts = [t - dt.timedelta(days=1) for t in ts]
        require(data.index.tz is None and list(data.index) == [
            pd.Timestamp(t) for t in ts], f'index {list(data.index)[:3]}, '
            f'expected {ts[:3]}')
    else:
        ig.stamps(data.index, ts, 0)
    require(data.index.name is None, f'index name {data.index.name!r}')
    e = dict(emeta, radiation_unit='Wh/m^2' if integ else 'W/m^2')
    header(meta, e)


def cams_case(**k):
    return fixed(
        seed=ints(0, 10**6), n=st.integers(1, 30), start=stamp(),
        step=st.sampled_from(list(PERIOD)), label=st.sampled_from(
            [None, 'left', 'right']), integrated=st.sampled_from(
                [None, False, True]),
        lat=ints(-900000, 900000), lon=ints(-1800000, 1800000),
        alt=ints(-100, 5000),
        map=st.sampled_from([None, True, False]), **k)


def cams_kw(c):
    kw = {} if c['map'] is None else dict(map_variables=c['map'])
    if c['label'] is not None:
        kw['label'] = c['label']
    if c['integrated'] is not None:
        kw['integrated'] = c['integrated']
    return kw


@sub(lambda: cams_case(via=ig.how()), quick=500)
def cams(case, ctx):
    c = case
    text, *rest = cams_text(c)
    with ig.given(text, c['via']) as f:
        data, meta = iotools.read_cams(f, **cams_kw(c))
    cams_check(data, meta, c, *rest)
    if c['n'] < 3:
        ctx.trivial()
    ctx.label(c['step'], str(c['label']))


# --------------------------------------------------------- SolarAnywhere
SA_MAP = {
    'Global Horizontal Irradiance (GHI) W/m2': 'ghi',
    'Direct Normal Irradiance (DNI) W/m2': 'dni',
    'Diffuse Horizontal Irradiance (DIF) W/m2': 'dhi',
    'AmbientTemperature (deg C)': 'temp_air', 'WindSpeed (m/s)':
    'wind_speed', 'Relative Humidity (%)': 'relative_humidity',
    'Clear Sky GHI': 'ghi_clear', 'Clear Sky DNI': 'dni_clear',
    'Clear Sky DHI': 'dhi_clear', 'Albedo': 'albedo'}
SA_OTHER = ['Liquid Precipitation (kg/m2)', 'Snow Depth (m)',
            'IrradianceObservationType', 'LeadTime', 'DataVersion',
            'ObservationTime(GMT)', 'Particulate Matter 10 (µg/m3)']


@sub(lambda: fixed(
    seed=ints(0, 10**6), n=st.integers(1, 40), start=stamp(),
    step=st.sampled_from([1, 5, 15, 30, 60]),
    tz=st.sampled_from([-12, -8, -5, -3.5, 0, 1, 5.5, 5.75, 9.5, 13]),
    lat=ints(-9000000, 9000000), lon=ints(-18000000, 18000000),
    alt=ints(-100, 5000), pm=st.sampled_from([0, .1, .5]),
    map=st.sampled_from([None, True, False]),
    enc=st.sampled_from([None, 'iso-8859-1', 'utf-8']),
    res=st.sampled_from(['0.010', '0.005', '0.100']),
    typ=st.sampled_from(['Timeseries', 'Typical Year']),
    via=ig.how('str', 'path')), quick=500)
def solaranywhere(case, ctx):
    c, r = case, Rnd(case['seed'])
    cols = r.pick(list(SA_MAP) + SA_OTHER) or ['Albedo']
    r.r.shuffle(cols)
    ts = times(c['start'] // c['step'] * c['step'], c['n'], c['step'])
    want = {k: [] for k in cols}
    lines = []
    for t in ts:
        row = [t.strftime('%m/%d/%Y %H:%M')]
        for k in cols:
            if k == 'IrradianceObservationType':
                x = e = ['AN', 'AD', 'FX'][r.r.randint(3)]
            elif k == 'DataVersion':
                x = e = 'SolarAnywhere3_6'
            elif k == 'ObservationTime(GMT)':
                x = e = (t - dt.timedelta(hours=c['tz'])).strftime(
                    '%m/%d/%Y %H:%M')
            elif k == 'LeadTime' or r.r.rand() < c['pm']:
                x, e = ['', 'NaN', '-999', '-999.0'][r.r.randint(4)], None
            else:
                e = float(r.r.randint(-20, 1200)) if r.r.rand() < .5 \
                    else r.num(-40, 1400, 4)
                x = f'{e:.0f}' if e == int(e) else repr(e)
            row.append(x)
            want[k].append(e)
        lines.append(','.join(row))
    pairs = [('Data Version', '3.6'), ('Type', c['typ']),
             ('LatLon Resolution', c['res']),
             ('Time Resolution', f'{c["step"]} minutes'),
             ('Averaging Method', 'End of Period'), ('TD', 'No')]
    head = ','.join(['0', 'Burlington  United States', 'NA', f'{c["tz"]:g}',
                     repr(c['lat'] / 1e5), repr(c['lon'] / 1e5),
                     str(c['alt'])])
    head += ',"' + ' / '.join(f'{k}: {v}' for k, v in pairs) + \
        ' / Copyright 2010-2022 Clean Power Research®, L.L.C. ' \
        'DownloadID=f05846d6-ef54"'
    text = '\n'.join([head, ','.join(['ObservationTime(LST)'] + cols)]
                     + lines) + '\n'
    kw = {} if c['map'] is None else dict(map_variables=c['map'])
    if c['enc']:
        kw['encoding'] = c['enc']
    with ig.given(text, c['via'], 'a b.csv',
                  encoding=c['enc'] or 'iso-8859-1') as f:
        data, meta = iotools.read_solaranywhere(f, **kw)
    lst = [t.strftime('%m/%d/%Y %H:%M') for t in ts]
    columns(data, ['ObservationTime(LST)'] + names(cols, SA_MAP,
                                                   c['map'] is not False),
            [lst] + [want[k] for k in cols])
    ig.stamps(data.index, ts, c['tz'] * 3600)
    e = dict(pairs, USAF=0, name='Burlington  United States', state='NA',
             TZ=float(c['tz']), latitude=c['lat'] / 1e5,
             longitude=c['lon'] / 1e5, altitude=float(c['alt']))
    e['LatLon Resolution'] = float(c['res'])
    header(meta, e)
    if c['n'] < 3:
        ctx.trivial()
    ctx.label(c['typ'], 'fractional zone' if c['tz'] % 1 else 'whole zone')
