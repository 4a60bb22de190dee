"""C50 Measurement network file readers."""
import datetime as dt
import gzip
import io
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib import iotools

from .. import iogen as ig
from ..cmp import require
from ..core import sub
from ..gen import ints, fixed

RULE = ('Generated SURFRAD, SOLRAD, CRN, SRML, MIDC and BSRN files of 1 to '
        '40 records with random values, flags and missing-value codes in '
        'every column, read from paths, buffers and a loopback web server; '
        'non-trivial = three or more records with at least one missing value '
        'where the format has them.')


class Rnd:
    """reproducible values"""
    def __init__(self, seed):
        self.r = np.random.RandomState(seed)
        self.missing = 0

    def num(self, lo, hi, dec, pmiss=0., code=None):
        """(text value, expected value)"""
        if self.r.rand() < pmiss:
            self.missing += 1
            return code, None
        if self.r.rand() < .1:
            v = [0, lo, hi][self.r.randint(3)]
        else:
            v = self.r.uniform(lo, hi)
        t = f'{v:.{dec}f}'
        return float(t), float(t)


def day():
    return st.one_of(
        st.sampled_from(['2020-02-29', '2019-12-31', '2020-12-31',
                         '2016-03-01', '2018-01-01']),
        ints(0, 9000).map(lambda k: str(
            dt.date(1998, 1, 1) + dt.timedelta(days=k))))


def minutes(n, step, start):
    return [start + step * i for i in range(n)]


def place():
    return dict(lat=ints(-90000, 90000), lon=ints(-180000,
                                                                180000),
                alt=ints(-50, 4000), name=st.sampled_from(
                    ['Alamosa', 'Fort Peck', 'Table Mountain, CO']))


def serve(text, via, name, fn, encoding='utf-8'):
    if via == 'url':
        with ig.served({'/d/' + name: text.encode(encoding)}) as u:
            return fn(u + '/d/' + name)
    with ig.given(text, via, name, encoding) as f:
        return fn(f)


SURF = ('dw_solar uw_solar direct_n diffuse dw_ir dw_casetemp dw_dometemp '
        'uw_ir uw_casetemp uw_dometemp uvb par netsolar netir totalnet temp '
        'rh windspd winddir pressure').split()
SURF_MAP = dict(zen='solar_zenith', dw_solar='ghi', direct_n='dni',
                diffuse='dhi', temp='temp_air', windspd='wind_speed',
                winddir='wind_direction', rh='relative_humidity')


def renamed(k, m):
    base, flag = (k[:-5], '_flag') if k.endswith('_flag') else (k, '')
    return m.get(base, base) + flag


@sub(lambda: fixed(
    day=day(), n=st.integers(1, 30), step=st.sampled_from([1, 3]),
    start=ints(0, 1300), seed=ints(0, 10**6),
    pm=st.sampled_from([.1, .5, 0.]), map=st.sampled_from(
        [None, True, False]), metres=st.booleans(),
    via=st.sampled_from(['str', 'path', 'str', 'path', 'url']), **place()),
    quick=400)
def surfrad(case, ctx):
    c, r = case, Rnd(case['seed'])
    d = dt.datetime.fromisoformat(c['day'])
    cols = 'year jday month day hour minute dt zen'.split() + [
        k + s for k in SURF for s in ('', '_flag')]
    want = {k: [] for k in cols}
    times, lines = [], []
    for m in minutes(c['n'], c['step'], c['start']):
        t = d + dt.timedelta(minutes=m)
        row = [t.year, t.timetuple().tm_yday, t.month, t.day, t.hour,
               t.minute, round(t.hour + t.minute / 60, 3)]
        s = '{:5d} {:3d} {:2d} {:2d} {:2d} {:2d} {:6.3f}'.format(*row)
        x, e = r.num(0, 180, 2)
        s += f' {x:6.2f}'
        row.append(e)
        for k in SURF:
            x, e = r.num(-500, 1500, 1, c['pm'], -9999.9)
            f = int(r.r.choice([0, 0, 1, 2]))
            s += f' {x:7.1f} {f:d}'
            row += [e, f]
        for k, v in zip(cols, row):
            want[k].append(v)
        lines.append(s)
        times.append(t)
    text = (f' {c["name"]}\n  {c["lat"] / 1e3:7.3f} {c["lon"] / 1e3:8.3f} '
            f'{c["alt"]} {"m " if c["metres"] else ""}version 1\n'
            + '\n'.join(lines) + '\n')
    kw = {} if c['map'] is None else dict(map_variables=c['map'])
    data, meta = serve(text, c['via'], 'slv.dat',
                       lambda f: iotools.read_surfrad(f, **kw))
    names = cols if c['map'] is False else [renamed(k, SURF_MAP)
                                            for k in cols]
    require(list(data.columns) == names, f'columns {list(data.columns)}')
    for k, q in zip(cols, names):
        ig.column(data[q], want[k], q)
    ig.stamps(data.index, times, 0)
    e = dict(name=c['name'], latitude=float(f'{c["lat"] / 1e3:.3f}'),
             longitude=float(f'{c["lon"] / 1e3:.3f}'),
             elevation=float(c['alt']), surfrad_version=1, tz='UTC')
    require(meta == e, f'metadata {meta}, expected {e}')
    if c['n'] < 3 or not r.missing:
        ctx.trivial()
    ctx.label(c['via'])


SOL = ['ghi', 'dni', 'dhi', 'uvb', 'uvb_temp']
SOL_IR = ['dpir', 'dpirc', 'dpird']


@sub(lambda: fixed(
    day=day(), n=st.integers(1, 30), step=st.sampled_from([1, 3]),
    start=ints(0, 1300), seed=ints(0, 10**6),
    pm=st.sampled_from([.1, .5, 0.]), msn=st.booleans(),
    dir=st.sampled_from(['', 'msn', 'x']), tz=st.integers(-10, 0),
    via=st.sampled_from(['str', 'path', 'str', 'path', 'url']), **place()),
    quick=400)
def solrad(case, ctx):
    c, r = case, Rnd(case['seed'])
    d = dt.datetime.fromisoformat(c['day'])
    vals = SOL + (SOL_IR if c['msn'] else [])
    std = ['std_dw_psp', 'std_direct', 'std_diffuse', 'std_uvb'] + (
        ['std_dpir', 'std_dpirc', 'std_dpird'] if c['msn'] else [])
    cols = ('year julian_day month day hour minute decimal_time '
            'solar_zenith').split() + [
        k + s for k in vals for s in ('', '_flag')] + std
    want = {k: [] for k in cols}
    times, lines = [], []
    for m in minutes(c['n'], c['step'], c['start']):
        t = d + dt.timedelta(minutes=m)
        row = [t.year, t.timetuple().tm_yday, t.month, t.day, t.hour,
               t.minute, round(t.hour + t.minute / 60, 3)]
        s = '{:4d} {:3d} {:2d} {:2d} {:2d} {:2d} {:6.3f}'.format(*row)
        x, e = r.num(0, 180, 2)
        s += f' {x:6.2f}'
        row.append(e)
        for k in vals:
            x, e = r.num(-500, 1500, 1, c['pm'], -9999.9)
            f = int(r.r.choice([0, 0, 1, 2]))
            s += f' {x:7.1f} {f:d}'
            row += [e, f]
        for k in std:
            x, e = r.num(0, 900, 3, c['pm'], -9999.9)
            s += f' {x:9.3f}'
            row.append(e)
        for k, v in zip(cols, row):
            want[k].append(v)
        lines.append(' ' * 0 + s)
        times.append(t)
    text = (f' {c["name"]}\n   {c["lat"] / 1e3:.5f} {c["lon"] / 1e3:.5f} '
            f'{c["alt"]} {c["tz"]}  version 1\n' + '\n'.join(lines) + '\n')
    name = f'{"msn" if c["msn"] else "abq"}{t:%y}001.dat'
    if c['via'] == 'url':
        p = f'/{c["dir"]}/{name}'.replace('//', '/')
        with ig.served({p: text.encode()}) as u:
            data, meta = iotools.read_solrad(u + p)
    else:
        with ig.given(text, c['via'], name) as f:
            data, meta = iotools.read_solrad(f)
    require(list(data.columns) == cols, f'columns {list(data.columns)}')
    for k in cols:
        ig.column(data[k], want[k], k)
    ig.stamps(data.index, times, 0)
    e = dict(station_name=c['name'], latitude=c['lat'] / 1e3,
             longitude=c['lon'] / 1e3, altitude=float(c['alt']), TZ=c['tz'])
    require(meta == e, f'metadata {meta}, expected {e}')
    if c['n'] < 3 or not r.missing:
        ctx.trivial()
    ctx.label(c['via'], 'Madison' if c['msn'] else 'other')


# name, width, decimals, range, missing code
CRN = [('CRX_VN', 6, 3, 1, 3, None), ('LONGITUDE', 7, 2, -180, 180, None),
       ('LATITUDE', 7, 2, -90, 90, None),
       ('AIR_TEMPERATURE', 7, 1, -60, 60, -9999),
       ('PRECIPITATION', 7, 1, 0, 90, -9999),
       ('SOLAR_RADIATION', 6, 0, 0, 1400, -99999), ('SR_FLAG', 1, 0, 0, 3, 0),
       ('SURFACE_TEMPERATURE', 7, 1, -60, 80, -9999),
       ('ST_TYPE', 1, None, 0, 0, None), ('ST_FLAG', 1, 0, 0, 3, None),
       ('RELATIVE_HUMIDITY', 5, 0, 0, 100, -9999),
       ('RH_FLAG', 1, 0, 0, 3, None),
       ('SOIL_MOISTURE_5', 7, 3, 0, 1, -99),
       ('SOIL_TEMPERATURE_5', 7, 1, -40, 60, -9999),
       ('WETNESS', 5, 0, 0, 2000, -9999), ('WET_FLAG', 1, 0, 0, 3, None),
       ('WIND_1_5', 6, 2, 0, 40, -99), ('WIND_FLAG', 1, 0, 0, 3, None)]
CRN_MAP = {'LONGITUDE': 'longitude', 'LATITUDE': 'latitude',
           'AIR_TEMPERATURE': 'temp_air', 'SOLAR_RADIATION': 'ghi',
           'SR_FLAG': 'ghi_flag', 'RELATIVE_HUMIDITY': 'relative_humidity',
           'RH_FLAG': 'relative_humidity_flag', 'WIND_1_5': 'wind_speed',
           'WIND_FLAG': 'wind_speed_flag'}


@sub(lambda: fixed(
    day=day(), n=st.integers(1, 30), start=ints(0, 287),
    seed=ints(0, 10**6), pm=st.sampled_from([.1, .5, 0.]),
    map=st.sampled_from([None, True, False]), off=st.integers(-10, -4),
    pad=st.booleans(), wban=ints(1000, 99999),
    nul=st.lists(st.integers(0, 30), max_size=3, unique=True),
    via=st.sampled_from(['str', 'path', 'buffer', 'str', 'url'])), quick=400)
def crn(case, ctx):
    c, r = case, Rnd(case['seed'])
    d = dt.datetime.fromisoformat(c['day'])
    cols = ['WBANNO', 'UTC_DATE', 'UTC_TIME', 'LST_DATE', 'LST_TIME'] + [
        x[0] for x in CRN]
    want = {k: [] for k in cols}
    times, lines = [], []
    for i in range(c['n']):
        t = d + dt.timedelta(minutes=5 * (c['start'] + i))
        lst = t + dt.timedelta(hours=c['off'])
        row = [c['wban']]
        s = f'{c["wban"]:5d}'
        for u in (t, lst):
            a, b = int(f'{u:%Y%m%d}'), int(f'{u:%H%M}')
            row += [a, b]
            s += f' {a} ' + (f'{b:04d}' if c['pad'] else f'{b:4d}')
        for k, w, dec, lo, hi, code in CRN:
            if k == 'ST_TYPE':
                x = e = 'RCU'[r.r.randint(3)]
                s += ' ' + x
            else:
                x, e = r.num(lo, hi, dec, c['pm'] if code and code < 0
                             else 0., code)
                s += f' {x:{w}.{dec}f}'
                if k == 'CRX_VN':
                    e = f'{x:.3f}'
            row.append(e)
        for k, v in zip(cols, row):
            want[k].append(v)
        if i in c['nul']:            # null characters are dropped lines
            lines.append(['\0' * 6, '\0' * 134, ' ' * 150, '\0' * 6 + s,
                          '\0' * 134 + s][(i + c['seed']) % 5])
            ctx.label('null characters')
        lines.append(s)
        times.append(t)
    text = '\n'.join(lines) + '\n'
    kw = {} if c['map'] is None else dict(map_variables=c['map'])
    data = serve(text, c['via'], 'crn.txt',
                 lambda f: iotools.read_crn(f, **kw))
    names = cols if c['map'] is False else [CRN_MAP.get(k, k) for k in cols]
    require(list(data.columns) == names, f'columns {list(data.columns)}')
    for k, q in zip(cols, names):
        ig.column(data[q], want[k], q)
    ig.stamps(data.index, times, 0)
    if c['n'] < 3 or not r.missing:
        ctx.trivial()
    ctx.label(c['via'])


ELEM = ['100', '201', '300', '920', '921', '930', '931', '933', '937', '200',
        '940', '110']
SRML_MAP = {'100': 'ghi', '201': 'dni', '300': 'dhi', '920': 'wind_direction',
            '921': 'wind_speed', '930': 'temp_air', '931': 'temp_dew',
            '933': 'relative_humidity', '937': 'temp_cell'}


@sub(lambda: fixed(
    year=st.integers(1976, 2023), doy=st.one_of(
        st.sampled_from([1, 31, 59, 60, 61, 335, 365, 366]), ints(1, 366)),
    step=st.sampled_from([1, 5, 15, 60, 10]), days=st.integers(1, 2),
    elem=st.lists(st.tuples(st.sampled_from(ELEM + ['700', '732']),
                            st.integers(0, 9)), min_size=1, max_size=14,
                  unique_by=lambda t: t), n=ints(2, 3000),
    seed=ints(0, 10**6), pm=st.sampled_from([.1, .5, 0.]),
    map=st.sampled_from([None, True, False]),
    via=st.sampled_from(['str', 'path', 'buffer', 'str', 'url'])), quick=400)
def srml(case, ctx):
    c, r = case, Rnd(case['seed'])
    per = 1440 // c['step']
    n = min(c['days'] * per, max(c['n'], 2), 9000 // len(c['elem']))
    first = min(c['doy'], 366 - c['days'] + (c['year'] % 4 == 0))
    codes = [f'{e}{k}' for e, k in c['elem']]
    vals, flags = {k: [] for k in codes}, {k: [] for k in codes}
    times, lines = [], []
    for i in range(n):
        k = i // per
        end = (i % per + 1) * c['step']             # minutes, 1 .. 1440
        doy = first + k
        s = f'{doy}\t{end // 60 * 100 + end % 60}'
        for q in codes:
            x, e = r.num(-50, 1400, 1)
            f = int(r.r.choice([11, 12, 13, 14, 9, 98]))
            if r.r.rand() < c['pm']:
                f, e = 99, None
                r.missing += 1
            vals[q].append(e)
            flags[q].append(f)
            s += f'\t{x:g}\t{f}'
        lines.append(s)
        times.append(dt.datetime(c['year'], 1, 1) + dt.timedelta(
            days=doy - 1, minutes=end - c['step']))
    text = '\t'.join([f'94255\t{c["year"]}'] + [
        f'{q}\t0' for q in codes]) + '\n' + '\n'.join(lines) + '\n'
    kw = {} if c['map'] is None else dict(map_variables=c['map'])
    data = serve(text, c['via'], 'EUPO.txt',
                 lambda f: iotools.read_srml(f, **kw))
    names = [q if c['map'] is False or q[0] == '7' or q[:3] not in SRML_MAP
             else f'{SRML_MAP[q[:3]]}_{q[3:]}' for q in codes]
    require(list(data.columns) == [x + s for x in names
                                   for s in ('', '_flag')],
            f'columns {list(data.columns)}')
    for q, x in zip(codes, names):
        ig.column(data[x], vals[q], x)
        ig.column(data[x + '_flag'], flags[q], x + '_flag')
    ig.stamps(data.index, times, -8 * 3600)
    if n < 3 or not r.missing:
        ctx.trivial()
    ctx.label(c['via'], f'{c["step"]} min')


MIDC_TZ = {'MST': -7, 'PST': -8, 'CST': -6, 'EST': -5, 'HST': -10}


@sub(lambda: fixed(
    day=day(), n=st.integers(1, 30), step=st.sampled_from([1, 5, 60]),
    start=ints(0, 1439), seed=ints(0, 10**6),
    raw=st.booleans(), tz=st.sampled_from(list(MIDC_TZ)),
    cols=st.lists(st.sampled_from(
        ['Global PSP [W/m^2]', 'Direct NIP [W/m^2]', 'Diffuse [W/m^2]',
         'Temp, 2m', 'Wind Speed @ 2m [m/s]']), min_size=1, max_size=5,
        unique=True), m=st.integers(0, 31), use=st.booleans(),
    extra=st.booleans(),
    via=st.sampled_from(['str', 'path', 'buffer', 'str', 'url'])), quick=400)
def midc(case, ctx):
    c, r = case, Rnd(case['seed'])
    d = dt.datetime.fromisoformat(c['day'])
    want = {k: [] for k in c['cols']}
    times, lines = [], []
    for m in minutes(c['n'], c['step'], c['start']):
        t = d + dt.timedelta(minutes=m)
        if c['raw']:
            row = ['0', str(t.year), str(t.timetuple().tm_yday),
                   str(t.hour * 100 + t.minute)]
        else:
            row = [f'{t:%m/%d/%Y}', f'{t:%H:%M}']
        for k in c['cols']:
            x, e = r.num(-7999, 1400, 4)
            want[k].append(e)
            row.append(f'{x:.4f}')
        lines.append(','.join(row))
        times.append(t)
    head = ([['', 'x'][c['m'] & 1], 'Year', 'DOY'] if c['raw'] else
            ['DATE (MM/DD/YYYY)']) + [c['tz']]
    text = ','.join(head + [f'"{k}"' if ',' in k else k
                            for k in c['cols']]) + '\n'
    text += '\n'.join(lines) + '\n'
    vm = {k: f'v{i}' for i, k in enumerate(c['cols']) if c['m'] >> i & 1}
    kw = dict(variable_map=vm) if vm or c['use'] else {}
    if c['raw'] or c['use']:
        kw['raw_data'] = c['raw']
    use = c['cols']
    if c['extra']:                       # pandas options are passed on
        kw['usecols'] = range(len(head) + 1)
        use = c['cols'][:1]
    data = serve(text, c['via'], 'midc.txt',
                 lambda f: iotools.read_midc(f, **kw))
    require(list(data.columns)[len(head):] == [vm.get(k, k) for k in use],
            f'columns {list(data.columns)}')
    for k in use:
        ig.column(data[vm.get(k, k)], want[k], k)
    ig.stamps(data.index, times, MIDC_TZ[c['tz']] * 3600)
    if c['n'] < 3:
        ctx.trivial()
    ctx.label(c['via'], 'raw' if c['raw'] else 'daily')


# --------------------------------------------------------------------- BSRN
def q4(x):
    """(mean, std, min, max) of one quantity, as written"""
    return [x + s for s in ('', '_std', '_min', '_max')]


def fields(r, pm, w=(4, 5, 4, 4), mcode=-999, dec=0):
    """four fields of a quantity: text pieces and expected values"""
    out, exp = [], []
    for i in range(4):
        if i == 1 or dec:
            x, e = r.num(0, 99, 1, pm, -99.9)
            out.append(f'{x:5.1f}')
        else:
            x, e = r.num(-20, 1500, 0, pm, mcode)
            out.append(f'{x:4.0f}')
        exp.append(e)
    return out, exp


def one(r, pm, lo, hi, dec, w, code):
    x, e = r.num(lo, hi, dec, pm, code)
    return f'{x:{w}.{dec}f}', e


@sub(lambda: fixed(
    year=st.integers(1992, 2023), month=st.integers(1, 12),
    n=st.integers(1, 25), step=st.sampled_from([1, 3, 60, 480]),
    start=ints(0, 1439), seed=ints(0, 10**6),
    pm=st.sampled_from([.1, .5, 0.]),
    have=st.tuples(st.permutations(['0100', '0300', '0500', '0008']),
                   st.integers(-4, -1)).map(lambda t: t[0][:-t[1]]),
    ask=st.sampled_from([None, ('0100',), ['0300'], ('0100', '0300'),
                         ['0500', '0100'], ('0100', '0300', '0500')]),
    drop=st.integers(0, 2), mark=st.sampled_from('UC'),
    station=st.integers(1, 99), ver=st.integers(1, 9),
    lat=ints(0, 180000), lon=ints(0, 360000),
    alt=ints(-50, 4000), surf=st.integers(1, 20),
    topo=st.integers(1, 20), hor=st.lists(st.tuples(
        ints(0, 359), st.integers(0, 40)), max_size=25,
        unique_by=lambda t: t[0]),
    text=st.sampled_from(['Rd 1, Town', 'x', 'A-B c']),
    via=st.sampled_from(['str', 'path', 'buffer', 'gz'])), quick=400)
def bsrn(case, ctx):
    c, r = case, Rnd(case['seed'])
    first = dt.datetime(c['year'], c['month'], 1)
    n = min(c['n'], 27 * 1440 // c['step'])
    mins = [c['start'] + c['step'] * i for i in range(n)]
    M = c['mark']
    lines = [f'*{M}0001', f' {c["station"]:2d} {c["month"]:2d} {c["year"]} '
             f' {c["ver"]}', '         2         3']
    lines += [f'*{M}0002', ' -1 -1 -1', '-1', f'*{M}0003', 'XXX', f'*{M}0004',
              ' -1 -1 -1', f' {c["surf"]:2d} {c["topo"]:2d}', c['text'],
              f'{"+41 1 2":<20} {"+41 3 4":<20}', f'{"XXX":<15} a@b.c',
              f' {c["lat"] / 1e3:7.3f} {c["lon"] / 1e3:7.3f} {c["alt"]:4d} '
              f'{"06610":>5}', ' -1 -1 -1']
    flat = [x for p in c['hor'] for x in p] + [-1, -1]
    lines += [' ' + ' '.join(f'{x:3d}' for x in flat[i:i + 22])
              for i in range(0, len(flat), 22)]
    data_want, recs = {}, {}
    for lr in c['have']:
        cut = mins[c['drop']:] if lr == '0300' and len(mins) > 2 else mins
        body, rows = [], []
        for m in cut:
            dd, mm = m // 1440 + 1, m % 1440
            if lr == '0100':
                g, ge = fields(r, c['pm'])
                b, be = fields(r, c['pm'])
                h, he = fields(r, c['pm'])
                w, we = fields(r, c['pm'])
                t, te = one(r, c['pm'], -40, 50, 1, 5, -99.9)
                u, ue = one(r, c['pm'], 0, 100, 1, 5, -99.9)
                p, pe = one(r, c['pm'], 600, 1050, 0, 4, -999)
                body += [f' {dd:2d} {mm:4d}   {" ".join(g)}   {" ".join(b)}',
                         ' ' * 11 + f'{" ".join(h)}   {" ".join(w)}    '
                         f'{t} {u} {p}']
                rows.append(dict(zip(
                    q4('ghi') + q4('dni') + q4('dhi') + q4('lwd') + [
                        'temp_air', 'relative_humidity', 'pressure'],
                    ge + be + he + we + [te, ue, pe])))
            elif lr == '0300':
                g, ge = fields(r, c['pm'])
                b, be = fields(r, c['pm'])
                h, he = fields(r, c['pm'])
                body.append(f' {dd:2d} {mm:4d}   {" ".join(g)}   '
                            f'{" ".join(b)}   {" ".join(h)}')
                rows.append(dict(zip(q4('gri') + q4('lwu')
                                     + q4('net_radiation'), ge + be + he)))
            elif lr == '0500':
                v = [fields(r, c['pm'], dec=1) for _ in range(5)]
                body += [f' {dd:2d} {mm:4d} ' + ' '.join(v[0][0] + v[1][0]),
                         ' ' * 9 + ' '.join(v[2][0] + v[3][0] + v[4][0])]
                rows.append(dict(zip(sum([q4(x) for x in (
                    'uva_global', 'uvb_direct', 'uvb_global', 'uvb_diffuse',
                    'uvb_reflected')], []), sum([x[1] for x in v], []))))
            else:
                body.append(' 1 2 3')
        lines += [f'*{M}{lr}'] + body
        times = [first + dt.timedelta(minutes=m) for m in cut]
        recs[lr] = dict(zip(times, rows))
    text = '\n'.join(lines) + '\n'
    kw = {} if c['ask'] is None else dict(logical_records=c['ask'])
    ask = c['ask'] or ('0100',)
    if c['via'] == 'gz':
        with ig.given(gzip.compress(text.encode()), 'path', 'x.dat.gz') as f:
            data, meta = iotools.read_bsrn(f, **kw)
    else:
        with ig.given(text, c['via'], 'x.dat') as f:
            data, meta = iotools.read_bsrn(f, **kw)
    got = [lr for lr in ('0100', '0300', '0500') if lr in ask and lr in recs]
    if not got:
        require(len(data) == 0, 'rows without the logical record')
        ctx.label('record absent')
        ctx.trivial()
        return
    times = sorted(set().union(*[recs[lr] for lr in got]))
    cols = [k for lr in got for k in next(iter(recs[lr].values()))]
    require(list(data.columns) == cols, f'columns {list(data.columns)}')
    data = data.sort_index()
    ig.stamps(data.index, times, 0)
    for lr in got:
        for k in next(iter(recs[lr].values())):
            ig.column(data[k], [recs[lr].get(t, {}).get(k) for t in times], k)
    e = {'start date': pd.Timestamp(first, tz='UTC'),
         'station identification number': c['station'],
         'version of data': c['ver'], 'surface type': c['surf'],
         'topography type': c['topo'], 'address': c['text'],
         'telephone no. of station': '+41 1 2', 'FAX no. of station':
         '+41 3 4', 'TCP/IP no. of station': 'XXX',
         'e-mail address of station': 'a@b.c', 'altitude': c['alt'],
         'identification of "SYNOP" station': '06610',
         'date when station description changed': '-1 -1 -1',
         'date when horizon changed': '-1 -1 -1'}
    for k, v in e.items():
        require(meta.get(k) == v, f'{k}: {meta.get(k)!r}, expected {v!r}')
    for k, v in dict(latitude_bsrn=c['lat'] / 1e3,
                     latitude=c['lat'] / 1e3 - 90,
                     longitude_bsrn=c['lon'] / 1e3,
                     longitude=c['lon'] / 1e3 - 180).items():
        require(abs(meta[k] - v) < 1e-9, f'{k}: {meta[k]}, expected {v}')
    require(list(zip(meta['horizon'].index, meta['horizon'])) == sorted(
        c['hor']), f'horizon {meta["horizon"].to_dict()}')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        d2, _ = iotools.parse_bsrn(io.StringIO(text), **kw)
    require(d2.sort_index().equals(data), 'parse_bsrn differs')
    if n < 3 or not r.missing:
        ctx.trivial()
    ctx.label(c['via'], *got)
