"""C14 Linke turbidity and altitude lookups."""
import calendar
import os
import shutil
import tempfile

import h5py
import numpy as np
import pandas as pd
import pvlib
from hypothesis import strategies as st
from pvlib import clearsky as cs
from pvlib.location import lookup_altitude

from ..cmp import Fail, close, raises, require, same_index
from ..core import sub
from ..gen import ints, epoch, fixed, flt, uni, zone

RULE = ('Random places (poles, date line, cell borders excluded) and '
        'timestamps; the turbidity grid is generated per case with distinct '
        'values in the cell and its neighbours; non-trivial = the twelve '
        'months of the cell are not all equal, every altitude lookup.')

_CELLS = [None]


def cell(lat, lon):
    """row (from 90N), column (from 180W) of the 5-arcmin cell, and whether
    the place is on a cell border"""
    r, c = (90 - lat) * 12, (lon + 180) * 12
    near = min(abs(r - round(r)), abs(c - round(c))) < 1e-6
    return min(int(r), 2159), min(int(c), 4319), near


# an irregular grid of places keeps off the cell borders
LAT = st.one_of(flt(-90, 90, (0, 89.99, -89.99)),
                *[ints(0, 99991).map(
                    lambda k: -90 + 180 * ((k * 7919 + 31) % 99991) / 99991)
                  ] * 5)
LON = st.one_of(flt(-180, 180, (0, 179.99, -179.99)),
                *[ints(0, 99989).map(
                    lambda k: -180 + 360 * ((k * 7907 + 17) % 99989) / 99989)
                  ] * 5)


@sub(lambda: fixed(lat=LAT, lon=LON,
                   months=st.lists(ints(0, 200), min_size=12,
                                   max_size=12),
                   other=st.integers(1, 55),
                   times=st.lists(epoch(631152000, 2208988800), min_size=1,
                                  max_size=8),
                   tz=st.one_of(st.none(), zone),
                   interp=st.sampled_from([None, True, False]),
                   unit=st.sampled_from(['s', 'ns'])),
     quick=400, shards=3)
def linke(case, ctx):
    """the stored value/20 of the cell containing the place, by UTC month or
    interpolated between month middles (by UTC day of year)"""
    r, c, near = cell(case['lat'], case['lon'])
    if near:
        ctx.trivial()
        return
    d = tempfile.mkdtemp(prefix='pvp-linke-')
    try:
        f = os.path.join(d, 'lt.h5')
        with h5py.File(f, 'w') as h:
            ds = h.create_dataset('LinkeTurbidity', (2160, 4320, 12), 'u1',
                                  chunks=(16, 16, 12), fillvalue=7)
            m = np.array(case['months'], 'u1')
            for dr in (-1, 0, 1):
                for dc in (-1, 0, 1):
                    if 0 <= r + dr < 2160 and 0 <= c + dc < 4320:
                        ds[r + dr, c + dc] = m if dr == dc == 0 else (
                            m.astype(int) + case['other']
                            + 3 * dr + dc).clip(0, 255).astype('u1')
        idx = pd.DatetimeIndex(np.array(case['times'], 'M8[s]')).as_unit(
            case['unit'])
        if case['tz'] is not None:
            idx = idx.tz_localize('UTC').tz_convert(case['tz'])
        kw = {} if case['interp'] is None else {
            'interp_turbidity': case['interp']}
        got = cs.lookup_linke_turbidity(idx, case['lat'], case['lon'],
                                        filepath=f, **kw)
    finally:
        shutil.rmtree(d)
    same_index(got, idx, 'turbidity')
    v = [x / 20 for x in case['months']]
    exp = []
    for t in case['times']:
        u = pd.Timestamp(t, unit='s')
        if case['interp'] is False:
            exp.append(v[u.month - 1])
            continue
        # day of year against month middles
        leap = calendar.isleap(u.year)
        ml = [31, 29 if leap else 28] + [31, 30, 31, 30, 31, 31, 30, 31, 30,
                                         31]
        xs, tot = [-15.5], 0
        for k in ml:
            xs.append(tot + k / 2)
            tot += k
        xs.append(tot + 15.5)
        ys = [v[11]] + v + [v[0]]
        x = u.dayofyear
        for i in range(13):
            if xs[i] <= x <= xs[i + 1]:
                exp.append(ys[i] + (ys[i + 1] - ys[i])
                           * (x - xs[i]) / (xs[i + 1] - xs[i]))
                break
    close(got, exp, 1e-12, 1e-12, 'turbidity', info=str(idx))
    if len(set(v)) == 1:
        ctx.trivial()
    ctx.label('leap' if any(calendar.isleap(pd.Timestamp(t, unit='s').year)
                            for t in case['times']) else 'no-leap')


def _alt():
    if _CELLS[0] is None:
        with h5py.File(os.path.join(os.path.dirname(pvlib.__file__), 'data',
                                    'Altitude.h5'), 'r') as h:
            _CELLS[0] = h['Altitude'][:]
    return _CELLS[0]


@sub(lambda: fixed(lat=LAT, lon=LON), quick=400, shards=2)
def altitude(case, ctx):
    """the stored altitude of the cell containing the place, unpacked to
    metres, zero where there is no data"""
    r, c, near = cell(case['lat'], case['lon'])
    got = lookup_altitude(case['lat'], case['lon'])
    a = _alt()
    require(a.shape == (2160, 4320), 'grid shape')
    if near:
        k = [(max(min(int(round((90 - case['lat']) * 12)) + i, 2159), 0),
              max(min(int(round((case['lon'] + 180) * 12)) + j, 4319), 0))
             for i in (-1, 0) for j in (-1, 0)]
        r0, c0 = (90 - case['lat']) * 12, (case['lon'] + 180) * 12
        k += [(min(int(r0), 2159), min(int(c0), 4319)),
              (min(int(r0), 2159), k[0][1]), (min(int(r0), 2159), k[1][1]),
              (k[0][0], min(int(c0), 4319)), (k[2][0], min(int(c0), 4319))]
        ctx.label('border')
    else:
        k = [(r, c)]
    e = [0. if a[i, j] == 255 else a[i, j] * 28. - 450 for i, j in k]
    require(any(abs(float(got) - x) < 1e-9 for x in e),
            f'altitude {got}, grid says {e}')
    if a[r, c] == 255:
        ctx.label('no data')
    elif a[r, c] > 18:
        ctx.label('land')


PLACES = [(27.988, 86.925, 5000, 9000), (39.74, -105.17, 1500, 2300),
          (51.4, -0.6, -50, 150), (31.55, 35.48, -460, -250),
          (-16.5, -68.15, 3300, 4600), (35.05, -106.54, 1450, 1900),
          (-22.9, -68.2, 2200, 2700), (40.0, -30.0, -60, 60),
          (29.65, 91.1, 3500, 5000), (-33.87, 151.2, -50, 100),
          (46.0, 7.7, 1500, 4500), (64.1, -21.9, -60, 200)]


@sub(lambda: st.sampled_from(PLACES).map(list), quick=12)
def known_places(case, ctx):
    """altitudes of well-known places"""
    lat, lon, lo, hi = case
    got = float(lookup_altitude(lat, lon))
    require(lo <= got <= hi, f'{lat},{lon}: {got} m')


@sub(lambda: fixed(lat=uni(-90, 90), lon=uni(-180, 180),
                   d=flt(.01, 500), which=st.sampled_from('nsew')),
     quick=120)
def outside(case, ctx):
    """places that are not on the globe are rejected"""
    lat, lon, d = case['lat'], case['lon'], case['d']
    if case['which'] == 'n':
        lat = 90 + d
    elif case['which'] == 's':
        lat = -90 - d
    elif case['which'] == 'e':
        lon = 180 + d
    else:
        lon = -180 - d
    raises(ValueError, lookup_altitude, lat, lon, what=f'{lat},{lon}')
    d = tempfile.mkdtemp(prefix='pvp-linke-')
    try:
        f = os.path.join(d, 'lt.h5')
        with h5py.File(f, 'w') as h:
            h.create_dataset('LinkeTurbidity', (2160, 4320, 12), 'u1',
                             chunks=(16, 16, 12), fillvalue=7)
        raises(ValueError, cs.lookup_linke_turbidity,
               pd.DatetimeIndex(['2020-01-01']), lat, lon, filepath=f,
               what=f'{lat},{lon}')
    finally:
        shutil.rmtree(d)
