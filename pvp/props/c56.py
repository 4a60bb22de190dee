"""C56 pvfactors wrapper."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvfactors.engine import PVEngine
from pvfactors.geometry import OrderedPVArray
from pvfactors.irradiance import HybridPerezOrdered
from pvlib.bifacial.pvfactors import pvfactors_timeseries

from ..cmp import close, require, same_index, snapshot, unchanged
from ..core import sub
from ..gen import ints, fixed, flt, opt, uni

RULE = ('Random row arrays, tilts, suns and irradiances (integers among '
        'them) in every container; non-trivial = light on both sides.')
ASSUMPTIONS = ['The pvfactors engine itself is trusted: the property is '
               'about what pvlib hands to it and takes from it.',
               'The sun is above the horizon and some irradiance is '
               'positive (the engine divides by it).']
NAMES = ['total_inc_front', 'total_inc_back', 'total_abs_front',
         'total_abs_back']


@st.composite
def scene(draw, n=3):
    n = draw(st.integers(1, n))
    t = [[draw(st.one_of(flt(0, 359, (180,)), ints(0, 359))),
          draw(st.one_of(flt(1, 85, (30,)), st.integers(1, 85))),
          draw(st.one_of(flt(0, 75, (0, 20)), st.integers(0, 75))),
          draw(st.booleans()),
          draw(st.one_of(flt(1, 1000), ints(1, 1000))),
          draw(st.one_of(flt(1, 500), ints(1, 500)))]
         for _ in range(n)]
    rows = draw(st.integers(1, 4))
    gcr = draw(flt(.1, .7, (.4,)))
    width = draw(flt(.5, 5, (2.,)))
    return dict(
        t=t, axis=draw(flt(0, 359, (0, 90, 180))), gcr=gcr, width=width,
        height=width * draw(flt(.51, 2)) + .1, albedo=draw(flt(.02, .9, (.2,))),
        rows=draw(opt(st.just(rows))), i=draw(st.integers(0, rows - 1)),
        keep=draw(st.booleans()), rho=draw(st.lists(opt(flt(.005, .3)),
                                                    min_size=2, max_size=2)),
        band=draw(opt(flt(3, 30))), day=draw(ints(0, 364)),
        ints=draw(st.lists(st.booleans(), min_size=4, max_size=4)),
        form=draw(st.sampled_from(['list', 'array', 'series'])),
        orient=draw(st.sampled_from(['vector', 'vector', 'scalar'])))


def data(c):
    t = np.array([[float(v) for v in r] for r in c['t']])
    for j, k in zip((0, 1, 4, 5), c['ints']):
        if k:
            t[:, j] = np.maximum(np.round(t[:, j]), 1)
    t[:, 3] = np.where(t[:, 3] > 0, c['axis'] + 90, c['axis'] - 90) % 360
    if c['orient'] == 'scalar':
        t[:, 2], t[:, 3] = t[0, 2], t[0, 3]
    return t


def arguments(c, t, times):
    def put(x, ints):
        x = x.astype(int) if ints else x
        return (x.tolist() if c['form'] == 'list' else
                pd.Series(x, times) if c['form'] == 'series' else x)
    az, zen, dni, dhi = (put(t[:, j], k) for j, k in
                         zip((0, 1, 4, 5), c['ints']))
    if c['orient'] == 'scalar':
        tilt, saz = float(t[0, 2]), float(t[0, 3])
    else:
        tilt, saz = put(t[:, 2], False), put(t[:, 3], False)
    kw = dict(solar_azimuth=az, solar_zenith=zen, surface_azimuth=saz,
              surface_tilt=tilt, axis_azimuth=c['axis'], timestamps=times,
              dni=dni, dhi=dhi, gcr=c['gcr'], pvrow_height=c['height'],
              pvrow_width=c['width'], albedo=c['albedo'])
    return kw


def options(c):
    kw = {}
    if c['rows'] is not None:
        kw['n_pvrows'] = c['rows']
        kw['index_observed_pvrow'] = c['i']
    elif c['keep']:
        kw['index_observed_pvrow'] = c['i'] % 3
    for k, v in (('rho_front_pvrow', c['rho'][0]),
                 ('rho_back_pvrow', c['rho'][1]),
                 ('horizon_band_angle', c['band'])):
        if v is not None:
            kw[k] = v
    return kw


def engine(c, t, times, o):
    """the same question put to pvfactors directly"""
    n = o.get('n_pvrows', 3)
    i = o.get('index_observed_pvrow', 1)
    pv = OrderedPVArray.init_from_dict(dict(
        n_pvrows=n, axis_azimuth=c['axis'], pvrow_height=c['height'],
        pvrow_width=c['width'], gcr=c['gcr']))
    e = PVEngine(pv, irradiance_model=HybridPerezOrdered(
        rho_front=o.get('rho_front_pvrow', .03),
        rho_back=o.get('rho_back_pvrow', .05),
        horizon_band_angle=o.get('horizon_band_angle', 15.)))
    e.fit(times, t[:, 4], t[:, 5], t[:, 1], t[:, 0], t[:, 2], t[:, 3],
          c['albedo'])
    return e.run_full_mode(lambda a: [
        getattr(a.ts_pvrows[i], s).get_param_weighted(q)
        for q in ('qinc', 'qabs') for s in ('front', 'back')])


def stamps(c):
    return (pd.Timestamp('2021-01-01 12:00', tz='UTC')
            + pd.to_timedelta([c['day'] * 24 + k for k in range(len(c['t']))],
                              unit='h'))


@sub(scene, quick=150)
def same_as_engine(case, ctx):
    """equals the engine run with the same scene; inputs keep their values"""
    t, times, o = data(case), stamps(case), options(case)
    kw = arguments(case, t, times)
    before = snapshot(kw)
    out = pvfactors_timeseries(**kw, **o)
    unchanged(before, kw)
    want = engine(case, t, times, o)
    require(len(out) == 4, f'four results documented, got {len(out)}')
    for got, w, name in zip(out, want, NAMES):
        require(isinstance(got, pd.Series), f'{name}: {type(got)}')
        same_index(got, times, name)
        close(got, w, rtol=1e-9, atol=1e-9, what=name)
    # incidence losses are the reflectivities of the two faces
    close(out[2], out[0] * (1 - o.get('rho_front_pvrow', .03)), rtol=1e-9,
          what='absorbed front')
    close(out[3], out[1] * (1 - o.get('rho_back_pvrow', .05)), rtol=1e-9,
          what='absorbed back')
    ctx.label(case['form'], case['orient'],
              'ints' if any(case['ints']) else 'floats',
              'row options' if 'index_observed_pvrow' in o else 'defaults')


@sub(lambda: fixed(s=scene(), turn=uni(0, 360)), quick=80)
def turned(case, ctx):
    """only angles relative to the axis matter"""
    c = case['s']
    t, times, o = data(c), stamps(c), options(c)
    base = pvfactors_timeseries(**arguments(c, t, times), **o)
    c2 = dict(c, axis=(c['axis'] + case['turn']) % 360, form='array',
              ints=[False] * 4)
    t2 = t.copy()
    t2[:, 0] = (t[:, 0] + case['turn']) % 360
    t2[:, 3] = (t[:, 3] + case['turn']) % 360
    turned = pvfactors_timeseries(**arguments(c2, t2, times), **o)
    for a, b, name in zip(base, turned, NAMES):
        close(b, a, rtol=1e-6, atol=1e-5, what='turned ' + name)
    n = o.get('n_pvrows', 3)
    ctx.label(f'{n} rows')


@sub(lambda: fixed(s=scene()), quick=60)
def open_sky(case, ctx):
    """flat rows see the whole sky: front is global horizontal irradiance"""
    c = case['s']
    t, times, o = data(c), stamps(c), options(c)
    t[:, 2] = 0.
    t[:, 1] = np.minimum(t[:, 1], 80)
    out = pvfactors_timeseries(**arguments(c, t, times), **o)
    ghi = t[:, 4] * np.cos(np.radians(t[:, 1])) + t[:, 5]
    # rows standing in each other's horizon band lose up to its share
    close(out[0], ghi, rtol=.1, atol=1., what='front of flat rows')
    ctx.label('flat')
