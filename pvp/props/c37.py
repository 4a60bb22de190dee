"""C37: SPECTRL2."""
import json
import math
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pvlib import spectrum as sp
from ..core import sub
from ..cmp import close, require, raises, snapshot, unchanged
from ..gen import ints, flt, fixed, opt

RULE = """Zenith 0..90, incidence 0..180, tilt 0..180, pressures of sea level
to 5000 m, air mass 1..38, water, ozone, turbidity and aerosol parameters over
and beyond the usual ranges, defaults left out at random; scalar, array and
Series calls of 1 to 6 times with the zenith in that container and the other
inputs mixed; spectrally constant, per-wavelength and per-time albedo.
Non-trivial: direct irradiance above 1e-6 somewhere."""
ASSUMPTIONS = ['The sun is at or above the horizon (zenith <= 90).',
    'For a Series the day of the year is the UTC day, as pvlib documents.']

HERE = os.path.dirname(os.path.dirname(__file__))
with open(os.path.join(HERE, 'refs', 'spectrl2.json')) as f:
    T = json.load(f)
WL = T['wavelength']

NAMES = dict(
    apparent_zenith=flt(0, 90, (0, 60, 89, 90)),
    aoi=flt(0, 180, (0, 90, 90.1)), surface_tilt=flt(0, 180, (0, 30, 90)),
    surface_pressure=flt(5e4, 1.05e5, (101300,)),
    relative_airmass=flt(1, 38, (1, 1.5, 1.8)),
    precipitable_water=flt(0, 8, (1.42, 0)), ozone=flt(0, .6, (.344,)),
    aerosol_turbidity_500nm=flt(0, 1.5, (.1, 0)))
OPT = dict(scattering_albedo_400nm=flt(.5, 1, (.945,)),
           alpha=flt(.2, 2.5, (1.14,)),
           wavelength_variation_factor=flt(0, .2, (.095,)),
           aerosol_asymmetry_factor=flt(.3, .9, (.65,)))
DEF = dict(scattering_albedo_400nm=.945, alpha=1.14,
           wavelength_variation_factor=.095, aerosol_asymmetry_factor=.65)


def cosd(x):
    return math.cos(math.radians(x))


def trans(w, h2o, o3, mix, z, am, p, wv, oz, tau, om):
    m = am * p / 101300
    u = w / 1000
    aw = h2o * wv * am
    mo = (1 + 22 / 6370) / math.sqrt(cosd(z)**2 + 44 / 6370)
    a = mix * m
    return dict(
        r=math.exp(-m / (u**4 * (115.6406 - 1.3366 / u**2))),
        a=math.exp(-tau * am),
        w=math.exp(-.2385 * aw / (1 + 20.07 * aw)**.45),
        o=math.exp(-o3 * oz * mo),
        u=math.exp(-1.41 * a / (1 + 118.3 * a)**.45),
        s=math.exp(-om * tau * am), aa=math.exp(-(1 - om) * tau * am))


def model(i, doy, rg, apparent_zenith, aoi, surface_tilt, surface_pressure,
          relative_airmass, precipitable_water, ozone,
          aerosol_turbidity_500nm, scattering_albedo_400nm, alpha,
          wavelength_variation_factor, aerosol_asymmetry_factor):
    w, h0 = WL[i], T['spectral_irradiance_et'][i]
    b = 2 * math.pi / 365 * (doy - 1)
    h0 *= (1.00011 + .034221 * math.cos(b) + .00128 * math.sin(b)
           + .000719 * math.cos(2 * b) + 7.7e-5 * math.sin(2 * b))
    tau = aerosol_turbidity_500nm * (w / 500)**-alpha
    om = scattering_albedo_400nm * math.exp(
        -wavelength_variation_factor * math.log(w / 400)**2)
    args = (w, T['water_vapor_absorption'][i], T['ozone_absorption'][i],
            T['mixed_absorption'][i], apparent_zenith)
    rest = (surface_pressure, precipitable_water, ozone, tau, om)
    t = trans(*args, relative_airmass, *rest)
    q = trans(*args, 1.8, *rest)
    dni = h0 * t['r'] * t['a'] * t['w'] * t['o'] * t['u']
    cz = cosd(apparent_zenith)
    cs = ((w + 550) / 1000)**1.8 if w <= 450 else 1.
    lg = math.log(1 - aerosol_asymmetry_factor)
    bf = lg * (.0783 + lg * (-.3824 - lg * .5874))
    af = lg * (1.459 + lg * (.1595 + lg * .4129))
    fs = 1 - .5 * math.exp((af + bf * cz) * cz)
    fp = 1 - .5 * math.exp((af + bf / 1.8) / 1.8)
    rs = q['u'] * q['w'] * q['aa'] * (
        .5 * (1 - q['r']) + (1 - fp) * q['r'] * (1 - q['s']))
    c = h0 * cz * t['o'] * t['u'] * t['w'] * t['aa']
    ir = c * (1 - t['r']**.95) * .5
    ia = c * t['r']**1.5 * (1 - t['s']) * fs
    ig = (dni * cz + ir + ia) * rs * rg / (1 - rs * rg)
    dhi = (ir + ia + ig) * cs
    pr = max(0., cosd(aoi))
    rb = pr / max(cz, .01745)
    ai = dni / h0
    sky = max(0., dhi * (ai * rb)) + max(
        0., dhi * (1 - ai) * .5 * (1 + cosd(surface_tilt)))
    gnd = (dni * cz + dhi) * rg * .5 * (1 - cosd(surface_tilt))
    return dict(dni_extra=h0, dni=dni, dhi=dhi, poa_direct=dni * pr,
                poa_sky_diffuse=sky, poa_ground_diffuse=gnd,
                poa_global=dni * pr + sky + gnd)


@st.composite
def strategy(draw):
    mode = draw(st.sampled_from(['scalar', 'array', 'series']))
    n = 1 if mode == 'scalar' else draw(st.sampled_from([1, 2, 3, 6]))
    c = dict(mode=mode, n=n)
    c['vec'] = ['apparent_zenith'] + [
        k for k in NAMES if k != 'apparent_zenith' and draw(st.booleans())]
    c['vals'] = {k: draw(st.lists(
        s, min_size=n if k in c['vec'] else 1,
        max_size=n if k in c['vec'] else 1)) for k, s in NAMES.items()}
    c['opt'] = {k: draw(opt(s)) for k, s in OPT.items()}
    c['optvec'] = draw(st.integers(0, 3)) == 0 and mode != 'scalar'
    c['albedo'] = draw(st.sampled_from(['scalar', 'wavelength', 'matrix']))
    c['rg'] = draw(st.lists(flt(0, 1, (0, 1)), min_size=6, max_size=6))
    c['doy'] = draw(st.lists(ints(1, 365), min_size=n, max_size=n))
    c['year'] = draw(st.sampled_from([2019, 2020, 2021]))
    c['tz'] = draw(st.sampled_from(['UTC', 'Etc/GMT+9', 'Asia/Tokyo',
                                    None]))
    c['hour'] = draw(st.integers(0, 23))
    c['which'] = draw(st.lists(st.integers(0, 121), min_size=8, max_size=8))
    return c


@sub(strategy, quick=350, shards=2)
def spectra(case, ctx):
    """every wavelength and time against a scalar re-implementation;
    closure; no negative values; returned wavelengths can be changed by the
    caller without consequence"""
    n, mode = case['n'], case['mode']
    if mode == 'series':
        idx = pd.DatetimeIndex([
            pd.Timestamp(case['year'], 1, 1, case['hour'], tz=case['tz'])
            + pd.Timedelta(days=d - 1) for d in case['doy']])
        utc = idx if idx.tz is None else idx.tz_convert('UTC')
        doy = [int(t.dayofyear) for t in utc]
    else:
        idx, doy = None, case['doy']

    def put(v, vec):
        if not vec:
            return v[0]
        if mode == 'scalar':
            return v[0]
        return np.array(v) if mode == 'array' else pd.Series(v, index=idx)
    kw = {k: put(v, k in case['vec']) for k, v in case['vals'].items()}
    o = {k: v for k, v in case['opt'].items() if v is not None}
    if case['optvec']:
        kw.update({k: put([v] * n, True) for k, v in o.items()})
    else:
        kw.update(o)
    rg = case['rg']
    if case['albedo'] == 'scalar':
        kw['ground_albedo'] = rg[0]
        alb = [[rg[0]] * n for _ in range(122)]
    elif case['albedo'] == 'wavelength':
        col = [rg[i % 6] for i in range(122)]
        kw['ground_albedo'] = np.array(col)[:, None]
        alb = [[c] * n for c in col]
    else:
        alb = [[rg[(i + 2 * j) % 6] for j in range(n)] for i in range(122)]
        kw['ground_albedo'] = np.array(alb)
    if mode == 'scalar':
        kw['dayofyear'] = doy[0]
    elif mode == 'array':
        kw['dayofyear'] = np.array(doy)
    before = snapshot(kw)
    with np.errstate(all='ignore'):
        out = sp.spectrl2(**kw)
    unchanged(before, kw, 'inputs')
    keys = {'wavelength', 'dni_extra', 'dhi', 'dni', 'poa_sky_diffuse',
            'poa_ground_diffuse', 'poa_direct', 'poa_global'}
    require(set(out) == keys, f'keys {sorted(out)}')
    close(out['wavelength'], WL, 0, 0, 'wavelengths')
    A = {k: np.asarray(v) for k, v in out.items() if k != 'wavelength'}
    for k, v in A.items():
        require(v.shape == (122, n), f'{k} has shape {v.shape}')
        require((v >= 0).all(), f'{k} is negative or missing')
    close(A['poa_direct'] + A['poa_sky_diffuse'] + A['poa_ground_diffuse'],
          A['poa_global'], 1e-12, 1e-15, 'closure')
    fun = {**DEF, **o}
    for j in range(n):
        p = {k: (v[j] if k in case['vec'] else v[0])
             for k, v in case['vals'].items()}
        for i in range(122) if n == 1 else case['which']:
            e = model(i, doy[j], alb[i][j], **p, **fun)
            for k in A:
                close(A[k][i, j], e[k], 1e-8, 1e-12,
                      f'{k} at {WL[i]} nm, time {j}', info=case)
    if not (A['dni'] > 1e-6).any():
        ctx.trivial()
    out['wavelength'] *= 2.      # must not reach the next call
    ctx.label(mode, 'albedo-' + case['albedo'])


@sub(strategy, quick=100)
def time_by_time(case, ctx):
    """a Series call gives at each time what a scalar call gives; day of
    year is required without a Series"""
    n = max(case['n'], 2)
    idx = pd.date_range(f"{case['year']}-02-27 {case['hour']}:00",
                        periods=n, freq='D', tz=case['tz'])
    utc = idx if idx.tz is None else idx.tz_convert('UTC')
    rng = np.linspace(0, 1, n)
    v = {k: np.asarray(x[0]) + 0 * rng for k, x in case['vals'].items()}
    v['apparent_zenith'] = v['apparent_zenith'] * (1 - .5 * rng)
    v['precipitable_water'] = v['precipitable_water'] + rng
    s = {k: pd.Series(x, index=idx) for k, x in v.items()}
    a = sp.spectrl2(ground_albedo=case['rg'][0], **s)
    for j in range(n):
        b = sp.spectrl2(ground_albedo=case['rg'][0],
                        dayofyear=int(utc[j].dayofyear),
                        **{k: float(x[j]) for k, x in v.items()})
        for k in a:
            x = a[k] if k == 'wavelength' else a[k][:, [j]]
            close(x, b[k], 1e-10, 1e-15, f'{k} at time {j}')
    raises(ValueError, sp.spectrl2, ground_albedo=.2, **v)
