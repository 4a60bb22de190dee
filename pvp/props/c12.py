"""C12 clear-sky models."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib import clearsky as cs

from ..cmp import close, require, within
from ..core import sub
from ..elem import P, S, elem, NAN, div
from ..gen import fixed, flt, logflt, opt, uni

RULE = ('Random sun positions (day, horizon, night), turbidity, water '
        'vapour, aerosol, pressure and extraterrestrial irradiance in every '
        'container; non-trivial = a finite non-zero expected value.')

ZEN = st.one_of(flt(0, 90, (0, 60, 85, 89, 90)), uni(0, 88),
                flt(90, 180, (90, 95)))
ETR = flt(1000, 1450, (1364, 1361))


# ------------------------------------------------------------- Ineichen
def _fmax(a, b):
    if math.isnan(a):
        return b
    if math.isnan(b):
        return a
    return max(a, b)


def ineichen(zen, am, tl, altitude, dni_extra, perez_enhancement):
    i0 = 1364. if dni_extra is None else dni_extra
    h = 0. if altitude is None else altitude
    if any(math.isnan(x) for x in (zen, tl, h, i0)):
        return dict(ghi=NAN, dni=NAN, dhi=NAN)
    mu = max(math.cos(math.radians(zen)), 0)
    f1, f2 = math.exp(-h / 8000), math.exp(-h / 1250)
    c1 = 5.09e-5 * h + .868
    c2 = 3.92e-5 * h + .0387
    t = 0. if math.isnan(am) else math.exp(-c2 * am * (f1 + f2 * (tl - 1)))
    if perez_enhancement and not math.isnan(am):
        t *= math.exp(.01 * am ** 1.8)
    ghi = c1 * i0 * mu * t
    b = .664 + .163 / f1
    beam = 0. if math.isnan(am) else i0 * b * math.exp(-.09 * am * (tl - 1))
    corr = 1 - (.1 - .2 * math.exp(-tl)) / (.1 + .882 / f1)
    if mu > 0:
        beam = min(beam, ghi * corr / mu)
    else:
        beam = 0.
    return dict(ghi=ghi, dni=beam, dhi=ghi - beam * mu)


elem(__name__, 'ineichen', cs.ineichen,
     dict(apparent_zenith=P(ZEN, nan=True),
          airmass_absolute=P(flt(.6, 38, (1,)), nan=True),
          linke_turbidity=P(flt(1, 10, (3,)), nan=True),
          altitude=P(flt(-200, 6000, (0,))),
          dni_extra=P(ETR, nan=True),
          perez_enhancement=S(opt(st.booleans()))),
     lambda apparent_zenith, airmass_absolute, linke_turbidity, altitude,
     dni_extra, perez_enhancement: ineichen(
         apparent_zenith, airmass_absolute, linke_turbidity, altitude,
         dni_extra, perez_enhancement),
     # at the horizon the beam is limited by 0/0
     skip=lambda apparent_zenith, **k: abs(apparent_zenith - 90) < 1e-6,
     post=lambda r: r, rtol=1e-8, atol=1e-7, quick=700, shards=2,
     doc='Ineichen & Perez 2002 with the altitude-corrected beam; missing '
         'air mass means night')


@sub(lambda: fixed(z=st.lists(ZEN, min_size=1, max_size=5), am=flt(1, 38),
                   tl=flt(1, 10), h=flt(0, 4000)), quick=300)
def defaults(case, ctx):
    """defaults are sea level, 1364 W/m2 and no enhancement; results are
    non-negative, zero at night and close"""
    z = np.array(case['z'])
    r = cs.ineichen(z, case['am'], case['tl'])
    e = cs.ineichen(z, case['am'], case['tl'], altitude=0, dni_extra=1364.,
                    perez_enhancement=False)
    r2 = cs.ineichen(z, case['am'], case['tl'], case['h'])
    for k in ('ghi', 'dni', 'dhi'):
        close(r[k], e[k], 1e-12, 1e-12, k)
        for x in (r, r2):
            require((np.asarray(x[k]) >= -1e-9).all(), f'{k} negative: {x}')
            require((np.asarray(x[k])[z > 90] == 0).all(), f'{k} at night')
    mu = np.maximum(np.cos(np.radians(z)), 0)
    for x in (r, r2):
        close(x['ghi'], x['dhi'] + x['dni'] * mu, 1e-9, 1e-9, 'closure')
    if (z < 90).any():
        ctx.label('day')
    else:
        ctx.trivial()
    s = cs.simplified_solis(90 - z)
    e = cs.simplified_solis(90 - z, .1, 1., 101325., 1364.)
    for k in ('ghi', 'dni', 'dhi'):
        close(s[k], e[k], 1e-12, 1e-12, k)


# ---------------------------------------------------------------- Solis
def solis(apparent_elevation, aod700, precipitable_water, pressure,
          dni_extra):
    w = max(precipitable_water, .2) if precipitable_water == \
        precipitable_water else NAN
    a = aod700
    if any(math.isnan(x) for x in (apparent_elevation, a, w, pressure,
                                   dni_extra)):
        return dict(ghi=NAN, dni=NAN, dhi=NAN)
    lw, lp = math.log(w), math.log(pressure / 101325.)
    i0p = dni_extra * (.12 * w**.56 * a * a + .97 * w**.032 * a
                       + 1.08 * w**.0051 + .071 * lp)
    tb = ((1.82 + .056 * lw + .0071 * lw**2) * a
          + (.33 + .045 * lw + .0096 * lw**2) + (.0089 * w + .13) * lp)
    b = ((.00925 * a * a + .0148 * a - .0172) * lw
         + (-.7565 * a * a + .5057 * a + .4557))
    tg = ((1.24 + .047 * lw + .0061 * lw**2) * a
          + (.27 + .043 * lw + .0090 * lw**2) + (.0079 * w + .1) * lp)
    g = -.0147 * lw - .3079 * a * a + .2846 * a + .3798
    if a < .05:
        t4, t3, t2, t1, t0 = (86 * w - 13800, -3.11 * w + 79.4,
                              -.23 * w + 74.8, .092 * w - 8.86,
                              .0042 * w + 3.12)
        tp = -.83 * (1 + a) ** -17.2
    else:
        t4, t3, t2, t1, t0 = (-.21 * w + 11.6, .27 * w - 20.7,
                              -.134 * w + 15.5, .0554 * w - 5.71,
                              .0057 * w + 2.94)
        tp = -.71 * (1 + a) ** -15.
    td = t4 * a**4 + t3 * a**3 + t2 * a**2 + t1 * a + t0 + tp * lp
    d = -.337 * a * a + .63 * a + .116 + lp / (18 + 152 * a)
    s = max(1e-30, math.sin(math.radians(apparent_elevation)))
    return dict(dni=i0p * math.exp(-tb / s**b),
                ghi=i0p * math.exp(-tg / s**g) * s,
                dhi=i0p * math.exp(-td / s**d))


elem(__name__, 'simplified_solis', cs.simplified_solis,
     dict(apparent_elevation=P(st.one_of(flt(0, 90, (90,)), uni(1, 90),
                                         flt(-90, 0)), nan=True),
          aod700=P(flt(0, .45, (.05, .1, .0499)), nan=True),
          precipitable_water=P(flt(.1, 10, (1, .2)), nan=True),
          pressure=P(flt(40000, 108000, (101325,)), nan=True),
          dni_extra=P(ETR, nan=True)),
     solis, rtol=1e-8, atol=1e-7, quick=700, shards=2,
     # sin of a rounded 0 or 180 degrees
     skip=lambda apparent_elevation, **k: abs(apparent_elevation) < 1e-9,
     doc='Ineichen 2008 broadband parameterisation, night is zero')


# ----------------------------------------------------------------- Bird
def bird(zenith, airmass_relative, aod380, aod500, precipitable_water, ozone,
         pressure, dni_extra, asymmetry, albedo):
    am = airmass_relative
    names = ('direct_horizontal', 'ghi', 'dni', 'dhi')
    if any(math.isnan(x) for x in (am, aod380, aod500, precipitable_water,
                                   ozone, pressure, dni_extra, asymmetry,
                                   albedo, zenith)):
        r = dict.fromkeys(names, NAN)
        if not math.isnan(zenith) and math.isnan(albedo):
            return None
        return r
    amp = am * pressure / 101325.
    tr = math.exp(-.0903 * amp**.84 * (1 + amp - amp**1.01))
    xo = ozone * am
    to = (1 - .1611 * xo * (1 + 139.48 * xo) ** -.3034
          - .002715 * xo / (1 + .044 * xo + .0003 * xo * xo))
    tum = math.exp(-.0127 * amp**.26)
    xw = am * precipitable_water
    tw = 1 - 2.4959 * xw / ((1 + 79.034 * xw) ** .6828 + 6.385 * xw)
    ta_ = .27583 * aod380 + .35 * aod500
    ta = math.exp(-ta_**.873 * (1 + ta_ - ta_**.7088) * am**.9108)
    taa = 1 - .1 * (1 - am + am**1.06) * (1 - ta)
    rs = .0685 + (1 - asymmetry) * (1 - ta / taa)
    dn = .9662 * dni_extra * ta * tw * tum * to * tr
    mu = math.cos(math.radians(zenith)) if zenith < 90 else 0.
    dh = dn * mu
    sc = (dni_extra * mu * .79 * to * tum * tw * taa
          * (.5 * (1 - tr) + asymmetry * (1 - ta / taa))
          / (1 - am + am**1.02))
    gh = (dh + sc) / (1 - albedo * rs)
    return dict(direct_horizontal=dh, ghi=gh, dni=dn, dhi=gh - dh)


elem(__name__, 'bird', cs.bird,
     dict(zenith=P(ZEN), airmass_relative=P(flt(1, 38), nan=True),
          aod380=P(flt(0, .5, (.1,))), aod500=P(flt(0, .5, (.1,))),
          precipitable_water=P(flt(0, 8, (1.5,)), nan=True),
          ozone=P(flt(.1, .6, (.3,))),
          pressure=P(flt(40000, 108000, (101325,))),
          dni_extra=P(ETR), asymmetry=P(flt(.5, 1, (.85,))),
          albedo=P(flt(0, 1, (.2,)))),
     bird, rtol=1e-8, atol=1e-7, quick=700, shards=2,
     always=('zenith', 'airmass_relative'),
     skip=lambda zenith, **k: abs(zenith - 90) < 1e-9,
     doc='Bird & Hulstrom 1981; missing air mass gives missing irradiance')


@sub(lambda: fixed(z=st.lists(flt(0, 89), min_size=1, max_size=5),
                   w=flt(0, 5), a=flt(.01, .5)), quick=200)
def bird_invariants(case, ctx):
    """closure, defaults and non-negativity of the Bird model"""
    z = np.array(case['z'])
    am = 1 / (np.cos(np.radians(z)) + .50572 * (96.07995 - z) ** -1.6364)
    r = cs.bird(z, am, case['a'], case['a'], case['w'])
    e = cs.bird(z, am, case['a'], case['a'], case['w'], ozone=.3,
                pressure=101325., dni_extra=1364., asymmetry=.85, albedo=.2)
    for k in e:
        close(r[k], e[k], 1e-12, 1e-12, k)
        require((np.asarray(r[k]) >= -1e-9).all(), f'{k} negative')
    close(r['ghi'], r['dhi'] + r['dni'] * np.cos(np.radians(z)), 1e-9, 1e-9,
          'closure')
    close(r['direct_horizontal'], r['dni'] * np.cos(np.radians(z)), 1e-9,
          1e-9, 'direct horizontal')
    require((np.asarray(r['ghi']) < 1364 * 1.02).all(), 'ghi too large')


# ------------------------------------------------------------- Haurwitz
@sub(lambda: fixed(z=st.lists(st.one_of(ZEN, st.just(NAN)), min_size=1,
                              max_size=8),
                   as_int=st.booleans()), quick=300)
def haurwitz(case, ctx):
    """1098 cos z exp(-0.059/cos z) for the sun above the horizon, else 0,
    also for integer zeniths, in a frame labelled like the input"""
    z = np.array(case['z'])
    if case['as_int'] and not np.isnan(z).any():
        z = z.round().astype(int)
        ctx.label('int')
    idx = pd.date_range('2020-01-01', periods=len(z), freq='h', tz='UTC')
    s = pd.Series(z, index=idx)
    keep = s.copy()
    r = cs.haurwitz(s)
    require(isinstance(r, pd.DataFrame) and list(r.columns) == ['ghi']
            and r.index.equals(idx), 'frame')
    require(s.equals(keep), 'input modified')
    e = []
    for x in z:
        c = math.cos(math.radians(x)) if x == x else NAN
        e.append(1098 * c * math.exp(-.059 / c) if c > 1e-12 else 0.)
    close(r['ghi'], e, 1e-9, 1e-9, 'ghi')
    if not any(x < 90 for x in z):
        ctx.trivial()


@sub(lambda: fixed(tl=flt(1.5, 6), z=flt(0, 80), h=flt(0, 3000)), quick=200)
def agreement(case, ctx):
    """the four models describe the same sky: GHI within 35 %"""
    from pvlib import atmosphere as atm
    z = case['z']
    am = 1 / (math.cos(math.radians(z)) + .50572 * (96.07995 - z) ** -1.6364)
    p = 101325 * (1 - 2.25577e-5 * case['h']) ** 5.25588
    a = cs.ineichen(z, am * p / 101325, 3., case['h'])['ghi']
    b = cs.simplified_solis(90 - z, .1, 1.5, p)['ghi']
    c = cs.bird(z, am, .15, .1, 1.5, pressure=p)['ghi']
    d = cs.haurwitz(pd.Series([z]))['ghi'].iloc[0]
    v = np.array([a, b, c, d], float)
    require(v.max() / v.min() < 1.35, f'{v}')
