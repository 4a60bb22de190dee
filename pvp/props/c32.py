"""C32 steady-state cell temperature models."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib import temperature as tm

from ..cmp import close, raises, require
from ..core import sub
from ..elem import NAN, P, S, div, elem
from ..gen import fixed, flt, opt, series_index

RULE = ('Irradiance 0-1500 W/m2 (0 over-weighted), air temperature -45 to '
        '55 C, wind 0-30 m/s, parameters from wide ranges, mixed '
        'containers; non-trivial = a finite non-zero temperature.')
ASSUMPTIONS = ['noct_sam: an effective irradiance of exactly zero under '
               'non-zero irradiance is not compared.']

G = P(flt(0, 1500, (0, 800, 1000)), nan=True)
TA = P(flt(-45, 55, (0, 20, 25)), nan=True)
W = P(flt(0, 30, (0, 1)), nan=True)
M3 = ('scalar', 'array', 'series', 'array2d')


def d(v, default):
    return default if v is None else v


def nanany(*a):
    return any(math.isnan(x) for x in a)


PAR = dict(a=S(flt(-4.5, -2, (-3.47,))), b=S(flt(-.15, .02, (-.0594,))))
elem(__name__, 'sapm_module', tm.sapm_module,
     dict(poa_global=G, temp_air=TA, wind_speed=W, **PAR),
     lambda poa_global, temp_air, wind_speed, a, b:
     poa_global * math.exp(a + b * wind_speed) + temp_air, modes=M3,
     quick=250, doc='published expression')
elem(__name__, 'sapm_cell_from_module', tm.sapm_cell_from_module,
     dict(module_temperature=TA, poa_global=G, deltaT=S(flt(0, 6)),
          irrad_ref=S(opt(flt(500, 1100)))),
     lambda module_temperature, poa_global, deltaT, irrad_ref:
     module_temperature + poa_global / d(irrad_ref, 1000) * deltaT, modes=M3,
     quick=200, doc='published expression')
elem(__name__, 'sapm_cell', tm.sapm_cell,
     dict(poa_global=G, temp_air=TA, wind_speed=W, deltaT=S(flt(0, 6)),
          irrad_ref=S(opt(flt(500, 1100))), **PAR),
     lambda poa_global, temp_air, wind_speed, a, b, deltaT, irrad_ref:
     poa_global * math.exp(a + b * wind_speed) + temp_air
     + poa_global / d(irrad_ref, 1000) * deltaT, modes=M3, quick=250,
     doc='published expression')


def pvsyst_ref(poa_global, temp_air, wind_speed, u_c, u_v,
               module_efficiency, alpha_absorption):
    u = d(u_c, 29.) + d(u_v, 0.) * wind_speed
    return temp_air + div(poa_global * d(alpha_absorption, .9)
                          * (1 - d(module_efficiency, .1)), u)


elem(__name__, 'pvsyst_cell', tm.pvsyst_cell,
     dict(poa_global=G, temp_air=TA, wind_speed=W,
          u_c=S(opt(flt(1, 40, (29, 15)))), u_v=S(opt(flt(0, 10))),
          module_efficiency=S(opt(flt(0, .3))),
          alpha_absorption=S(opt(flt(.5, 1)))), pvsyst_ref, modes=M3,
     quick=250, doc='published expression')


def faiman_ref(poa_global, temp_air, wind_speed, u0, u1):
    return temp_air + poa_global / (u0 + u1 * wind_speed)


U0, U1 = flt(2, 60, (25,)), flt(0, 15, (6.84,))
elem(__name__, 'faiman', tm.faiman,
     dict(poa_global=G, temp_air=TA, wind_speed=W, u0=P(U0), u1=P(U1)),
     faiman_ref, modes=M3, quick=250, always=('temp_air',),
     doc='published expression, coefficients of any container')


@sub(lambda: fixed(g=flt(0, 1500), t=flt(-40, 50), w=flt(0, 20),
                   u0=U0, u1=U1), quick=60)
def defaults(case, ctx):
    """documented default wind speed and coefficients"""
    g, t, w = case['g'], case['t'], case['w']
    close(tm.faiman(g, t), t + g / (25 + 6.84), 1e-12, 1e-12, 'faiman')
    close(tm.faiman(g, t, w), t + g / (25 + 6.84 * w), 1e-12, 1e-12,
          'faiman')
    close(tm.faiman_rad(g, t), t + g / (25 + 6.84), 1e-12, 1e-12,
          'faiman_rad')
    close(tm.pvsyst_cell(g, t), t + g * .9 * .9 / 29, 1e-12, 1e-12, 'pvsyst')
    close(tm.pvsyst_cell(g, t, u_v=2.), t + g * .9 * .9 / 31, 1e-12, 1e-12,
          'pvsyst wind 1 m/s')
    if g == 0:
        ctx.trivial()


SIGMA = 5.670374419e-8


def rad_ref(poa_global, temp_air, wind_speed, ir_down, u0, u1, sky_view,
            emissivity):
    q = d(emissivity, .88) * d(sky_view, 1.) * (
        SIGMA * (temp_air + 273.15)**4 - ir_down)
    return temp_air + (poa_global - q) / (d(u0, 25.) + d(u1, 6.84)
                                          * wind_speed)


elem(__name__, 'faiman_rad', tm.faiman_rad,
     dict(poa_global=G, temp_air=TA, wind_speed=W,
          ir_down=P(flt(100, 500), nan=True), u0=S(opt(U0)), u1=S(opt(U1)),
          sky_view=S(opt(flt(0, 1))), emissivity=S(opt(flt(.5, 1)))),
     rad_ref, modes=M3, quick=250, rtol=1e-8, atol=1e-7,
     doc='published expression with radiative loss to the sky')
elem(__name__, 'faiman_rad_without_sky', tm.faiman_rad,
     dict(poa_global=G, temp_air=TA, wind_speed=W, u0=S(U0), u1=S(U1),
          sky_view=S(opt(flt(0, 1)))),
     lambda sky_view, **k: faiman_ref(**k), modes=M3, quick=120,
     doc='without long-wave irradiance it is the Faiman model')


def ross_ref(poa_global, temp_air, how):
    k, v = how
    return temp_air + poa_global * (v if k == 'k' else (v - 20) / 800)


elem(__name__, 'ross', tm.ross,
     dict(poa_global=G, temp_air=TA,
          how=S(st.one_of(st.tuples(st.just('k'), flt(.005, .1)),
                          st.tuples(st.just('noct'), flt(35, 70)))
                .map(list))), ross_ref, modes=M3, quick=200,
     call=lambda idx, how, **kw: tm.ross(**kw, **{how[0]: how[1]}),
     doc='Ross coefficient given directly or through NOCT')


@sub(lambda: fixed(g=flt(0, 1200), t=flt(-20, 45), noct=flt(35, 60),
                   k=flt(.01, .06)), quick=10)
def ross_arguments(case, ctx):
    """exactly one of noct and k is needed"""
    c = case
    raises(ValueError, tm.ross, c['g'], c['t'], what='neither')
    raises(ValueError, tm.ross, c['g'], c['t'], noct=c['noct'], k=c['k'],
           what='both')


# ----------------------------------------------------------------- NOCT SAM
def standoff(x):
    for lim, v, closed in ((0, 0, True), (.5, 18, False), (1.5, 11, False),
                           (2.5, 6, False), (3.5, 2, True)):
        if x < lim or closed and x == lim:
            return v
    return 0


def noct_ref(poa_global, temp_air, wind_speed, ratio, noct,
             module_efficiency, transmittance_absorptance, array_height,
             mount_standoff):
    g = poa_global
    if nanany(g, temp_air, wind_speed) or ratio is not None and nanany(ratio):
        return NAN
    wind = wind_speed * (.61 if array_height == 2 else .51)
    ta = d(transmittance_absorptance, .9)
    if g == 0:
        return temp_air
    if ratio is not None:
        ta = ta * (g * ratio) / g
    t = noct + standoff(d(mount_standoff, 4))
    return temp_air + g / 800 * (t - 20) * div(9.5, 5.7 + 3.8 * wind) * (
        1 - module_efficiency / ta)


def noct_call(idx, poa_global, ratio=None, **kw):
    if ratio is not None:
        kw['effective_irradiance'] = poa_global * ratio
    return tm.noct_sam(poa_global, **kw)


NP = dict(poa_global=G, temp_air=TA, wind_speed=W,
          noct=S(flt(35, 70, (45,))), module_efficiency=S(flt(0, .3)),
          transmittance_absorptance=S(opt(flt(.5, 1))),
          array_height=S(st.sampled_from([None, 1, 2])),
          mount_standoff=S(opt(st.one_of(
              flt(-1, 5, (0, .5, 1.5, 2.5, 3.5, 4)),
              st.integers(-1, 5)))))
elem(__name__, 'noct_sam', tm.noct_sam, NP,
     lambda **k: noct_ref(ratio=None, **k), modes=M3, quick=250,
     doc='SAM equation')
elem(__name__, 'noct_sam_effective', tm.noct_sam,
     dict(ratio=P(flt(.01, 1.3, (1,))), **NP), noct_ref, modes=M3, quick=350,
     call=noct_call,
     doc='SAM equation with an effective irradiance; air temperature in the '
         'dark')


@sub(lambda: fixed(h=st.sampled_from([0, 3, 1.5, -1, 'x']), g=flt(0, 1200)),
     quick=10)
def noct_rejects(case, ctx):
    """array heights other than one and two storeys are rejected"""
    raises(ValueError, tm.noct_sam, case['g'], 20., 1., 45., .2,
           array_height=case['h'], what='array_height')


def generic_ref(poa_global, temp_air, wind_speed, u_const, du_wind,
                module_efficiency, absorptance):
    return temp_air + poa_global * (absorptance - module_efficiency) / (
        u_const + du_wind * wind_speed)


elem(__name__, 'generic_linear', tm.generic_linear,
     dict(poa_global=G, temp_air=TA, wind_speed=W, u_const=S(flt(1, 40)),
          du_wind=S(flt(0, 10)), module_efficiency=P(flt(0, .3)),
          absorptance=S(flt(.5, 1))), generic_ref, modes=M3, quick=250,
     doc='published expression')


# --------------------------------------------------------------- parameters
TABLE = {('sapm', 'open_rack_glass_glass'): (-3.47, -.0594, 3),
         ('sapm', 'close_mount_glass_glass'): (-2.98, -.0471, 1),
         ('sapm', 'open_rack_glass_polymer'): (-3.56, -.0750, 3),
         ('sapm', 'insulated_back_glass_polymer'): (-2.81, -.0455, 0),
         ('pvsyst', 'freestanding'): (29.0, 0),
         ('pvsyst', 'insulated'): (15.0, 0),
         ('pvsyst', 'semi_integrated'): (20.0, 0)}


@sub(lambda: fixed(k=st.sampled_from(sorted(TABLE)), g=flt(0, 1300),
                   t=flt(-20, 45), w=flt(0, 20), n=st.integers(1, 4)),
     quick=80)
def named_parameters(case, ctx):
    """the named parameter sets hold the published values and drive the
    models"""
    c = case
    model, name = c['k']
    p = tm.TEMPERATURE_MODEL_PARAMETERS[model][name]
    v = TABLE[tuple(c['k'])]
    idx = series_index(c['n'])
    g = pd.Series(c['g'], index=idx)
    if model == 'sapm':
        require(p == dict(zip(('a', 'b', 'deltaT'), v)), f'{p}')
        got = tm.sapm_cell(g, c['t'], c['w'], **p)
        e = c['t'] + c['g'] * (math.exp(v[0] + v[1] * c['w']) + v[2] / 1e3)
    else:
        require(p == dict(zip(('u_c', 'u_v'), v)), f'{p}')
        got = tm.pvsyst_cell(g, c['t'], c['w'], **p)
        e = c['t'] + c['g'] * .81 / v[0]
    close(got, np.full(c['n'], e), 1e-9, 1e-9, name)
    if c['g'] == 0:
        ctx.trivial()


# -------------------------------------------------------------- monotonicity
@sub(lambda: fixed(g=st.lists(flt(0, 1400), min_size=2, max_size=5),
                   w=st.lists(flt(0, 25), min_size=2, max_size=5),
                   t=flt(-40, 50)), quick=150)
def trends(case, ctx):
    """air temperature in the dark, warmer with irradiance, not warmer with
    wind, shifted by the air temperature"""
    c = case
    gs, ws = np.sort(c['g']), np.sort(c['w'])
    sapm = dict(a=-3.47, b=-.0594, deltaT=3)
    models = dict(
        sapm=lambda g, t, w: tm.sapm_cell(g, t, w, **sapm),
        pvsyst=lambda g, t, w: tm.pvsyst_cell(g, t, w, 25., 1.2),
        faiman=tm.faiman, faiman_rad=tm.faiman_rad,
        noct=lambda g, t, w: tm.noct_sam(g, t, w, 45., .2),
        ross=lambda g, t, w: tm.ross(g, t, k=.03) + 0 * w,
        generic=lambda g, t, w: tm.generic_linear(g, t, w, 20., 4., .2, .9))
    for name, f in models.items():
        g0, w0 = float(gs[-1]), float(ws[0])
        close(f(np.zeros(2), c['t'], ws[:2]), np.full(2, c['t']), 0, 1e-12,
              f'{name} in the dark')
        require((np.diff(f(gs, c['t'], w0)) >= -1e-12).all(),
                f'{name} cools with irradiance')
        require((np.diff(f(g0, c['t'], ws)) <= 1e-12).all(),
                f'{name} warms with wind')
        close(f(gs, c['t'] + 7, w0) - 7, f(gs, c['t'], w0), 1e-12, 1e-9,
              f'{name} shifted')
