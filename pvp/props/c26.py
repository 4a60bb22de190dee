"""C26 module parameters translated with irradiance and temperature."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib import pvsystem

from ..cmp import close, require, same_index, unchanged, snapshot
from ..core import sub
from ..elem import P, S, div, elem
from ..gen import ints, fixed, flt, logflt, opt

RULE = ('Random module parameters, irradiances (zero, tiny, negative never) '
        'and temperatures in mixed containers; non-trivial = a finite '
        'non-zero parameter.')
ASSUMPTIONS = 'Physical parameters: positive absolute temperature.'

KEV = 8.617333262e-5            # eV/K
NAMES = ('IL', 'I0', 'Rs', 'Rsh', 'nNsVth')

G = P(flt(0, 1400, special=(0, 1e-3, 1, 200, 1000)), nan=True)
T = P(flt(-40, 95, special=(0, 25, 50)), nan=True)


def exp(x):
    return float(np.exp(np.float64(x)))


def desoto(g, t, alpha, a, IL, I0, Rsh, Rs, Eg, dEg, gref, tref):
    tk, tr = t + 273.15, tref + 273.15
    eg = Eg * (1 + dEg * (t - tref))
    return (g / gref * (IL + alpha * (t - tref)),
            I0 * (tk / tr)**3 * exp(Eg / (KEV * tr) - eg / (KEV * tk)),
            Rs, div(Rsh * gref, g), a * tk / tr)


def dflt(v, d):
    return d if v is None else v


COMMON = dict(
    alpha_sc=S(flt(-.01, .02)), I_L_ref=S(logflt(.5, 15)),
    I_o_ref=S(logflt(1e-14, 1e-5)), R_sh_ref=S(logflt(20, 1e5)),
    R_s=S(flt(0, 3)), EgRef=S(opt(flt(.8, 2))),
    irrad_ref=S(opt(flt(200, 1200))), temp_ref=S(opt(flt(0, 50))))
DE = dict(a_ref=S(flt(.5, 10)),
          dEgdT=S(opt(flt(-.0006, .0003, special=(0,)))))


def ref_desoto(effective_irradiance, temp_cell, alpha_sc, I_L_ref, I_o_ref,
               R_sh_ref, R_s, EgRef, irrad_ref, temp_ref, a_ref, dEgdT):
    return desoto(effective_irradiance, temp_cell, alpha_sc, a_ref, I_L_ref,
                  I_o_ref, R_sh_ref, R_s, dflt(EgRef, 1.121),
                  dflt(dEgdT, -.0002677), dflt(irrad_ref, 1000),
                  dflt(temp_ref, 25))


def ref_cec(Adjust, alpha_sc, **kw):
    return ref_desoto(alpha_sc=alpha_sc * (1 - Adjust / 100), **kw)


def ref_pvsyst(effective_irradiance, temp_cell, alpha_sc, I_L_ref, I_o_ref,
               R_sh_ref, R_s, EgRef, irrad_ref, temp_ref, gamma_ref,
               mu_gamma, R_sh_0, R_sh_exp, cells_in_series):
    g, t = effective_irradiance, temp_cell
    gr, tr = dflt(irrad_ref, 1000), dflt(temp_ref, 25)
    ex, eg = dflt(R_sh_exp, 5.5), dflt(EgRef, 1.121)
    tk, trk = t + 273.15, tr + 273.15
    gam = gamma_ref + mu_gamma * (t - tr)
    base = max(0, (R_sh_ref - R_sh_0 * math.exp(-ex)) / (1 - math.exp(-ex)))
    return (g / gr * (I_L_ref + alpha_sc * (t - tr)),
            I_o_ref * (tk / trk)**3
            * exp(eg / (KEV * gam) * (1 / trk - 1 / tk)),
            R_s, base + (R_sh_0 - base) * exp(-ex * g / gr),
            gam * KEV * tk * cells_in_series)


POS = {'scalar': None}        # constants may come back as given


def post(res):
    require(isinstance(res, (tuple, list)) and len(res) == 5,
            'five parameters')
    return tuple(res)


def lab(effective_irradiance, **kw):
    return 'dark' if effective_irradiance == 0 else None


for nm, fn, extra, ref in [
        ('desoto', pvsystem.calcparams_desoto, DE, ref_desoto),
        ('cec', pvsystem.calcparams_cec,
         dict(DE, Adjust=S(flt(-50, 50, special=(0,)))), ref_cec),
        ('pvsyst', pvsystem.calcparams_pvsyst,
         dict(gamma_ref=S(flt(.8, 2)), mu_gamma=S(flt(-.002, .002)),
              R_sh_0=S(logflt(100, 1e5)), R_sh_exp=S(opt(flt(1, 10))),
              cells_in_series=S(ints(1, 144))), ref_pvsyst)]:
    elem(__name__, nm, fn,
         dict(effective_irradiance=G, temp_cell=T, **COMMON, **extra),
         ref, modes=('scalar', 'array', 'series', 'array2d'), post=post,
         label=lab, rtol=1e-8, atol=1e-300, quick=350,
         doc='the five parameters equal the published equations')


MOD = dict(alpha_sc=flt(-.01, .02), IL=logflt(.5, 15),
           I0=logflt(1e-14, 1e-5), Rsh=logflt(20, 1e5), Rs=flt(0, 3),
           eg=flt(.8, 2), gref=flt(200, 1200), tref=flt(0, 50),
           x=flt(.8, 2), mu=flt(-.002, .002), R0=logflt(100, 1e5),
           ns=ints(1, 144), adj=flt(-50, 50),
           dEg=flt(-.0006, .0003))


def calls(c):
    kw = dict(alpha_sc=c['alpha_sc'], I_L_ref=c['IL'], I_o_ref=c['I0'],
              R_sh_ref=c['Rsh'], R_s=c['Rs'], EgRef=c['eg'],
              irrad_ref=c['gref'], temp_ref=c['tref'])
    return [
        ('desoto', lambda g, t: pvsystem.calcparams_desoto(
            g, t, a_ref=c['x'], dEgdT=c['dEg'], **kw)),
        ('cec', lambda g, t: pvsystem.calcparams_cec(
            g, t, a_ref=c['x'], dEgdT=c['dEg'], Adjust=c['adj'], **kw)),
        ('pvsyst', lambda g, t: pvsystem.calcparams_pvsyst(
            g, t, gamma_ref=c['x'], mu_gamma=c['mu'], R_sh_0=c['R0'],
            cells_in_series=c['ns'], **kw))]


@sub(lambda: fixed(**MOD), quick=250)
def reference_conditions(case, ctx):
    """reference irradiance and temperature return the reference values"""
    for nm, f in calls(case):
        r = f(case['gref'], case['tref'])
        close(r[0], case['IL'], 1e-12, 0, nm + ' photocurrent')
        close(r[1], case['I0'], 1e-9, 0, nm + ' saturation current')
        require(r[2] == case['Rs'], 'series resistance')
        if nm != 'pvsyst':
            close(r[3], case['Rsh'], 1e-12, 0, nm + ' shunt')
            close(r[4], case['x'], 1e-12, 0, nm + ' nNsVth')
        else:
            ex = math.exp(-5.5)
            if case['Rsh'] - case['R0'] * ex >= 0:
                close(r[3], case['Rsh'], 1e-9, 0, nm + ' shunt')
            close(r[4], case['x'] * case['ns'] * KEV * (case['tref']
                                                        + 273.15),
                  1e-9, 0, nm + ' nNsVth')


@sub(lambda: fixed(**MOD, g=flt(1, 1400), t=flt(-40, 95), t2=flt(-40, 95),
                   k=flt(.1, 3), zero=st.sampled_from(
                       ['int', 'float', 'np', 'array', 'series', 'intarr'])),
     quick=250)
def separability(case, ctx):
    """irradiance scales photocurrent and shunt only; zero irradiance is the
    documented limit in every type of number"""
    c = case
    z = {'int': 0, 'float': 0., 'np': np.float64(0), 'array': np.zeros(2),
         'series': pd.Series([0., 0]), 'intarr': np.array([0, 0])}[c['zero']]
    for nm, f in calls(c):
        a, b = f(c['g'], c['t']), f(c['g'] * c['k'], c['t'])
        close(b[0], a[0] * c['k'], 1e-9, 1e-12, nm + ' photocurrent')
        require(a[1] == b[1] and a[4] == b[4] and a[2] == b[2],
                f'{nm}: I0, nNsVth or Rs depend on irradiance')
        d = f(c['g'], c['t2'])
        require(d[3] == a[3] and d[2] == a[2],
                f'{nm}: shunt or series resistance depend on temperature')
        if nm != 'pvsyst':
            close(b[3], a[3] / c['k'], 1e-9, 0, nm + ' shunt')
        with np.errstate(all='ignore'):
            n = f(z, c['t'])
        close(n[0], np.zeros(np.shape(z)), 0, 0, nm + ' dark photocurrent')
        close(n[3], np.full(np.shape(z), np.inf if nm != 'pvsyst'
                            else c['R0']), 1e-9, 0, nm + ' dark shunt')
        for x, y in zip(n, a):
            if np.shape(z):
                require(np.shape(x) == np.shape(z), 'shapes')
        close(np.atleast_1d(n[1])[0], a[1], 1e-12, 0, nm + ' dark I0')
    ctx.label(c['zero'])
