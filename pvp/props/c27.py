"""C27 module performance models."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib import pvarray, pvsystem

from ..cmp import close, require, raises
from ..core import sub
from ..elem import NAN, P, S, div, elem, npmax
from ..gen import ints, fixed, flt, logflt, opt

RULE = ('Random coefficients, irradiances (incl. zero and negative) and '
        'temperatures in mixed containers; non-trivial = a finite non-zero '
        'output.')

KE = 8.617333262145e-5
G = P(flt(-5, 1400, special=(0, 1e-6, 1, 199.999, 200, 200.001, 999.9, 1000,
                             1000.1)), nan=True)
G0 = P(flt(0, 1400, special=(0, 1e-6, 1, 200, 1000)), nan=True)
T = P(flt(-40, 95, special=(0, 25, 50)), nan=True)


def dflt(v, d):
    return d if v is None else v


# ------------------------------------------------------------------ SAPM
def sapm_params(extra):
    d = dict(Isco=flt(1, 10), Impo=flt(1, 9), Voco=flt(5, 70),
             Vmpo=flt(4, 60), Aisc=flt(-.001, .002), Aimp=flt(-.002, .002),
             C0=flt(.8, 1.1), C1=flt(-.1, .2), C2=flt(-1.5, 1.5),
             C3=flt(-30, 10), Bvoco=flt(-.3, 0), Mbvoc=flt(-.05, .05),
             Bvmpo=flt(-.3, 0), Mbvmp=flt(-.05, .05), N=flt(.8, 2),
             Cells_in_Series=ints(1, 144))
    if extra & 1:
        d.update(IXO=flt(1, 9), C4=flt(.8, 1.1), C5=flt(-.1, .2))
    if extra & 2:
        d.update(IXXO=flt(1, 9), C6=flt(.8, 1.2), C7=flt(-.2, .2))
    if extra & 4:
        d.update(C4=flt(.8, 1.1), C6=flt(.8, 1.2), C7=flt(-.2, .2))
    return fixed(**d)


MOD = st.integers(0, 7).flatmap(sapm_params)


def sapm_ref(effective_irradiance, temp_cell, module, temperature_ref,
             irradiance_ref):
    m = module
    e = effective_irradiance / dflt(irradiance_ref, 1000)
    dt = temp_cell - dflt(temperature_ref, 25)
    d = m['N'] * KE * (temp_cell + 273.15)
    ns = m['Cells_in_Series']
    nan = math.isnan(e) or math.isnan(temp_cell)
    isc = m['Isco'] * e * (1 + m['Aisc'] * dt)
    imp = m['Impo'] * (m['C0'] * e + m['C1'] * e * e) * (1 + m['Aimp'] * dt)
    if nan or e < 0:
        voc = vmp = NAN
    elif e == 0:
        voc = vmp = 0.
    else:
        lg = math.log(e)
        voc = max(0, m['Voco'] + ns * d * lg
                  + (m['Bvoco'] + m['Mbvoc'] * (1 - e)) * dt)
        vmp = max(0, m['Vmpo'] + m['C2'] * ns * d * lg
                  + m['C3'] * ns * (d * lg)**2
                  + (m['Bvmpo'] + m['Mbvmp'] * (1 - e)) * dt)
    out = dict(i_sc=isc, i_mp=imp, v_oc=voc, v_mp=vmp, p_mp=imp * vmp)
    if {'IXO', 'C4', 'C5'} <= set(m):
        out['i_x'] = (m['IXO'] * (m['C4'] * e + m['C5'] * e * e)
                      * (1 + m['Aisc'] * dt))
    if {'IXXO', 'C6', 'C7'} <= set(m):
        out['i_xx'] = (m['IXXO'] * (m['C6'] * e + m['C7'] * e * e)
                       * (1 + m['Aimp'] * dt))
    return out


def sapm_lab(effective_irradiance, **kw):
    e = effective_irradiance
    return 'dark' if e == 0 else ('negative' if e < 0 else None)


def sapm_call(idx, effective_irradiance, temp_cell, module, **kw):
    if len(module) % 2:
        module = pd.Series(module)
    r = pvsystem.sapm(effective_irradiance, temp_cell, module, **kw)
    if any(isinstance(x, pd.Series)
           for x in (effective_irradiance, temp_cell)):
        require(isinstance(r, pd.DataFrame), 'Series in, DataFrame out')
    return r


elem(__name__, 'sapm', pvsystem.sapm,
     dict(effective_irradiance=G, temp_cell=T, module=S(MOD),
          temperature_ref=S(opt(flt(0, 50))),
          irradiance_ref=S(opt(flt(200, 1200)))),
     sapm_ref, call=sapm_call, label=sapm_lab, rtol=1e-8, atol=1e-9,
     quick=500, doc='the points of the SAPM curve')


def spec_iam_ref(poa_direct, poa_diffuse, airmass_absolute, aoi, module):
    m = module
    f1 = max(0, sum(m[f'A{i}'] * airmass_absolute**i for i in range(5))) \
        if not math.isnan(airmass_absolute) else 0.
    f2 = max(0, sum(m[f'B{i}'] * aoi**i for i in range(6)))
    if aoi < 0:
        f2 = 0.
    return f1 * (poa_direct * f2 + m['FD'] * poa_diffuse)


SPEC = fixed(A0=flt(.8, 1), A1=flt(-.1, .15), A2=flt(-.03, .01),
             A3=flt(-.001, .002), A4=flt(-1e-4, 1e-4), B0=flt(.9, 1.1),
             B1=flt(-.01, .01), B2=flt(-.001, .001), B3=flt(-1e-5, 1e-5),
             B4=flt(-1e-6, 1e-6), B5=flt(-1e-8, 1e-8), FD=flt(0, 1))

elem(__name__, 'sapm_effective_irradiance',
     pvsystem.sapm_effective_irradiance,
     dict(poa_direct=P(flt(0, 1100, special=(0,)), nan=True),
          poa_diffuse=P(flt(0, 500, special=(0,)), nan=True),
          airmass_absolute=P(flt(.5, 38, special=(1, 1.5)), nan=True),
          aoi=P(flt(-5, 180, special=(0, 90))), module=S(SPEC)),
     spec_iam_ref, rtol=1e-8, atol=1e-8, quick=300,
     doc='spectral and incidence polynomials applied to beam and diffuse')


# --------------------------------------------------------------- PVWatts
def pvwatts_ref(effective_irradiance, temp_cell, pdc0, gamma_pdc, temp_ref,
                k, cap_adjustment):
    g = effective_irradiance
    p = g / 1000 * pdc0 * (1 + gamma_pdc * (temp_cell - dflt(temp_ref, 25)))
    if k is None:
        return p
    if g <= 200:
        e = k * (1 - (1 - g / 200)**4)
    else:
        e = k * (1000 - g) / 800
    if cap_adjustment and g >= 1000:
        e = 0.
    return npmax(0, p - pdc0 * e)


elem(__name__, 'pvwatts_dc', pvsystem.pvwatts_dc,
     dict(effective_irradiance=G, temp_cell=T, pdc0=P(logflt(1, 1e6)),
          gamma_pdc=P(flt(-.006, .001)), temp_ref=S(opt(flt(0, 50))),
          k=S(opt(flt(-.02, .05, special=(0,)))),
          cap_adjustment=S(st.sampled_from([None, False, True]))),
     pvwatts_ref, modes=('scalar', 'array', 'series', 'array2d'),
     always=('effective_irradiance', 'temp_cell'),
     label=lambda k, effective_irradiance, **kw:
     ('marion-low' if effective_irradiance <= 200 else 'marion-high')
     if k is not None else 'plain', quick=500, rtol=1e-9, atol=1e-9,
     doc='the PVWatts equation and the Marion low-light correction')


# ------------------------------------------------------------------- ADR
def adr_ref(effective_irradiance, temp_cell, k_a, k_d, tc_d, k_rs, k_rsh):
    s, dt = effective_irradiance / 1000, temp_cell - 25
    so, sr = 10**(k_d + tc_d * dt), 10**k_d
    if s / so <= -1:
        return NAN
    v = math.log(s / so + 1) / math.log(1 / sr + 1)
    return k_a * ((1 + k_rs + k_rsh) * v - k_rs * s - k_rsh * v * v)


elem(__name__, 'adr', pvarray.pvefficiency_adr,
     dict(effective_irradiance=G0, temp_cell=T, k_a=P(flt(1, 100)),
          k_d=P(flt(-12, -1)), tc_d=P(flt(-.05, .1)), k_rs=P(flt(0, .3)),
          k_rsh=P(flt(0, .5))), adr_ref,
     always=('effective_irradiance', 'temp_cell'), quick=350, rtol=1e-7,
     atol=1e-9, doc='the ADR efficiency equations')


# ------------------------------------------------------------------ Huld
HULD = {
    'pvgis5': {
        'csi': (-0.017237, -0.040465, -0.004702, 0.000149, 0.000170,
                0.000005),
        'cis': (-0.005554, -0.038724, -0.003723, -0.000905, -0.001256,
                0.000001),
        'cdte': (-0.046689, -0.072844, -0.002262, 0.000276, 0.000159,
                 -0.000006)},
    'pvgis6': {
        'csi': (-0.0067560, -0.016444, -0.003015, -0.000045, -0.000043, 0.0),
        'cis': (-0.011001, -0.029734, -0.002887, 0.000217, -0.000163, 0.0),
        'cdte': (-0.020644, -0.035136, -0.003406, 0.000073, -0.000141,
                 0.000002)}}


def huld_ref(effective_irradiance, temp_mod, pdc0, k, cell_type, k_version):
    if k is None:
        k = [x * pdc0 for x in HULD[dflt(k_version, 'pvgis5').lower()]
             [cell_type.lower()]]
    g, t = effective_irradiance / 1000, temp_mod - 25
    if math.isnan(g):
        return NAN
    lg = math.log(g) if g > 0 else 0.
    return g * (pdc0 + k[0] * lg + k[1] * lg**2 + k[2] * t + k[3] * t * lg
                + k[4] * t * lg**2 + k[5] * t * t)


elem(__name__, 'huld', pvarray.huld,
     dict(effective_irradiance=G, temp_mod=T, pdc0=S(logflt(1, 1e5)),
          k=S(opt(st.lists(flt(-20, 5), min_size=6, max_size=6))),
          cell_type=S(st.sampled_from(['cSi', 'CIS', 'CdTe', 'csi', 'cdte',
                                       'CSI'])),
          k_version=S(st.sampled_from([None, 'pvgis5', 'pvgis6', 'PVGIS6',
                                       'PVGIS5']))),
     huld_ref, label=lambda cell_type, k_version, k, **kw:
     'own-k' if k is not None else
     f'{cell_type.lower()}-{(k_version or "pvgis5").lower()}',
     modes=('scalar', 'array', 'series', 'array2d'),
     quick=400, rtol=1e-9, atol=1e-9, doc='the Huld polynomial')


# -------------------------------------------------------------- Batzelis
def lw(x):
    """principal Lambert W of x > 0 by Newton"""
    w = math.log1p(x) if x < 3 else math.log(x) - math.log(math.log(x))
    for _ in range(60):
        e = math.exp(w)
        w -= (w * e - x) / (e * (1 + w))
    return w


def batz(effective_irradiance, temp_cell, v_mp, i_mp, v_oc, i_sc, alpha_sc,
         beta_voc):
    a, b = alpha_sc / i_sc, beta_voc / v_oc
    t0 = 298.15
    g, dt, lam = (effective_irradiance / 1000, temp_cell - 25,
                  (temp_cell + 273.15) / t0)
    d0 = (1 - b * t0) / (50.1 - a * t0)
    w0 = lw(math.exp(1 / d0 + 1))
    aimp = a + (b - 1 / t0) / (w0 - 1)
    e0 = d0 / (1 + d0) * v_oc / v_mp
    e1 = d0 * (w0 - 1) * v_oc / v_mp - 1
    bvmp = v_oc / v_mp * (b / (1 + d0)
                          + (d0 * (w0 - 1) - 1 / (1 + d0)) / t0)
    isc = g * i_sc * (1 + a * dt)
    imp = g * i_mp * (1 + aimp * dt)
    if math.isnan(g) or math.isnan(dt):
        voc = vmp = NAN
    elif g <= 0:
        voc = vmp = 0.
    else:
        voc = max(0, v_oc * (1 + d0 * lam * math.log(g) + b * dt))
        vmp = max(0, v_mp * (1 + e0 * lam * math.log(g) + e1 * (1 - g)
                             + bvmp * dt))
    return dict(p_mp=vmp * imp, i_mp=imp, v_mp=vmp, i_sc=isc, v_oc=voc)




elem(__name__, 'batzelis', pvarray.batzelis,
     dict(effective_irradiance=G0, temp_cell=T, v_mp=S(flt(20, 35)),
          i_mp=S(flt(5, 8)), v_oc=S(flt(36, 45)), i_sc=S(flt(8.1, 10)),
          alpha_sc=S(flt(-.005, .02)), beta_voc=S(flt(-.2, -.05))),
     batz, quick=350, rtol=1e-8, atol=1e-8,
     post=lambda r: r if isinstance(r, (dict, pd.DataFrame)) else {},
     doc='the Batzelis equations')


# ------------------------------------------------------- rated conditions
@sub(lambda: fixed(m=MOD, pdc0=logflt(1, 1e5), gam=flt(-.006, 0),
                   kk=flt(-.02, .05), ka=flt(1, 100), kd=flt(-12, -1),
                   tc=flt(-.05, .1), krs=flt(0, .3), krsh=flt(0, .5),
                   cell=st.sampled_from(['cSi', 'CIS', 'CdTe']),
                   zero=st.sampled_from([0, 0., 'np', 'arr', 'ser', 'int']),
                   t=flt(-40, 95)), quick=250)
def rated_and_dark(case, ctx):
    """rated values at reference conditions and zero at zero irradiance,
    whatever type of number is given; bad options are rejected"""
    c = case
    r = pvsystem.sapm(1000, 25, dict(c['m'], C0=1 - c['m']['C1']))
    close([r['i_sc'], r['i_mp'], r['v_oc'], r['v_mp']],
          [c['m'][k] for k in ('Isco', 'Impo', 'Voco', 'Vmpo')], 1e-9, 1e-9,
          'SAPM reference point')
    close(pvsystem.pvwatts_dc(1000, 25, c['pdc0'], c['gam']), c['pdc0'],
          1e-9, 0, 'pvwatts')
    close(pvsystem.pvwatts_dc(1000, 25, c['pdc0'], c['gam'], k=c['kk']),
          c['pdc0'], 1e-9, 0, 'pvwatts k')
    close(pvsystem.pvwatts_dc(200, 25, c['pdc0'], c['gam'], k=c['kk']),
          (.2 - c['kk']) * c['pdc0'], 1e-9, 0, 'k at 200 W/m2')
    close(pvarray.pvefficiency_adr(1000, 25, c['ka'], c['kd'], c['tc'],
                                   c['krs'], c['krsh']), c['ka'], 1e-9, 0,
          'adr')
    close(pvarray.huld(1000, 25, c['pdc0'], cell_type=c['cell']), c['pdc0'],
          1e-9, 0, 'huld')
    b = dict(v_mp=30., i_mp=8., v_oc=37., i_sc=8.6, alpha_sc=.004,
             beta_voc=-.11)
    r = pvarray.batzelis(1000, 25, **b)
    close([r['v_mp'], r['i_mp'], r['v_oc'], r['i_sc'], r['p_mp']],
          [30., 8., 37., 8.6, 240.], 1e-9, 0, 'batzelis')
    z = {'np': np.float64(0), 'arr': np.zeros(2), 'int': np.array([0, 0]),
         'ser': pd.Series([0., 0.])}.get(c['zero'], c['zero'])
    zero = np.zeros(np.shape(z))
    t = c['t']
    for k, v in pvsystem.sapm(z, t, c['m']).items():
        close(v, zero, 0, 0, f'dark SAPM {k}')
    for k in (None, c['kk']):
        close(pvsystem.pvwatts_dc(z, t, c['pdc0'], c['gam'], k=k), zero, 0,
              0, f'dark pvwatts k={k}')
    close(pvarray.huld(z, t, c['pdc0'], cell_type=c['cell']), zero, 0, 0,
          'dark huld')
    for k, v in pvarray.batzelis(z, t, **b).items():
        close(v, zero, 0, 0, f'dark batzelis {k}')
    close(pvarray.pvefficiency_adr(z, t, c['ka'], c['kd'], c['tc'],
                                   c['krs'], c['krsh']), zero, 0, 1e-9,
          'dark adr')
    raises(ValueError, pvarray.huld, 500., t, c['pdc0'], what='no k')
    raises(ValueError, pvarray.huld, 500., t, c['pdc0'], cell_type='cSi',
           k_version='pvgis4', what='version')
    ctx.label(str(c['zero']))
