"""C35: spectral mismatch models."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pvlib import spectrum as sp
from ..core import sub
from ..cmp import close, require, raises
from ..elem import elem, P, S, NAN, npmax, npmin
from ..gen import flt, fixed, opt

RULE = """Air mass from 0.3 to beyond the kept range (and NaN at night),
precipitable water around and beyond both limits, aerosol depths, clear-sky
indices from near zero to above one, every named technology and drawn
coefficient sets (list, tuple, array); scalars, arrays and Series in every
mixture.  Non-trivial: a finite nonzero output element."""

M4 = ('scalar', 'array', 'series', 'array2d')
AM = P(flt(.3, 14, (.58, 10, 1, 1.5)), nan=True)
PW = P(flt(.01, 10, (.1, 8, 1.4164)), nan=True)
AOD = P(flt(.001, 1.5, (.084,)), nan=True)
KC = P(flt(.01, 1.6, (1,)), nan=True)


def coeffs(n, lo=-1., hi=1.):
    return st.tuples(
        st.sampled_from(['list', 'tuple', 'array']),
        st.lists(flt(lo, hi), min_size=n, max_size=n))


def conv(kw):
    kw = dict(kw)
    c = kw.get('coefficients')
    if c is not None:
        kind, v = c
        kw['coefficients'] = (np.array(v) if kind == 'array' else
                              tuple(v) if kind == 'tuple' else list(v))
    return kw


# one static parameter choosing either a technology or coefficients
def which(names, n, lo=-1., hi=1.):
    return st.one_of(st.sampled_from(names).map(lambda t: ('type', t)),
                     coeffs(n, lo, hi).map(lambda c: ('coef', c)))


def split(kw):
    kw = dict(kw)
    k, v = kw.pop('which')
    if k == 'type':
        kw['module_type'] = v
    else:
        kw['coefficients'] = v
        kw = conv(kw)
    return kw


def pick(which, table):
    k, v = which
    return table[v] if k == 'type' else v[1]


# ------------------------------------------------------------ First Solar
FS = {
    'cdte': (0.86273, -0.038948, -0.012506, 0.098871, 0.084658, -0.0042948),
    'monosi': (0.85914, -0.020880, -0.0058853, 0.12029, 0.026814,
               -0.0017810),
    'polysi': (0.84090, -0.027539, -0.0079224, 0.13570, 0.038024,
               -0.0021218),
    'cigs': (0.85252, -0.022314, -0.0047216, 0.13666, 0.013342, -0.0008945),
    'asi': (1.12094, -0.047620, -0.0083627, -0.10443, 0.098382, -0.0033818),
}
FS['xsi'], FS['multisi'] = FS['monosi'], FS['polysi']


def fs_ref(precipitable_water, airmass_absolute, which,
           min_precipitable_water, max_precipitable_water,
           min_airmass_absolute, max_airmass_absolute):
    def dd(x, v):
        return v if x is None else x
    c = pick(which, FS)
    w = npmax(precipitable_water, dd(min_precipitable_water, .1))
    if w > dd(max_precipitable_water, 8):
        w = NAN
    a = npmin(airmass_absolute, dd(max_airmass_absolute, 10))
    a = npmax(a, dd(min_airmass_absolute, .58))
    return (c[0] + c[1] * a + c[2] * w + c[3] * math.sqrt(a)
            + c[4] * math.sqrt(w) + c[5] * a / math.sqrt(w))


elem(__name__, 'firstsolar', sp.spectral_factor_firstsolar,
     dict(precipitable_water=PW, airmass_absolute=AM,
          which=S(which(sorted(FS), 6)),
          min_precipitable_water=S(opt(flt(.05, .5))),
          max_precipitable_water=S(opt(flt(4, 9))),
          min_airmass_absolute=S(opt(flt(.4, 1))),
          max_airmass_absolute=S(opt(flt(5, 12)))),
     fs_ref, modes=M4, types={'scalar': None}, quick=500,
     always=('airmass_absolute',),
     call=lambda idx, **k: sp.spectral_factor_firstsolar(**split(k)),
     label=lambda precipitable_water, airmass_absolute, **k:
     'out-of-range' if precipitable_water < .1 or precipitable_water > 8
     or not .58 <= airmass_absolute <= 10 else 'in-range',
     doc='published polynomial with documented limits')


# ----------------------------------------------------------------- SAPM
def sapm_ref(airmass_absolute, module):
    a = airmass_absolute
    v = sum(module[1][k] * a**k for k in range(5))
    return 0. if math.isnan(v) else max(0., v)


def mod(module):
    kind, a = module
    m = {f'A{i}': v for i, v in enumerate(a)}
    m['Vintage'] = 2003
    return pd.Series(m) if kind == 'series' else m


elem(__name__, 'sapm', sp.spectral_factor_sapm,
     dict(airmass_absolute=AM, module=S(st.tuples(
         st.sampled_from(['dict', 'series']), st.one_of(
             st.just([.931498, .059748, -.010673, .000798, -.0000223]),
             st.lists(flt(-.5, 1), min_size=5, max_size=5))))),
     sapm_ref, modes=M4, types={'scalar': None}, quick=300,
     skip=lambda airmass_absolute, module: False,
     call=lambda idx, airmass_absolute, module:
     sp.spectral_factor_sapm(airmass_absolute, mod(module)),
     doc='fourth-degree polynomial, never negative, zero where air mass is '
     'missing')


# ------------------------------------------------------------ Caballero
CAB = {
    'cdte': (1.0044, 0.0095, -0.0037, 0.0002, 0.0000, -0.0046,
             -0.0182, 0, 0.0095, 0.0068, 0, 1),
    'monosi': (0.9706, 0.0377, -0.0123, 0.0025, -0.0002, 0.0159,
               -0.0165, 0, -0.0016, -0.0027, 1, 0),
    'multisi': (0.9836, 0.0254, -0.0085, 0.0016, -0.0001, 0.0094,
                -0.0132, 0, -0.0002, -0.0011, 1, 0),
    'cigs': (0.9801, 0.0283, -0.0092, 0.0019, -0.0001, 0.0117,
             -0.0126, 0, -0.0011, -0.0019, 1, 0),
    'asi': (1.1060, -0.0848, 0.0302, -0.0076, 0.0006, -0.1283,
            0.0986, -0.0254, 0.0156, 0.0146, 1, 0),
    'perovskite': (1.0637, -0.0491, 0.0180, -0.0047, 0.0004, -0.0773,
                   0.0583, -0.0159, 0.01251, 0.0109, 1, 0)}


def cab_ref(precipitable_water, airmass_absolute, aod500, which):
    c, a = pick(which, CAB), airmass_absolute
    la = math.log(a)
    am = sum(c[k] * a**k for k in range(5))
    ao = (aod500 - .084) * (c[5] + c[10] * c[6] * a + c[11] * c[6] * la
                            + c[7] * a**2)
    return am + ao + (precipitable_water - 1.4164) * (c[8] + c[9] * la)


elem(__name__, 'caballero', sp.spectral_factor_caballero,
     dict(precipitable_water=PW, airmass_absolute=AM, aod500=AOD,
          which=S(which(sorted(CAB), 12))), cab_ref, modes=M4, quick=400,
     call=lambda idx, **k: sp.spectral_factor_caballero(**split(k)),
     doc='published sums of air mass, aerosol and water terms')

# -------------------------------------------------------- PVSPEC and JRC
PVS = {'multisi': (0.9847, -0.05237, 0.03034),
       'monosi': (0.9845, -0.05169, 0.03034),
       'fs4-2': (1.002, -0.07108, 0.02465),
       'fs4-1': (0.9981, -0.05776, 0.02336),
       'cigs': (0.9791, -0.03904, 0.03096),
       'asi': (1.051, -0.1033, 0.009838)}
elem(__name__, 'pvspec', sp.spectral_factor_pvspec,
     dict(airmass_absolute=AM, clearsky_index=KC,
          which=S(which(sorted(PVS), 3))),
     lambda airmass_absolute, clearsky_index, which: (
         lambda c: c[0] * clearsky_index**c[1] * airmass_absolute**c[2])(
             pick(which, PVS)),
     modes=M4, quick=300,
     call=lambda idx, **k: sp.spectral_factor_pvspec(**split(k)),
     doc='power law of clear-sky index and air mass')

JRC = {'multisi': tuple(x / .00348 for x in (.00172, .000508, .00000357)),
       'cdte': tuple(x / .00115 for x in (.000643, .000130, .0000108))}
elem(__name__, 'jrc', sp.spectral_factor_jrc,
     dict(airmass=AM, clearsky_index=KC, which=S(which(sorted(JRC), 3))),
     lambda airmass, clearsky_index, which: (
         lambda c: 1 + c[0] * (math.exp(-clearsky_index) - math.exp(-1))
         + c[1] * (clearsky_index - 1) + c[2] * (airmass - 1.5))(
             pick(which, JRC)),
     modes=M4, quick=300,
     call=lambda idx, **k: sp.spectral_factor_jrc(**split(k)),
     doc='published sum; one at air mass 1.5 and clear-sky index one')

# ------------------------------------------------------------------ Polo
POLO = {'cdte': (-0.0009, 46.80, 49.20, -0.87, 0.00041, 0.053,
                 0.0021, -0.01, 1.01),
        'monosi': (0.0027, 10.34, 9.48, 0.31, 0.00077, 0.006,
                   0, -0.003, 1.0),
        'cigs': (0.0017, 2.33, 1.30, 0.11, 0.00098, -0.018,
                 -0.0009, -0.0003, 1),
        'asi': (0.0024, 7.32, 7.09, -0.72, -0.0013, 0.089,
                0.0056, -0.020, 1.014)}


def polo_ref(precipitable_water, airmass_absolute, aod500, aoi, pressure,
             which, albedo):
    c = pick(which, POLO)
    z = npmin(aoi, 90.)
    f = 1 / (math.cos(math.radians(z))
             + .50572 * (6.07995 + (90 - z))**-1.6364)
    r = f * pressure / 101325. / airmass_absolute
    s = (c[0] * r + c[1] / (c[2] + r**c[3]) + c[4] / aod500
         + c[5] * math.sqrt(precipitable_water))
    al = albedo / .2
    return s * (c[6] * al**2 + c[7] * al + c[8])


elem(__name__, 'polo', sp.spectral_factor_polo,
     dict(precipitable_water=PW, airmass_absolute=AM, aod500=AOD,
          aoi=P(flt(0, 180, (0, 90, 89.999, 90.001)), nan=True),
          pressure=P(flt(5e4, 1.1e5, (101325,))),
          albedo=P(flt(0, 1, (.2, 0))),
          which=S(which(sorted(POLO), 9, .01, 2.))),
     polo_ref, modes=M4, quick=400, rtol=1e-9,
     call=lambda idx, **k: sp.spectral_factor_polo(**split(k)),
     label=lambda aoi, **k: 'behind' if aoi > 90 else 'front',
     doc='published sum with the incidence angle limited to 90 degrees and '
     'the albedo correction')


@sub(lambda: fixed(fn=st.sampled_from(['firstsolar', 'caballero', 'pvspec',
                                       'jrc', 'polo']),
                   how=st.sampled_from(['none', 'both', 'unknown']),
                   name=st.sampled_from(['foo', 'CdTe2', 'perovskites', '']),
                   am=flt(1, 5), kc=flt(.1, 1), pw=flt(.2, 4),
                   aod=flt(.01, 1)), quick=60)
def rejects(case, ctx):
    """unknown technology, neither or both of technology and coefficients:
    an error, never a number"""
    args = dict(firstsolar=(case['pw'], case['am']),
                caballero=(case['pw'], case['am'], case['aod']),
                pvspec=(case['am'], case['kc']), jrc=(case['am'],
                                                      case['kc']),
                polo=(case['pw'], case['am'], case['aod'], 30., 1e5))
    n = dict(firstsolar=6, caballero=12, pvspec=3, jrc=3, polo=9)
    t = 'cdte' if case['fn'] in ('jrc', 'polo') else 'cigs'
    kw = {'none': {}, 'both': dict(module_type=t,
                                   coefficients=[.1] * n[case['fn']]),
          'unknown': dict(module_type=case['name'])}[case['how']]
    exc = KeyError if case['how'] == 'unknown' else (
        TypeError if case['fn'] == 'firstsolar' else ValueError)
    raises(exc, getattr(sp, 'spectral_factor_' + case['fn']),
           *args[case['fn']], **kw)
    ctx.label(case['fn'], case['how'])


@sub(lambda: fixed(t=st.sampled_from(sorted(FS)), am=flt(.58, 10),
                   pw=flt(.1, 8), pres=flt(6e4, 1.05e5), albedo=flt(0, 1)),
     quick=100)
def defaults(case, ctx):
    """named coefficients and documented defaults equal the explicit ones"""
    a = sp.spectral_factor_firstsolar(case['pw'], case['am'], case['t'])
    b = sp.spectral_factor_firstsolar(case['pw'], case['am'], None,
                                      FS[case['t']])
    close(a, b, 1e-12, 0, 'First Solar coefficients')
    close(sp.spectral_factor_firstsolar(case['pw'], case['am'] + 20,
                                        case['t']),
          sp.spectral_factor_firstsolar(case['pw'], 10., case['t']), 1e-12,
          0, 'air mass is limited to 10')
    require(np.isnan(sp.spectral_factor_firstsolar(
        8.001 + case['pw'], case['am'], case['t'])).all(),
        'water above 8 cm is rejected as NaN')
    m = 'cdte'
    close(sp.spectral_factor_polo(case['pw'], case['am'], .1, 50.,
                                  case['pres'], m),
          sp.spectral_factor_polo(case['pw'], case['am'], .1, 50.,
                                  case['pres'], m, None, .2), 1e-12, 0,
          'default albedo')
    close(sp.spectral_factor_jrc(1.5, 1., 'cdte'), 1., 1e-12, 0, 'JRC one')
