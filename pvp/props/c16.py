"""C16 moisture, aerosol and wind conversions."""
import math

import numpy as np
from hypothesis import strategies as st
from pvlib import atmosphere as atm

from ..cmp import close, raises, require, within
from ..core import sub
from ..elem import P, S, elem, NAN
from ..gen import fixed, flt, opt, uni, logflt

RULE = ('Random temperatures, humidities, aerosol depths, air masses, wind '
        'speeds and heights in every container; non-trivial = a finite '
        'non-zero expected value.')

TA = flt(-40, 55, (0, 25))
RHS = flt(.1, 108, (50, 100))
COEF = st.one_of(st.none(), st.sampled_from(
    [[6.112, 17.62, 243.12], [6.112, 22.46, 272.62], [6.1094, 17.625,
                                                      243.04]]),
    st.tuples(uni(5, 7), uni(16, 23), uni(235, 280)).map(list))


def fin(*a):
    return all(math.isfinite(x) for x in a)


def pw(temp_air, relative_humidity):
    if not fin(temp_air, relative_humidity):
        return NAN
    T = temp_air + 273.15
    th = T / 273.15
    rho = 216.7 * relative_humidity / (100 * T) * math.exp(
        22.33 - 49.14 * (100 / T) - 10.922 * (100 / T)**2 - .39015 * T / 100)
    h = .4976 + 1.5265 * th + math.exp(13.6897 * th - 14.9188 * th**3)
    return max(.1 * h * rho, .1)


elem(__name__, 'gueymard94_pw', atm.gueymard94_pw,
     dict(temp_air=P(TA, nan=True),
          relative_humidity=P(flt(0, 100, (50,)), nan=True)), pw, quick=250,
     doc='published precipitable water, at least 0.1 cm')


def rh(temp_air, temp_dew, coeff):
    if not fin(temp_air, temp_dew):
        return NAN
    a, b, c = coeff or (6.112, 17.62, 243.12)
    return 100 * math.exp(b * temp_dew / (c + temp_dew)
                          - b * temp_air / (c + temp_air))


elem(__name__, 'rh_from_tdew', atm.rh_from_tdew,
     dict(temp_air=P(TA, nan=True), temp_dew=P(flt(-50, 55), nan=True),
          coeff=S(COEF)), rh, quick=250, doc='ratio of Magnus pressures')


def td(temp_air, relative_humidity, coeff):
    if not fin(temp_air, relative_humidity):
        return NAN
    a, b, c = coeff or (6.112, 17.62, 243.12)
    g = math.log(relative_humidity / 100) + b * temp_air / (c + temp_air)
    return c * g / (b - g)


elem(__name__, 'tdew_from_rh', atm.tdew_from_rh,
     dict(temp_air=P(TA, nan=True), relative_humidity=P(RHS, nan=True),
          coeff=S(COEF)), td, quick=250, doc='inverse Magnus relation')


@sub(lambda: fixed(t=TA, rh=st.lists(RHS, min_size=2, max_size=5), c=COEF),
     quick=250)
def dew_point_inverse(case, ctx):
    """humidity -> dew point -> humidity is the identity, dew point rises
    with humidity and equals air temperature at saturation"""
    kw = {} if case['c'] is None else {'coeff': tuple(case['c'])}
    r = np.sort(case['rh'])
    d = atm.tdew_from_rh(case['t'], r, **kw)
    close(atm.rh_from_tdew(case['t'], d, **kw), r, 1e-9, 1e-9, 'humidity')
    require((np.diff(d) >= -1e-9).all(), 'dew point not monotone')
    require((d <= case["t"] + 1e-9)[r <= 100].all(),
            "dew point above air temperature")
    close(atm.tdew_from_rh(case['t'], 100., **kw), case['t'], 1e-9, 1e-9,
          'saturation')


elem(__name__, 'bird_hulstrom80_aod_bb', atm.bird_hulstrom80_aod_bb,
     dict(aod380=P(flt(0, 2), nan=True), aod500=P(flt(0, 2), nan=True)),
     lambda aod380, aod500: .27583 * aod380 + .35 * aod500, quick=120,
     doc='published broadband aerosol depth')


def lt(airmass_absolute, precipitable_water, aod_bb):
    if not fin(airmass_absolute, precipitable_water, aod_bb):
        return NAN
    m = airmass_absolute
    cda = -.101 + .235 * m ** -.16
    w = .112 * m ** -.55 * precipitable_water ** .34
    return (9.4 + .9 * m) * (cda + w + aod_bb)


elem(__name__, 'kasten96_lt', atm.kasten96_lt,
     dict(airmass_absolute=P(flt(.6, 38, (1, 2)), nan=True),
          precipitable_water=P(flt(0, 8), nan=True),
          aod_bb=P(flt(0, 2), nan=True)), lt, quick=250, rtol=1e-8,
     doc='published Linke turbidity')

WL = uni(300, 2500)
AOD = logflt(.001, 3)
elem(__name__, 'angstrom_aod_at_lambda', atm.angstrom_aod_at_lambda,
     dict(aod0=P(AOD, nan=True), lambda0=P(WL),
          alpha=P(flt(-1, 3, (1.14,))), lambda1=P(WL)),
     lambda aod0, lambda0, alpha, lambda1:
     aod0 * (lambda1 / lambda0) ** -alpha, quick=200,
     doc='Angstrom turbidity law')
elem(__name__, 'angstrom_alpha', atm.angstrom_alpha,
     dict(aod1=P(AOD, nan=True), lambda1=P(uni(300, 800)), aod2=P(AOD),
          lambda2=P(uni(801, 2500))),
     lambda aod1, lambda1, aod2, lambda2:
     -math.log(aod1 / aod2) / math.log(lambda1 / lambda2), quick=200,
     doc='Angstrom exponent from two depths')


@sub(lambda: fixed(a=AOD, l0=uni(300, 800), l1=uni(801, 2500),
                   al=flt(-1, 3), l2=WL), quick=200)
def angstrom_consistent(case, ctx):
    """the exponent recovered from depths generated with it is the exponent,
    conversion composes over wavelengths, defaults are 1.14 and 700 nm"""
    b = atm.angstrom_aod_at_lambda(case['a'], case['l0'], case['al'],
                                   case['l1'])
    close(atm.angstrom_alpha(case['a'], case['l0'], b, case['l1']),
          case['al'], 1e-6, 1e-9 / math.log(case['l1'] / case['l0']),
          'exponent')
    c = atm.angstrom_aod_at_lambda(b, case['l1'], case['al'], case['l2'])
    close(c, atm.angstrom_aod_at_lambda(case['a'], case['l0'], case['al'],
                                        case['l2']), 1e-9, 0, 'composition')
    close(atm.angstrom_aod_at_lambda(case['a'], case['l0']),
          case['a'] * (700 / case['l0']) ** -1.14, 1e-9, 0, 'defaults')


HELL = {'unstable_air_above_open_water_surface': .06,
        'neutral_air_above_open_water_surface': .10,
        'stable_air_above_open_water_surface': .27,
        'unstable_air_above_flat_open_coast': .11,
        'neutral_air_above_flat_open_coast': .16,
        'stable_air_above_flat_open_coast': .40,
        'unstable_air_above_human_inhabited_areas': .27,
        'neutral_air_above_human_inhabited_areas': .34,
        'stable_air_above_human_inhabited_areas': .60}


def wind(wind_speed_reference, height_reference, height_desired, exponent,
         surface_type):
    if not math.isfinite(wind_speed_reference):
        return NAN
    e = HELL[surface_type] if exponent is None else exponent
    v = wind_speed_reference * (height_desired / height_reference) ** e
    return v if v >= 0 else NAN


SURF = st.one_of(
    st.sampled_from(sorted(HELL)).map(lambda s: [None, s]),
    flt(0, 1, (.143, .2)).map(lambda e: [e, None]))


def call_wind(idx, wind_speed_reference, height_reference, height_desired,
              surf):
    kw = {'exponent': surf[0]} if surf[0] is not None else {
        'surface_type': surf[1]}
    return atm.windspeed_powerlaw(wind_speed_reference, height_reference,
                                  height_desired, **kw)


elem(__name__, 'windspeed_powerlaw', atm.windspeed_powerlaw,
     dict(wind_speed_reference=P(flt(-5, 40, (0,)), nan=True),
          height_reference=S(uni(1, 100)), height_desired=S(uni(.5, 200)),
          surf=S(SURF)),
     lambda wind_speed_reference, height_reference, height_desired, surf:
     wind(wind_speed_reference, height_reference, height_desired, *surf),
     call=call_wind, quick=250, doc='power law, NaN for negative speeds')


@sub(lambda: fixed(v=flt(0, 30), e=flt(0, 1), s=st.sampled_from(
    sorted(HELL) + ['desert', '']), h=uni(1, 50)), quick=60)
def wind_rejects(case, ctx):
    """neither or both of exponent and surface type are rejected; unknown
    surface types too; same height is the identity"""
    raises(ValueError, atm.windspeed_powerlaw, case['v'], 10, 20)
    raises(ValueError, atm.windspeed_powerlaw, case['v'], 10, 20,
           exponent=case['e'], surface_type=case['s'])
    if case['s'] not in HELL:
        raises(KeyError, atm.windspeed_powerlaw, case['v'], 10, 20,
               surface_type=case['s'])
    close(atm.windspeed_powerlaw(case['v'], case['h'], case['h'],
                                 exponent=case['e']), case['v'], 1e-12, 0)
