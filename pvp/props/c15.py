"""C15 air mass and pressure-altitude relations."""
import math

import numpy as np
from hypothesis import strategies as st
from pvlib import atmosphere as atm

from ..cmp import close, raises, require
from ..core import sub
from ..elem import P, S, elem, NAN
from ..gen import fixed, flt, opt, uni

RULE = ('Random zenith angles (overhead, horizon, below), all models, '
        'pressures and altitudes in every container; non-trivial = a finite '
        'non-zero expected value.')

MODELS = ['kastenyoung1989', 'kasten1966', 'simple', 'pickering2002',
          'youngirvine1967', 'young1994', 'gueymard1993', 'gueymard2003']
ZEN = st.one_of(flt(0, 90, (0, 30, 60, 75, 85, 89.9)), uni(0, 90),
                flt(90, 180, (90, 90.001)))


def am(zenith, model):
    model = (model or 'kastenyoung1989').lower()
    z = zenith
    if not z <= 90:
        return NAN
    c = math.cos(math.radians(z))
    e = 90 - z
    if model == 'kastenyoung1989':
        return 1 / (c + .50572 * (e + 6.07995) ** -1.6364)
    if model == 'kasten1966':
        return 1 / (c + .15 * (e + 3.885) ** -1.253)
    if model == 'simple':
        return 1 / c
    if model == 'pickering2002':
        return 1 / math.sin(math.radians(e + 244 / (165 + 47 * e ** 1.1)))
    if model == 'youngirvine1967':
        return 1 / c * (1 - .0012 * (1 / c**2 - 1))
    if model == 'young1994':
        return ((1.002432 * c * c + .148386 * c + .0096467)
                / (c**3 + .149864 * c * c + .0102963 * c + .000303978))
    if model == 'gueymard1993':
        return 1 / (c + .00176759 * z * (94.37515 - z) ** -1.21563)
    return 1 / (c + .48353 * z ** .095846 / (96.741 - z) ** 1.754)


elem(__name__, 'get_relative_airmass', atm.get_relative_airmass,
     dict(zenith=P(ZEN, nan=True),
          model=S(opt(st.sampled_from(MODELS + ['Simple', 'YOUNG1994'])))),
     am, quick=800, shards=2, rtol=1e-9, atol=1e-9,
     skip=lambda zenith, model: (model or '').lower() in (
         'simple', 'youngirvine1967') and 89.999 < zenith <= 90,
     modes=('scalar', 'array', 'array2d', 'series'),
     label=lambda zenith, model: model or 'default',
     doc='the published expression of the named model, NaN below the horizon')

elem(__name__, 'get_absolute_airmass', atm.get_absolute_airmass,
     dict(airmass_relative=P(flt(1, 40), nan=True),
          pressure=P(flt(30000, 110000, (101325,)))),
     lambda airmass_relative, pressure: airmass_relative * pressure / 101325,
     quick=150, doc='relative air mass scaled by pressure over sea level')


@sub(lambda: fixed(a=flt(1, 40)), quick=20)
def absolute_default(case, ctx):
    """sea-level pressure by default: absolute = relative"""
    close(atm.get_absolute_airmass(case['a']), case['a'], 1e-12, 0)


@sub(lambda: fixed(m=st.sampled_from(MODELS), z=st.lists(
    uni(0, 89.5), min_size=2, max_size=8)), quick=300)
def growth(case, ctx):
    """1 with the sun overhead (within the model's accuracy), growing with
    zenith, close to the secant at small zenith, below 45 at the horizon"""
    z = np.sort(case['z'])
    m = case['m']
    a = np.asarray(atm.get_relative_airmass(z, m))
    require(abs(float(atm.get_relative_airmass(0., m)) - 1) < 2e-3,
            'air mass overhead')
    if m == 'youngirvine1967':
        z, a = z[z < 80], a[z < 80]     # documented range
    # overhead the rounded coefficients of some fits are not monotone to ~1e-4
    require((np.diff(a) >= -1e-3).all(), f'{m}: not growing: {z} {a}')
    k = (np.diff(z) > .5) & (z[:-1] > 3)
    require((np.diff(a)[k] > 0).all(), f'{m}: not growing: {z} {a}')
    near = z < 60
    close(a[near], 1 / np.cos(np.radians(z[near])), 5e-3, 0, m)
    if m not in ('simple', 'youngirvine1967'):
        h = float(atm.get_relative_airmass(90., m))
        require(20 < h < 45, f'{m}: {h} at the horizon')


elem(__name__, 'pres2alt', atm.pres2alt,
     dict(pressure=P(flt(1000, 120000, (101325,)), nan=True)),
     lambda pressure: 44331.5 - 4946.62 * pressure ** .190263, quick=120,
     doc='standard atmosphere')
elem(__name__, 'alt2pres', atm.alt2pres,
     dict(altitude=P(flt(-500, 30000, (0,)), nan=True)),
     lambda altitude: 100 * ((44331.514 - altitude) / 11880.516)
     ** (1 / .1902632), quick=120, doc='standard atmosphere')


@sub(lambda: fixed(h=st.lists(flt(-500, 11000), min_size=2, max_size=6)),
     quick=200)
def inverse(case, ctx):
    """altitude -> pressure -> altitude within 1 m, pressure falls with
    altitude"""
    h = np.sort(case['h'])
    p = atm.alt2pres(h)
    close(atm.pres2alt(p), h, 0, 1., 'altitude')
    close(atm.alt2pres(atm.pres2alt(p)), p, 2e-4, 0, 'pressure')
    d = np.diff(h) > 1e-6
    require((np.diff(p)[d] < 0).all(), 'pressure does not fall')
    require(abs(float(atm.alt2pres(0.)) - 101325) < 15, 'sea level')
    # barometric formula of the 1976 standard atmosphere
    close(p, 101325 * (1 - 2.25577e-5 * h) ** 5.25588, 2e-3, 0,
          'standard atmosphere')


@sub(lambda: fixed(m=st.text(alphabet='simplekasten1', max_size=8)),
     quick=30)
def unknown_model(case, ctx):
    """unknown models are rejected"""
    if case['m'] in MODELS:
        ctx.trivial()
        return
    raises(ValueError, atm.get_relative_airmass, 10., model=case['m'])
