"""C11 clearness indices, DNI from GHI and DHI, complete_irradiance."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib import irradiance as irr

from ..cmp import close, raises, require, same_index, snapshot, unchanged
from ..core import sub
from ..elem import P, S, elem, NAN, div, npmax, npmin
from ..gen import fixed, flt, opt
from ..refs import decomp as D
from ..refs.irrad import cosd

RULE = ('Random irradiances (zero, negative, missing, infinite clear-sky), '
        'zeniths around the limits, limit settings and containers; '
        'non-trivial = a finite non-zero expected output.')

G = flt(0, 1400, (0, 1, 1000))
Gn = st.one_of(G, G, G, flt(-50, 0), st.just(0.))
zen = flt(0, 130, (0, 60, 80, 86.273, 88, 90, 95))


def _csi(ghi, ghi_clear, max_clearsky_index):
    m = 2. if max_clearsky_index is None else max_clearsky_index
    if not (math.isfinite(ghi) and math.isfinite(ghi_clear)):
        return NAN
    r = div(ghi, ghi_clear)
    if not math.isfinite(r):
        r = 0.
    return min(max(r, 0.), m)


elem(__name__, 'clearsky_index', irr.clearsky_index,
     dict(ghi=P(Gn, nan=True), ghi_clear=P(Gn, nan=True),
          max_clearsky_index=S(opt(flt(.5, 3)))), _csi, quick=400,
     types={'scalar': None, 'array': None, 'series': None},
     doc='clear-sky index, 0 where undefined, NaN where input is NaN')


@sub(lambda: fixed(g=st.lists(Gn, min_size=1, max_size=5), c=Gn), quick=100)
def clearsky_index_series(case, ctx):
    """Series in, Series out with the same index"""
    ix = pd.date_range('2020-01-01', periods=len(case['g']), freq='h',
                       tz='Asia/Tokyo')
    s = pd.Series(case['g'], index=ix, dtype=float)
    c = pd.Series(case['c'], index=ix, dtype=float)
    b = snapshot([s, c])
    r = irr.clearsky_index(s, c)
    unchanged(b, [s, c], 'clearsky_index arguments')
    same_index(r, ix, 'clearsky_index')


def _kt(ghi, solar_zenith, extra_radiation, min_cos_zenith,
        max_clearness_index):
    return D.ratio_kt(ghi, solar_zenith, extra_radiation,
                      .065 if min_cos_zenith is None else min_cos_zenith,
                      2. if max_clearness_index is None else
                      max_clearness_index)


elem(__name__, 'clearness_index', irr.clearness_index,
     dict(ghi=P(Gn, nan=True), solar_zenith=P(zen, nan=True),
          extra_radiation=P(flt(1300, 1420)),
          min_cos_zenith=S(opt(flt(.001, .3))),
          max_clearness_index=S(opt(flt(.5, 3)))), _kt, quick=400,
     doc='clearness index within its limits')


def _ktp(clearness_index, airmass, max_clearness_index):
    return D.kt_prime(clearness_index, airmass,
                      2. if max_clearness_index is None else
                      max_clearness_index)


elem(__name__, 'clearness_index_zenith_independent',
     irr.clearness_index_zenith_independent,
     dict(clearness_index=P(flt(-.1, 2), nan=True),
          airmass=P(flt(.5, 40), nan=True),
          max_clearness_index=S(opt(flt(.3, 3)))), _ktp, quick=300,
     doc="kt' within its limits")


def _dni():
    @st.composite
    def b(draw):
        n = draw(st.integers(1, 6))

        def L(s):
            return draw(st.lists(s, min_size=n, max_size=n))
        return dict(
            ghi=L(st.one_of(G, st.just(NAN))), dhi=L(G),
            same=L(st.integers(0, 9)),
            zen=L(flt(0, 130, (60, 79.999, 80, 85, 87.999, 88, 95))),
            clear=draw(st.one_of(st.none(), st.just('series'))),
            cv=L(flt(0, 1000)), tol=draw(opt(flt(.8, 1.5))),
            zero=draw(opt(flt(82, 89.5, (85, 88)))),
            lim=draw(opt(flt(60, 82, (75, 80)))))
    return b()


def _ref_dni(ghi, dhi, z, clear, tol, zero, lim):
    v = div(ghi - dhi, cosd(z))
    if v < 0:
        v = NAN
    if z >= zero and v != 0:
        v = NAN
    if clear is not None and lim <= z < zero and v > clear * tol:
        v = clear * tol
    return v


@sub(_dni, quick=500)
def dni(case, ctx):
    """DNI = (GHI-DHI)/cos(zenith) with the documented cut-offs"""
    n = len(case['ghi'])
    ix = pd.date_range('2020-06-01', periods=n, freq='h', tz='UTC')
    ghi = [d if s == 0 else g for g, d, s in
           zip(case['ghi'], case['dhi'], case['same'])]
    s = [pd.Series(v, index=ix, dtype=float)
         for v in (ghi, case['dhi'], case['zen'])]
    kw = {}
    if case['clear'] == 'series':
        kw['dni_clear'] = pd.Series(case['cv'], index=ix, dtype=float)
    for k, a in (('tol', 'clearsky_tolerance'),
                 ('zero', 'zenith_threshold_for_zero_dni'),
                 ('lim', 'zenith_threshold_for_clearsky_limit')):
        if case[k] is not None:
            kw[a] = case[k]
    before = snapshot([s, kw])
    r = irr.dni(*s, **kw)
    unchanged(before, [s, kw], 'dni arguments')
    same_index(r, ix, 'dni')
    tol = 1.1 if case['tol'] is None else case['tol']
    zero = 88. if case['zero'] is None else case['zero']
    lim = 80. if case['lim'] is None else case['lim']
    exp = [_ref_dni(ghi[i], case['dhi'][i], case['zen'][i],
                    case['cv'][i] if case['clear'] else None, tol, zero,
                    lim) for i in range(n)]
    close(r, exp, 1e-9, 1e-9, 'dni')
    if not any(math.isfinite(x) and x for x in exp):
        ctx.trivial()
    if case['clear'] and any(e == c * tol for e, c in zip(exp, case['cv'])):
        ctx.label('limited to clear sky')
    if any(math.isnan(e) for e in exp):
        ctx.label('cut to missing')


def _comp():
    @st.composite
    def b(draw):
        n = draw(st.integers(1, 5))

        def L(s):
            return draw(st.lists(s, min_size=n, max_size=n))
        return dict(missing=draw(st.sampled_from(
            ['ghi', 'dhi', 'dni', 'two', 'three', 'none'])),
            zen=L(flt(0, 120, (60, 80, 88, 90))), a=L(G), b=L(G),
            clear=draw(st.booleans()), cv=L(flt(0, 1000)))
    return b()


@sub(_comp, quick=500)
def complete_irradiance(case, ctx):
    """the missing component closes GHI = DHI + DNI cos(zenith); exactly one
    component must be missing"""
    n = len(case['zen'])
    ix = pd.date_range('2020-06-01', periods=n, freq='h', tz='UTC')

    def C(v):
        return pd.Series(v, index=ix, dtype=float)
    z, a, b = C(case['zen']), C(case['a']), C(case['b'])
    m = case['missing']
    ctx.label(m)
    if m in ('two', 'three', 'none'):
        kw = dict(two=dict(ghi=a), three={}, none=dict(ghi=a, dhi=b, dni=b))
        raises(ValueError, irr.complete_irradiance, z, **kw[m])
        ctx.trivial()
        return
    names = [k for k in ('ghi', 'dhi', 'dni') if k != m]
    kw = dict(zip(names, (a, b)))
    if case['clear']:
        kw['dni_clear'] = C(case['cv'])
    before = snapshot([z, kw])
    r = irr.complete_irradiance(z, **kw)
    unchanged(before, [z, kw], 'complete_irradiance arguments')
    same_index(r, ix, 'complete_irradiance')
    require(set(r.columns) == {'ghi', 'dhi', 'dni'}, str(r.columns))
    for k, v in zip(names, (a, b)):
        close(r[k], v, 0, 0, k)
    for i in range(n):
        c = cosd(case['zen'][i])
        A, B = case['a'][i], case['b'][i]
        e = dict(ghi=A + B * c, dhi=A - B * c)
        if m == 'dni':
            e = _ref_dni(A, B, case['zen'][i],
                         case['cv'][i] if case['clear'] else None, 1.1, 88,
                         80)
        else:
            e = e[m]
        close(r[m].iloc[i], e, 1e-9, 1e-8, 'completed ' + m)
