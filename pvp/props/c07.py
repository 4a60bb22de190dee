"""C07 sky diffuse transposition models."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib import irradiance as irr

from ..cmp import close, require, same_index, within, raises
from ..core import sub
from ..elem import P, S, elem
from ..gen import fixed, flt
from ..refs import irrad as R

RULE = ('Random orientations, sun positions (horizon, night and zenith '
        'included), irradiances, air masses, Perez sets and containers; '
        'non-trivial = a finite non-zero expected diffuse irradiance.')

tilt = flt(0, 180, (0, 30, 90, 180))
azim = flt(-180, 360, (0, 90, 180, 270))
zen = flt(0, 180, (0, 45, 85, 88, 89, 89.0001, 90, 90.1, 120))
G = flt(0, 1400, (0, 1, 1000))
X = flt(1320, 1420)
T, A = dict(surface_tilt=P(tilt)), dict(surface_azimuth=P(azim))
SUN = dict(solar_zenith=P(zen), solar_azimuth=P(azim))
COMP = S(st.just(True))
A2 = ('scalar', 'array', 'series', 'array2d')


def tot(f):
    def g(**k):
        r = f(**k)
        return r['poa_sky_diffuse'] if isinstance(r, dict) else r
    return g


def ren(f):
    m = dict(surface_tilt='tilt', surface_azimuth='az', solar_zenith='zen',
             solar_azimuth='saz')

    def g(**k):
        k.pop('return_components', None)
        return f(**{m.get(a, a): v for a, v in k.items()})
    return g


iso = ren(R.isotropic)
elem(__name__, 'isotropic', irr.isotropic, {**T, 'dhi': P(G, nan=True)},
     tot(iso), modes=A2, doc='isotropic = DHI (1+cos tilt)/2')
elem(__name__, 'isotropic_components', irr.isotropic,
     {**T, 'dhi': P(G, nan=True), 'return_components': COMP}, iso,
     doc='isotropic components')
elem(__name__, 'klucher', irr.klucher,
     {**T, **A, 'dhi': P(G), 'ghi': P(G, nan=True), **SUN}, ren(R.klucher),
     types={'scalar': None, 'array': None}, quick=250,
     rtol=1e-9, atol=1e-8,
     doc='Klucher formula; F = 0 where DHI/GHI is undefined',
     skip=lambda **k: k['ghi'] == 0 and k['dhi'] != 0
     or (k['ghi'] != k['ghi']))
hd = ren(R.haydavies)
HD = {**T, **A, 'dhi': P(G, nan=True), 'dni': P(G), 'dni_extra': P(X), **SUN}
elem(__name__, 'haydavies', irr.haydavies, HD, tot(hd), quick=250,
     doc='Hay-Davies total')
elem(__name__, 'haydavies_components', irr.haydavies,
     {**HD, 'return_components': COMP}, hd, quick=200,
     doc='Hay-Davies components')


def _hdr(surface_tilt, surface_azimuth, dhi, dni, dni_extra,
         projection_ratio):
    return R.haydavies(surface_tilt, surface_azimuth, dhi, dni, dni_extra,
                       rb=projection_ratio)


elem(__name__, 'haydavies_ratio', irr.haydavies,
     {**T, **A, 'dhi': P(G), 'dni': P(G), 'dni_extra': P(X),
      'projection_ratio': P(flt(0, 20))}, tot(_hdr), quick=100,
     doc='Hay-Davies with caller-supplied projection ratio')
re = ren(R.reindl)
RE = {**T, **A, 'dhi': P(G), 'dni': P(G), 'ghi': P(G), 'dni_extra': P(X),
      **SUN}
elem(__name__, 'reindl', irr.reindl, RE, tot(re), quick=250,
     types={'scalar': None}, doc='Reindl total')
elem(__name__, 'reindl_components', irr.reindl,
     {**RE, 'return_components': COMP}, re, quick=200,
     types={'scalar': None}, doc='Reindl components')
elem(__name__, 'king', irr.king,
     {**T, 'dhi': P(G), 'ghi': P(G), 'solar_zenith': P(zen)}, ren(R.king),
     doc='King formula, not below zero')

SETS = sorted(R.PEREZ) + ['1990']


def _perez(**k):
    m = k.pop('model')
    k.pop('return_components', None)
    return R.perez(k['surface_tilt'], k['surface_azimuth'], k['dhi'],
                   k['dni'], k['dni_extra'], k['solar_zenith'],
                   k['solar_azimuth'], k['airmass'],
                   'allsitescomposite1990' if m in (None, '1990') else m)


def _pskip(**k):
    if math.isnan(k['dhi'] + k['dni']):
        return False
    e = R.perez_eps(k['dhi'], k['dni'], k['solar_zenith'])
    return math.isnan(e) or any(abs(e - b) < 1e-9 for b in R.PEREZ_BINS)


def _pbin(**k):
    e = R.perez_eps(k['dhi'], k['dni'], k['solar_zenith'])
    if math.isnan(e):
        return 'eps undefined'
    return f'bin {1 + sum(e >= b for b in R.PEREZ_BINS)}'


# dni relative to dhi such that every clearness bin is populated
beam = st.one_of(G, flt(0, 100), flt(0, 20))
PZ = {**T, **A, 'dhi': P(G, nan=True), 'dni': P(beam, nan=True), 'dni_extra': P(X),
      'solar_zenith': P(flt(0, 100, (0, 45, 85, 88, 90, 90.1))),
      'solar_azimuth': P(azim), 'airmass': P(flt(1, 38, (1, 1.5)), nan=True)}
elem(__name__, 'perez', irr.perez,
     {**PZ, 'model': S(st.one_of(st.none(), st.sampled_from(SETS)))},
     tot(_perez), quick=700, skip=_pskip, label=_pbin, atol=1e-7,
     types={'scalar': None, 'array': None}, shards=2,
     doc='Perez total for every coefficient set and clearness bin')
elem(__name__, 'perez_components', irr.perez,
     {**PZ, 'model': S(st.sampled_from(SETS)), 'return_components': COMP},
     _perez, quick=500, skip=_pskip, label=_pbin, atol=1e-7,
     types={'scalar': None, 'array': None}, shards=2,
     doc='Perez components')
pd_ = ren(R.perez_driesse)
PD = {**T, **A, 'dhi': P(G, nan=True), 'dni': P(beam), 'dni_extra': P(X),
      **SUN}
elem(__name__, 'perez_driesse', irr.perez_driesse, PD, tot(pd_), quick=400,
     atol=1e-7, types={'scalar': None, 'array': None},
     doc='Perez-Driesse total (own air mass)')
elem(__name__, 'perez_driesse_components', irr.perez_driesse,
     {**PD, 'airmass': P(flt(1, 38)), 'return_components': COMP}, pd_,
     quick=300, atol=1e-7, types={'scalar': None, 'array': None},
     doc='Perez-Driesse components (air mass given)')


def _phys():
    @st.composite
    def b(draw):
        z = draw(flt(0, 89.9))
        extra = draw(X)
        dni = draw(flt(0, .8)) * extra
        dhi = draw(flt(.001, 600))
        return dict(zen=z, extra=extra, dni=dni, dhi=dhi,
                    ghi=dhi + dni * math.cos(math.radians(z)),
                    tilt=draw(flt(0, 90)), az=draw(flt(0, 360)),
                    saz=draw(flt(0, 360)), set=draw(st.sampled_from(SETS)),
                    mode=draw(st.sampled_from(['scalar', 'array',
                                               'series'])))
    return b()


def _models(c, tilt, ghi=None):
    """name -> (total, components or None)"""
    ix = pd.date_range('2021-06-01', periods=1, freq='h', tz='UTC')

    def C(v):
        if c['mode'] == 'scalar':
            return v
        a = np.array([v])
        return a if c['mode'] == 'array' else pd.Series(a, index=ix)
    t, az, z, sa = C(tilt), C(c['az']), C(c['zen']), C(c['saz'])
    dhi, dni, g, ex = C(c['dhi']), C(c['dni']), C(c['ghi']), C(c['extra'])
    am = C(R.airmass_ky(c['zen']))
    out = {}
    for rc in (False, True):
        r = dict(
            isotropic=irr.isotropic(t, dhi, return_components=rc),
            haydavies=irr.haydavies(t, az, dhi, dni, ex, z, sa,
                                    return_components=rc),
            reindl=irr.reindl(t, az, dhi, dni, g, ex, z, sa,
                              return_components=rc),
            perez=irr.perez(t, az, dhi, dni, ex, z, sa, am, model=c['set'],
                            return_components=rc))
        r['perez-driesse'] = irr.perez_driesse(t, az, dhi, dni, ex, z, sa,
                                               return_components=rc)
        for k, v in r.items():
            if rc:
                out[k] = (out[k], {n: float(np.ravel(v[n])[0])
                                   for n in v.keys()})
            else:
                out[k] = float(np.ravel(v)[0])
    out['klucher'] = (float(np.ravel(irr.klucher(t, az, dhi, g, z, sa))[0]),
                      None)
    out['king'] = (float(np.ravel(irr.king(t, dhi, g, z))[0]), None)
    return out


@sub(_phys, quick=400, shards=2)
def physical(case, ctx):
    """closed physical input: totals are non-negative; components add up to
    the total that is returned without them (unless the total was cut at
    zero)"""
    for k, (v, comp) in _models(case, case['tilt']).items():
        within(v, 0, math.inf, 1e-9, k)
        if comp is None:
            continue
        close(comp['poa_sky_diffuse'], v, 1e-12, 1e-12, k + ' total')
        s = sum(x for n, x in comp.items() if n != 'poa_sky_diffuse')
        if v > 0:
            close(s, v, 1e-9, 1e-9, k + ' sum of components')
        else:
            require(s <= 1e-9, f'{k}: total 0, components {comp}')


@sub(_phys, quick=300)
def horizontal(case, ctx):
    """on a horizontal surface the models give DHI (Perez family and
    Hay-Davies/Reindl while the sun is not close to the horizon)"""
    if case['zen'] > 84.9:
        ctx.trivial()
        case = dict(case, zen=84.9)
    for k, (v, comp) in _models(case, 0.).items():
        if k == 'klucher':
            # Klucher's circumsolar term does not vanish at tilt 0
            continue
        close(v, case['dhi'], 1e-9, 1e-9, k + ' on a horizontal surface')


@sub(lambda: fixed(z=flt(0, 89), t=flt(0, 90), bad=st.text(max_size=9)),
     quick=60)
def unknown_set(case, ctx):
    """an unknown coefficient set is rejected"""
    if case['bad'] in SETS:
        return
    raises(KeyError, irr.perez, case['t'], 180, 100., 300., 1360.,
           case['z'], 150., 1.5, model=case['bad'])


def _table():
    @st.composite
    def b(draw):
        lo = (1.0,) + R.PEREZ_BINS
        hi = R.PEREZ_BINS + (12.,)
        rows = []
        for k in range(8):
            rows.append([draw(flt(lo[k] + 1e-6, hi[k] - 1e-6)),
                         draw(flt(1, 84)), draw(flt(20, 500)),
                         draw(flt(0, 360))])
        return dict(set=draw(st.sampled_from(SETS)), rows=rows,
                    tilt=draw(flt(5, 150)), series=draw(st.booleans()))
    return b()


@sub(_table, quick=400, shards=2)
def perez_table(case, ctx):
    """every clearness bin of every coefficient set"""
    eps, z, dhi, az = (np.array(c) for c in zip(*case['rows']))
    k = 1.041 * np.radians(z) ** 3
    dni = np.maximum(dhi * (eps * (1 + k) - k - 1), 0)
    am = np.array([R.airmass_ky(x) for x in z])
    ix = pd.date_range('2021-06-01', periods=8, freq='h', tz='UTC')

    def C(v):
        return pd.Series(v, index=ix) if case['series'] else v
    m = case['set']
    got = irr.perez(C(np.full(8, case['tilt'])), C(np.full(8, 180.)),
                    C(dhi), C(dni), C(np.full(8, 1360.)), C(z), C(az),
                    C(am), model=m, return_components=True)
    exp = [R.perez(case['tilt'], 180., dhi[i], dni[i], 1360., z[i], az[i],
                   am[i], 'allsitescomposite1990' if m == '1990' else m)
           for i in range(8)]
    skip = [_pskip(dhi=dhi[i], dni=dni[i], solar_zenith=z[i])
            for i in range(8)]
    for c in exp[0]:
        close(np.asarray(got[c]), [e[c] for e in exp], 1e-8, 1e-7,
              f'{m} {c}', ok=skip)
    ctx.label(m)
