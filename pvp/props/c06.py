"""C06 plane-of-array geometry, closure, dispatch, albedo."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib import albedo as alb
from pvlib import irradiance as irr

from ..cmp import (arr, close, raises, require, same_index, snapshot,
                   unchanged)
from ..core import sub
from ..elem import P, S, elem, npmax
from ..gen import fixed, flt, opt
from ..refs import irrad as R

RULE = ('Random surface orientations, sun positions (night, horizon, zenith '
        'included), irradiances and albedos as scalars, arrays and Series; '
        'non-trivial = at least one finite non-zero expected output.')
ASSUMPTIONS = ['double precision; incidence angle compared to 3e-6 deg '
               '(acos conditioning)']

tilt = flt(0, 180, (0, 30, 45, 90, 180))
azim = flt(-180, 360, (0, 90, 180, 270, 360))
zen = flt(0, 180, (0, 45, 85, 89.9, 90, 90.1, 120))
irrad = flt(0, 1400, (0, 1, 1000))
beam = flt(-5, 1400, (0, 1, 1000))       # pyrheliometers drift below zero

geo = dict(surface_tilt=P(tilt, nan=True), surface_azimuth=P(azim),
           solar_zenith=P(zen, nan=True), solar_azimuth=P(azim))

elem(__name__, 'aoi_projection', irr.aoi_projection, geo,
     lambda surface_tilt, surface_azimuth, solar_zenith, solar_azimuth:
     R.proj(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth),
     rtol=0, atol=1e-12, quick=250, modes=('scalar', 'array', 'series',
                                           'array2d'),
     doc='aoi_projection = dot product of sun vector and surface normal')

elem(__name__, 'aoi', irr.aoi, geo,
     lambda surface_tilt, surface_azimuth, solar_zenith, solar_azimuth:
     R.angle(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth),
     rtol=0, atol=3e-6, quick=250,
     modes=('scalar', 'array', 'series', 'array2d'),
     doc='aoi = angle between the two vectors')


def _aligned():
    # orientations built to be (anti)parallel or perpendicular to the sun
    return fixed(z=flt(0, 90, (0, 30, 89)), a=flt(0, 360),
                 turn=st.sampled_from([0, 90, 180]),
                 wrap=st.sampled_from([-360, 0, 360]))


@sub(_aligned, quick=300)
def aoi_aligned(case, ctx):
    """aoi of a surface facing the sun is 0, facing away 180, edge-on 90,
    also with azimuths written modulo 360 - never NaN"""
    z, a, t = case['z'], case['a'], case['turn']
    tilt_ = z + t if z + t <= 180 else None
    az = a + case['wrap']
    if t == 180:
        tilt_, az = 180 - z, az + 180
    elif t == 90:
        tilt_ = z + 90
    r = irr.aoi(tilt_, az, z, a)
    # acos near +-1 loses half the digits
    close(r, t, 0, 3e-6, 'aoi')
    r = irr.aoi(np.array([tilt_]), np.array([az]), np.array([z]),
                np.array([a]))
    close(r, [t], 0, 3e-6, 'aoi')


elem(__name__, 'beam_component', irr.beam_component,
     {**geo, 'dni': P(beam, nan=True)},
     lambda surface_tilt, surface_azimuth, solar_zenith, solar_azimuth, dni:
     npmax(dni * R.proj(surface_tilt, surface_azimuth, solar_zenith,
                        solar_azimuth), 0), rtol=1e-10, atol=1e-9,
     doc='beam = DNI * max(cos aoi, 0)')

SURF = {'urban': .18, 'grass': .20, 'fresh grass': .26, 'soil': .17,
        'sand': .40, 'snow': .65, 'fresh snow': .75, 'asphalt': .12,
        'concrete': .30, 'aluminum': .85, 'copper': .74,
        'fresh steel': .35, 'dirty steel': .08, 'sea': .06}

elem(__name__, 'ground_diffuse', irr.get_ground_diffuse,
     dict(surface_tilt=P(tilt), ghi=P(irrad, nan=True),
          albedo=P(flt(0, 1, (.25,)))),
     lambda surface_tilt, ghi, albedo:
     ghi * albedo * (1 - R.cosd(surface_tilt)) / 2,
     doc='ground reflected = GHI * albedo * (1-cos tilt)/2')

elem(__name__, 'ground_diffuse_surface', irr.get_ground_diffuse,
     dict(surface_tilt=P(tilt), ghi=P(irrad, nan=True),
          surface_type=S(opt(st.sampled_from(sorted(SURF)))),
          albedo=S(opt(flt(0, 1)))),
     lambda surface_tilt, ghi, surface_type, albedo:
     ghi * (SURF[surface_type] if surface_type else
            .25 if albedo is None else albedo)
     * (1 - R.cosd(surface_tilt)) / 2,
     doc='surface type selects its published albedo and overrides albedo')

elem(__name__, 'poa_components', irr.poa_components,
     dict(aoi=P(flt(0, 180, (90,))), dni=P(beam, nan=True),
          poa_sky_diffuse=P(irrad), poa_ground_diffuse=P(irrad)),
     lambda aoi, dni, poa_sky_diffuse, poa_ground_diffuse: dict(
         poa_direct=npmax(dni * R.cosd(aoi), 0),
         poa_diffuse=poa_sky_diffuse + poa_ground_diffuse,
         poa_sky_diffuse=poa_sky_diffuse,
         poa_ground_diffuse=poa_ground_diffuse,
         poa_global=npmax(dni * R.cosd(aoi), 0) + poa_sky_diffuse
         + poa_ground_diffuse),
     types={'array': None, 'series': None},
     doc='global = beam + diffuse, diffuse = sky + ground')

MODELS = ['isotropic', 'klucher', 'haydavies', 'reindl', 'king', 'perez',
          'perez-driesse']
COMP = {'isotropic': ['poa_isotropic'],
        'haydavies': ['poa_isotropic', 'poa_circumsolar'],
        'reindl': ['poa_isotropic', 'poa_circumsolar', 'poa_horizon'],
        'perez': ['poa_isotropic', 'poa_circumsolar', 'poa_horizon'],
        'perez-driesse': ['poa_isotropic', 'poa_circumsolar',
                          'poa_horizon']}


def _total():
    @st.composite
    def b(draw):
        n = draw(st.sampled_from([1, 1, 2, 3, 5]))
        mode = draw(st.sampled_from(['scalar', 'array', 'series',
                                     'series-fixed']))
        if mode == 'scalar':
            n = 1

        def L(s):
            return draw(st.lists(s, min_size=n, max_size=n))
        return dict(mode=mode, n=n, tilt=L(tilt), az=L(flt(0, 360)),
                    zen=L(flt(0, 120, (0, 45, 85, 90, 90.1, 100))),
                    saz=L(flt(0, 360)),
                    dni=L(irrad), ghi=L(irrad), dhi=L(irrad),
                    extra=L(flt(1320, 1420)),
                    am=draw(st.one_of(st.none(), st.just(1))),
                    amv=L(flt(1, 38)),
                    albedo=draw(st.one_of(st.none(), flt(0, 1))),
                    albvec=draw(st.booleans()), albv=L(flt(0, 1)),
                    surface=draw(st.one_of(st.none(), st.none(),
                                           st.sampled_from(sorted(SURF)))),
                    model=draw(st.sampled_from(MODELS)),
                    upper=draw(st.booleans()),
                    comps=draw(st.booleans()),
                    pmodel=draw(st.sampled_from(
                        [None, 'france1988', 'phoenix1988'])))
    return b()


@sub(_total, quick=700, shards=4)
def total_irradiance(case, ctx):
    """get_total_irradiance / get_sky_diffuse = named model + ground + beam,
    for every model, container and component setting"""
    n, mode, model = case['n'], case['mode'], case['model']
    idx = pd.date_range('2020-06-01 05:00', periods=n, freq='h',
                        tz='America/Denver')

    def C(v):
        if mode == 'scalar':
            return float(v[0])
        if mode == 'array':
            return np.array(v, float)
        return pd.Series(np.array(v, float), index=idx)
    t, a = C(case['tilt']), C(case['az'])
    if mode == 'series-fixed':
        t, a = float(case['tilt'][0]), float(case['az'][0])
    z, s = C(case['zen']), C(case['saz'])
    dni, ghi, dhi, ex = (C(case[k]) for k in ('dni', 'ghi', 'dhi', 'extra'))
    amv = C([v if zz <= 90 else float('nan')
             for v, zz in zip(case['amv'], case['zen'])])
    am = None if case['am'] is None else amv
    kw = {}
    if case['albvec']:
        kw['albedo'] = C(case['albv'])
    elif case['albedo'] is not None:
        kw['albedo'] = case['albedo']
    if case['surface']:
        kw['surface_type'] = case['surface']
    pm = {} if case['pmodel'] is None else {'model_perez': case['pmodel']}
    name = model.upper() if case['upper'] else model
    comps = case['comps']
    if comps and model in ('klucher', 'king'):
        raises(ValueError, irr.get_sky_diffuse, t, a, z, s, dni, ghi, dhi,
               dni_extra=ex, airmass=am, model=name, return_components=True,
               what='components of ' + model)
        comps = False
        ctx.label('components-rejected')
    ctx.label(model)
    ctx.label(mode)
    # expected sky diffuse from the reference models
    exp = []
    for i in range(n):
        j = 0 if mode == 'series-fixed' else i
        T, A = case['tilt'][j], case['az'][j]
        Z, SA = case['zen'][i], case['saz'][i]
        D, G, B, E = (case['dhi'][i], case['ghi'][i], case['dni'][i],
                      case['extra'][i])
        AM = R.airmass_ky(Z) if am is None else \
            (case['amv'][i] if Z <= 90 else float('nan'))
        e = dict(isotropic=lambda: R.isotropic(T, D),
                 klucher=lambda: R.klucher(T, A, D, G, Z, SA),
                 haydavies=lambda: R.haydavies(T, A, D, B, E, Z, SA),
                 reindl=lambda: R.reindl(T, A, D, B, G, E, Z, SA),
                 king=lambda: R.king(T, D, G, Z),
                 perez=lambda: R.perez(T, A, D, B, E, Z, SA, AM,
                                       case['pmodel'] or
                                       'allsitescomposite1990')
                 )
        e['perez-driesse'] = lambda: R.perez_driesse(T, A, D, B, E, Z, SA,
                                                     AM)
        v = e[model]()
        if not isinstance(v, dict):
            v = {'poa_sky_diffuse': v}
        al = SURF[case['surface']] if case['surface'] else (
            case['albv'][i] if case['albvec'] else
            .25 if case['albedo'] is None else case['albedo'])
        v['poa_ground_diffuse'] = G * al * (1 - R.cosd(T)) / 2
        v['poa_direct'] = npmax(B * R.proj(T, A, Z, SA), 0)
        v['poa_diffuse'] = v['poa_sky_diffuse'] + v['poa_ground_diffuse']
        v['poa_global'] = v['poa_direct'] + v['poa_diffuse']
        exp.append(v)
    # elements whose Perez bin is decided by rounding, or undefined 0/0
    ok = []
    for i in range(n):
        bad = False
        if model == 'perez':
            e = R.perez_eps(case['dhi'][i], case['dni'][i], case['zen'][i])
            bad = math.isnan(e) or any(abs(e - b) < 1e-9
                                       for b in R.PEREZ_BINS)
        ok.append(bad)
    if any(ok):
        ctx.label('bin-edge-or-0/0')
    tot = irr.get_total_irradiance(t, a, z, s, dni, ghi, dhi, dni_extra=ex,
                                   airmass=am, model=name,
                                   diffuse_components=comps, **kw, **pm)
    want = {'poa_global', 'poa_direct', 'poa_diffuse', 'poa_sky_diffuse',
            'poa_ground_diffuse'} | set(COMP[model] if comps else ())
    require(set(tot.keys()) == want,
            f'outputs {sorted(tot.keys())}, expected {sorted(want)}')
    if mode.startswith('series'):
        require(isinstance(tot, pd.DataFrame), 'DataFrame expected')
        same_index(tot, idx, 'total irradiance')
    for k in want:
        close(np.ravel(arr(tot[k])) if np.ndim(tot[k]) else [tot[k]],
              [v[k] for v in exp], 1e-8, 1e-7, f'{model} {k}', ok=ok)
    sky = irr.get_sky_diffuse(t, a, z, s, dni, ghi, dhi, dni_extra=ex,
                              airmass=am, model=name,
                              return_components=comps, **pm)
    if comps:
        for k in ['poa_sky_diffuse'] + COMP[model]:
            close(np.atleast_1d(arr(sky[k])), [v[k] for v in exp], 1e-8,
                  1e-7, f'sky diffuse {model} {k}', ok=ok)
    else:
        close(np.atleast_1d(arr(sky)),
              [v['poa_sky_diffuse'] for v in exp], 1e-8, 1e-7,
              f'sky diffuse {model}', ok=ok)


@sub(lambda: fixed(n=st.integers(1, 4), kind=st.sampled_from(
    ['dict', 'frame']), aoi=st.lists(flt(0, 180), min_size=4, max_size=4),
    v=st.lists(flt(0, 900), min_size=20, max_size=20),
    comps=st.sampled_from([v for v in COMP.values()])), quick=100)
def given_components(case, ctx):
    """poa_components with the sky diffuse components passes these through
    and leaves the given dictionary or table as it was"""
    n, c = case['n'], case['comps']
    ix = pd.date_range('2020-06-01 05:00', periods=n, freq='h', tz='UTC')
    names = ['poa_sky_diffuse', *c]
    v = np.array(case['v']).reshape(5, 4)[:, :n]
    sky = {k: v[i] for i, k in enumerate(names)}
    w = np.array(case['aoi'][:n])
    aoi, dni, g = w, v[4], v[0] / 7
    if case['kind'] == 'frame':
        sky = pd.DataFrame(sky, ix)
        aoi, dni, g = (pd.Series(x, ix) for x in (aoi, dni, g))
    b = snapshot([aoi, dni, sky, g])
    out = irr.poa_components(aoi, dni, sky, g)
    unchanged(b, [aoi, dni, sky, g], 'arguments')
    d = np.maximum(v[4] * np.cos(np.radians(w)), 0)
    exp = dict(poa_direct=d, poa_diffuse=v[0] * 8 / 7, poa_ground_diffuse=v[
        0] / 7, poa_global=d + v[0] * 8 / 7)
    exp.update({k: v[i] for i, k in enumerate(names)})
    require(set(out.keys()) == set(exp), f'outputs {list(out.keys())}')
    for k, e in exp.items():
        close(arr(out[k]), e, 1e-12, 1e-9, k)
    if case['kind'] == 'frame':
        same_index(out, ix, 'poa_components')
    ctx.label(case['kind'])


@sub(lambda: fixed(m=st.sampled_from(['haydavies', 'reindl', 'perez',
                                      'perez-driesse']),
                   bad=st.text(min_size=1, max_size=8), t=flt(0, 90),
                   z=flt(0, 90)), quick=100)
def rejects(case, ctx):
    """missing extraterrestrial radiation and unknown models are rejected"""
    a = (case['t'], 180, case['z'], 150, 500, 400, 200)
    raises(ValueError, irr.get_sky_diffuse, *a, model=case['m'])
    raises(ValueError, irr.get_total_irradiance, *a, model=case['m'])
    if case['bad'].lower() not in MODELS:
        raises(ValueError, irr.get_sky_diffuse, *a, dni_extra=1360,
               model=case['bad'])
        raises(KeyError, irr.get_ground_diffuse, 30, 400,
               surface_type=case['bad'] + '!')


WATER = {'clear_water_no_waves': (.13, .29),
         'clear_water_ripples_up_to_2.5cm': (.16, .7),
         'clear_water_ripples_larger_than_2.5cm_occasional_whitecaps':
             (.23, 1.25),
         'clear_water_frequent_whitecaps': (.3, 2.),
         'green_water_ripples_up_to_2.5cm': (.22, .7),
         'muddy_water_no_waves': (.19, .29)}


def _water(solar_elevation, surface_condition=None, color_coeff=None,
           wave_roughness_coeff=None):
    c, r = WATER[surface_condition] if surface_condition else \
        (color_coeff, wave_roughness_coeff)
    e = solar_elevation if not solar_elevation < 0 else 0.
    return c ** (r * R.sind(e) + 1)


elem(__name__, 'water_condition', alb.inland_water_dvoracek,
     dict(solar_elevation=P(flt(-90, 90, (0,)), nan=True),
          surface_condition=S(st.sampled_from(sorted(WATER)))), _water,
     doc='open-water albedo for the published conditions')
elem(__name__, 'water_coeffs', alb.inland_water_dvoracek,
     dict(solar_elevation=P(flt(-90, 90, (0,)), nan=True),
          color_coeff=S(flt(.01, 1)), wave_roughness_coeff=S(flt(0, 3))),
     _water, doc='open-water albedo for given coefficients')


@sub(lambda: fixed(e=flt(-10, 90), s=opt(st.sampled_from(sorted(WATER))),
                   c=opt(flt(.1, .3)), r=opt(flt(.1, 2))), quick=100)
def water_rejects(case, ctx):
    """inconsistent water specifications are rejected"""
    s, c, r = case['s'], case['c'], case['r']
    good = (s is not None and c is None and r is None) or \
        (s is None and c is not None and r is not None)
    if good:
        ctx.trivial()
        return
    raises(ValueError, alb.inland_water_dvoracek, case['e'], s, c, r)


@sub(lambda: fixed(k=st.sampled_from(sorted(SURF))), quick=30)
def surface_table(case, ctx):
    """published surface albedos"""
    close(alb.SURFACE_ALBEDOS[case['k']], SURF[case['k']], 0, 0)
    require(set(alb.SURFACE_ALBEDOS) == set(SURF), 'surface types')
