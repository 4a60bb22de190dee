"""C19 shading geometry."""
import math

import numpy as np
from hypothesis import strategies as st
from pvlib import shading
from scipy.integrate import quad

from ..cmp import close, require, within
from ..core import sub
from ..elem import P, S, elem
from ..gen import fixed, flt, opt, uni
from ..refs import geom

RULE = ('Random sun positions, row layouts and irradiances; non-trivial = a '
        'finite non-zero expected value.')

AZ = flt(0, 360, (0, 90, 180, 270))
TILT = flt(0, 90, (0, 20, 45))

elem(__name__, 'projected_solar_zenith_angle',
     shading.projected_solar_zenith_angle,
     dict(solar_zenith=P(flt(0, 120, (0, 60, 90)), nan=True),
          solar_azimuth=P(AZ), axis_tilt=P(flt(-40, 60, (0, 10))),
          axis_azimuth=P(AZ)),
     lambda solar_zenith, **k: geom.project(
         solar_zenith, k['solar_azimuth'], k['axis_tilt'],
         k['axis_azimuth'])[0] if solar_zenith == solar_zenith else math.nan,
     skip=lambda solar_zenith, **k: (lambda p: p[1] < 1e-5 or abs(p[0])
                                     > 180 - 1e-5)(geom.project(
                                         solar_zenith, k['solar_azimuth'],
                                         k['axis_tilt'],
                                         k['axis_azimuth'])),
     rtol=0, atol=1e-7, quick=500, doc='angle of the sun across the axis')


def ground_angle(surface_tilt, gcr, slant_height):
    """points with spacing 1: a point at the given height on the row at the
    origin, and the lower edge of the row behind it"""
    t = math.radians(surface_tilt)
    up = gcr * slant_height * math.sin(t)
    along = gcr * slant_height * math.cos(t)
    return math.degrees(math.atan2(up, 1 + along))


elem(__name__, 'ground_angle', shading.ground_angle,
     dict(surface_tilt=P(TILT, nan=True), gcr=P(flt(.02, .99)),
          slant_height=P(flt(0, 1))), ground_angle,
     rtol=1e-9, atol=1e-9, quick=300, doc='slope of the line to the foot of '
     'the neighbouring row')


def masking(surface_tilt, gcr, slant_height):
    """elevation of the top of the front row seen from the given height"""
    t = math.radians(surface_tilt)
    top = (gcr * math.cos(t), gcr * math.sin(t))
    pt = (1 + gcr * slant_height * math.cos(t),
          gcr * slant_height * math.sin(t))
    return math.degrees(math.atan2(top[1] - pt[1], pt[0] - top[0]))


elem(__name__, 'masking_angle', shading.masking_angle,
     dict(surface_tilt=P(TILT, nan=True), gcr=P(flt(.02, .99)),
          slant_height=P(flt(0, 1))), masking,
     rtol=1e-9, atol=1e-9, quick=300,
     doc='elevation of the top of the row in front')


def mean_masking(surface_tilt, gcr):
    return quad(lambda h: masking(surface_tilt, gcr, h), 0, 1, epsabs=1e-10,
                limit=200)[0]


elem(__name__, 'masking_angle_passias', shading.masking_angle_passias,
     dict(surface_tilt=P(st.one_of(TILT, flt(1, 89))), gcr=P(flt(.05, .95))),
     mean_masking, rtol=1e-6, atol=1e-6, quick=250,
     always=('surface_tilt',),
     # nearly horizontal: the closed form cancels
     skip=lambda surface_tilt, gcr: 0 < surface_tilt < 1e-3,
     types={'scalar': None, 'array': None}, modes=('array', 'series'),
     doc='average of the masking angle over the slant height')

elem(__name__, 'sky_diffuse_passias', shading.sky_diffuse_passias,
     dict(masking_angle=P(flt(0, 90), nan=True)),
     lambda masking_angle: (1 - math.cos(math.radians(masking_angle))) / 2,
     rtol=1e-9, atol=1e-12, quick=120,
     doc='isotropic sky hidden below the masking angle')


def shaded(solar_zenith, solar_azimuth, axis_azimuth, shaded_row_rotation,
           collector_width, pitch, axis_tilt, surface_to_axis_offset,
           cross_axis_slope, shading_row_rotation):
    sun = geom.project(solar_zenith, solar_azimuth, axis_tilt or 0.,
                       axis_azimuth)[0]
    t1 = shaded_row_rotation if shading_row_rotation is None else \
        shading_row_rotation
    r = geom.row_shade(t1, shaded_row_rotation, sun, pitch, collector_width,
                       surface_to_axis_offset or 0., cross_axis_slope or 0.)
    return -1. if r is None else r


def shaded_skip(**k):
    sun, size = geom.project(k['solar_zenith'], k['solar_azimuth'],
                             k['axis_tilt'] or 0., k['axis_azimuth'])
    if size < 1e-5 or abs(sun) < 1e-5:
        return True
    if abs(math.cos(math.radians(sun - k['shaded_row_rotation']))) < 1e-5:
        return True
    # sun below the plane of the axes: the other neighbour is in the way
    if math.cos(math.radians(sun - (k['cross_axis_slope'] or 0.))) < 0:
        return True
    return shaded(**k) < 0


elem(__name__, 'shaded_fraction1d', shading.shaded_fraction1d,
     dict(solar_zenith=P(st.one_of(flt(0, 90, (60, 85)), uni(55, 90))),
          solar_azimuth=P(AZ), axis_azimuth=P(AZ),
          shaded_row_rotation=P(st.one_of(flt(-90, 90, (0, 30)),
                                          uni(-70, 70))),
          collector_width=P(flt(.5, 4)), pitch=P(flt(.6, 8)),
          axis_tilt=S(opt(flt(-20, 30))),
          surface_to_axis_offset=S(opt(flt(-.3, .3))),
          cross_axis_slope=S(opt(flt(-25, 25))),
          shading_row_rotation=S(opt(flt(-90, 90)))),
     shaded, skip=shaded_skip, rtol=1e-7, atol=1e-7, quick=1200, shards=3,
     label=lambda **k: 'partly' if not shaded_skip(**k)
     and 0 < shaded(**k) < 1 else None,
     doc='part of the row in the neighbour\'s shadow, by ray projection')


@sub(lambda: fixed(z=uni(40, 90), a=AZ, aa=AZ, rot=flt(-80, 80),
                   w=flt(.5, 3), p=flt(.6, 6), ta=flt(-20, 20),
                   b=flt(-20, 20), k=flt(.5, 4), z0=flt(-.2, .2)),
     quick=300)
def shade_scaling(case, ctx):
    """the fraction lies in [0, 1], does not depend on the length unit, and
    is smaller for a larger pitch"""
    c = case
    a = (c['z'], c['a'], c['aa'], c['rot'])
    kw = dict(axis_tilt=c['ta'], cross_axis_slope=c['b'])
    r = float(shading.shaded_fraction1d(
        *a, collector_width=c['w'], pitch=c['p'],
        surface_to_axis_offset=c['z0'], **kw))
    require(0 <= r <= 1, f'{r}')
    r2 = float(shading.shaded_fraction1d(
        *a, collector_width=c['w'] * c['k'], pitch=c['p'] * c['k'],
        surface_to_axis_offset=c['z0'] * c['k'], **kw))
    close(r2, r, 1e-8, 1e-8, 'scaled layout')
    sun = geom.project(c['z'], c['a'], c['ta'], c['aa'])[0]
    if math.cos(math.radians(sun - c['b'])) > 0:
        r3 = float(shading.shaded_fraction1d(
            *a, collector_width=c['w'], pitch=c['p'] * 1.1,
            surface_to_axis_offset=c['z0'], **kw))
        require(r3 <= r + 1e-12, f'{r3} > {r} for a larger pitch')
    if not 0 < r < 1:
        ctx.trivial()


def martinez(poa_global, frac, shaded_fraction, shaded_blocks, total_blocks):
    b = frac * poa_global
    f = (1 - shaded_fraction) * (1 - math.ceil(shaded_blocks)
                                 / (1 + total_blocks))
    return 1 - (b * f + poa_global - b) / poa_global


elem(__name__, 'direct_martinez',
     lambda poa_global, frac, **k: shading.direct_martinez(
         poa_global, poa_global * frac, **k),
     dict(poa_global=P(flt(1, 1400), nan=True), frac=P(flt(0, 1)),
          shaded_fraction=P(flt(0, 1)), shaded_blocks=P(flt(0, 6, (1, 2))),
          total_blocks=S(st.integers(6, 12))), martinez,
     rtol=1e-9, atol=1e-9, quick=400,
     doc='Martinez-Moreno loss of beam by shaded fraction and blocks')


@sub(lambda: fixed(g=flt(1, 1400), f=flt(0, 1), s=flt(0, 1),
                   nb=st.integers(0, 12), nt=st.integers(1, 12)), quick=200)
def martinez_bounds(case, ctx):
    """between 0 and 1, zero without shade, growing with shade"""
    c = case
    nb = min(c['nb'], c['nt'])
    b = c['g'] * c['f']
    r = shading.direct_martinez(c['g'], b, c['s'], nb, c['nt'])
    within(r, 0, 1, 1e-12, 'loss')
    close(shading.direct_martinez(c['g'], b, 0., 0, c['nt']), 0., 0, 1e-12,
          'no shade')
    r2 = shading.direct_martinez(c['g'], b, min(1., c['s'] + .1), nb, c['nt'])
    require(r2 >= r - 1e-12, 'more shade, less loss')
    if nb + 1 <= c['nt']:
        r3 = shading.direct_martinez(c['g'], b, c['s'], nb + 1, c['nt'])
        require(r3 >= r - 1e-12, 'more blocks, less loss')
    if c['f'] == 0:
        ctx.trivial()
