"""C18 tracker axis and slope geometry."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib import tracking

from ..cmp import arr, close, require, snapshot, unchanged
from ..core import sub
from ..elem import P, elem
from ..gen import fixed, flt, opt
from ..refs import geom

RULE = ('Random rotations, axis orientations and slopes; non-trivial = a '
        'tilted surface or slope.')

AZ = flt(-180, 360, (0, 90, 180, 270))


@sub(lambda: fixed(theta=st.lists(st.one_of(flt(-180, 180, (0, 90, -90)),
                                            st.just(math.nan)), min_size=1,
                                  max_size=6),
                   tilt=opt(flt(-60, 90, (0, 20))), az=opt(AZ),
                   kind=st.sampled_from(['scalar', 'array', 'series'])),
     quick=700, shards=2)
def orientation(case, ctx):
    """surface tilt and azimuth of the rotated module normal"""
    th = case['theta']
    kw = {}
    if case['tilt'] is not None:
        kw['axis_tilt'] = case['tilt']
    if case['az'] is not None:
        kw['axis_azimuth'] = case['az']
    ta, aa = case['tilt'] or 0., case['az'] or 0.
    idx = pd.date_range('2020-01-01', periods=len(th), freq='h', tz='UTC')
    if case['kind'] == 'scalar':
        th = th[:1]
        x = th[0]
    elif case['kind'] == 'array':
        x = np.array(th)
    else:
        x = pd.Series(th, index=idx)
    b = snapshot(x)
    r = tracking.calc_surface_orientation(x, **kw)
    unchanged(b, x, 'tracker_theta')
    if case['kind'] == 'series':
        require(isinstance(r, pd.DataFrame) and r.index.equals(idx), 'index')
    tilt = np.atleast_1d(arr(r['surface_tilt']))
    az = np.atleast_1d(arr(r['surface_azimuth']))
    require(len(tilt) == len(az) == len(th), 'length')
    trivial = True
    for i, t in enumerate(th):
        if math.isnan(t):
            require(math.isnan(tilt[i]) and math.isnan(az[i]),
                    'missing rotation')
            continue
        et, ea = geom.tilt_az(geom.normal(t, ta, aa))
        close(tilt[i], et, 0, 2e-6, 'surface_tilt')
        require(0 <= az[i] <= 360, f'azimuth {az[i]}')
        if 1e-4 < et < 180 - 1e-4:
            trivial = False
            require(geom.dang(az[i], ea)
                    < 1e-7 + 1e-8 / math.sin(math.radians(et)),
                    f'azimuth {az[i]}, expected {ea}')
        elif tilt[i] == 0:
            require(geom.dang(az[i], aa - 90) < 1e-9,
                    f'azimuth {az[i]} of a horizontal surface')
    if trivial:
        ctx.trivial()


def axis_tilt(slope_azimuth, slope_tilt, axis_azimuth):
    """drop of the terrain along one metre in the axis direction"""
    n = geom.sph(slope_tilt, slope_azimuth)
    d = geom.sph(90, axis_azimuth)
    return math.degrees(math.atan((n[0] * d[0] + n[1] * d[1]) / n[2]))


elem(__name__, 'calc_axis_tilt', tracking.calc_axis_tilt,
     dict(slope_azimuth=P(AZ), slope_tilt=P(flt(0, 80, (0, 10))),
          axis_azimuth=P(AZ)), axis_tilt, modes=('scalar', 'array'),
     quick=400, rtol=1e-9, atol=1e-7, doc='slope of the terrain along the axis')


@sub(lambda: fixed(sa=AZ, stilt=flt(0, 70, (0, 10)), aa=AZ,
                   ta=st.one_of(st.none(), flt(-45, 60))), quick=600)
def cross_axis(case, ctx):
    """angle from the horizontal across-axis direction to the line in which
    the terrain cuts the plane across the axes, positive downwards to the
    right of the axis direction; zero cases; consistency with trackers on
    the slope"""
    sa, stt, aa = case['sa'], case['stilt'], case['aa']
    ta = case['ta']
    on_slope = ta is None
    if on_slope:
        ta = float(tracking.calc_axis_tilt(sa, stt, aa))
        ctx.label('axis on the slope')
    got = float(tracking.calc_cross_axis_tilt(sa, stt, aa, ta))
    n = geom.sph(stt, sa)
    x, y, z = geom.frame(ta, aa)
    v = np.cross(y, n)
    v /= np.linalg.norm(v)
    if v @ x < 0:
        v = -v
    exp = math.degrees(math.asin(min(1, max(-1, float(-v @ z)))))
    # axis and terrain normal more than 90 degrees apart: not a layout
    if abs(v @ x) < 1e-6 or n @ z < .05:
        ctx.trivial()
        return
    close(got, exp, 0, 1e-5, 'cross_axis_tilt')
    if stt == 0 and ta == 0:
        require(abs(got) < 1e-9, 'flat terrain')
    if on_slope:
        # a tracker rotated by the cross-axis tilt lies in the terrain
        m = geom.normal(got, ta, aa)
        require(geom.angle(m, n) < 1e-4, f'rotating by {got} gives {m}, '
                f'terrain normal {n}')
    if stt == 0:
        ctx.trivial()
