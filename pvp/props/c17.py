"""C17 single-axis tracking."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib import tracking

from ..cmp import Fail, arr, close, raises, require, snapshot, unchanged
from ..core import sub
from ..gen import fixed, flt, opt, uni
from ..refs import geom

RULE = ('Random sun positions (up, horizon, down), axis orientations, '
        'symmetric and asymmetric limits, ground cover and cross-axis '
        'slopes; non-trivial = the sun is up for some element.')

ZEN = st.one_of(flt(0, 90, (0, 30, 60, 85, 89.9)), uni(0, 90), uni(20, 90),
                flt(90, 180, (90, 90.001)))
AZ = flt(0, 360, (0, 90, 180, 270))


@st.composite
def limits(draw):
    k = draw(st.integers(0, 4))
    if k <= 1:
        return None
    if k == 2:
        return draw(st.one_of(flt(5, 90, (45, 60, 90)), uni(90, 180)))
    if k == 3:
        return [draw(flt(-90, 0, (-45,))), draw(flt(0, 90, (60,)))]
    lo = draw(flt(-80, 60))
    return [lo, draw(flt(lo, 90))]


def cases(zen=ZEN, gcr=None, lim=None):
    return fixed(sun=st.lists(st.tuples(zen, AZ).map(list), min_size=1,
                              max_size=6),
                 tilt=opt(st.one_of(flt(0, 40), flt(-40, 60))),
                 az=opt(AZ), lim=limits() if lim is None else lim, bt=st.sampled_from(
                     [None, True, True, False]),
                 gcr=opt(flt(.05, 1, (.4,))) if gcr is None else gcr,
                 xt=opt(flt(-30, 30)),
                 kind=st.sampled_from(['scalar', 'array', 'series']),
                 nan=st.booleans())


def call(case):
    z = [s[0] for s in case['sun']]
    a = [s[1] for s in case['sun']]
    if case['nan'] and len(z) > 1:
        z[-1] = math.nan
    idx = pd.date_range('2020-01-01', periods=len(z), freq='h', tz='Etc/GMT+5')
    kw = {}
    for k, p in (('tilt', 'axis_tilt'), ('az', 'axis_azimuth'),
                 ('bt', 'backtrack'), ('gcr', 'gcr'),
                 ('xt', 'cross_axis_tilt')):
        if case[k] is not None:
            kw[p] = case[k]
    if case['lim'] is not None:
        kw['max_angle'] = tuple(case['lim']) if isinstance(
            case['lim'], list) else case['lim']
    if case['kind'] == 'scalar':
        z, a = z[:1], a[:1]
        args = (z[0], a[0])
    elif case['kind'] == 'array':
        args = (np.array(z), np.array(a))
    else:
        args = (pd.Series(z, index=idx), pd.Series(a, index=idx))
    before = snapshot(list(args))
    r = tracking.singleaxis(*args, **kw)
    unchanged(before, list(args), 'sun position')
    if case['kind'] == 'series':
        require(isinstance(r, pd.DataFrame) and r.index.equals(idx),
                'DataFrame labelled like the input expected')
    else:
        require(isinstance(r, dict), f'dict expected, got {type(r)}')
    require(set(r) == {'tracker_theta', 'aoi', 'surface_azimuth',
                       'surface_tilt'}, f'keys {list(r)}')
    out = {k: np.atleast_1d(arr(r[k])) for k in r}
    for k, v in out.items():
        require(v.shape == (len(z),), f'{k}: shape {v.shape}')
    return z, a, out


def bounds(lim):
    if lim is None:
        return -90., 90.
    if isinstance(lim, list):
        return tuple(lim)
    return -lim, lim


@sub(cases, quick=900, shards=4)
def rotation(case, ctx):
    """rotation = the projected sun angle, turned back until the row shadow
    just misses the neighbour, clipped to the limits; orientation and angle
    of incidence are those of the rotated normal; missing at night"""
    z, a, out = call(case)
    ta, aa = case['tilt'] or 0., case['az'] or 0.
    lo, hi = bounds(case['lim'])
    gcr = 2 / 7 if case['gcr'] is None else case['gcr']
    b = case['xt'] or 0.
    any_up = False
    for i in range(len(z)):
        got = {k: out[k][i] for k in out}
        if math.isnan(z[i]) or z[i] > 90:
            require(all(math.isnan(v) for v in got.values()),
                    f'sun at {z[i]}: {got}')
            continue
        any_up = True
        ideal, size = geom.project(z[i], a[i], ta, aa)
        th = got['tracker_theta']
        require(lo - 1e-9 <= th <= hi + 1e-9, f'{th} beyond {lo, hi}')
        # orientation and incidence follow from the reported rotation
        n = geom.normal(th, ta, aa)
        t, g = geom.tilt_az(n)
        close(got['surface_tilt'], t, 0, 2e-6, 'surface_tilt')
        require(0 <= got['surface_azimuth'] <= 360,
                f"surface_azimuth {got['surface_azimuth']}")
        if t > 1e-4:
            require(geom.dang(got['surface_azimuth'], g)
                    < 1e-7 + 1e-8 / math.radians(t),
                    f"surface_azimuth {got['surface_azimuth']} != {g}")
        elif got['surface_tilt'] == 0:
            require(geom.dang(got['surface_azimuth'], aa - 90) < 1e-9,
                    'azimuth of a horizontal surface')
        close(got['aoi'], geom.angle(n, geom.sph(z[i], a[i])), 0, 2e-6,
              'aoi')
        if size < 1e-6 or abs(ideal) > 180 - 1e-6:
            continue
        want = ideal
        if case['bt'] is not False:
            k = abs(math.cos(math.radians(ideal - b))
                    / (gcr * math.cos(math.radians(b))))
            if k < 1:
                turn = math.degrees(math.acos(k))
                if abs(ideal) < 1e-9:
                    continue
                want = ideal - math.copysign(turn, ideal)
                ctx.label('backtracking')
        tol = 1e-7 / size + 1e-7
        if case['bt'] is not False and abs(k - 1) < 1e-6:
            tol += 2e-2
        w = min(max(want, lo), hi)
        require(abs(th - w) < tol, f'rotation {th}, expected {w} (ideal '
                f'{ideal})')
        if w != want:
            ctx.label('limited')
    if not any_up:
        ctx.trivial()


@sub(lambda: st.one_of(cases(), cases(uni(50, 89.9), flt(.25, 1),
                                      st.none()),
                       cases(uni(60, 89.9), flt(.25, 1), st.none())),
     quick=900, shards=4)
def purpose(case, ctx):
    """without backtracking no permitted rotation has a smaller angle of
    incidence; with it the rows do not shade each other and turning half a
    degree towards the sun would"""
    z, a, out = call(case)
    ta, aa = case['tilt'] or 0., case['az'] or 0.
    lo, hi = bounds(case['lim'])
    gcr = 2 / 7 if case['gcr'] is None else case['gcr']
    b = case['xt'] or 0.
    used = False
    for i in range(len(z)):
        if math.isnan(z[i]) or z[i] > 90:
            continue
        th = out['tracker_theta'][i]
        ideal, size = geom.project(z[i], a[i], ta, aa)
        if size < 1e-3 or abs(ideal) > 89.99:
            continue
        used = True
        s = geom.sph(z[i], a[i])
        if case['bt'] is False:
            best = math.cos(math.radians(out['aoi'][i]))
            for o in np.linspace(lo, hi, 37):
                c = float(geom.normal(o, ta, aa) @ s)
                require(c <= best + 1e-7, f'rotation {o} has a smaller '
                        f'angle of incidence than {th}')
            continue
        lean = ideal - b
        if abs(lean) > 89.9 or abs(ideal) < .01:
            continue      # sun below the slope: rows cannot help it

        # the shadow of the row on the sun's side (seen from the slope)
        def shade(o):
            r = geom.row_shade(o, o, ideal, 1., gcr, 0., b)
            return 0. if r is None else r
        if math.copysign(1, ideal) != math.copysign(1, lean):
            continue      # sun between the vertical and the slope's normal
        free = th > lo + 1e-9 and th < hi - 1e-9
        if free:
            require(shade(th) < 1e-6,
                    f'shaded fraction {shade(th)} at rotation {th}')
            if abs(th - ideal) > 1.:
                ctx.label('backtracking')
                m = th + math.copysign(.5, ideal - th)
                require(shade(m) > 0, f'rotation {th} turns away from the '
                        f'sun at {ideal} more than needed')
    if not used:
        ctx.trivial()


@sub(lambda: fixed(n=st.integers(1, 3)), quick=5)
def shapes(case, ctx):
    """more than one dimension is refused"""
    z = np.full((case['n'], 2), 40.)
    raises(ValueError, tracking.singleaxis, z, z, what='2-d')
