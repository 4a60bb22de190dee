"""C20 infinite sheds."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib.bifacial import infinite_sheds, utils

from ..cmp import arr, close, require, same_index, within
from ..core import sub
from ..gen import fixed, flt, opt, uni
from ..refs import geom, rows2d as r2

RULE = ('Random row geometry, sun positions and irradiances, scalar, array '
        'and Series; non-trivial = light on both sides.')
ASSUMPTIONS = ['gcr <= 1, sun above the horizon unless all irradiance is '
               'zero.']

FRONT = ['poa_global', 'poa_direct', 'poa_diffuse', 'poa_sky_diffuse',
         'poa_ground_diffuse', 'shaded_fraction']


@st.composite
def scene(draw, vec=True):
    n = draw(st.integers(1, 4))
    # rows that (almost) touch and a grazing sun square to them
    dense = draw(st.integers(0, 5)) == 0
    gcr = draw(uni(.93, 1) if dense else flt(.05, 1, (.3, .5, 1)))
    pitch = draw(flt(1, 12))
    low = gcr * pitch / 2 + .02 * pitch
    t = []
    for _ in range(n):
        night = draw(st.integers(0, 9)) == 0
        zen = draw(flt(90.5, 130)) if night else draw(
            st.one_of(flt(0, 89.5, (0, 45)), uni(5, 84), uni(5, 75),
                      uni(84, 85.5)))
        i = [0., 0., 0.] if night else [
            draw(flt(0, 1200, (0,))), draw(flt(0, 600, (0,))),
            draw(st.one_of(flt(0, 1100, (0,)), uni(1100, 1420)))]
        tilt, az = draw(flt(0, 90, (0, 20, 60))), draw(flt(0, 360, (180,)))
        saz = draw(flt(0, 360, (180,)))
        if dense and not night:
            tilt, zen = draw(flt(0, 10, (0,))), draw(uni(84, 85))
            saz = (az + draw(st.sampled_from([0, 180])) + draw(uni(0, 3))) % 360
        t.append([tilt, az, zen, saz, *i])
    alb = draw(st.one_of(flt(0, 1, (.2,)), st.lists(
        flt(0, 1), min_size=n, max_size=n)))
    return dict(t=t, gcr=gcr, pitch=pitch,
                height=low + draw(uni(0, 1)) * 1.5 * pitch, albedo=alb,
                form=draw(st.sampled_from(['scalar', 'array', 'series',
                                           'fixed'])),
                model=draw(st.sampled_from(['isotropic', 'haydavies'])),
                dni_extra=draw(flt(1300, 1420)),
                iam=draw(st.one_of(st.none(), flt(0, 1), st.lists(
                    flt(0, 1), min_size=n, max_size=n))))


def vf(c, tilt):
    k = math.ceil(c['height'] / (c['pitch'] * math.tan(math.radians(5))))
    return (float(utils.vf_ground_sky_2d_integ(
                tilt, c['gcr'], c['height'], c['pitch'], max_rows=k)),
            float(utils.vf_row_sky_2d_integ(tilt, c['gcr'])),
            float(utils.vf_row_ground_2d_integ(tilt, c['gcr'])))


def vf_geom(c, tilt):
    k = math.ceil(c['height'] / (c['pitch'] * math.tan(math.radians(5))))
    s = r2.mean_row_views(tilt, c['gcr'], 1., 1 / c['gcr'], 20, [(0., 1.)])
    return (r2.mean_ground_sky(tilt, c['gcr'], c['height'], c['pitch'], k),
            s[0], s[1][0])


def side(c, t, alb, tilt, az, iam, view):
    """one side of the row; None when on a discontinuity"""
    zen, saz, ghi, dhi, dni = t[2:]
    if c['model'] == 'haydavies':
        ai = dni / c['dni_extra']
        cz = max(math.cos(math.radians(zen)), 0.01745)
        circ = dhi * ai / cz
        dhi_c = dhi - circ * max(math.cos(math.radians(zen)), 0.)
        dni, dhi = dni + circ, dhi_c
    gs, rs, rg = view
    if zen > 90:
        phi, lit, fx, cosaoi = 0., 0., None, 0.
    else:
        tanphi = math.cos(math.radians(saz - az)) * math.tan(
            math.radians(zen))
        phi = math.degrees(math.atan(tanphi))
        if abs(abs(phi) - 85) < 1e-6:
            return None
        lit = 0. if abs(phi) > 85 else r2.lit_fraction(
            tilt, phi, c['gcr'], 1., 1 / c['gcr'], 0., 1.)
        cosaoi = float(geom.sph(tilt, az) @ geom.sph(zen, saz))
        if abs(cosaoi) < 1e-8:
            return None
        # height above the foot at which the shadow of the next row's top
        # ends
        r = math.radians(tilt)
        x = c['gcr'] * (math.cos(r) + math.sin(r) * tanphi)
        if abs(x - 1) < 1e-9:
            return None
        fx = 1 - 1 / x if x > 1 else 0.
    ground = alb * (lit * (ghi - dhi) + gs * dhi)
    e = {'poa_sky_diffuse': dhi * rs, 'poa_ground_diffuse': ground * rg}
    e['poa_diffuse'] = e['poa_sky_diffuse'] + e['poa_ground_diffuse']
    e['poa_direct'] = dni * max(cosaoi, 0.) * (1 - (fx or 0.)) * iam
    e['poa_global'] = e['poa_direct'] + e['poa_diffuse']
    e['shaded_fraction'] = fx
    return e


def args(c):
    t = np.array(c['t'])
    n = len(t)
    iam, alb = c['iam'], c['albedo']
    idx = pd.date_range('2021-06-01 05:00', periods=n, freq='3h', tz='UTC')
    cols = list(t.T)
    if c['form'] == 'scalar':
        cols = [float(v[0]) for v in cols]
        n = 1
    elif c['form'] == 'fixed':
        # one fixed surface, many times
        cols[0], cols[1] = float(cols[0][0]), float(cols[1][0])
        t = np.array([[cols[0], cols[1], *r[2:]] for r in c['t']])
    elif c['form'] == 'series':
        cols = [pd.Series(v, idx) for v in cols]

    def vec(v, default):
        if v is None:
            return None, [default] * n
        if isinstance(v, list):
            if c['form'] == 'scalar':
                return v[0], [v[0]]
            return (pd.Series(v, idx) if c['form'] == 'series'
                    else np.array(v)), v
        return v, [v] * n
    return t[:n], cols, vec(alb, .2), vec(iam, 1.), idx[:n]


def pos(c, cols, alb):
    kw = dict(gcr=c['gcr'], height=c['height'], pitch=c['pitch'],
              surface_tilt=cols[0], surface_azimuth=cols[1],
              solar_zenith=cols[2], solar_azimuth=cols[3], ghi=cols[4],
              dhi=cols[5], dni=cols[6], albedo=alb)
    if c['model'] != 'isotropic':
        kw['model'] = c['model']
        kw['dni_extra'] = c['dni_extra']
    return kw


def compare(out, pre, exp, key, i, what, tol):
    for k, v in exp.items():
        if v is None:
            continue
        name = key(k)
        got = arr(out[name])
        got = got[i] if got.size > 1 else got.ravel()[0]
        close(got, v, 1e-8, tol if k != 'shaded_fraction' else 1e-8,
              f'{what} {name} {pre}')


@sub(lambda: fixed(c=scene()), quick=250, shards=2)
def one_side(case, ctx):
    """get_irradiance_poa is the documented sum for one side"""
    c = case['c']
    rows, cols, (alb, albs), (iam, iams), idx = args(c)
    kw = pos(c, cols, alb)
    if iam is not None:
        kw['iam'] = iam
    out = infinite_sheds.get_irradiance_poa(**kw)
    require(set(out) == set(FRONT), f'keys {list(out)}')
    if c['form'] == 'series':
        require(isinstance(out, pd.DataFrame), 'Series in, DataFrame out')
        same_index(out, idx)
    busy = False
    for i, t in enumerate(rows):
        e = side(c, t, albs[i], t[0], t[1], iams[i], vf(c, t[0]))
        if e is None:
            continue
        compare(out, t, e, lambda k: k, i, 'side', 1e-6)
        busy |= e['poa_global'] > 0
    within(arr(out['shaded_fraction']), 0, 1, 1e-12, 'shaded fraction')
    if not busy:
        ctx.trivial()


@sub(lambda: fixed(c=scene(), bif=opt(flt(0, 1, (.7,))),
                   shade=opt(flt(-.2, 0)), trans=opt(flt(0, .2)),
                   back=opt(flt(0, 1))), quick=250, shards=2)
def both_sides(case, ctx):
    """front, back (flipped surface) and the weighted total"""
    c = case['c']
    rows, cols, (alb, albs), (iam, iams), idx = args(c)
    kw = pos(c, cols, alb)
    if iam is not None:
        kw['iam_front'] = iam
    for k, v in (('bifaciality', 'bif'), ('shade_factor', 'shade'),
                 ('transmission_factor', 'trans'), ('iam_back', 'back')):
        if case[v] is not None:
            kw[k] = case[v]
    out = infinite_sheds.get_irradiance(**kw)
    front = {k: 'poa_front' + k[3:] for k in FRONT if k != 'shaded_fraction'}
    front['poa_global'] = 'poa_front'
    front['shaded_fraction'] = 'shaded_fraction_front'
    back = {k: v.replace('front', 'back') for k, v in front.items()}
    require(set(out) == {*front.values(), *back.values(), 'poa_global'},
            f'keys {list(out)}')
    if c['form'] == 'series':
        require(isinstance(out, pd.DataFrame), 'Series in, DataFrame out')
        same_index(out, idx)
    w = .8 if case['bif'] is None else case['bif']
    w *= 1 + (-.02 if case['shade'] is None else case['shade'])
    w *= 1 + (case['trans'] or 0)
    busy = False
    for i, t in enumerate(rows):
        f = side(c, t, albs[i], t[0], t[1], iams[i], vf(c, t[0]))
        b = side(c, t, albs[i], 180 - t[0], t[1] + 180,
                 1. if case['back'] is None else case['back'],
                 vf(c, 180 - t[0]))
        if f is None or b is None:
            continue
        compare(out, t, f, front.get, i, 'front', 1e-6)
        compare(out, t, b, back.get, i, 'back', 1e-6)
        g = arr(out['poa_global'])
        g = g[i] if g.size > 1 else g.ravel()[0]
        close(g, f['poa_global'] + w * b['poa_global'], 1e-8, 1e-6,
              'weighted total')
        busy |= f['poa_global'] > 0 and b['poa_global'] > 0
    if not busy:
        ctx.trivial()


@sub(lambda: fixed(c=scene()), quick=60, shards=4)
def geometry(case, ctx):
    """the same with view factors from a plain 2-D scene, both sides"""
    c = {**case['c'], 'form': 'scalar', 'iam': None}
    rows, cols, (alb, albs), _, _ = args(c)
    out = infinite_sheds.get_irradiance(**pos(c, cols, alb))
    t = rows[0]
    scale = t[4] + t[5] + 2 * t[6] + 1
    for name, tilt, az in (('front', t[0], t[1]),
                           ('back', 180 - t[0], t[1] + 180)):
        e = side(c, t, albs[0], tilt, az, 1., vf_geom(c, tilt))
        if e is None:
            ctx.trivial()
            return
        for k in ('poa_sky_diffuse', 'poa_ground_diffuse', 'poa_direct'):
            got = float(np.ravel(out[f'poa_{name}{k[3:]}'])[0])
            close(got, e[k], 0, 6e-3 * scale, f'{name} {k}')
    if t[4] + t[5] + t[6] == 0:
        ctx.trivial()


@sub(lambda: fixed(tilt=flt(0, 90), az=flt(0, 360), zen=flt(0, 80),
                   saz=flt(0, 360), dhi=flt(0, 500), dni=flt(0, 1000),
                   albedo=flt(0, 1)), quick=150)
def sparse(case, ctx):
    """a single row far from the others sees open sky and open ground"""
    k = case
    ghi = k['dhi'] + k['dni'] * math.cos(math.radians(k['zen']))
    out = infinite_sheds.get_irradiance(
        k['tilt'], k['az'], k['zen'], k['saz'], 1e-3, 1.2, 2e3, ghi,
        k['dhi'], k['dni'], k['albedo'])
    c = math.cos(math.radians(k['tilt']))
    for name, cc, az in (('front', c, k['az']),
                         ('back', -c, k['az'] + 180)):
        tilt = math.degrees(math.acos(cc))
        e = (k['dhi'] * (1 + cc) / 2 + k['albedo'] * ghi * (1 - cc) / 2
             + k['dni'] * max(0., float(geom.sph(tilt, az) @ geom.sph(
                 k['zen'], k['saz']))))
        close(float(np.ravel(out[f'poa_{name}'])[0]), e, 2e-2, .5, name)




@sub(lambda: fixed(c=scene(), model=st.sampled_from(
    ['haydavies'])), quick=20)
def missing_extra(case, ctx):
    """haydavies without extraterrestrial irradiance is refused"""
    from ..cmp import raises
    c = {**case['c'], 'model': 'isotropic'}
    rows, cols, (alb, _), _, _ = args(c)
    raises(ValueError, infinite_sheds.get_irradiance,
           **pos(c, cols, alb), model='haydavies', what='no dni_extra')


@sub(lambda: fixed(c=scene(), k=st.sampled_from(['ghi', 'dhi', 'dni']),
                   j=st.integers(0, 3)), quick=80)
def gaps(case, ctx):
    """an unknown irradiance leaves the total at that time unknown and every
    other time as it was"""
    c = case['c']
    if c['form'] in ('scalar',) or len(c['t']) < 2:
        c = {**c, 'form': 'array', 't': (c['t'] * 2)[:max(2, len(c['t']))]}
        c['albedo'] = c['albedo'] if np.isscalar(c['albedo']) else .3
        c['iam'] = None if isinstance(c['iam'], list) else c['iam']
    rows, cols, (alb, _), (iam, _), idx = args(c)
    kw = pos(c, cols, alb)
    if iam is not None:
        kw['iam_front'] = iam
    full = infinite_sheds.get_irradiance(**kw)
    j = case['j'] % len(rows)
    v = kw[case['k']].copy()
    if c['form'] == 'series':
        v.iloc[j] = math.nan
    else:
        v[j] = math.nan
    out = infinite_sheds.get_irradiance(**{**kw, case['k']: v})
    rest = np.arange(len(rows)) != j
    for k in full:
        close(arr(out[k])[rest], arr(full[k])[rest], 1e-12, 1e-12,
              f'{k} at the other times')
    for k in ('poa_global', 'poa_front', 'poa_back'):
        require(math.isnan(arr(out[k])[j]), f'{k} without {case["k"]}: '
                f'{arr(out[k])[j]}')
    ctx.label(case['k'], c['form'])
