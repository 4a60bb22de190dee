"""C22 ANTS-2D."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib import irradiance
from pvlib.atmosphere import get_relative_airmass
from pvlib.bifacial import ants2d, utils

from ..cmp import arr, close, raises, require, same_index, within
from ..core import sub
from ..gen import fixed, flt, opt, uni
from ..refs import geom, rows2d as r2

RULE = ('Random trackers, slopes, sun positions, irradiances and segments; '
        'non-trivial = light on both sides.')
ASSUMPTIONS = ['Rows do not touch the ground or each other; the sun is above '
               'the horizon (and the ground plane) unless all irradiance is '
               'zero.']
KEYS = [f'poa_{s}{k}' for s in ('front', 'back') for k in
        ('', '_direct', '_diffuse', '_sky_diffuse', '_ground_diffuse')]
KEYS += ['shaded_fraction_front', 'shaded_fraction_back']


@st.composite
def segs(draw, top):
    if draw(st.booleans()):
        return draw(st.integers(1, top))
    out = []
    for _ in range(draw(st.integers(1, 2))):
        a, b = sorted((draw(flt(0, 1)), draw(flt(0, 1))))
        if b - a < .02:
            a, b = max(0., a - .02), min(1., b + .02)
        out.append([a, b])
    return out


@st.composite
def scene(draw, n=4):
    n = draw(st.integers(1, n))
    gcr = draw(flt(.05, .9, (.3, .5)))
    pitch = draw(flt(1, 12))
    low = gcr * pitch / 2 + .05 * pitch
    slope = draw(st.booleans())
    t = []
    for _ in range(n):
        night = draw(st.integers(0, 9)) == 0
        zen = draw(flt(90.5, 130)) if night else draw(
            st.one_of(flt(0, 89.5, (0, 45)), uni(5, 84), uni(5, 75)))
        i = [0., 0., 0.] if night else [
            draw(flt(0, 1200, (0,))), draw(flt(0, 600, (0,))),
            draw(flt(0, 1100, (0,)))]
        t.append([draw(flt(-90, 90, (0, 20, -60))), zen,
                  draw(flt(0, 360, (180,))), *i])
    alb = draw(st.one_of(flt(0, 1, (.2,)), st.lists(
        flt(0, 1), min_size=n, max_size=n)))
    return dict(
        t=t, gcr=gcr, pitch=pitch, albedo=alb,
        height=low * 1.1 + draw(uni(0, 1)) * 1.5 * pitch,
        az=draw(flt(0, 360, (0, 180))),
        axis_tilt=draw(flt(-10, 20, (0,))) if slope else 0.,
        cross=draw(flt(-15, 15, (0,))) if slope else 0.,
        form=draw(st.sampled_from(['scalar', 'array', 'series', 'fixed'])),
        model=draw(st.sampled_from(['isotropic', 'haydavies', 'perez',
                                    'perez-driesse', None])),
        dni_extra=draw(opt(flt(1300, 1420))), airmass=draw(opt(flt(1, 20))),
        max_rows=draw(opt(st.integers(10, 25))),
        rows=draw(segs(3)), ground=draw(st.one_of(st.none(), segs(4), st.just(1))))


def seg_list(s):
    if isinstance(s, int):
        q = np.linspace(0, 1, s + 1)
        return list(zip(q[:-1], q[1:]))
    return s


def build(c):
    """arguments and the per-time values they stand for"""
    t = c['t'][:1] if c['form'] == 'scalar' else c['t']
    n = len(t)
    idx = pd.date_range('2021-06-01 05:00', periods=n, freq='3h', tz='UTC')
    a = np.array(t)
    names = ['tracker_rotation', 'solar_zenith', 'solar_azimuth', 'ghi',
             'dhi', 'dni']
    kw = {}
    for k, v in zip(names, a.T):
        kw[k] = (float(v[0]) if c['form'] == 'scalar'
                 else pd.Series(v, idx) if c['form'] == 'series' else v)
    if c['form'] == 'fixed':
        kw['tracker_rotation'] = float(a[0, 0])
        a[:, 0] = a[0, 0]
    alb = c['albedo']
    albs = alb if isinstance(alb, list) else [alb] * n
    if isinstance(alb, list):
        alb = (alb[0] if c['form'] == 'scalar' else pd.Series(alb, idx)
               if c['form'] == 'series' else np.array(alb))
    kw.update(axis_azimuth=c['az'], gcr=c['gcr'], height=c['height'],
              pitch=c['pitch'], albedo=alb)
    model = c['model'] or 'perez'
    if c['model']:
        kw['model'] = c['model']
    extra = c['dni_extra']
    if extra is None and c['form'] != 'series' and model != 'isotropic':
        extra = 1361.
    if extra is not None and model != 'isotropic':
        kw['dni_extra'] = extra
    extras = [extra] * n
    if extra is None:
        extras = irradiance.get_extra_radiation(idx).values
    am = c['airmass']
    if am is not None and model != 'isotropic':
        kw['airmass'] = am
    ams = [get_relative_airmass(v[1]) if am is None else am for v in a]
    for k, name in (('axis_tilt', 'axis_tilt'),
                    ('cross', 'cross_axis_slope')):
        if c[k] != 0:
            kw[name] = c[k]
    if c['max_rows'] is not None:
        kw['max_rows'] = c['max_rows']
    kw['row_segments'] = c['rows']
    if c['ground'] is not None:
        kw['ground_segments'] = c['ground']
    return kw, a, albs, model, extras, ams, idx


def beam_sky(t, model, extra, am):
    rot, zen, saz, ghi, dhi, dni = t
    if model == 'isotropic':
        return dni, dhi
    f = {'haydavies': irradiance.haydavies, 'perez': irradiance.perez,
         'perez-driesse': irradiance.perez_driesse}[model]
    kw = dict(dhi=dhi, dni=dni, dni_extra=extra, solar_zenith=zen,
              solar_azimuth=saz, return_components=True)
    if model != 'haydavies':
        kw['airmass'] = am
    h = float(f(0., 180., **kw)['poa_circumsolar'])
    v = float(f(zen, saz, **kw)['poa_circumsolar'])
    return dni + v, dhi - h


def wrap(a):
    return (a + 180) % 360 - 180


def reference(c, t, alb, model, extra, am, exact):
    """expected result of one time, {key: [per row segment]}; None where a
    discontinuity is too close"""
    rot, zen, saz, ghi, dhi, dni = t
    dni, dhi = beam_sky(t, model, extra, am)
    if not dni == dni:
        return None
    s = geom.sph(zen, saz)
    g = geom.normal(c['cross'], c['axis_tilt'], c['az'])
    flat = c['axis_tilt'] == 0 and c['cross'] == 0
    # the ground plane; the row's height above it and distance along it
    height = c['height'] * g[2]
    pitch = c['pitch'] / math.cos(math.radians(c['cross']))
    gcr = c['gcr'] * c['pitch'] / pitch
    lrot = wrap(rot - c['cross'])
    gg = ghi if flat else dhi + dni * max(float(s @ g), 0.)
    phi, strength = geom.project(zen, saz, c['axis_tilt'], c['az'])
    phi = wrap(phi - c['cross'])
    K = c['max_rows']
    if K is None:
        K = math.ceil(height / (pitch * math.tan(math.radians(4))))
    rows, ground = seg_list(c['rows']), seg_list(
        10 if c['ground'] is None else c['ground'])
    night = zen > 90
    if not night and (abs(abs(phi) - 85) < 1e-6 or abs(phi) > 89.9
                      or strength < 1e-6 or abs(phi) < 1e-9):
        return None
    tot = []
    for a, b in ground:
        lit = 0.
        if not night and abs(phi) < 85:
            # the whole width of the ground has no far-away rows
            h, p, k = (height, pitch, (-int(K), int(K) + 1))
            lit = r2.lit_fraction(lrot, phi, gcr, h, p, a, b, k)
        if exact:
            v = float(utils.vf_ground_sky_2d_integ(
                lrot, gcr, height, pitch, g0=a, g1=b, max_rows=K))
        else:
            v = r2.mean_ground_sky(lrot, gcr, height, pitch, int(K), a, b)
        tot.append((lit * (gg - dhi), v * dhi))
    out = {k: [] for k in KEYS}
    for name, add in (('front', 0.), ('back', 180.)):
        n = geom.normal(rot + add, c['axis_tilt'], c['az'])
        ca = float(n @ s)
        if abs(ca) < 1e-7 and dni > 0:
            return None
        r = wrap(lrot + add)
        shade = None
        if not night and ca > 0:
            shade = geom.row_shade(r, r, phi, 1 / gcr, 1., 0., 0.)
            if shade is None:
                return None
        for a, b in rows:
            if name == 'back':
                a, b = 1 - b, 1 - a
            d = 0.
            fs = None
            if shade is not None:
                # the shade starts at the row's lower edge, which is the
                # left one for positive rotation
                lo, hi = (a, b) if r >= 0 else (1 - b, 1 - a)
                fs = min(max((shade - lo) / (hi - lo), 0.), 1.)
                d = dni * ca * (1 - fs)
            if exact:
                vs = float(utils.vf_row_sky_2d_integ(r, gcr, a, b))
                vg = [float(utils.vf_row_ground_2d_integ(
                    r, gcr, height, pitch, x0=np.array([a]),
                    x1=np.array([b]), g0=u, g1=v,
                    max_rows=K)[0]) for u, v in ground]
            else:
                vs, vg = r2.mean_row_views(r, gcr, height, pitch, int(K),
                                           ground, a, b)
            sky = vs * dhi
            gnd = sum(f * alb * sum(x) for f, x in zip(vg, tot))
            for k, v in (('', d + sky + gnd), ('_direct', d),
                         ('_diffuse', sky + gnd), ('_sky_diffuse', sky),
                         ('_ground_diffuse', gnd)):
                out[f'poa_{name}{k}'].append(v)
            out[f'shaded_fraction_{name}'].append(fs)
    return out, tot


def value(out, key, i, j, c):
    """entry for time i and row segment j, checking the documented shape"""
    v = out[key]
    if c['rows'] == 1:
        if c['form'] == 'scalar':
            require(isinstance(v, float), f'{key}: {type(v)}')
            return v
        a = arr(v)
        return a[i]
    a = np.asarray(v)
    require(a.ndim == 2 and len(a) == len(seg_list(c['rows'])),
            f'{key}: shape {a.shape}')
    return a[j, i]


def run(c, ctx, exact, tol):
    kw, a, albs, model, extras, ams, idx = build(c)
    kw['return_ground_components'] = True
    out, ground = ants2d.get_irradiance(**kw)
    require(set(out) == set(KEYS), f'keys {list(out)}')
    if c['form'] == 'series' and c['rows'] == 1:
        require(isinstance(out, pd.DataFrame), 'Series in, DataFrame out')
        same_index(out, idx)
    if c['ground'] == 1 and c['form'] == 'scalar':
        for k, v in ground.items():
            require(isinstance(v, float), f'{k}: {type(v)} for numbers')
    if c['ground'] == 1 and c['form'] == 'series':
        require(isinstance(ground, pd.DataFrame), 'ground light of Series '
                f'inputs is a {type(ground)}')
        same_index(ground, idx)
    require(set(ground) == {'ground_direct', 'ground_diffuse'},
            f'ground keys {list(ground)}')
    again = ants2d.get_irradiance(
        **{k: v for k, v in kw.items() if k != 'return_ground_components'})
    busy = False
    for k in KEYS:
        close(np.asarray(again[k], float), np.asarray(out[k], float), 0, 0,
              f'{k} without ground components', equal_nan=True)
    m = len(seg_list(10 if c['ground'] is None else c['ground']))
    for i, t in enumerate(a):
        e = reference(c, t, albs[i], model, extras[i], ams[i], exact)
        if e is None:
            continue
        e, tot = e
        scale = tol * (t[3] + t[4] + 2 * t[5] + 1)
        for k in KEYS:
            for j, v in enumerate(e[k]):
                if v is None:
                    continue
                got = value(out, k, i, j, c)
                if k.startswith('shaded'):
                    within(got, 0, 1, 1e-12, k)
                    close(got, v, 0, 1e-6, f'{k} {t}')
                else:
                    close(got, v, 1e-8, scale, f'{k} {t}')
        busy |= e['poa_front'][0] > 0 and e['poa_back'][0] > 0
        for q, k in enumerate(('ground_direct', 'ground_diffuse')):
            v = np.asarray(ground[k], float)
            v = v.reshape(1 if c['ground'] == 1 else m, -1)
            if c['ground'] != 1 and c['form'] == 'scalar':
                require(np.shape(ground[k]) == (m,), 'ground shape')
            for z in range(m):
                close(v[z, i if v.shape[1] > 1 else 0], tot[z][q], 1e-8,
                      scale, f'{k} {t}')
    if not busy:
        ctx.trivial()


@sub(lambda: fixed(c=scene()), quick=160, shards=4)
def composition(case, ctx):
    """ground light, row light and direct light of every segment"""
    run(case['c'], ctx, True, 1e-9)


@sub(lambda: fixed(c=scene(n=1)), quick=50, shards=4)
def geometry(case, ctx):
    """the same with view factors from a plain 2-D scene"""
    c = dict(case['c'], ground=case['c']['ground'] or 2)
    run(c, ctx, False, 6e-3)


@sub(lambda: fixed(c=scene(), n=st.integers(2, 5)), quick=100, shards=2)
def segments(case, ctx):
    """the whole row is the mean of its segments"""
    c = dict(case['c'])
    kw = build(c)[0]
    one = ants2d.get_irradiance(**{**kw, 'row_segments': 1})
    many = ants2d.get_irradiance(**{**kw, 'row_segments': case['n']})
    for k in KEYS:
        v = np.asarray(many[k], float)
        require(v.shape[0] == case['n'], f'{k}: shape {v.shape}')
        # the ground seen through the 0.5001 row edge: almost additive
        tol = 6e-3 * (1 + 2 * np.max(c['t']))
        close(v.mean(axis=0), np.atleast_1d(np.asarray(one[k], float)),
              1e-9, tol if k in ('poa_front', 'poa_back') or 'ground' in k
              or k.endswith('_diffuse') and 'sky' not in k else 1e-7, k,
              equal_nan=True)


@sub(lambda: fixed(c=scene()), quick=100, shards=2)
def mirror(case, ctx):
    """turning the axis round and the rotation and slopes over is the same
    scene"""
    c = dict(case['c'], ground=None, rows=1)
    c2 = dict(c, az=c['az'] + 180, axis_tilt=-c['axis_tilt'],
              cross=-c['cross'], t=[[-t[0], *t[1:]] for t in c['t']])
    a = ants2d.get_irradiance(**build(c)[0])
    b = ants2d.get_irradiance(**build(c2)[0])
    ctx.label(str(c['model']))
    rows = build(c)[1]
    for i, t in enumerate(rows):
        r = reference(c, t, .2, 'isotropic', 1., 1., True)
        if r is None:
            continue
        for k in KEYS:
            if k.startswith('shaded') and r[0][k][0] is None:
                continue
            x, y = (float(np.ravel(np.asarray(v[k], float))[i])
                    for v in (a, b))
            # cells -K..K-1 become -K..K-1 of the mirrored scene
            close(x, y, 1e-9, 1e-6 if 'direct' in k or 'sky' in k
                  else 6e-3 * (1 + max(t[3:])), f'{k} {t}', equal_nan=True)


@sub(lambda: fixed(c=scene()), quick=20)
def refusals(case, ctx):
    """unknown models and missing inputs are refused"""
    c = dict(case['c'], form='array')
    kw = build(c)[0]
    raises(ValueError, ants2d.get_irradiance, **{**kw, 'model': 'klucher'},
           what='unknown model')
    kw.pop('dni_extra', None)
    for m in ('haydavies', 'perez', 'perez-driesse'):
        raises(ValueError, ants2d.get_irradiance, **{**kw, 'model': m},
               what=f'{m} without dni_extra')
