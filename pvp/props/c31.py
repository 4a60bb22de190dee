"""C31 diffuse incidence angle modifiers."""
import functools
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib import iam

from ..cmp import arr, close, raises, require, same_index, snapshot, \
    unchanged, within
from ..core import sub
from ..elem import NAN, P, S, elem
from ..gen import fixed, flt, opt, series_index
from .c30 import MODULE, ashrae_ref, mr_ref, physical_ref, sapm_ref

RULE = ('Random tilts from 0 to 180 degrees (both ends and their '
        'neighbourhood over-weighted), all five modifier models with random '
        'parameters, regions and numbers of increments; non-trivial = a '
        'modifier strictly between 0 and 1.')

TILT = st.one_of(flt(0, 180, (0, 90, 180, 30, 89.999, 90.001)),
                 st.sampled_from([1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, .01,
                                  180 - 1e-9, 180 - 1e-6, 180 - 1e-4,
                                  179.99, 179.999, .02, .3, .7, 179.3,
                                  179.98, 179.7]))
X20, W20 = np.polynomial.legendre.leggauss(24)


def gauss(lo, hi):
    """nodes and weights; the substitution removes root singularities at
    both ends"""
    u = math.pi * (X20 + 1) / 2
    return (lo + (hi - lo) * (1 - np.cos(u)) / 2,
            W20 * np.sin(u) * math.pi / 4 * (hi - lo))


# ------------------------------------------------------------- Martin-Ruiz
def mrd(tilt, a_r, c1, c2):
    a = .16 if a_r is None else a_r
    c1 = .4244 if c1 is None else c1
    c2 = .5 * a - .154 if c2 is None else c2
    b = math.radians(tilt)

    def one(b):
        if b > math.pi - 1e-4:
            # pi - b - sin b ~ (pi-b)^3 / 6, 1 + cos b ~ (pi-b)^2 / 2
            t = (math.pi - b) + (math.pi - b) / 3
        else:
            t = math.sin(b) + (math.pi - b - math.sin(b)) / (1 + math.cos(b))
        return 1 - math.exp(-(c1 + c2 * t) * t / a)
    return one(b), one(math.pi - b)


elem(__name__, 'martin_ruiz_diffuse', iam.martin_ruiz_diffuse,
     dict(surface_tilt=P(TILT, nan=True), a_r=S(opt(flt(.03, .5))),
          c1=S(opt(flt(.3, .6, (.4244,)))), c2=S(opt(flt(-.15, .05)))),
     lambda surface_tilt, a_r, c1, c2: (NAN, NAN)
     if math.isnan(surface_tilt) else mrd(surface_tilt, a_r, c1, c2),
     quick=500, types={'scalar': None}, rtol=1e-7, atol=2e-6,
     modes=('scalar', 'array', 'series', 'array2d'),
     doc='published closed form for sky and ground at any tilt')


# ------------------------------------------------- continuous integration
def mean(f, tilt, region):
    """cos-weighted mean of f(aoi) over the part of the region in front of
    the plane, by Gauss quadrature"""
    b = math.radians(tilt)
    lo, hi = {'sky': (0, math.pi / 2), 'ground': (math.pi / 2, math.pi),
              'horizon': (math.radians(89.5), math.pi / 2)}[region]
    cuts = sorted({lo, hi} | {c for c in (math.pi / 2 - b, math.pi / 2 + b,
                                          b - math.pi / 2,
                                          1.5 * math.pi - b) if lo < c < hi})
    num = den = 0.
    for u, v in zip(cuts, cuts[1:]):
        for ph, wp in zip(*gauss(u, v)):
            sb = math.sin(b) * math.sin(ph)
            cb = math.cos(b) * math.cos(ph)
            if cb >= sb:
                top = math.pi
            elif cb <= -sb:
                continue
            else:
                top = math.acos(-cb / sb)
            ps, ws = gauss(0, top)
            c = np.clip(cb + sb * np.cos(ps), 0, 1)
            q = np.degrees(np.arccos(c))
            w = ws * c * math.sin(ph) * wp
            num += float(np.sum(w * [f(x) for x in q]))
            den += float(np.sum(w))
    return num / den if den > 0 else 0.


def schlick(q):
    return 0. if q >= 90 else 1 - (1 - math.cos(math.radians(q)))**5


@sub(lambda: fixed(tilt=st.lists(TILT, min_size=1, max_size=3),
                   kind=st.sampled_from(['scalar', 'array', 'series'])),
     quick=150, shards=4)
def schlick_diffuse(case, ctx):
    """equals the integral of the beam model over the visible sky and
    ground"""
    t = case['tilt']
    if case['kind'] == 'scalar':
        got = [[x] for x in iam.schlick_diffuse(float(t[0]))]
        require(all(np.ndim(x[0]) == 0 for x in got), 'scalar in, scalar out')
        t = t[:1]
    elif case['kind'] == 'array':
        got = iam.schlick_diffuse(np.array(t + [NAN]))
        got = [g[:-1] if math.isnan(g[-1]) else None for g in got]
    else:
        idx = series_index(len(t))
        got = iam.schlick_diffuse(pd.Series(t, index=idx))
        for g in got:
            same_index(g, idx, 'schlick_diffuse')
    for i, x in enumerate(t):
        for region, g in zip(('sky', 'ground'), got):
            v = arr(g)[i]
            y = x if region == 'sky' else 180 - x
            e = 80 / 9 / math.pi * math.radians(180 - y) if y > 179.99 \
                else mean(schlick, x, region)
            close(v, e, 0, 1e-6, f'{region} at tilt {x}')
    close(iam.schlick_diffuse(180 - np.array(t))[1],
          iam.schlick_diffuse(np.array(t))[0], 0, 1e-6, 'symmetry')
    if all(x in (0, 180) for x in t):
        ctx.trivial()


# -------------------------------------------------------------- Marion grid
def model(draw):
    m = draw(st.sampled_from(['ashrae', 'physical', 'martin_ruiz', 'sapm',
                              'schlick']))
    kw = {}
    if m == 'ashrae':
        kw = draw(st.one_of(st.just({}), fixed(b=flt(0, .3))))
    elif m == 'martin_ruiz':
        kw = draw(st.one_of(st.just({}), fixed(a_r=flt(.05, .5))))
    elif m == 'physical':
        kw = draw(st.one_of(st.just({}), fixed(n=flt(1.1, 2)),
                            fixed(n=flt(1.1, 2), K=flt(0, 10),
                                  L=flt(0, .01), n_ar=flt(1.05, 1.5))))
    elif m == 'sapm':
        kw = dict(module=draw(MODULE), upper=draw(opt(st.just(1.))))
    return [m, kw]


def scalar(m, kw):
    if m == 'ashrae':
        return lambda q: ashrae_ref(q, kw.get('b'))
    if m == 'martin_ruiz':
        return lambda q: mr_ref(q, kw.get('a_r'))
    if m == 'physical':
        return lambda q: physical_ref(q, kw.get('n'), kw.get('K'),
                                      kw.get('L'), kw.get('n_ar'))
    if m == 'sapm':
        return lambda q: sapm_ref(q, kw['module'], kw.get('upper'))
    return schlick


@functools.lru_cache(64)
def cells(region, num):
    """increments of zenith angle in the region (integer arithmetic) and of
    azimuth, as (midpoints of zenith, solid angles, midpoints of azimuth)"""
    i = np.arange(num)
    sky = 2 * (i + 1) <= num
    ok = {'sky': sky, 'ground': 2 * i >= num,
          'horizon': sky & (360 * i >= 179 * num)}[region]
    i = i[ok]
    a = np.pi / num
    z = (i + .5) * a
    return z, a * (np.cos(i * a) - np.cos((i + 1) * a)), \
        (np.arange(2 * num) + .5) * a


def grid(f, tilt, region, num):
    z, da, ps = cells(region, num)
    b = math.radians(tilt)
    c = (math.cos(b) * np.cos(z)[:, None]
         + math.sin(b) * np.sin(z)[:, None] * np.cos(ps))
    w = np.where(c > 1e-9, c, 0) * da[:, None]
    s = w.sum()
    if s < 1e-12:
        return 0. if not (w > 0).any() else NAN
    # modifiers on a fine table would lose accuracy: use every angle
    q = np.degrees(np.arccos(np.clip(c, -1, 1)))
    keep = w > 0
    return float((np.array([f(x) for x in q[keep]]) * w[keep]).sum() / s)


@st.composite
def marion_case(draw):
    return dict(model=model(draw), region=draw(st.sampled_from(
        ['sky', 'ground', 'sky', 'ground', 'horizon'])),
        num=draw(st.one_of(st.integers(2, 40), st.sampled_from(
            [42, 50, 68]))), tilt=draw(st.lists(TILT, min_size=1,
                                                max_size=3)),
        kind=draw(st.sampled_from(['scalar', 'array', 'series'])))


@sub(marion_case, quick=250, shards=4)
def marion_grid(case, ctx):
    """equals the published sum over zenith and azimuth increments for any
    number of increments"""
    c = case
    m, kw = c['model']
    f = getattr(iam, m)
    num = c['num'] * (1 if c['region'] != 'horizon' else 0) or 360
    t = c['tilt'][:1] if c['kind'] == 'scalar' or c['region'] == 'horizon' \
        else c['tilt']
    x = np.array(t)
    if c['kind'] == 'scalar':
        x = float(t[0])
    elif c['kind'] == 'series':
        x = pd.Series(x, index=series_index(len(t)))
    s = snapshot(x)
    got = iam.marion_integrate(functools.partial(f, **kw), x, c['region'],
                               num)
    unchanged(s, x, 'surface_tilt')
    if c['kind'] == 'series':
        same_index(got, x.index, 'marion_integrate')
    elif c['kind'] == 'scalar':
        require(np.ndim(got) == 0, 'scalar in, scalar out')
    exp = [grid(scalar(m, kw), q, c['region'], num) for q in t]
    ok = [math.isnan(e) for e in exp]
    close(np.atleast_1d(arr(got)), exp, 1e-6, 1e-7, f'{m} {c["region"]} '
          f'num={num}', ok=ok, info=c)
    if any(q in (0, 180, 90) for q in t):
        ctx.label('special tilt')
    ctx.label(m, c['region'])
    if all(e in (0, 1) or e != e for e in exp):
        ctx.trivial()


@st.composite
def diffuse_case(draw):
    return dict(model=model(draw), tilt=draw(flt(0, 180, (0, 90, 180))))


@sub(diffuse_case, quick=60, shards=6)
def marion_diffuse(case, ctx):
    """sky, horizon and ground modifiers approximate the solid angle
    integral of the beam model"""
    m, kw = case['model']
    t = case['tilt']
    out = iam.marion_diffuse(m, t, **kw)
    require(set(out) == {'sky', 'horizon', 'ground'}, f'{sorted(out)}')
    f = scalar(m, kw)
    for region, v in out.items():
        require(np.ndim(v) == 0, 'scalar in, scalar out')
        # a strip of only a few increments is not resolved
        seen = {'sky': 180 - t, 'ground': t,
                'horizon': min(t, 180 - t)}[region]
        if seen < 5:
            ctx.label('barely seen')
            if seen == 0 and region != 'horizon':
                require(v == 0, f'{region} unseen: {v}')
            elif m != 'sapm':
                within(v, 0, 1, 1e-9, region)
            continue
        e = mean(f, t, region)
        close(v, e, 0, (5e-3 if seen > 20 else .03) * (
            3 if m == 'sapm' else 1), f'{m} {region} at tilt '
              f'{t}', info=case)
        same = iam.marion_integrate(
            functools.partial(getattr(iam, m), **kw), t, region,
            {'sky': 180, 'ground': 180, 'horizon': 1800}[region])
        close(v, same, 1e-12, 0, 'documented increments')
    ctx.label(m)


@sub(lambda: fixed(tilt=flt(0, 180), bad=st.sampled_from(
    ['nope', 'interp', 'SKY', '']), b=flt(.01, .3)), quick=20)
def marion_rejects(case, ctx):
    """unknown models and regions are rejected, missing tilts stay missing,
    the plane mirrored at the horizon swaps sky and ground"""
    t = case['tilt']
    f = functools.partial(iam.ashrae, b=case['b'])
    raises(ValueError, iam.marion_diffuse, case['bad'], t, what='model')
    raises(ValueError, iam.marion_integrate, f, t, case['bad'], what='region')
    raises(ValueError, iam.marion_integrate, f, t, case['bad'], 10,
           what='region')
    got = iam.marion_integrate(f, np.array([t, NAN, 180 - t]), 'sky', 36)
    require(math.isnan(got[1]), 'missing tilt')
    g2 = iam.marion_integrate(f, np.array([180 - t, NAN, t]), 'ground', 36)
    if 1e-6 < t < 180 - 1e-6:
        close(got[[0, 2]], g2[[0, 2]], 1e-6, 1e-9, 'mirrored')
    require(math.isnan(g2[1]), 'missing tilt')
    # a constant modifier averages to itself
    k = iam.marion_integrate(lambda q: 0 * q + .7, t, 'sky', 36)
    if t < 175:
        close(k, .7, 1e-9, 0, 'constant')
