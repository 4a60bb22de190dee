"""C21 row view factors."""
import math

import numpy as np
from hypothesis import strategies as st
from pvlib.bifacial import utils

from ..cmp import arr, close, require, within
from ..core import sub
from ..gen import fixed, flt, logflt, uni
from ..refs import rows2d as r2

RULE = ('Random rotations (both signs, horizontal, upside down), ground '
        'cover, heights, positions and segments; non-trivial = a view '
        'factor strictly between 0 and 1.')
ASSUMPTIONS = ['Rows do not touch the ground or each other: gcr <= 0.95, '
               'height above half the raised width.']

GCR = flt(.05, .95, (.3, .5))
ROT = st.one_of(flt(-90, 90, (0, 30, -30, 90)), uni(-89, 89))


@st.composite
def layout(draw, rot=ROT):
    rots = draw(st.lists(rot, min_size=1, max_size=4))
    gcr = draw(GCR)
    pitch = draw(flt(1, 12))
    low = gcr * pitch / 2 + .02 * pitch
    return dict(rot=rots, gcr=gcr, pitch=pitch,
                height=low + draw(uni(0, 1)) * 1.5 * pitch,
                scalar=draw(st.booleans()))


@st.composite
def segment(draw):
    a, b = sorted((draw(flt(0, 1)), draw(flt(0, 1))))
    if b - a < .02:
        a, b = max(0., a - .02), min(1., b + .02)
    return [a, b]


@st.composite
def narrow(draw):
    """segments of any length, down to a point"""
    if draw(st.booleans()):
        return draw(segment())
    a = draw(flt(0, 1))
    u = draw(st.one_of(logflt(1e-5, .05), st.sampled_from([0., 1e-7])))
    return [a, a + u] if a + u <= 1 else [a - u, a]


@sub(lambda: fixed(l=layout(), x=st.lists(flt(0, 1, (.5,)), min_size=1,
                                          max_size=4),
                   rows=st.integers(2, 25)), quick=300, shards=2)
def ground_point(case, ctx):
    """sky seen from a ground point between the rows considered"""
    l = case['l']
    got = np.asarray(utils.vf_ground_sky_2d(
        np.array(l['rot']), l['gcr'], np.array(case['x']), l['pitch'],
        l['height'], max_rows=case['rows']))
    require(got.shape == (len(case['x']), len(l['rot'])),
            f'shape {got.shape}')
    within(got, 0, 1, 1e-12, 'vf')
    for i, x in enumerate(case['x']):
        for j, rot in enumerate(l['rot']):
            e = r2.ground_sky_point(x, rot, l['gcr'], l['height'],
                                    l['pitch'], case['rows'])
            close(got[i, j], e, 0, 1e-9, f'x={x} rotation={rot}')
    if not ((got > 0) & (got < 1)).any():
        ctx.trivial()


@sub(lambda: fixed(l=layout(), seg=st.one_of(st.none(), segment(),
                                             st.lists(segment(), min_size=1,
                                                      max_size=3)),
                   rows=st.integers(3, 12)), quick=150, shards=4)
def ground_mean(case, ctx):
    """the integrated factor is the average of the pointwise one over the
    ground segment"""
    l, seg = case['l'], case['seg']
    kw = dict(max_rows=case['rows'])
    segs = [[0., 1.]]
    if seg is not None:
        segs = seg if isinstance(seg[0], list) else [seg]
        if isinstance(seg[0], list):
            kw['g0'] = np.array([s[0] for s in seg])
            kw['g1'] = np.array([s[1] for s in seg])
        else:
            kw['g0'], kw['g1'] = seg
    rots = l['rot'][:1] if l['scalar'] else l['rot']
    got = utils.vf_ground_sky_2d_integ(
        rots[0] if l['scalar'] else np.array(rots), l['gcr'], l['height'],
        l['pitch'], **kw)
    shape = ((len(segs),) if seg is not None and isinstance(seg[0], list)
             else ()) + (() if l['scalar'] else (len(rots),))
    require(np.shape(got) == shape, f'shape {np.shape(got)}, not {shape}')
    got = np.reshape(got, (len(segs), len(rots)))
    within(got, 0, 1, 1e-9, 'vf')
    for i, s in enumerate(segs):
        for j, rot in enumerate(rots):
            e = [r2.mean_ground_sky(rot, l['gcr'], l['height'], l['pitch'],
                                    k, *s) for k in (case['rows'] - 1,
                                                     case['rows'])]
            require(e[0] - 2e-3 <= got[i, j] <= e[1] + 2e-3,
                    f'segment {s} rotation {rot}: {got[i, j]}, '
                    f'expected {e}')
    if not ((got > 0) & (got < 1)).any():
        ctx.trivial()


def row_sky(x, tilt, gcr):
    return r2.row_views(x, tilt, gcr, 3., 1., 1, [])[0]


@sub(lambda: fixed(l=layout(flt(0, 180, (0, 30, 90, 150))),
                   x=st.lists(flt(0, 1, (.5,)), min_size=1, max_size=4)),
     quick=300)
def row_point(case, ctx):
    """sky and ground seen from a point on the row; both non-negative, sum
    at most one, missing part is the facing row"""
    l = case['l']
    for rot in l['rot']:
        x = np.array(case['x'])
        s = arr(utils.vf_row_sky_2d(rot, l['gcr'], x))
        g = arr(utils.vf_row_ground_2d(rot, l['gcr'], x))
        within(s, 0, 1, 1e-12, 'sky')
        within(g, 0, 1, 1e-12, 'ground')
        within(s + g, 0, 1, 1e-9, 'sky + ground')
        for i, xx in enumerate(case['x']):
            # x counts from the lower edge: the left one for 0..180 degrees
            e = row_sky(xx, rot, l['gcr'])
            close(s[i], e, 0, 1e-9, f'sky, tilt {rot}, x={xx}')
            # the ground is what lies below the facing row's lower edge
            eg = row_sky(1 - xx, 180 - rot, l['gcr'])
            close(g[i], eg, 0, 1e-9, f'ground, tilt {rot}, x={xx}')
        sc = utils.vf_row_sky_2d(rot, l['gcr'], float(x[0]))
        require(np.ndim(sc) == 0, 'scalar in, scalar out')
        close(sc, s[0], 0, 0, 'scalar')
    if all(r in (0., 180.) for r in l['rot']):
        ctx.trivial()


@sub(lambda: fixed(l=layout(st.one_of(ROT, flt(-180, 180, (180, -180)))),
                   seg=st.one_of(st.none(), narrow(),
                                 st.lists(narrow(), min_size=1,
                                          max_size=3))), quick=200, shards=2)
def row_sky_mean(case, ctx):
    """integrated sky factor of a row segment = average of the pointwise
    one"""
    l, seg = case['l'], case['seg']
    rots = l['rot'][:1] if l['scalar'] else l['rot']
    segs, kw = [[0., 1.]], {}
    many = seg is not None and isinstance(seg[0], list)
    if many:
        segs = seg
        kw = dict(x0=np.array([s[0] for s in seg]),
                  x1=np.array([s[1] for s in seg]))
    elif seg is not None:
        segs, kw = [seg], dict(x0=seg[0], x1=seg[1])
    got = utils.vf_row_sky_2d_integ(rots[0] if l['scalar'] else
                                    np.array(rots), l['gcr'], **kw)
    shape = ((len(segs),) if many else ()) + (
        () if l['scalar'] else (len(rots),))
    require(np.shape(got) == shape, f'shape {np.shape(got)}, not {shape}')
    got = np.reshape(got, (len(segs), len(rots)))
    for i, s in enumerate(segs):
        for j, rot in enumerate(rots):
            e = r2.average(lambda x: row_sky(x, rot, l['gcr']), *s, 3)
            close(got[i, j], e, 0, 1e-6, f'segment {s} rotation {rot}')
    if not ((got > 0) & (got < 1)).any():
        ctx.trivial()


@sub(lambda: fixed(l=layout(st.one_of(ROT, flt(-180, 180, (180, -180)))),
                   x=st.one_of(st.none(), st.lists(segment(), min_size=1,
                                                   max_size=2)),
                   g=st.one_of(st.none(), st.lists(segment(), min_size=1,
                                                   max_size=2)),
                   rows=st.sampled_from([6, 10, 20])), quick=120, shards=6)
def row_ground_mean(case, ctx):
    """integrated factor from a row segment to a ground segment of every
    cell within the rows considered = average over the row segment of the
    exact pointwise view"""
    l = case['l']
    rots = l['rot'][:1] if l['scalar'] else l['rot'][:2]
    kw, xs, gs = {}, [[0., 1.]], [[0., 1.]]
    h, p = l['height'], l['pitch']
    if case['x'] is not None:
        xs = case['x']
        kw.update(x0=np.array([s[0] for s in xs]),
                  x1=np.array([s[1] for s in xs]))
    if case['g'] is not None:
        gs = case['g']
        kw.update(g0=np.array([s[0] for s in gs]),
                  g1=np.array([s[1] for s in gs]))
    if kw or l['scalar']:
        kw.update(height=h, pitch=p)
    # the documented defaults do not matter for whole row and ground
    got = utils.vf_row_ground_2d_integ(
        rots[0] if l['scalar'] else np.array(rots), l['gcr'],
        max_rows=case['rows'], **kw)
    shape = (((len(gs),) if case['g'] is not None else ())
             + ((len(xs),) if case['x'] is not None else ())
             + (() if l['scalar'] else (len(rots),)))
    require(np.shape(got) == shape, f'shape {np.shape(got)}, not {shape}')
    got = np.reshape(got, (len(gs), len(xs), len(rots)))
    within(got, 0, 1, 1e-9, 'vf')
    if case['x'] is None and case['g'] is None:
        # whole row and whole ground: independent of height
        h, p = 1., 1 / l['gcr']
    for a, s in enumerate(xs):
        for j, rot in enumerate(rots):
            e = [r2.mean_row_views(rot, l['gcr'], h, p, k, [g], *s)[1][0]
                 for k in (case['rows'] - 1, case['rows'] + 1)
                 for g in gs]
            n = len(gs)
            for i in range(n):
                require(e[i] - 2e-3 <= got[i, a, j] <= e[n + i] + 2e-3,
                        f'row {s} ground {gs[i]} rotation {rot}: '
                        f'{got[i, a, j]}, expected {e[i]}..{e[n + i]}')
    if not ((got > 0) & (got < 1)).any():
        ctx.trivial()


@sub(lambda: fixed(l=layout(uni(-180, 180)), n=st.integers(2, 6),
                   m=st.integers(2, 5)), quick=200)
def additivity(case, ctx):
    """segments add up to the whole, the mirrored scene sees the same, the
    sky and ground factors of the whole row sum to at most one"""
    l, n, m = case['l'], case['n'], case['m']
    rot = np.array(l['rot'])
    q = np.linspace(0, 1, n + 1)
    s = utils.vf_row_sky_2d_integ(rot, l['gcr'], q[:-1], q[1:])
    whole = utils.vf_row_sky_2d_integ(rot, l['gcr'])
    close(s.mean(axis=0), whole, 0, 1e-9, 'sky from row segments')
    close(utils.vf_row_sky_2d_integ(-rot, l['gcr'], q[:-1], q[1:])[::-1], s,
          0, 1e-9, 'mirrored row, sky')
    w = np.linspace(0, 1, m + 1)
    kw = dict(height=l['height'], pitch=l['pitch'], max_rows=15)
    g = utils.vf_row_ground_2d_integ(rot, l['gcr'], x0=q[:-1], x1=q[1:],
                                     g0=w[:-1], g1=w[1:], **kw)
    require(g.shape == (m, n, len(rot)), f'shape {g.shape}')
    gm = utils.vf_row_ground_2d_integ(rot, l['gcr'], **kw)
    close(g.sum(axis=0).mean(axis=0), gm, 0,
          2e-3 + .5 * (1 + l['height'] / l['pitch']) / 15,
          'ground by segments')
    # mirrored: cells -15..14 become -14..15: only far cells differ
    g2 = utils.vf_row_ground_2d_integ(-rot, l['gcr'], x0=q[:-1], x1=q[1:],
                                      g0=w[:-1], g1=w[1:],
                                      **{**kw, 'max_rows': 60})
    g3 = utils.vf_row_ground_2d_integ(rot, l['gcr'], x0=q[:-1], x1=q[1:],
                                      g0=w[:-1], g1=w[1:],
                                      **{**kw, 'max_rows': 60})
    close(g2[::-1, ::-1], g3, 0, 3e-3, 'mirrored row, ground')
    within(whole + gm, 0, 1, 2e-3, 'sky + ground')
    v = utils.vf_ground_sky_2d_integ(rot, l['gcr'], l['height'], l['pitch'],
                                     g0=w[:-1], g1=w[1:])
    vm = utils.vf_ground_sky_2d_integ(rot, l['gcr'], l['height'], l['pitch'])
    up = np.abs(rot) <= 90
    close(v.mean(axis=0)[up], vm[up], 0, 1e-6, 'sky from ground segments')
