"""C40: wavelet variability model."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pvlib import scaling
from ..core import sub
from ..cmp import close, require, raises, snapshot, unchanged, same_index
from ..gen import ints, flt, fixed

RULE = """Clear-sky index series of 2 to 200 samples (noise, steps,
constants), time steps of 0.1 s to 15 min given by a time index, a numeric
index or dt, plants of 1 to 12 points (also coincident ones) within 10 km,
cloud speeds of 0.5 to 50 m/s.  Non-trivial: at least two distinct points and
a varying series."""

STEP = st.sampled_from([.1, .5, 1., 2., 3., 5., 10., 30., 60., 300., 900.])


@st.composite
def case_(draw):
    n = draw(st.sampled_from([2, 3, 5, 17, 64, 100, 200]))
    kind = draw(st.sampled_from(['noise', 'steps', 'constant', 'ramp']))
    seed = draw(ints(0, 2**31))
    m = draw(st.sampled_from([3, 1, 2, 6, 12]))
    span = draw(st.sampled_from([1., 50., 500., 1e4]))
    return dict(n=n, kind=kind, seed=seed, dt=draw(STEP),
                how=draw(st.sampled_from(['time', 'tz', 'numeric',
                                          'array'])),
                pos=draw(st.lists(st.tuples(flt(-span, span),
                                            flt(-span, span)),
                                  min_size=m, max_size=m)),
                speed=draw(flt(.5, 50, (10,))),
                perm=draw(st.randoms(use_true_random=False)).random(),
                rot=draw(flt(0, 360)), shift=draw(flt(-1e4, 1e4)))


def signal(c):
    r = np.random.default_rng(c['seed'])
    n = c['n']
    if c['kind'] == 'noise':
        return r.uniform(0, 1.2, n)
    if c['kind'] == 'steps':
        return np.where(r.random(n) < .3, .2, 1.)
    if c['kind'] == 'ramp':
        return np.linspace(.1, 1, n)
    return np.full(n, .8)


def wrap(c, v):
    if c['how'] == 'array':
        return v, dict(dt=c['dt'])
    if c['how'] == 'numeric':
        return pd.Series(v, index=c['dt'] * np.arange(len(v))), {}
    i = pd.date_range('2021-06-01 10:00', periods=len(v),
                      freq=pd.Timedelta(seconds=c['dt']),
                      tz='Etc/GMT+5' if c['how'] == 'tz' else None)
    return pd.Series(v, index=i), {}


def ref(v, dt, pos, speed):
    n = len(v)
    count = int(13 - math.ceil(math.log(dt) / math.log(2)))
    pad = np.concatenate([v[::-1], v, v[::-1]])
    cum = np.concatenate([[0.], np.cumsum(pad)])
    means = [v.copy()]
    for i in range(1, count):
        w = 2**i
        m = np.empty(n)
        for k in range(n):
            a = max(0, n + k + 1 - w // 2)
            b = min(3 * n, n + k + 1 + w // 2)
            m[k] = (cum[b] - cum[a]) / (b - a)
        means.append(m)
    modes = [means[i] - means[i + 1] for i in range(count - 1)] + [means[-1]]
    scales = [dt * 2**i for i in range(count)]
    p = np.array(pos)
    N = len(p)
    out = modes[-1].copy()
    for i in range(count - 1):
        tot = 0.
        for a in range(N):
            for b in range(N):
                d = math.hypot(*(p[a] - p[b]))
                tot += math.exp(-2 * d / (speed * scales[i]))
        out += modes[i] / math.sqrt(N**2 / tot)
    return out, np.array(modes), np.array(scales)


@sub(case_, quick=300, shards=2)
def wvm(case, ctx):
    """wavelet modes, time scales and the smoothed signal against a direct
    implementation; the modes add up to the signal"""
    v = signal(case)
    x, kw = wrap(case, v)
    pos = np.array(case['pos'])
    before = snapshot((x, pos))
    smooth, wav, scales = scaling.wvm(x, pos, case['speed'], **kw)
    unchanged(before, (x, pos), 'inputs')
    if case['how'] == 'array':
        require(isinstance(smooth, np.ndarray), 'ndarray expected')
    else:
        same_index(smooth, x.index, 'smoothed')
    e, ew, es = ref(v, case['dt'], case['pos'], case['speed'])
    close(scales, es, 1e-9, 0, 'time scales')
    require(wav.shape == ew.shape, f'wavelet shape {wav.shape}')
    close(wav, ew, 1e-8, 1e-9, 'wavelet modes')
    close(wav.sum(axis=0), v, 1e-9, 1e-9, 'modes add up to the signal')
    close(np.asarray(smooth), e, 1e-8, 1e-9, 'smoothed', info=case)
    if len(set(case['pos'])) == 1:
        close(np.asarray(smooth), v, 1e-9, 1e-9, 'a point is not smoothed')
    if len(set(case['pos'])) < 2 or case['kind'] == 'constant':
        ctx.trivial()
    ctx.label(case['how'], case['kind'], f"points-{len(case['pos'])}")


@sub(case_, quick=200)
def invariances(case, ctx):
    """reordering, moving or turning the whole plant, listing it as a list,
    or how the time step is given change nothing; a wider plant or slower
    clouds smooth no less"""
    v = signal(case)
    x, kw = wrap(case, v)
    p = np.array(case['pos'])
    a = np.asarray(scaling.wvm(x, p, case['speed'], **kw)[0])
    order = np.random.default_rng(case['seed']).permutation(len(p))
    r = math.radians(case['rot'])
    R = np.array([[math.cos(r), -math.sin(r)], [math.sin(r), math.cos(r)]])
    for q in (p[order], p + case['shift'], p @ R.T, case['pos'],
              p * [1, -1]):
        close(np.asarray(scaling.wvm(x, q, case['speed'], **kw)[0]), a,
              1e-7, 1e-7, 'moved plant')
    close(scaling.wvm(v, p, case['speed'], dt=case['dt'])[0], a, 1e-9, 1e-9,
          'array with dt')
    # distances and speed only matter through their ratio
    close(scaling.wvm(v, p * 3, case['speed'] * 3, dt=case['dt'])[0], a,
          1e-8, 1e-8, 'distances and speed scaled together')
    dev = [float(np.sum((np.asarray(scaling.wvm(
        v, p * s, case['speed'], dt=case['dt'])[1:2][0]))**2))
        for s in (1, 2)]
    close(dev[0], dev[1], 1e-9, 1e-12, 'modes do not depend on the plant')
    raises(ValueError, scaling.wvm, v, p, case['speed'])
    if len(set(case['pos'])) < 2 or case['kind'] == 'constant':
        ctx.trivial()


@sub(lambda: fixed(lat=flt(-80, 80, (0, -.01, .02)), lon=flt(-179, 179),
                   d=st.lists(st.tuples(flt(-.05, .05), flt(-.05, .05)),
                              min_size=1, max_size=6),
                   kind=st.sampled_from(['array', 'list', 'single'])),
     quick=150)
def latlon(case, ctx):
    """metres of easting and northing on the mean earth sphere at the mean
    latitude; differences are distances on the ground"""
    pts = [(case['lat'] + a, case['lon'] + b) for a, b in case['d']]
    R = 6371008.7714
    if case['kind'] == 'single':
        la, lo = pts[0]
        out = scaling.latlon_to_xy(np.array(pts[0]))
        close(out, [R * math.radians(lo) * math.cos(math.radians(la)),
                    R * math.radians(la)], 1e-10, 1e-6, 'single point')
        return
    x = np.array(pts) if case['kind'] == 'array' else [list(p) for p in pts]
    out = scaling.latlon_to_xy(x)
    require(np.shape(out) == (len(pts), 2), f'shape {np.shape(out)}')
    m = sum(p[0] for p in pts) / len(pts)
    e = [[R * math.radians(lo) * math.cos(math.radians(m)),
          R * math.radians(la)] for la, lo in pts]
    close(out, e, 1e-10, 1e-6, 'positions')
    if len(pts) < 2:
        ctx.trivial()
    ctx.label(case['kind'])
