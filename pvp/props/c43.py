"""C43 IV-curve utilities."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib.ivtools.utils import astm_e1036, rectify_iv_curve

from ..cmp import close, require, snapshot, unchanged
from ..core import sub
from ..gen import ints, fixed, flt, opt
from ..refs.diode import Diode
from .c42 import MODULE, mod_of, points

RULE = ('Point sets with duplicates, missing and out-of-quadrant points '
        '(trivial when nothing remains), and noise-free curves of random '
        'modules sampled at random voltages in random order.')

V = st.one_of(st.integers(-3, 12).map(lambda k: k / 4), flt(-1, 50),
              ints(-20, 400).map(lambda k: k / 1000),
              st.sampled_from([None, 0., -0., 1e-9, 5.]))
CUR = st.one_of(st.integers(-2, 8).map(float), flt(-1, 10),
                st.sampled_from([None, 0.]))


@sub(lambda: fixed(pts=st.lists(st.tuples(V, CUR), min_size=1, max_size=25),
                   dec=st.sampled_from([None, None, 0, 1, 2, 3]),
                   form=st.sampled_from(['array', 'list', 'series',
                                         'tuple'])), quick=4000)
def rectify(case, ctx):
    """sorted first-quadrant points, one per (rounded) voltage with the
    average current"""
    pts = [[np.nan if x is None else x for x in p] for p in case['pts']]
    dec = case['dec']
    v, i = [p[0] for p in pts], [p[1] for p in pts]
    f = {'array': np.array, 'list': list, 'tuple': tuple,
         'series': lambda x: pd.Series(x, index=range(7, 7 + len(x)))}
    a = [f[case['form']](v), f[case['form']](i)]
    s = snapshot(a)
    kw = {} if dec is None else dict(decimals=dec)
    out = rectify_iv_curve(*a, **kw)
    unchanged(s, a, 'points')
    groups = {}
    for x, y in pts:
        if x >= 0 and y >= 0:
            k = x if dec is None else float(np.round(x, dec))
            groups.setdefault(k + 0., []).append(y)
    ks = sorted(groups)
    require(len(out) == 2, 'voltage and current')
    if not ks:
        ctx.trivial()
    if any(len(g) > 1 for g in groups.values()):
        ctx.label('duplicates')
    if len(ks) < len(v):
        ctx.label('fewer points')
    require(isinstance(out[0], np.ndarray) and out[0].ndim == 1 and
            isinstance(out[1], np.ndarray), 'arrays')
    close(out[0], ks, 1e-13, 0, 'voltage', info=case)
    close(out[1], [sum(groups[k]) / len(groups[k]) for k in ks], 1e-12,
          1e-15, 'current', info=case)


# ------------------------------------------------------------------- E1036
def fit(x, y, deg):
    """polynomial through scaled abscissae: returns (c, shift, scale)"""
    x, y = np.asarray(x), np.asarray(y)
    m, h = (x.max() + x.min()) / 2, (x.max() - x.min()) / 2
    u = (x - m) / h
    Qm, Rm = np.linalg.qr(np.vander(u, deg + 1, increasing=True))
    return np.linalg.solve(Rm, Qm.T @ y), m, h


def at0(x, y):
    c, m, h = fit(x, y, 1)
    return c[0] - c[1] * m / h


def ref(v, i, ilim, vlim, nv, ni, order):
    """(result, reason why it cannot be compared)"""
    p = v * i
    ki, kv = np.argmin(abs(i)), np.argmin(abs(v))
    voc0, isc0 = v[ki], i[kv]
    near = 1e-9

    def edge(x, y):
        return abs(x - y) < near * abs(y)
    if abs(i[ki]) and edge(abs(i[ki]), isc0 * .001) or \
            abs(v[kv]) and edge(abs(v[kv]), voc0 * .005):
        return None, 'limit'
    voc, isc = voc0, isc0
    lab = []
    if abs(i[ki]) > isc0 * .001:
        k = np.argsort(abs(i), kind='stable')[:nv]
        voc = at0(i[k], v[k])
        lab.append('voc fitted')
    if abs(v[kv]) > voc0 * .005:
        k = np.argsort(abs(v), kind='stable')[:ni]
        isc = at0(v[k], i[k])
        lab.append('isc fitted')
    o = np.sort(p)
    m = int(np.argmax(p))
    if len(p) > 1 and o[-1] - o[-2] < 1e-9 * o[-1]:
        return None, 'tie'
    mask = np.ones(len(v), bool)
    for x, r, lim in ((i, i[m], ilim), (v, v[m], vlim)):
        for b, s in zip(lim, (1, -1)):
            if np.any(abs(x - b * r) < near * r):
                return None, 'limit'
            mask &= s * (x - b * r) >= 0
    if mask.sum() < order + 3:
        return None, 'few points'
    c, sh, h = fit(v[mask], p[mask], order)
    d = c[1:] * np.arange(1, len(c))
    us = np.linspace(-1, 1, 4001)
    dv = np.polynomial.polynomial.polyval(us, d)
    best = None
    for k in np.nonzero(np.sign(dv[:-1]) != np.sign(dv[1:]))[0]:
        a, b = us[k], us[k + 1]
        fa = dv[k]
        for _ in range(60):
            q = (a + b) / 2
            fq = np.polynomial.polynomial.polyval(q, d)
            if (fq > 0) == (fa > 0):
                a = q
            else:
                b = q
        pm = np.polynomial.polynomial.polyval((a + b) / 2, c)
        if best is None or pm > best[0]:
            best = (pm, sh + h * (a + b) / 2)
    if best is None or abs(dv[0]) < 1e-6 * abs(dv).max() or \
            abs(dv[-1]) < 1e-6 * abs(dv).max():
        return None, 'no interior maximum'
    pm, vm = best
    return dict(voc=voc, isc=isc, vmp=vm, pmp=pm, imp=pm / vm,
                ff=pm / (voc * isc)), lab


@sub(lambda: fixed(
    npts=st.integers(40, 160), ends=st.sampled_from(
        ['exact', 'beyond', 'inside', 'mixed', 'close']), seed=ints(
            0, 10**6), reg=st.booleans(), ilim=opt(st.tuples(
                flt(.6, .9), flt(1.05, 1.3))),
    vlim=opt(st.tuples(flt(.6, .9), flt(1.05, 1.3))),
    nv=opt(st.integers(2, 6)), ni=opt(st.integers(2, 6)),
    order=opt(st.integers(2, 6)), form=st.sampled_from(
        ['array', 'list', 'series']), noise=st.sampled_from(
            [0, 0, .001, .01]), **MODULE()), quick=1500)
def astm(case, ctx):
    """the documented E1036 estimates whatever the order of the points,
    close to the true characteristic points of the curve"""
    c = case
    p = mod_of(c)
    d = Diode(*p)
    pt = points(p)
    rnd = np.random.default_rng(c['seed'])
    lo, hi = d.vd_at_v(0.), d.vd_at_i(0.)
    voc = pt['v_oc']
    a = {'exact': 0., 'beyond': -.03, 'inside': .04, 'mixed': .04,
         'close': .003}[c['ends']] * voc
    b = {'exact': 1., 'beyond': 1.01, 'inside': .985, 'mixed': 1.01,
         'close': .9999}[c['ends']] * voc
    n = c['npts']
    v = np.linspace(a, b, n)
    if not c['reg']:
        v[1:-1] += (b - a) / n * rnd.uniform(-.4, .4, n - 2)
    i = np.empty(n)
    for k, x in enumerate(v):
        i[k] = d.i_at_v(float(x))
    if c['ends'] == 'exact':
        i[-1] = 0.
    if c['noise']:
        i += c['noise'] * pt['i_sc'] * rnd.uniform(-1, 1, n)
        ctx.label('noise')
    kw = {}
    for k, nm in (('ilim', 'imax_limits'), ('vlim', 'vmax_limits'),
                  ('nv', 'voc_points'), ('ni', 'isc_points'),
                  ('order', 'mp_fit_order')):
        if c[k] is not None:
            kw[nm] = tuple(c[k]) if 'lim' in k else c[k]
    r, lab = ref(v, i, c['ilim'] or (.75, 1.15), c['vlim'] or (.75, 1.15),
                 c['nv'] or 3, c['ni'] or 3, c['order'] or 4)
    if r is None:
        ctx.label(lab)
        ctx.trivial()
        return
    ctx.label(*lab)
    f = {'array': np.array, 'list': list, 'series': pd.Series}[c['form']]
    for o in (np.arange(n), rnd.permutation(n)):
        args = [f(v[o]), f(i[o])]
        if c['form'] == 'series':
            for x in args:
                x.index = np.arange(n) * 3
        s = snapshot(args)
        out = astm_e1036(*args, **kw)
        unchanged(s, args, 'curve')
        require(set(out) == set(r) | {'mp_fit'}, f'keys {sorted(out)}')
        for k, x in r.items():
            close(out[k], x, 1e-6 if k in ('vmp', 'imp') else 1e-7, 0, k,
                  info=c)
        close(out['mp_fit'](out['vmp']), out['pmp'], 1e-9, 0, 'mp_fit')
        close(out['mp_fit'].deriv()(out['vmp']), 0, 0, 1e-6 * pt['i_sc'],
              'slope of mp_fit')
    if not set(kw) - {'isc_points'} and c['npts'] >= 50 and \
            not c['noise']:
        ctx.label('true points compared')
        close(out['voc'], pt['v_oc'], .03, 0, 'voc')
        close(out['isc'], pt['i_sc'], .01, 0, 'isc')
        close(out['pmp'], pt['v_mp'] * pt['i_mp'], .02, 0, 'pmp')
        close(out['vmp'], pt['v_mp'], .05, 0, 'vmp')
