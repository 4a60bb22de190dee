"""C25 the explicit diode-voltage model."""
import math

import mpmath as mp
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib import singlediode as sd
from scipy.special import lambertw

from ..cmp import arr, close, raises, require, same_index, within
from ..core import sub
from ..elem import P, elem
from ..gen import fixed, flt, logflt, uni
from ..refs.diode import Diode

RULE = ('Random cells with and without recombination and breakdown, from '
        'reverse bias to beyond open circuit; non-trivial = some light.')
ASSUMPTIONS = ['Physically sized parameters; diode voltages below the '
               'built-in voltage and above the breakdown voltage.']
NAMES = ['photocurrent', 'saturation_current', 'resistance_series',
         'resistance_shunt', 'nNsVth', 'd2mutau', 'NsVbi',
         'breakdown_factor', 'breakdown_voltage', 'breakdown_exp']
METHODS = ['newton', 'brentq', 'chandrupatla']


@st.composite
def cells(draw, breakdown=True, ints=False, n=None):
    n = n or draw(st.integers(1, 3))
    form = draw(st.sampled_from(['scalar', 'array', 'series']))
    n = 1 if form == 'scalar' else n
    vec = [draw(st.booleans()) for _ in NAMES]
    if not any(vec):
        vec[draw(st.integers(0, 4))] = True
    ns = draw(st.sampled_from([1, 1, 60, 116]))

    def col(j, s):
        m = n if vec[j] else 1
        v = draw(st.lists(s, min_size=m, max_size=m))
        return v if vec[j] else v * n
    il = col(0, st.one_of(uni(.05, 10), uni(.5, 10), st.just(5.)))
    # open circuit at 0.4 .. 0.85 V per cell
    a = col(4, uni(.024, .05))
    i0 = col(1, uni(.4, .8))
    top = max(il)
    i0 = [top * math.exp(-v / max(a)) for v in i0]
    a = [ns * v for v in a]
    r = min(x * math.log(top / y + 1) for x, y in zip(a, i0)) / top
    lo = draw(st.sampled_from([0., 1., 1., 1.])) * r
    rs = [v * lo for v in col(2, logflt(1e-4, .08))]
    r = max(x * math.log(top / y + 1) for x, y in zip(a, i0)) / top
    rsh = [v * r for v in col(3, logflt(8, 1e4))]
    rec = draw(st.booleans())
    d2 = [v * ns for v in col(5, flt(0, .06, (0.,)) if rec
                               else st.just(0.))]
    nb = [v * ns for v in col(6, uni(.85, 1.2))] if rec else [math.inf] * n
    brk = breakdown and draw(st.booleans())
    bf = col(7, flt(1e-4, .1) if brk else st.just(0.))
    vb = [-v * ns for v in col(8, uni(4, 20) if brk else st.just(5.5))]
    be = col(9, uni(2, 4.5) if brk else st.just(3.28))
    return dict(rows=[list(v) for v in zip(il, i0, rs, rsh, a, d2, nb, bf,
                                           vb, be)],
                vec=vec, form=form, rec=rec, brk=brk,
                f=[draw(flt(0, 1, (0., .5, 1.))) for _ in range(n)])


def build(c, x):
    rows = c['rows']
    n = len(rows)
    idx = pd.date_range('2021-03-01 00:30', periods=n, freq='h', tz='UTC')

    def box(v):
        return (v[0] if c['form'] == 'scalar' else np.array(v)
                if c['form'] == 'array' else pd.Series(v, idx))
    kw = {}
    for j, k in enumerate(NAMES):
        if (j in (5, 6) and not c['rec']) or (j > 6 and not c['brk']):
            continue
        v = [r[j] for r in rows]
        kw[k] = box(v) if c['vec'][j] else v[0]
    return rows, kw, box(x) if x is not None else None, idx


def at(out, i):
    a = arr(out)
    return a[i] if a.ndim else float(a)


def jet(r, vd):
    """i, v, p and the derivatives asked for, from 40-digit arithmetic"""
    il, i0, rs, rsh, a, d2, nb, bf, vb, be = (mp.mpf(v) for v in r)

    def cur(x):
        y = il - i0 * mp.expm1(x / a) - x / rsh
        if d2 > 0:
            y -= il * d2 / (nb - x)
        if bf:
            y -= bf * x / rsh * (1 - x / vb)**-be
        return y
    with mp.workdps(40):
        x = mp.mpf(vd)
        c = mp.taylor(cur, x, 3)
        i, di, d2i = c[0], c[1], 2 * c[2]
        v, dv, d2v = x - i * rs, 1 - di * rs, -d2i * rs
        g = di / dv                      # di/dv
        # (d2i dv - di d2v)/dv^2: derivative of g along vd
        dg = (d2i * dv - di * d2v) / dv**2
        dp = v * g + i                   # dp/dv
        d2p = dv * g + v * dg + di       # d(dp/dv)/dvd
        return [float(z) for z in (i, v, i * v, di, dv, g, dp, d2p)]


@sub(lambda: fixed(c=cells(), g=st.booleans()), quick=500, shards=4)
def explicit(case, ctx):
    """current, voltage, power and gradients of a diode voltage"""
    c = case['c']
    vd = []
    for r, f in zip(c['rows'], c['f']):
        hi = r[4] * math.log(r[0] / r[1] + 1) * 1.05
        hi = min(hi, r[6] * .98 if c['rec'] else hi)
        lo = r[8] * .9 if c['brk'] else -.4 * hi
        vd.append(lo + (hi - lo) * f if f < .5 else hi * (2 * f - 1))
    rows, kw, x, idx = build(c, vd)
    out = sd.bishop88(x, **kw, gradients=case['g'])
    require(isinstance(out, tuple) and len(out) == (8 if case['g'] else 3),
            f'{len(out)} outputs')
    names = ['i', 'v', 'p', 'di/dvd', 'dv/dvd', 'di/dv', 'dp/dv',
             'd2p/dvdvd']
    for j, r in enumerate(rows):
        e = jet(r, vd[j])
        size = abs(r[0]) + abs(e[0])
        for k, (o, want) in enumerate(zip(out, e)):
            # cancellation between the current terms
            base = (size, abs(vd[j]) + size * r[2],
                    size * (abs(vd[j]) + size * r[2]))[k] if k < 3 else (
                        abs(want) + abs(e[3]) + abs(e[5]) + abs(e[6])
                        + (size + abs(vd[j] * e[5])) * (k == 6)
                        + (abs(e[5] * e[4]) + abs(e[3])) * (k == 7))
            close(at(o, j), want, 1e-8, 1e-10 * base,
                  f'{names[k]} vd={vd[j]} {r}')
    ctx.label('brk' if c['brk'] else 'plain', 'rec' if c['rec'] else '')


@sub(lambda: fixed(c=cells(), method=st.sampled_from(['default', *METHODS]),
                   full=st.booleans()), quick=500, shards=4)
def current_at_voltage(case, ctx):
    """bishop88_i_from_v is on the curve, for reverse bias too"""
    c, m = case['c'], case['method']
    newton = m in ('default', 'newton')
    v = []
    for r, f in zip(c['rows'], c['f']):
        d = Diode(*r)
        voc = d.v_at_i(0.)
        lo = 0.
        if newton:
            lo = .9 * r[8] if c['brk'] else -.5 * voc
        v.append(lo + (voc - lo) * f if f < .5 else voc * (2 * f - 1))
    rows, kw, x, idx = build(c, v)
    if m != 'default':
        kw['method'] = m
    out = sd.bishop88_i_from_v(x, **kw)
    if c['form'] == 'scalar':
        require(np.ndim(out) == 0, f'shape {np.shape(out)}')
    for j, r in enumerate(rows):
        close(at(out, j), Diode(*r).i_at_v(v[j]), 1e-6, 2e-6 * (1 + r[0]),
              f'{m} V={v[j]} {r}')
    if case['full'] and c['form'] == 'scalar':
        o2, more = sd.bishop88_i_from_v(
            x, **kw, method_kwargs={'full_output': True})
        close(o2, out, 0, 0, 'full output')
        require(len(more) == 2 or len(more) == 3, f'{more}')
    ctx.label('brk' if c['brk'] else 'plain', 'rec' if c['rec'] else '')


@sub(lambda: fixed(c=cells(), method=st.sampled_from(['default', *METHODS]),
                   full=st.booleans()), quick=500, shards=4)
def voltage_at_current(case, ctx):
    """bishop88_v_from_i is on the curve"""
    c, m = case['c'], case['method']
    cur = []
    for r, f in zip(c['rows'], c['f']):
        cur.append(.99 * f * max(Diode(*r).i_at_v(0.), 0))
    rows, kw, x, idx = build(c, cur)
    if m != 'default':
        kw['method'] = m
    out = sd.bishop88_v_from_i(x, **kw)
    if c['form'] == 'scalar':
        require(np.ndim(out) == 0, f'shape {np.shape(out)}')
    for j, r in enumerate(rows):
        close(at(out, j), Diode(*r).v_at_i(cur[j]), 1e-6,
              2e-5 * r[4], f'{m} I={cur[j]} {r}')
    if case['full'] and c['form'] == 'scalar':
        o2, more = sd.bishop88_v_from_i(
            x, **kw, method_kwargs={'full_output': True})
        close(o2, out, 0, 0, 'full output')
    ctx.label('brk' if c['brk'] else 'plain', 'rec' if c['rec'] else '')


@sub(lambda: fixed(c=cells(), method=st.sampled_from(['default', *METHODS]),
                   full=st.booleans()), quick=500, shards=4)
def max_power(case, ctx):
    """bishop88_mpp is the maximum power point of the curve"""
    c, m = case['c'], case['method']
    rows, kw, _, idx = build(c, None)
    if m != 'default':
        kw['method'] = m
    out = sd.bishop88_mpp(**kw)
    require(len(out) == 3, f'{len(out)} outputs')
    for j, r in enumerate(rows):
        d = Diode(*r)
        i, v, p = (at(o, j) for o in out)
        close(p, d.p(d.mpp_vd()), 1e-7, 1e-8 * (1 + r[0] * r[4]),
              f'{m} {r}')
        close(i * v, p, 1e-9, 1e-12, 'i v = p')
        close(i, d.i_at_v(v), 1e-6, 1e-6, 'on the curve')
    if case['full'] and c['form'] == 'scalar':
        o2, more = sd.bishop88_mpp(
            **kw, method_kwargs={'full_output': True})
        close(np.array(o2), np.array(out), 0, 0, 'full output')
    ctx.label('brk' if c['brk'] else 'plain', 'rec' if c['rec'] else '')


@sub(lambda: fixed(c=cells()), quick=30)
def unknown_method(case, ctx):
    """unknown methods are refused"""
    _, kw, x, _ = build(case['c'], [0.] * len(case['c']['rows']))
    for f, a in ((sd.bishop88_i_from_v, (x,)), (sd.bishop88_v_from_i, (x,)),
                 (sd.bishop88_mpp, ())):
        raises(NotImplementedError, f, *a, **kw, method='bisect',
               what=f.__name__)


elem(__name__, 'estimate_voc', sd.estimate_voc,
     dict(photocurrent=P(flt(0, 12)), saturation_current=P(
         logflt(1e-16, 1e-5)), nNsVth=P(flt(.02, 6))),
     lambda photocurrent, saturation_current, nNsVth: nNsVth * math.log(
         photocurrent / saturation_current + 1),
     positional=('photocurrent', 'saturation_current', 'nNsVth'),
     types={'series': None}, quick=200, doc='ideal cell Voc')


def approx(photocurrent, saturation_current, resistance_series,
           resistance_shunt, nNsVth):
    if photocurrent <= 0:
        return dict.fromkeys(['p_mp', 'i_mp', 'v_mp', 'i_sc', 'v_oc'], 0.)
    w = lambertw(math.e * photocurrent / saturation_current).real
    rs, rsh, a, il = (resistance_series, resistance_shunt, nNsVth,
                      photocurrent)
    imp = il * (1 - 1 / w) - a * (w - 1) / rsh
    vmp = a * (w - 1) - imp * rs
    return dict(p_mp=imp * vmp, i_mp=imp, v_mp=vmp,
                i_sc=il / (1 + rs / rsh),
                v_oc=a * math.log(il / saturation_current))


elem(__name__, 'batzelis', sd.batzelis,
     dict(photocurrent=P(flt(0, 12, (0, 5))),
          saturation_current=P(logflt(1e-14, 1e-6)),
          resistance_series=P(flt(0, 1, (0,))),
          resistance_shunt=P(st.one_of(logflt(10, 1e5), st.just(math.inf))),
          nNsVth=P(flt(.02, 6))), approx,
     # the printed logarithm of the ratio is negative below I0
     skip=lambda **k: 0 < k['photocurrent'] < 1e-3, rtol=1e-8,
     quick=400, types={'scalar': None}, doc='closed-form five points')


@sub(lambda: fixed(c=cells(breakdown=False, n=1)), quick=150)
def batzelis_near_exact(case, ctx):
    """the closed form is near the exact curve"""
    r = case['c']['rows'][0][:5]
    if r[3] < 30 * r[4] * math.log(r[0] / r[1]) / r[0] or r[1] > r[0] / 1e5:
        ctx.trivial()
        return
    d = Diode(*r)
    out = sd.batzelis(*r)
    close(float(out['p_mp']), d.p(d.mpp_vd()), .03, 0, f'p_mp {r}')
    close(float(out['i_sc']), d.i_at_v(0.), .02, 0, f'i_sc {r}')
    close(float(out['v_oc']), d.v_at_i(0.), .02, 0, f'v_oc {r}')
