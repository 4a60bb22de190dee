"""C28 inverter models."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib import inverter

from ..cmp import arr, close, require, raises, same_index, snapshot, unchanged
from ..core import sub
from ..elem import NAN, P, S, elem, npmax, npmin
from ..gen import fixed, flt, logflt, opt

RULE = ('Random inverter parameter sets, powers (zero, below start-up, above '
        'rated) and voltages (outside limits, zero) in mixed containers, one '
        'to four inputs; non-trivial = a finite non-zero AC power.')

SANDIA = st.builds(
    lambda paco, e, v, ps, c0, c1, c2, c3, pnt: dict(
        Paco=paco, Pdco=paco / e, Vdco=v, Pso=ps * paco, C0=-c0 / paco,
        C1=c1, C2=c2, C3=c3, Pnt=pnt * paco),
    logflt(100, 1e6), flt(.9, .99), flt(50, 900), flt(0.001, .02),
    flt(-.05, .1), flt(-4e-4, 4e-4, (0, 1e-5, -1e-5)), flt(-5e-3, 5e-3), flt(-5e-3, 5e-3),
    flt(0, .002))


def rel(lo, hi, special):
    """fraction of the rated value"""
    return flt(lo, hi, special)


def sandia_eff(v, p, m):
    a = m['Pdco'] * (1 + m['C1'] * (v - m['Vdco']))
    b = m['Pso'] * (1 + m['C2'] * (v - m['Vdco']))
    c = m['C0'] * (1 + m['C3'] * (v - m['Vdco']))
    return (m['Paco'] / (a - b) - c * (a - b)) * (p - b) + c * (p - b)**2


def sandia_one(v, p, m):
    if p < m['Pso']:
        return -abs(m['Pnt'])
    return npmin(m['Paco'], sandia_eff(v, p, m))


FP = flt(-.01, 1.3, special=(0, .005, .01, .02, .5, 1))
FV = flt(.3, 1.5, special=(1,))


def sandia_call(idx, fv, fp, inv, series):
    m = pd.Series(inv) if series else inv
    return inverter.sandia(fv * inv['Vdco'], fp * inv['Pdco'], m)


def sandia_ref(fv, fp, inv, series):
    return sandia_one(fv * inv['Vdco'], fp * inv['Pdco'], inv)


def edge(fp, inv, **kw):
    return abs(fp * inv['Pdco'] - inv['Pso']) < 1e-9 * inv['Pso']


elem(__name__, 'sandia', inverter.sandia,
     dict(fv=P(FV, nan=True), fp=P(FP, nan=True), inv=S(SANDIA),
          series=S(st.booleans(), keep_none=True)), sandia_ref,
     call=sandia_call, skip=edge, quick=500, rtol=1e-9, atol=1e-7,
     label=lambda fp, inv, **k: 'tare' if fp * inv['Pdco'] < inv['Pso']
     else ('clipped' if sandia_ref(1., fp, inv, 0) >= inv['Paco'] else None),
     doc='the Sandia efficiency curve, clipped, with night tare')


# --------------------------------------------------------------------- ADR
ADR = st.builds(
    lambda pn, v, lo, hi, k, b, pnt, nanv: dict(
        Pnom=pn, Vnom=v, Pacmax=k * pn, Vmin=lo * v, Vmax=hi * v,
        Vdcmax=NAN if nanv & 1 else (hi + .1) * v,
        MPPTHi=NAN if nanv & 2 else (hi + .2) * v,
        MPPTLow=NAN if nanv & 4 else (lo + .05) * v,
        ADRCoefficients=b, Pnt=pnt * pn),
    logflt(100, 1e6), flt(50, 900), flt(.3, .9), flt(1, 1.5), flt(.9, 1.05),
    st.lists(flt(-.02, .03), min_size=9, max_size=9), flt(-.001, .002),
    st.integers(0, 7))


def nanmax(*x):
    return max(v for v in x if not math.isnan(v))


def adr_lim(inv, vtol):
    t = .1 if vtol is None else vtol
    return (nanmax(inv['Vmin'], inv['MPPTLow']) * (1 - t),
            nanmax(inv['Vmax'], inv['Vdcmax'], inv['MPPTHi']) * (1 + t))


def adr_ref(fv, fp, inv, vtol, form):
    v, p = fv * inv['Vnom'], fp * inv['Pnom']
    lo, hi = adr_lim(inv, vtol)
    x, y, b = p / inv['Pnom'], v / inv['Vnom'], inv['ADRCoefficients']
    tare = -abs(inv['Pnt'])
    if y == 0:
        return npmin(tare, inv['Pacmax'])
    if v > hi or v < lo:
        return NAN
    loss = sum(b[i] * x**i for i in range(3)) \
        + sum(b[3 + i] * x**i for i in range(3)) * (y - 1) \
        + sum(b[6 + i] * x**i for i in range(3)) * (1 / y - 1)
    return npmin(inv['Pacmax'], npmax(tare, inv['Pnom'] * (x - loss)))


def adr_call(idx, fv, fp, inv, form, **kw):
    m = dict(inv)
    if form == 'array':
        m['ADRCoefficients'] = np.array(m['ADRCoefficients'])
    if form == 'series':
        m = pd.Series(m)
    return inverter.adr(fv * inv['Vnom'], fp * inv['Pnom'], m, **kw)


def adr_skip(fv, inv, vtol, **kw):
    lo, hi = adr_lim(inv, vtol)
    v = fv * inv['Vnom']
    return abs(v - lo) < 1e-9 * lo or abs(v - hi) < 1e-9 * hi


elem(__name__, 'adr', inverter.adr,
     dict(fv=P(flt(0, 2, special=(0, 1)), nan=True), fp=P(FP, nan=True),
          inv=S(ADR), vtol=S(opt(flt(0, 1))),
          form=S(st.sampled_from(['list', 'array', 'series']))), adr_ref,
     call=adr_call, skip=adr_skip, quick=500, rtol=1e-9, atol=1e-7,
     label=lambda fv, inv, vtol, **k: 'night' if fv == 0 else (
         'inside' if adr_lim(inv, vtol)[0] <= fv * inv['Vnom']
         <= adr_lim(inv, vtol)[1] else 'outside'),
     doc='the ADR loss polynomial with voltage limits and night value')


# ----------------------------------------------------------------- PVWatts
def pvwatts_ref(pdc, pdc0, eta_inv_nom, eta_inv_ref):
    n = .96 if eta_inv_nom is None else eta_inv_nom
    r = .9637 if eta_inv_ref is None else eta_inv_ref
    z = pdc / pdc0
    if math.isnan(pdc):
        return NAN
    if z == 0:
        return 0.
    p = n / r * (-.0162 * z - .0059 / z + .9858) * pdc
    return max(0, min(n * pdc0, p))


def pvw_call(idx, pdc, pdc0, **kw):
    return inverter.pvwatts(pdc * pdc0, pdc0, **kw)


elem(__name__, 'pvwatts', inverter.pvwatts,
     dict(pdc=P(flt(-.02, 1.6, special=(0, .006, 1)), nan=True),
          pdc0=P(logflt(1, 1e6)), eta_inv_nom=P(flt(.8, 1)),
          eta_inv_ref=P(flt(.9, 1))),
     lambda pdc, pdc0, **kw: pvwatts_ref(pdc * pdc0, pdc0, **kw),
     call=pvw_call, modes=('scalar', 'array', 'series', 'array2d'),
     always=('pdc',), quick=500, rtol=1e-9, atol=1e-9,
     doc='the PVWatts efficiency curve, clipped at rated AC power')


# ------------------------------------------------------------- multi-input
def build(c, vals, kind):
    n = c['n']
    if kind == 'scalar':
        return [float(v[0]) for v in vals]
    if kind == 'int':
        return [int(v[0]) for v in vals]
    a = [np.array(v, float) for v in vals]
    if kind == 'array':
        return a
    idx = pd.date_range('2021-03-01', periods=n, freq='h', tz='Etc/GMT+7')
    return [pd.Series(x, idx) for x in a]


@st.composite
def multi(draw):
    k, n = draw(st.integers(1, 4)), draw(st.sampled_from([1, 2, 5]))
    return dict(k=k, n=n, inv=draw(SANDIA),
                fv=[draw(st.lists(FV, min_size=n, max_size=n))
                    for _ in range(k)],
                fp=[draw(st.lists(st.one_of(
                    flt(0, 1.2, special=(0, .003, .01)), flt(.85, 1.15)),
                    min_size=n, max_size=n)) for _ in range(k)],
                dark=draw(st.lists(st.booleans(), min_size=n, max_size=n)),
                kind=draw(st.sampled_from(['scalar', 'array', 'series',
                                           'int'])),
                tup=draw(st.booleans()), pdc0=draw(logflt(1, 1e6)),
                nom=draw(opt(flt(.8, 1))), ref=draw(opt(flt(.9, 1))))


@sub(multi, quick=400)
def sandia_multi(case, ctx):
    """inputs are weighted by their share of the total power, limits apply
    to the total; one input is the single-input model"""
    c, m = case, case['inv']
    fv = [[x * m['Vdco'] for x in r] for r in c['fv']]
    fp = [[0. if d else x * m['Pdco'] / c['k'] for x, d in zip(r, c['dark'])]
          for r in c['fp']]
    if c['kind'] == 'int':
        fv, fp = ([[int(x) for x in r] for r in z] for z in (fv, fp))
    v, p = build(c, fv, c['kind']), build(c, fp, c['kind'])
    if c['tup']:
        v, p = tuple(v), tuple(p)
    sv, sp = snapshot(list(v)), snapshot(list(p))
    res = inverter.sandia_multi(v, p, m)
    unchanged(sv, list(v), 'v_dc')
    unchanged(sp, list(p), 'p_dc')
    n = 1 if c['kind'] in ('scalar', 'int') else c['n']
    exp, ok = [], []
    for i in range(n):
        tot = sum(r[i] for r in fp)
        ok.append(abs(tot - m['Pso']) < 1e-9 * m['Pso'])
        if tot < m['Pso']:
            exp.append(-abs(m['Pnt']))
            ctx.label('tare')
        else:
            e = sum(a[i] / tot * sandia_eff(b[i], tot, m)
                    for a, b in zip(fp, fv))
            exp.append(min(m['Paco'], e))
            ctx.label('clipped' if e > m['Paco'] else 'working')
    if c['kind'] == 'series':
        same_index(res, p[0].index, 'result')
    if c['kind'] in ('scalar', 'int'):
        require(np.ndim(res) == 0, 'scalar in, scalar out')
    close(np.atleast_1d(arr(res)), exp, 1e-9, 1e-7, 'sandia_multi', ok=ok)
    if c['k'] == 1:
        close(arr(res), arr(inverter.sandia(v[0], p[0], m)), 1e-9, 1e-7,
              'one input')
        ctx.label('one input')
    raises(ValueError, inverter.sandia_multi, v, list(p) + [p[0]], m,
           what='different numbers of inputs')
    ctx.label(c['kind'])
    if not any(math.isfinite(x) and x > 0 for x in exp):
        ctx.trivial()


@sub(multi, quick=300)
def pvwatts_multi(case, ctx):
    """the PVWatts model of the total power"""
    c = case
    fp = [[0. if d else x * c['pdc0'] / c['k'] for x, d in zip(r, c['dark'])]
          for r in c['fp']]
    if c['kind'] == 'int':
        fp = [[int(x) for x in r] for r in fp]
    p = build(c, fp, c['kind'])
    p = tuple(p) if c['tup'] else p
    kw = {k: v for k, v in (('eta_inv_nom', c['nom']),
                            ('eta_inv_ref', c['ref'])) if v is not None}
    s = snapshot(list(p))
    res = inverter.pvwatts_multi(p, c['pdc0'], **kw)
    unchanged(s, list(p), 'pdc')
    n = 1 if c['kind'] in ('scalar', 'int') else c['n']
    exp = [pvwatts_ref(sum(r[i] for r in fp), c['pdc0'], c['nom'], c['ref'])
           for i in range(n)]
    if c['kind'] == 'series':
        same_index(res, p[0].index, 'result')
    close(np.atleast_1d(arr(res)), exp, 1e-9, 1e-9, 'pvwatts_multi')
    ctx.label(c['kind'])
    if not any(exp):
        ctx.trivial()


@sub(lambda: fixed(inv=SANDIA, adr=ADR, fv=FV, pdc0=logflt(1, 1e6),
                   fp=st.lists(flt(0, 3), min_size=3, max_size=8)),
     quick=200)
def rated_points(case, ctx):
    """rated input gives rated output, and no model exceeds it"""
    m, a = case['inv'], case['adr']
    close(inverter.sandia(m['Vdco'], m['Pdco'], m), m['Paco'], 1e-9, 0,
          'Sandia rated point')
    close(inverter.pvwatts(case['pdc0'], case['pdc0']), .96 * case['pdc0'],
          1e-4, 0, 'PVWatts rated point')
    fp = np.array(case['fp'])
    r = inverter.sandia(case['fv'] * m['Vdco'], fp * m['Pdco'], m)
    require((r <= m['Paco']).all(), 'Sandia above Paco')
    # the start-up power starts the inverter, less does not
    fv = case['fv'] * m['Vdco']
    p = np.array([m['Pso'], np.nextafter(m['Pso'], 0), .5 * m['Pso']])
    for g in (p, pd.Series(p), *map(float, p)):
        close(np.atleast_1d(arr(inverter.sandia(fv, g, m))),
              [sandia_one(fv, float(x), m) for x in np.atleast_1d(arr(g))],
              1e-9, 1e-7, 'at the start-up power')
    r = inverter.adr(np.full(len(fp), a['Vnom']), fp * a['Pnom'], a)
    require((r <= a['Pacmax']).all() and (r >= -abs(a['Pnt'])).all(),
            'ADR outside [-Pnt, Pacmax]')
    r = inverter.pvwatts(fp * case['pdc0'], case['pdc0'])
    require((r <= .96 * case['pdc0'] * (1 + 1e-12)).all() and (r >= 0).all(),
            'PVWatts outside [0, Pac0]')
