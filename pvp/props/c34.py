"""C34: conversion between thermal models."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pvlib import temperature as tm
from ..core import sub
from ..cmp import close, require, snapshot, unchanged, Fail
from ..gen import flt, fixed, opt, uni

RULE = """Module efficiency 0..0.4 and absorptance 0.5..1 (always more
absorbed than converted); thermal coefficients over and beyond the published
ranges, fit wind speeds anywhere; weather scalar, array or Series.  Histories:
sequences of use_*/to_*/call operations on one model object, compared after
each step with a model rebuilt from the recorded parameters alone.
Non-trivial: irradiance above zero, or a history of at least two use_
operations."""
ASSUMPTIONS = [
    'Absorptance exceeds efficiency (otherwise the module would cool in the '
    'sun and the conversion divides by zero).']

ETA, ALPHA = flt(0, .4, (.1, .2, 0)), flt(.5, 1, (.9, .88))
U0, U1 = flt(2, 60, (25, 15)), flt(0, 15, (6.84, 0))
UC, UV = flt(5, 60, (29, 15)), flt(0, 10, (0, 1.2))
NOCT = flt(25, 70, (45, 50))
SA, SB = flt(-4.5, -2, (-3.47, -2.81)), flt(-.2, -.005, (-.0594, -.0455))
WL = flt(0, 4, (1.4, 0))
DW = flt(.5, 8, (4,))
WX = fixed(mode=st.sampled_from(['scalar', 'array', 'series']),
           g=st.lists(flt(0, 1400), min_size=1, max_size=5),
           t=flt(-40, 50), w=flt(0, 25))


def wx(c):
    n = len(c['g'])
    w = [c['w'] * (1 + i) / n for i in range(n)]
    t = [c['t'] + i for i in range(n)]
    if c['mode'] == 'scalar':
        return c['g'][0], t[0], w[0]
    if c['mode'] == 'array':
        return np.array(c['g']), np.array(t), np.array(w)
    i = pd.date_range('2021-06-01', periods=n, freq='h', tz='UTC')
    return (pd.Series(c['g'], i), pd.Series(t, i), pd.Series(w, i))


def same_type(r, w):
    if isinstance(w[0], pd.Series):
        require(isinstance(r, pd.Series) and r.index.equals(w[0].index),
                'index of the weather lost')


def predict(case, ctx, model, eta, alpha, other):
    """model called on the weather equals other(weather)."""
    w = wx(case['wx'])
    before = [snapshot(x) for x in w]
    got = model(*w)
    for b, x in zip(before, w):
        unchanged(b, x, 'weather')
    same_type(got, w)
    close(got, other(*w), 1e-10, 1e-10, 'temperature predicted by the '
          'generic model', info=case)
    p = model.get_generic_linear()
    close(p['module_efficiency'], eta, 0, 0, 'module_efficiency')
    close(p['absorptance'], alpha, 0, 0, 'absorptance')
    close(tm.generic_linear(*w, **p), got, 1e-12, 1e-12,
          'get_generic_linear parameters')
    if not np.any(np.asarray(case['wx']['g']) > 0):
        ctx.trivial()
    ctx.label(case['wx']['mode'])


@sub(lambda: fixed(eta=ETA, alpha=ALPHA, u0=U0, u1=U1, wx=WX), quick=300)
def faiman(case, ctx):
    """same temperatures as faiman; round trip of the parameters"""
    m = tm.GenericLinearModel(case['eta'], case['alpha'])
    require(m.use_faiman(case['u0'], case['u1']) is m, 'use_ returns self')
    predict(case, ctx, m, case['eta'], case['alpha'],
            lambda g, t, w: tm.faiman(g, t, w, case['u0'], case['u1']))
    p = m.to_faiman()
    require(set(p) == {'u0', 'u1'}, f'keys {sorted(p)}')
    close([p['u0'], p['u1']], [case['u0'], case['u1']], 1e-11, 1e-12,
          'faiman round trip')


@sub(lambda: fixed(eta0=ETA, alpha0=ALPHA, eta=opt(ETA), alpha=opt(ALPHA),
                   u_c=UC, u_v=UV, wx=WX), quick=300)
def pvsyst(case, ctx):
    """same temperatures as pvsyst_cell with the efficiency and absorptance
    given or kept; round trip"""
    m = tm.GenericLinearModel(case['eta0'], case['alpha0'])
    kw = {}
    if case['eta'] is not None:
        kw['module_efficiency'] = case['eta']
    if case['alpha'] is not None:
        kw['alpha_absorption'] = case['alpha']
    eta = kw.get('module_efficiency', case['eta0'])
    alpha = kw.get('alpha_absorption', case['alpha0'])
    require(m.use_pvsyst(case['u_c'], case['u_v'], **kw) is m, 'returns self')
    predict(case, ctx, m, eta, alpha,
            lambda g, t, w: tm.pvsyst_cell(g, t, w, case['u_c'], case['u_v'],
                                           eta, alpha))
    p = m.to_pvsyst()
    require(set(p) == {'u_c', 'u_v', 'module_efficiency',
                       'alpha_absorption'}, f'keys {sorted(p)}')
    close([p['u_c'], p['u_v'], p['module_efficiency'],
           p['alpha_absorption']], [case['u_c'], case['u_v'], eta, alpha],
          1e-11, 1e-12, 'pvsyst round trip')
    ctx.label('given' if kw else 'kept')


@sub(lambda: fixed(eta0=ETA, alpha0=ALPHA, eta=opt(ETA), alpha=opt(ALPHA),
                   noct=NOCT, wx=WX), quick=300)
def noct_sam(case, ctx):
    """same temperatures as noct_sam for a free-standing one-storey array;
    round trip"""
    m = tm.GenericLinearModel(case['eta0'], case['alpha0'])
    kw = {}
    if case['eta'] is not None:
        kw['module_efficiency'] = case['eta']
    if case['alpha'] is not None:
        kw['transmittance_absorptance'] = case['alpha']
    eta = kw.get('module_efficiency', case['eta0'])
    alpha = kw.get('transmittance_absorptance', case['alpha0'])
    require(m.use_noct_sam(case['noct'], **kw) is m, 'returns self')
    predict(case, ctx, m, eta, alpha,
            lambda g, t, w: tm.noct_sam(
                g, t, w, case['noct'], eta, transmittance_absorptance=alpha))
    p = m.to_noct_sam()
    require(set(p) == {'noct', 'module_efficiency',
                       'transmittance_absorptance'}, f'keys {sorted(p)}')
    close([p['noct'], p['module_efficiency'],
           p['transmittance_absorptance']], [case['noct'], eta, alpha],
          1e-10, 1e-11, 'noct_sam round trip')
    ctx.label('given' if kw else 'kept')


@sub(lambda: fixed(eta=ETA, alpha=ALPHA, a=SA, b=SB, wl=opt(WL), dw=DW,
                   g=flt(100, 1400), t=flt(-40, 50), w=flt(0, 25)),
     quick=300)
def sapm(case, ctx):
    """equal to the SAPM at the two fit wind speeds, warmer outside and
    cooler in between (the SAPM loss is convex in wind), round trip"""
    m = tm.GenericLinearModel(case['eta'], case['alpha'])
    if case['wl'] is None:
        lo, hi, kw = 1.4, 5.4, {}
    else:
        lo = case['wl']
        hi = lo + case['dw']
        kw = dict(wind_fit_low=lo, wind_fit_high=hi)
    a, b = case['a'], case['b']
    require(m.use_sapm(a, b, **kw) is m, 'returns self')
    g, t = case['g'], case['t']

    def model(w):
        return tm.sapm_module(g, t, w, a, b)
    for w in (lo, hi):
        close(m(g, t, w), model(w), 1e-10, 1e-9, 'at the fit wind speed',
              info=case)
    p = m.to_sapm(**kw)
    require(set(p) == {'a', 'b'}, f'keys {sorted(p)}')
    close([p['a'], p['b']], [a, b], 1e-9, 1e-10, 'SAPM round trip')
    w = case['w']
    u = math.exp(-(a + b * lo)) + (
        math.exp(-(a + b * hi)) - math.exp(-(a + b * lo))) / (hi - lo) * (
        w - lo)
    if u > 1e-6:
        d = float(m(g, t, w) - model(w))
        if lo < w < hi:
            require(d <= 1e-9, f'warmer than SAPM by {d} between the fit '
                    'points')
            ctx.label('inside')
        else:
            require(d >= -1e-9, f'cooler than SAPM by {-d} outside the fit '
                    'points')
            ctx.label('outside')
    ctx.label('default-fit' if not kw else 'own-fit')


# ------------------------------------------------------------- histories
OP = st.one_of(
    fixed(op=st.just('faiman'), u0=U0, u1=U1),
    fixed(op=st.just('pvsyst'), u_c=UC, u_v=UV, eta=opt(ETA),
          alpha=opt(ALPHA)),
    fixed(op=st.just('noct_sam'), noct=NOCT, eta=opt(ETA),
          alpha=opt(ALPHA)),
    fixed(op=st.just('sapm'), a=SA, b=SB, wl=WL, dw=DW),
    fixed(op=st.sampled_from(['to_faiman', 'to_pvsyst', 'to_noct_sam',
                              'to_sapm', 'repr'])),
    fixed(op=st.just('call'), g=flt(1, 1400), t=flt(-40, 50), w=flt(0, 25),
          eta=opt(ETA)))


@sub(lambda: fixed(eta=ETA, alpha=ALPHA, ops=st.lists(OP, min_size=2,
                                                      max_size=8)),
     quick=400)
def history(case, ctx):
    """after any sequence of operations the object predicts and converts as
    one built from the last use_ operation and the efficiency and absorptance
    in force; queries and calls change nothing"""
    m = tm.GenericLinearModel(case['eta'], case['alpha'])
    other = tm.GenericLinearModel(.11, .77).use_faiman(20., 3.)
    keep = dict(vars(other))
    eta, alpha = case['eta'], case['alpha']
    uc = du = float('nan')      # loss factors
    uses = 0
    for o in case['ops']:
        k = o['op']
        if k == 'faiman':
            m.use_faiman(o['u0'], o['u1'])
            uc, du = o['u0'] * (alpha - eta), o['u1'] * (alpha - eta)
        elif k == 'pvsyst':
            m.use_pvsyst(o['u_c'], o['u_v'], module_efficiency=o['eta'],
                         alpha_absorption=o['alpha'])
            eta = eta if o['eta'] is None else o['eta']
            alpha = alpha if o['alpha'] is None else o['alpha']
            r = (alpha - eta) / (alpha * (1 - eta))
            uc, du = o['u_c'] * r, o['u_v'] * r
        elif k == 'noct_sam':
            m.use_noct_sam(o['noct'], module_efficiency=o['eta'],
                           transmittance_absorptance=o['alpha'])
            eta = eta if o['eta'] is None else o['eta']
            alpha = alpha if o['alpha'] is None else o['alpha']
            u = 800 * alpha / (o['noct'] - 20)
            uc, du = .6 * u, .4 * .51 * u
        elif k == 'sapm':
            hi = o['wl'] + o['dw']
            m.use_sapm(o['a'], o['b'], o['wl'], hi)
            ul = math.exp(-o['a'] - o['b'] * o['wl'])
            uh = math.exp(-o['a'] - o['b'] * hi)
            du = (uh - ul) / o['dw']
            uc = ul - du * o['wl']
            uc, du = uc * (alpha - eta), du * (alpha - eta)
        elif k == 'repr':
            require(repr(m).startswith('GenericLinearModel'), repr(m))
        elif k == 'call':
            e = eta if o['eta'] is None else o['eta']
            got = m(o['g'], o['t'], o['w'], **(
                {} if o['eta'] is None else dict(module_efficiency=e)))
            u = uc + du * o['w']
            if abs(u) > 1e-6 * (abs(uc) + abs(du)) or math.isnan(u):
                close(got, o['t'] + o['g'] * (alpha - e) / u, 1e-8, 1e-8,
                      'call', info=o)
        elif not math.isnan(uc):
            net = alpha - eta
            if k == 'to_faiman':
                close([*m.to_faiman().values()], [uc / net, du / net],
                      1e-9, 1e-9, k)
            elif k == 'to_pvsyst':
                p = m.to_pvsyst()
                r = net / (alpha * (1 - eta))
                close([p['u_c'], p['u_v'], p['module_efficiency'],
                       p['alpha_absorption']], [uc / r, du / r, eta, alpha],
                      1e-9, 1e-9, k)
            elif k == 'to_noct_sam':
                # one parameter: agrees at a module-height wind of 1 m/s
                if abs(uc + du / .51) > 1e-6 * (abs(uc) + abs(du)):
                    p = m.to_noct_sam()
                    close(p['noct'], 20 + 800 * alpha / (uc + du / .51),
                          1e-8, 1e-8, k)
            elif k == 'to_sapm':
                lo, hi = uc + 1.4 * du, uc + 5.4 * du
                if min(lo, hi) > 1e-6 * (abs(uc) + abs(du)):
                    p = m.to_sapm()
                    for w, u in ((1.4, lo), (5.4, hi)):
                        close(math.exp(p['a'] + p['b'] * w), net / u, 1e-8,
                              0, 'converted SAPM loss')
        uses += k in ('faiman', 'pvsyst', 'noct_sam', 'sapm')
        p = m.get_generic_linear()
        if set(p) != {'u_const', 'du_wind', 'module_efficiency',
                      'absorptance'}:
            raise Fail(f'keys {sorted(p)}')
        close([p['u_const'], p['du_wind'], p['module_efficiency'],
               p['absorptance']], [uc, du, eta, alpha], 1e-9, 1e-9,
              f'parameters after {k}', info=case)
        ctx.label(k)
    require(vars(other) == keep, 'another model object changed')
    if uses < 2:
        ctx.trivial()


@sub(lambda: fixed(eta=ETA, alpha=ALPHA, u0=U0, u1=U1, g=flt(1, 1400),
                   t=flt(-40, 50), w=flt(0, 25)), quick=200)
def chain_of_conversions(case, ctx):
    """faiman -> pvsyst -> faiman via the generic model: temperatures of all
    three agree; noct conversion agrees at 1 m/s; the SAPM conversion at the
    fit wind speeds"""
    g, t, w = case['g'], case['t'], case['w']
    eta, alpha = case['eta'], case['alpha']
    m = tm.GenericLinearModel(eta, alpha).use_faiman(case['u0'], case['u1'])
    t0 = tm.faiman(g, t, w, case['u0'], case['u1'])
    p = m.to_pvsyst()
    close(tm.pvsyst_cell(g, t, w, **p), t0, 1e-10, 1e-9, 'faiman as pvsyst')
    q = tm.GenericLinearModel(.3, .9).use_pvsyst(**p).to_faiman()
    close([q['u0'], q['u1']], [case['u0'], case['u1']], 1e-10, 1e-10,
          'faiman over pvsyst')
    n = m.to_noct_sam()
    close(tm.noct_sam(g, t, 1 / .51, **n),
          tm.faiman(g, t, 1 / .51, case['u0'], case['u1']), 1e-9, 1e-9,
          'faiman as noct_sam at 1 m/s')
    s = m.to_sapm()
    for v in (1.4, 5.4):
        close(tm.sapm_module(g, t, v, **s),
              tm.faiman(g, t, v, case['u0'], case['u1']), 1e-9, 1e-9,
              'faiman as SAPM at the fit wind speed')
