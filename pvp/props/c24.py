"""C24 single-diode curves."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib import pvsystem

from ..cmp import (arr, close, require, same_index, snapshot, unchanged,
                   within)
from ..core import sub
from ..gen import fixed, flt, logflt, uni
from ..refs.diode import Diode

RULE = ('Random cells and modules (1 to 144 cells, ideal or lossy, from no '
        'light to three suns), as scalars, arrays, Series and mixtures; '
        'non-trivial = some light.')
ASSUMPTIONS = ['Physically sized parameters: nNsVth 0.02..0.06 V per cell, '
               'I0 1e-16..1e-5 A, Rs up to a few percent of Voc/Isc, Rsh at '
               'least 5 Voc/Isc.']
METHODS = ['lambertw', 'newton', 'brentq', 'chandrupatla']
NAMES = ['photocurrent', 'saturation_current', 'resistance_series',
         'resistance_shunt', 'nNsVth']


@st.composite
def cells(draw):
    n = draw(st.integers(1, 4))
    vec = [draw(st.booleans()) for _ in NAMES]
    if not any(vec):
        vec[draw(st.integers(0, 4))] = True
    form = draw(st.sampled_from(['scalar', 'array', 'series', 'series']))
    if form == 'scalar':
        n = 1
    ns = draw(st.sampled_from([1, 1, 36, 60, 72, 96, 144]))

    def col(j, s):
        m = n if vec[j] else 1
        v = draw(st.lists(s, min_size=m, max_size=m))
        return v if vec[j] else v * n
    il = col(0, st.one_of(flt(0, 12, (0., 5.)), uni(.05, 10), uni(.5, 10)))
    il = [0. if v < 1e-4 else v for v in il]
    i0 = col(1, logflt(1e-16, 1e-5))
    if draw(st.integers(0, 5)) == 0:
        # hardly any light: photocurrent like the saturation current
        il = [x if vec[0] and draw(st.booleans()) else y * f
              for x, y in zip(il, i0)
              for f in [draw(logflt(1e-2, 1e3))]] if vec[0] else \
            [max(i0) * draw(logflt(1e-2, 1e3))] * n
    a = [ns * v for v in col(4, uni(.02, .06))]
    # resistances sized by the brightest, most ideal row
    top = max(max(il), .1)
    r = min(x * math.log(top / y + 1) for x, y in zip(a, i0)) / top
    lo = draw(st.sampled_from([0., 1., 1., 1.]))
    rs = [v * r * lo for v in col(2, logflt(1e-4, .08))]
    r = max(x * math.log(top / y + 1) for x, y in zip(a, i0)) / top
    rsh = col(3, st.one_of(logflt(5, 1e4), logflt(5, 1e4), st.none()))
    rsh = [math.inf if v is None else v * r for v in rsh]
    nan = draw(st.sampled_from([None] * 5 + [j for j in range(5) if vec[j]]))
    if form != 'scalar' and nan is not None and n > 1:
        nan = [draw(st.integers(0, n - 1)), nan]
    else:
        nan = None
    return dict(rows=[list(v) for v in zip(il, i0, rs, rsh, a)], vec=vec,
                form=form, f=[draw(flt(0, 1, (0., .5, 1.)))
                              for _ in range(n)],
                nan=nan, one=[draw(st.integers(0, 3)) == 0 for _ in NAMES])


def missing(c, i, *values):
    """A missing parameter gives missing results, and only there."""
    nan = c.get('nan')
    if not nan or nan[0] != i:
        return False
    for v in values:
        require(np.isnan(v), f'result {v} although {NAMES[nan[1]]} is NaN')
    return True


def build(c, extra=None):
    rows = c['rows'][:1] if c['form'] == 'scalar' else c['rows']
    n = len(rows)
    idx = pd.Index(range(10, 10 + n), name='k') if n % 2 else \
        pd.date_range('2021-03-01 00:30', periods=n, freq='h', tz='UTC')
    kw = {}
    for j, k in enumerate(NAMES):
        v = [r[j] for r in rows]
        if c.get('nan') and c['nan'][1] == j:
            v[c['nan'][0]] = math.nan
        if c['form'] != 'scalar' and not c['vec'][j] and c['one'][j] \
                and c['form'] == 'array':
            kw[k] = np.array(v[:1])     # a constant as an array of one
        elif c['form'] == 'scalar' or not c['vec'][j]:
            kw[k] = v[0]
        elif c['form'] == 'array':
            kw[k] = np.array(v)
        else:
            kw[k] = pd.Series(v, idx)
    if extra is not None:
        extra = extra[:n]
        kw['x'] = (extra[0] if c['form'] == 'scalar' else np.array(extra)
                   if c['form'] == 'array' else pd.Series(extra, idx))
    return rows, kw, idx


def tol_v(r):
    return 1e-7 * (1 + r[4] * 20)


def at(out, i, k=None):
    v = out if k is None else out[k]
    a = arr(v)
    return a[i] if a.ndim else float(a)


@sub(lambda: fixed(c=cells(), method=st.sampled_from(METHODS)), quick=700,
     shards=4)
def curve(case, ctx):
    """singlediode: every point on the curve, maximum power, order"""
    c, method = case['c'], case['method']
    rows, kw, idx = build(c)
    before = snapshot(kw)
    out = pvsystem.singlediode(**kw, method=method)
    unchanged(before, kw, 'arguments')
    keys = ['i_sc', 'v_oc', 'i_mp', 'v_mp', 'p_mp', 'i_x', 'i_xx']
    require(list(out) == keys, f'keys {list(out)}')
    if c['form'] == 'scalar':
        for k in keys:
            require(np.ndim(out[k]) == 0, f'{k}: not a scalar')
    else:
        require(isinstance(out, pd.DataFrame), f'{type(out)}')
        if c['form'] == 'series':
            same_index(out, idx)
    for i, r in enumerate(rows):
        d = Diode(*r)
        o = {k: at(out, i, k) for k in keys}
        if missing(c, i, *o.values()):
            continue
        tv, ti = tol_v(r), 1e-6 * (1 + r[0])
        p = d.p(d.mpp_vd())
        close(o['i_sc'], d.i_at_v(0.), 1e-8, ti, f'i_sc {method} {r}')
        close(o['v_oc'], d.v_at_i(0.), 1e-8, tv, f'v_oc {method} {r}')
        close(o['p_mp'], p, 1e-7, 1e-7 * (1 + r[0] * r[4]),
              f'p_mp {method} {r}')
        close(o['i_mp'] * o['v_mp'], o['p_mp'], 1e-8, 1e-10, 'i v = p')
        within(o['v_mp'], 0, o['v_oc'], tv, f'v_mp {method} {r}')
        within(o['i_mp'], 0, o['i_sc'], ti, f'i_mp {method} {r}')
        close(o['i_mp'], d.i_at_v(o['v_mp']), 1e-6, ti, f'i_mp on curve {r}')
        close(o['i_x'], d.i_at_v(o['v_oc'] / 2), 1e-7, ti, f'i_x {method}')
        close(o['i_xx'], d.i_at_v((o['v_oc'] + o['v_mp']) / 2), 1e-6, ti,
              f'i_xx {method} {r}')
    ctx.label(method)
    if all(r[0] == 0 for r in rows):
        ctx.trivial()


@sub(lambda: fixed(c=cells(), method=st.sampled_from(METHODS),
                   ints=st.integers(0, 3).map(lambda i: i == 0)), quick=700,
     shards=4)
def current_at_voltage(case, ctx):
    """i_from_v on the curve, voltage between 0 and Voc (lambertw, newton:
    also reverse bias and beyond Voc)"""
    c, method = case['c'], case['method']
    rows = c['rows'][:1] if c['form'] == 'scalar' else c['rows']
    wide = method in ('lambertw', 'newton')
    v = []
    for r, f in zip(rows, c['f']):
        voc = Diode(*r).v_at_i(0.)
        v.append(voc * (-.3 + 1.32 * f if wide else f))
    v = whole(case, v)
    rows, kw, idx = build(c, v)
    kw['voltage'] = kw.pop('x')
    out = pvsystem.i_from_v(**kw, method=method)
    check_shape(out, c, len(rows))
    for i, r in enumerate(rows):
        if missing(c, i, at(out, i)):
            continue
        d = Diode(*r)
        e = d.i_at_v(v[i])
        close(at(out, i), e, 1e-7, 2e-6 * (1 + r[0]),
              f'{method} V={v[i]} {r}')
    ctx.label(method)
    if all(r[0] == 0 for r in rows):
        ctx.trivial()


def whole(case, v):
    """Whole numbers, passed as integers."""
    return [math.trunc(x) for x in v] if case['ints'] else v


def check_shape(out, c, n):
    if c['form'] == 'scalar':
        require(np.ndim(out) == 0, f'scalar in, shape {np.shape(out)} out')
    else:
        require(np.shape(out) == (n,), f'shape {np.shape(out)}, n={n}')


@sub(lambda: fixed(c=cells(), method=st.sampled_from(METHODS),
                   ints=st.integers(0, 3).map(lambda i: i == 0)), quick=700,
     shards=4)
def voltage_at_current(case, ctx):
    """v_from_i on the curve, current between 0 and Isc (lambertw, newton:
    also forward current), and inverse of i_from_v"""
    c, method = case['c'], case['method']
    rows = c['rows'][:1] if c['form'] == 'scalar' else c['rows']
    cur = []
    for r, f in zip(rows, c['f']):
        isc = Diode(*r).i_at_v(0.) if r[0] else 0.
        lo = -.2 if method in ('lambertw', 'newton') else 0.
        cur.append(isc * (lo + (.999 - lo) * f))
    cur = whole(case, cur)
    rows, kw, idx = build(c, cur)
    kw['current'] = kw.pop('x')
    out = pvsystem.v_from_i(**kw, method=method)
    check_shape(out, c, len(rows))
    for i, r in enumerate(rows):
        if missing(c, i, at(out, i)):
            continue
        close(at(out, i), Diode(*r).v_at_i(cur[i]), 1e-7, 10 * tol_v(r),
              f'{method} I={cur[i]} {r}')
    kw.pop('current')
    back = pvsystem.i_from_v(out, **kw, method='lambertw')
    for i, r in enumerate(rows):
        if missing(c, i, at(back, i)):
            continue
        close(at(back, i), cur[i], 1e-6, 1e-5 * (1 + r[0]),
              f'current at that voltage, {method} {r}')
    ctx.label(method)
    if all(r[0] == 0 for r in rows):
        ctx.trivial()


@sub(lambda: fixed(c=cells(), method=st.sampled_from(
    ['default', *METHODS[1:]]), ints=st.booleans()), quick=500, shards=2)
def max_power(case, ctx):
    """max_power_point is the maximum, for every method; whole-number
    photocurrents are ordinary numbers"""
    c, method = case['c'], case['method']
    if case['ints']:
        c = dict(c, rows=[[float(math.ceil(r[0])), *r[1:]]
                          for r in c['rows']], nan=None)
    rows, kw, idx = build(c)
    if case['ints']:
        p = kw['photocurrent']
        kw['photocurrent'] = int(p) if np.ndim(p) == 0 else p.astype(int)
        ctx.label('int')
    if method != 'default':
        kw['method'] = method
    out = pvsystem.max_power_point(**kw)
    require(list(out) == ['i_mp', 'v_mp', 'p_mp'], f'keys {list(out)}')
    if c['form'] == 'series' and c['vec'][0]:
        require(isinstance(out, pd.DataFrame), f'{type(out)}')
        same_index(out, idx)
    for i, r in enumerate(rows):
        d = Diode(*r)
        o = {k: at(out, i, k) for k in out}
        if missing(c, i, *o.values()):
            continue
        close(o['p_mp'], d.p(d.mpp_vd()), 1e-8, 1e-8 * (1 + r[0] * r[4]),
              f'p_mp {method} {r}')
        close(o['i_mp'] * o['v_mp'], o['p_mp'], 1e-9, 1e-12, 'i v = p')
        close(o['i_mp'], d.i_at_v(o['v_mp']), 1e-6, 1e-6 * (1 + r[0]),
              f'on the curve {method} {r}')
    if all(r[0] == 0 for r in rows):
        ctx.trivial()
