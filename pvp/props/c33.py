"""C33 transient cell temperature models."""
import math
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib import temperature as tm

from ..cmp import close, raises, require, same_index, snapshot, unchanged
from ..core import sub
from ..gen import fixed, flt, logflt, opt, zone

RULE = ('Random series of 3-60 samples at intervals from 7 seconds to a '
        'day, gaps (missing values), zero irradiance, steps; non-trivial = '
        'smoothing or heating changed at least one sample.')
ASSUMPTIONS = ['prilliman needs equal time steps (documented); fuentes '
               'needs at least two samples.']

STEP = st.sampled_from([7, 30, 60, 60, 120, 180, 240, 300, 400, 420, 600,
                        601, 660, 900, 1199])
COEF = [.0046, .00046, -.00023, -1.6e-5]


def index(step, n, tz, start=1553990400):
    return pd.to_datetime(np.arange(n) * step + start, unit='s',
                          utc=True).tz_convert(tz)


@st.composite
def pril(draw):
    n = draw(st.integers(3, 40))
    # piecewise constant with jumps: what the model is for
    t, v = [], draw(flt(-20, 80))
    long = draw(st.integers(0, 5)) == 0
    if long:
        n *= 5
    for _ in range(n):
        if draw(st.integers(0, 20 if long else 2)) == 0:
            v = draw(flt(-20, 80))
        t.append(v)
    w = draw(st.lists(flt(0, 15, (0,)), min_size=n, max_size=n)
             if not long else st.lists(flt(0, 15), min_size=2, max_size=9)
             .map(lambda q: (q * n)[:n]))
    return dict(t=t, w=w, step=draw(STEP), tz=draw(zone),
                nt=draw(st.lists(st.integers(0, n - 1), max_size=4)),
                run=draw(st.integers(0, n)), nw=draw(
                    st.lists(st.integers(0, n - 1), max_size=2)),
                mass=draw(opt(flt(1, 25, (11.1,)))),
                coef=draw(opt(st.tuples(flt(.001, .01), flt(0, .001),
                                        flt(-3e-4, 1e-4),
                                        flt(-2e-5, 2e-5)).map(list))),
                nanrun=draw(st.integers(0, 4)) == 0)


def pril_ref(t, w, step, mass, coef):
    k = 1200 // step
    mass = 11.1 if mass is None else mass
    a = coef or COEF
    out = [t[0]]
    for i in range(1, len(t)):
        p = a[0] + a[1] * w[i] + a[2] * mass + a[3] * w[i] * mass
        num = den = 0.
        # the window of the shorter series never exceeds its length
        for j in range(max(0, i - min(k, len(t))), i):
            if not math.isnan(t[j]):
                e = math.exp(-p * (i - j) * step)
                num += t[j] * e
                den += e
        out.append(num / den if den > 0 and not math.isnan(p) else math.nan)
    return out


@sub(pril, quick=500)
def prilliman(case, ctx):
    """weighted mean of the preceding twenty minutes"""
    c = case
    t, w = list(c['t']), list(c['w'])
    for i in c['nt']:
        t[i] = math.nan
    if c['nanrun']:
        for i in range(min(c['run'], len(t)), len(t)):
            t[i] = math.nan
    for i in c['nw']:
        w[i] = math.nan
    idx = index(c['step'], len(t), c['tz'])
    ts, ws = pd.Series(t, index=idx), pd.Series(w, index=idx)
    kw = {}
    if c['mass'] is not None:
        kw['unit_mass'] = c['mass']
    if c['coef'] is not None:
        kw['coefficients'] = c['coef']
    s = snapshot([ts, ws, kw])
    got = tm.prilliman(ts, ws, **kw)
    unchanged(s, [ts, ws, kw], 'arguments')
    same_index(got, idx, 'prilliman')
    exp = pril_ref(t, w, c['step'], c['mass'], c['coef'])
    if c['step'] < 1200:
        close(got, exp, 1e-9, 1e-9, 'smoothed', info=c)
    d = np.nanmax(np.abs(np.array(exp) - t), initial=0)
    if d == 0:
        ctx.trivial()
    ctx.label('gaps' if any(map(math.isnan, t)) else 'complete')


@sub(lambda: fixed(step=st.sampled_from([1200, 1260, 1800, 3600, 7200,
                                         86400, 172800]),
                   t=st.lists(flt(-20, 80), min_size=3, max_size=10),
                   tz=st.sampled_from(['UTC', 'Etc/GMT+7', 'Asia/Tokyo'])),
     quick=60)
def prilliman_coarse(case, ctx):
    """samples twenty minutes or more apart are returned unchanged, with a
    warning"""
    c = case
    idx = index(c['step'], len(c['t']), c['tz'])
    ts = pd.Series(c['t'], index=idx)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        got = tm.prilliman(ts, ts * 0 + 1)
    require(any('20 minutes' in str(x.message) for x in w), 'no warning')
    close(got, c['t'], 0, 0, 'unchanged')
    same_index(got, idx, 'prilliman')


@sub(lambda: fixed(step=STEP, n=st.integers(3, 40), v=flt(-20, 80),
                   cut=st.integers(1, 39), w=flt(0, 12), mass=flt(2, 25),
                   t=st.lists(flt(-20, 80), min_size=40, max_size=40)),
     quick=120)
def prilliman_relations(case, ctx):
    """constants stay, the future has no influence, results lie within the
    window's range, shifting the temperatures shifts the result"""
    c = case
    n = c['n']
    idx = index(c['step'], n, 'UTC')
    ts = pd.Series(c['t'][:n], index=idx)
    ws = pd.Series(c['w'], index=idx)
    k = dict(unit_mass=c['mass'])
    const = tm.prilliman(ts * 0 + c['v'], ws, **k)
    close(const, np.full(n, c['v']), 1e-12, 1e-12, 'constant')
    a = tm.prilliman(ts, ws, **k)
    i = 1 + c['cut'] % (n - 1)
    future = ts.copy()
    future.iloc[i:] = -99.
    b = tm.prilliman(future, ws, **k)
    close(b.iloc[:i + 1], a.iloc[:i + 1], 1e-12, 1e-12, 'past')
    require((a <= ts.max() + 1e-9).all() and (a >= ts.min() - 1e-9).all(),
            'outside the range of the input')
    close(tm.prilliman(ts + 10, ws, **k) - 10, a, 1e-9, 1e-9, 'shift')


@sub(lambda: fixed(steps=st.lists(st.sampled_from([60, 120, 300]),
                                  min_size=3, max_size=8)), quick=20)
def prilliman_irregular(case, ctx):
    """unequal time steps are refused"""
    s = case['steps']
    if len(set(s)) == 1:
        s = s + [s[0] * 2]
    idx = pd.to_datetime(np.cumsum([0] + s), unit='s', utc=True)
    ts = pd.Series(20., index=idx)
    raises(NotImplementedError, tm.prilliman, ts, ts, what='irregular')


# ------------------------------------------------------------------ Fuentes
SB = 5.669e-8


def hconv(tave, wind, dt, xlen, tilt, check):
    dens = .003484 * 101325 / tave
    vis = .24237e-6 * tave**.76 / dens
    cond = 2.1695e-4 * tave**.84
    rey = wind * xlen / vis
    if check and rey > 1.2e5:
        st_ = .0282 / rey**.2 / .71**.4
    else:
        st_ = .86 / rey**.5 / .71**.67
    forced = st_ * dens * wind * 1007
    gr = 9.8 / tave * dt * xlen**3 / vis**2 * math.sin(math.radians(tilt))
    free = .21 * (gr * .71)**.32 * cond / xlen
    return (free**3 + forced**3)**(1 / 3)


def fuentes_ref(g, ta, w, dts, noct, module_height=5, wind_height=9.144,
                emissivity=.84, absorption=.83, surface_tilt=30,
                module_width=.31579, module_length=1.2):
    """module temperature history by the energy balance of Fuentes (1987):
    exponential approach, irradiance linear within each step"""
    e, a = emissivity, absorption
    xlen = 2 * module_width * module_length / (module_width + module_length)
    ti, t0 = noct + 273.15, 293.15
    hc = hconv((ti + t0) / 2, 1., ti - t0, xlen, surface_tilt, False)
    hg = e * SB * (ti**2 + t0**2) * (ti + t0)
    ratio = (a * 800 - e * SB * (ti**4 - 282.21**4) - hc * (ti - t0)) / (
        (hg + hc) * (ti - t0))
    tg4 = ti**4 - ratio * (ti**4 - t0**4)
    tg = min(max(tg4**.25 if tg4 > 0 else math.nan, t0), ti)
    tgrat = (tg - t0) / (ti - t0)
    convrat = (a * 800 - e * SB * (2 * ti**4 - 282.21**4 - tg**4)) / (
        hc * (ti - t0))
    cap = 11000 * (1 + (ti - 321.15) / 12 if ti > 321.15 else 1)
    out, told, sold = [], t0, 0.
    for gi, tai, wi, dt in zip(g, ta, w, dts):
        amb, sun = tai + 273.15, gi * a
        sky = .68 * .0552 * amb**1.5 + .32 * amb
        wind = wi * (module_height / wind_height)**.2 + 1e-4
        tm_ = told
        for _ in range(10):
            h1 = convrat * hconv((tm_ + amb) / 2, wind, abs(tm_ - amb), xlen,
                                 surface_tilt, True)
            h2 = e * SB * (tm_**2 + sky**2) * (tm_ + sky)
            gnd = amb + tgrat * (tm_ - amb)
            h3 = e * SB * (tm_**2 + gnd**2) * (tm_ + gnd)
            tot = h1 + h2 + h3
            x = -tot / cap * dt
            ex = math.exp(x) if x > -10 else 0.
            env = h1 * amb + h2 * sky + h3 * gnd
            # linear sun: solution of cap T' = env + sun(t) - tot T
            tm_ = told * ex + ((1 - ex) * (env + sold + (sun - sold) / x)
                               + sun - sold) / tot
        out.append(tm_ - 273.15)
        told, sold = tm_, sun
    return np.array(out)


OPTS = dict(module_height=flt(.5, 30, (5,)), wind_height=flt(2, 20),
            emissivity=flt(.5, .95, (.84,)), absorption=flt(.7, .95),
            surface_tilt=flt(1, 90), module_width=flt(.2, 4),
            module_length=flt(.5, 6))


@st.composite
def fuentes_case(draw):
    n = draw(st.integers(2, 30))

    def walk(lo, hi, sp):
        out, v = [], draw(flt(lo, hi, sp))
        for _ in range(n):
            if draw(st.integers(0, 1)):
                v = draw(flt(lo, hi, sp))
            out.append(v)
        return out
    regular = draw(st.booleans())
    s = draw(st.sampled_from([60, 300, 900, 3600, 3600, 7200]))
    steps = [s] * (n - 1) if regular else [
        draw(st.sampled_from([30, 60, 300, 900, 3600, 10800]))
        for _ in range(n - 1)]
    kw = {k: v for k, v in draw(fixed(**{k: opt(s) for k, s in
                                         OPTS.items()})).items()
          if v is not None} if draw(st.booleans()) else {}
    w = dict(g=walk(0, 1300, (0,)), t=walk(-30, 45, (0,)),
             w=walk(0, 20, (0,)))
    whole = draw(st.integers(0, 3)) == 0
    if whole:
        w = {k: [round(x) for x in v] for k, v in w.items()}
    return dict(**w, whole=whole, steps=steps, tz=draw(zone),
                noct=draw(flt(40, 65, (45, 48, 48.2, 48.6, 49))), kw=kw)


def fuentes_run(c, g=None, t=None, w=None, n=None):
    idx = pd.to_datetime(np.cumsum([1553990400] + c['steps']), unit='s',
                         utc=True).tz_convert(c['tz'])
    a = [pd.Series(np.array(x, int if c['whole'] else float),
                   index=idx)[:n] for x in
         (g or c['g'], t or c['t'], w or c['w'])]
    s = snapshot(a)
    out = tm.fuentes(*a, c['noct'], **c['kw'])
    unchanged(s, a, 'weather')
    same_index(out, idx[:n], 'fuentes')
    return out


@sub(fuentes_case, quick=200, shards=4)
def fuentes(case, ctx):
    """follows the published energy balance step by step"""
    c = case
    exp = fuentes_ref(c['g'], c['t'], c['w'], [c['steps'][0]] + c['steps'],
                      c['noct'], **c['kw'])
    got = fuentes_run(c)
    require(got.name == 'tmod', f'name {got.name}')
    if not np.isfinite(exp).all() or np.abs(exp).max() > 300:
        ctx.trivial()
        return
    close(got, exp, 1e-7, 1e-6, 'tmod', info=c)
    ctx.label('irregular' if len(set(c['steps'])) > 1 else 'regular')


@sub(fuentes_case, quick=60, shards=4)
def fuentes_relations(case, ctx):
    """depends only on the past; in the dark it settles between sky and air
    temperature; more sun never cools"""
    c = case
    c = {**c, 'whole': False, 'kw': {k: v for k, v in c['kw'].items() if k in
                     ('module_height', 'wind_height')}}
    base = fuentes_run(c)
    n = len(c['g'])
    k = max(2, n // 2)
    close(fuentes_run(c, n=k), base.iloc[:k], 1e-12, 1e-12, 'prefix')
    more = fuentes_run(c, g=[x + 100 for x in c['g']])
    require((more.to_numpy() >= base.to_numpy() - 1e-6).all(),
            'more sun cools the module')
    # long dark calm period
    t = c['t'][0]
    dark = {**c, 'steps': [3600] * 40}
    out = fuentes_run(dark, g=[0.] * 41, t=[t] * 41, w=[2.] * 41)
    amb = t + 273.15
    sky = .68 * .0552 * amb**1.5 + .32 * amb - 273.15
    require(min(sky, t) - 1e-6 <= out.iloc[-1] <= max(sky, t) + 1e-6,
            f'{out.iloc[-1]} outside sky {sky} .. air {t}')
