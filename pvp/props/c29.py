"""C29 fitting procedures."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib import iam, inverter, pvarray
from pvlib.ivtools import sdm

from ..cmp import close, raises, require, snapshot, unchanged
from ..core import sub
from ..gen import ints, fixed, flt, logflt, opt
from ..refs.diode import Diode

RULE = ('Noise-free data generated from random parameters at random (and '
        'shuffled) measurement conditions; every case fits and is '
        'non-trivial.')
ASSUMPTIONS = ('Generating parameters are ordinary (a_r 0.08-0.22, n '
               '1.2-1.6, L 0.5-8 mm), and the physical model is fitted with '
               'the default weights: scipy\'s Powell search is only locally '
               'convergent outside.')

KE = 8.617333262145e-5


def shuffled(n, seed):
    return np.random.default_rng(seed).permutation(n)


SEED = ints(0, 10**6)


# ------------------------------------------------------------ Sandia curve
@sub(lambda: fixed(
    paco=logflt(100, 1e6), eff=flt(.9, .99), v=flt(50, 900),
    lo=flt(.5, .9), hi=flt(1.1, 1.6), ps=flt(.001, .02),
    c0=flt(.002, .08), sgn=st.sampled_from([-1, -1, 1]), c1=flt(-1e-4, 1e-4),
    c2=flt(-3e-3, 3e-3), c3=flt(-1e-3, 1e-3), pnt=flt(0, .002),
    np_=st.lists(st.lists(flt(.03, 1.1, grid=50), min_size=3, max_size=9,
                          unique_by=lambda x: round(x, 2)), min_size=3,
                 max_size=3),
    seed=SEED, series=st.booleans()), quick=300)
def fit_sandia(case, ctx):
    """recovers every coefficient of the generating inverter, in any order
    of the measurements"""
    c = case
    par = dict(Paco=c['paco'], Pdco=c['paco'] / c['eff'], Vdco=c['v'],
               Pso=c['ps'] * c['paco'], C0=c['sgn'] * c['c0'] / c['paco'],
               C1=c['c1'], C2=c['c2'], C3=c['c3'], Pnt=c['pnt'] * c['paco'])
    rows = []
    for name, vv, ps in zip(('Vmin', 'Vnom', 'Vmax'),
                            (c['lo'], 1., c['hi']), c['np_']):
        v = vv * c['v']
        x = v - par['Vdco']
        A = par['Pdco'] * (1 + par['C1'] * x)
        B = par['Pso'] * (1 + par['C2'] * x)
        C = par['C0'] * (1 + par['C3'] * x)
        for q in ps:
            p = q * par['Pdco']
            ac = (par['Paco'] / (A - B) - C * (A - B)) * (p - B) \
                + C * (p - B)**2
            rows.append((ac, p, v, name))

    def fit(order):
        r = [rows[i] for i in order]
        cols = [np.array([x[k] for x in r]) for k in range(4)]
        if c['series']:
            cols = [pd.Series(x) for x in cols]
        s = snapshot(cols)
        out = inverter.fit_sandia(*cols, par['Paco'], par['Pnt'])
        unchanged(s, cols, 'measurements')
        return out
    a = fit(range(len(rows)))
    b = fit(shuffled(len(rows), c['seed']))
    require(set(a) == set(par), f'parameters {sorted(a)}')
    spread = min(max(p) - min(p) for p in c['np_'])
    if spread < .15:
        ctx.label('ill-conditioned')
        ctx.trivial()
        return
    tol = dict(Paco=(0, 0), Pnt=(0, 0), Vdco=(1e-9, 0), Pdco=(1e-5, 0),
               Pso=(1e-5, 1e-7 * par['Paco']), C0=(1e-4, 0),
               C1=(1e-5, 1e-8), C2=(1e-3, 1e-6), C3=(1e-3, 1e-6))
    for f, how in ((a, ''), (b, ' (shuffled)')):
        for k, (r, t) in tol.items():
            close(f[k], par[k], r, t, k + how, info=c)


# --------------------------------------------------------------------- ADR
GRID = st.sampled_from([
    ([100, 200, 400, 600, 800, 1000, 1100], [15, 25, 50, 75]),
    ([50, 150, 300, 700, 1000], [5, 25, 45, 65]),
    ([100, 250, 500, 750, 1000, 1200], [25, 60])])


@sub(lambda: fixed(k_a=flt(5, 100), k_d=flt(-10, -3), tc_d=flt(0, .06),
                   k_rs=flt(0, .2), k_rsh=flt(0, .4), grid=GRID, seed=SEED,
                   form=st.sampled_from(['array', 'list', 'series', '2d']),
                   dic=st.sampled_from([None, True, False])), quick=120)
def fit_adr(case, ctx):
    """the fitted ADR model reproduces the efficiencies it was fitted to"""
    c = case
    names = ['k_a', 'k_d', 'tc_d', 'k_rs', 'k_rsh']
    par = {k: c[k] for k in names}
    g, t = (x.ravel() for x in np.meshgrid(*c['grid']))
    o = shuffled(len(g), c['seed'])
    g, t = g[o].astype(float), t[o].astype(float)
    e = pvarray.pvefficiency_adr(g, t, **par)
    args = [g, t, e]
    if c['form'] == 'list':
        args = [list(x) for x in args]
    elif c['form'] == 'series':
        args = [pd.Series(x, index=o) for x in args]
    elif c['form'] == '2d':
        args = [x.reshape(-1, 2) if len(x) % 2 == 0 else x for x in args]
    s = snapshot(args)
    kw = {} if c['dic'] is None else dict(dict_output=c['dic'])
    q = pvarray.fit_pvefficiency_adr(*args, **kw)
    unchanged(s, args, 'arguments')
    if c['dic'] is False:
        require(len(q) == 5 and not isinstance(q, dict), 'array output')
        q = dict(zip(names, q))
    require(set(q) == set(names), 'names of parameters')
    e2 = pvarray.pvefficiency_adr(g, t, **q)
    close(e2, e, 2e-4, 2e-5 * c['k_a'], 'efficiency', info=c)
    close(q['k_a'], par['k_a'], 2e-4, 0, 'k_a')
    ctx.label(c['form'])


@sub(lambda: fixed(k_a=flt(5, 100), k_d=flt(-9, -3), tc_d=flt(.01, .06),
                   k_rs=flt(.01, .2), k_rsh=flt(.01, .4), grid=GRID,
                   pin=st.sampled_from(['k_d', 'tc_d', 'k_rs', 'k_rsh'])),
     quick=40)
def fit_adr_options(case, ctx):
    """options for the optimiser are passed on: bounds that exclude the
    generating value are kept"""
    c = case
    names = ['k_a', 'k_d', 'tc_d', 'k_rs', 'k_rsh']
    g, t = (x.ravel().astype(float) for x in np.meshgrid(*c['grid']))
    e = pvarray.pvefficiency_adr(g, t, **{k: c[k] for k in names})
    lo = dict(k_a=0., k_d=-12., tc_d=-.1, k_rs=0., k_rsh=0.)
    hi = dict(k_a=np.inf, k_d=0., tc_d=.1, k_rs=1., k_rsh=1.)
    p0 = dict(k_a=e.max(), k_d=-6., tc_d=0., k_rs=1e-3, k_rsh=1e-3)
    k = c['pin']
    hi[k] = c[k] - .2 * abs(c[k])
    p0[k] = (max(lo[k], -12) + hi[k]) / 2
    q = pvarray.fit_pvefficiency_adr(
        g, t, e, bounds=[[x[n] for n in names] for x in (lo, hi)],
        p0=[p0[n] for n in names])
    require(q[k] <= hi[k] + 1e-9 * abs(hi[k]) + 1e-12,
            f'{k} = {q[k]} beyond the bound {hi[k]}')


# --------------------------------------------------------------------- IAM
def params(kind, mid=False):
    if kind == 'ashrae':
        return fixed(b=flt(.01, .2))
    if kind == 'martin_ruiz':
        return fixed(a_r=flt(.08, .22))
    return fixed(n=flt(1.2, 1.6), K=st.just(4), L=flt(.0005, .008))


MODELS = ['ashrae', 'martin_ruiz', 'physical']


def beam(model, aoi, p):
    """the models, independently of pvlib"""
    out = []
    for x in np.atleast_1d(aoi):
        c = math.cos(math.radians(min(abs(x), 90)))
        if abs(x) >= 90:
            out.append(0.)
        elif model == 'ashrae':
            out.append(max(0, 1 - p['b'] * (1 / c - 1)))
        elif model == 'martin_ruiz':
            out.append((1 - math.exp(-c / p['a_r']))
                       / (1 - math.exp(-1 / p['a_r'])))
        else:
            n, kl = p['n'], p['K'] * p['L']
            s = math.sqrt(1 - c * c) / n
            if s > 1:
                out.append(0.)
                continue
            cr = math.sqrt(1 - s * s)
            if n == 1:
                tau = 1.
            else:
                tau = 1 - .5 * (((c - n * cr) / (c + n * cr))**2
                                + ((cr - n * c) / (cr + n * c))**2)
            t0 = 1 - ((1 - n) / (1 + n))**2
            out.append(tau * math.exp(-kl / cr) / (t0 * math.exp(-kl))
                       if cr > 0 else 0.)
    return np.array(out)


def weights(kind, aoi):
    w = {'sin': 1 - np.sin(np.radians(aoi)), 'one': np.ones(len(aoi)),
         'cos': np.cos(np.radians(aoi))}[kind]
    return w * ((aoi >= 0) & (aoi <= 90))


WF = {'sin': None, 'one': lambda a: np.ones(len(a)),
      'cos': lambda a: np.cos(np.radians(a))}


def cost(y, model, aoi, p, w):
    return float(np.sum(w * np.abs(y - beam(model, aoi, p))))


class GaveUp(Exception):
    pass


def powell(fn, *a, **kw):
    """scipy's bounded Powell search raises from inside scipy when an
    iteration does not move the point (a scipy defect); pvlib reports other
    failures of the search as RuntimeError"""
    try:
        return fn(*a, **kw)
    except ValueError as e:
        if 'zero-size array to reduction' in str(e):
            raise GaveUp from e
        raise
    except RuntimeError as e:
        if 'Optimizer exited unsuccessfully' in str(e):
            raise GaveUp from e
        raise


@sub(lambda: st.sampled_from(MODELS).flatmap(lambda m: fixed(
    model=st.just(m), p=params(m), step=st.sampled_from([1, 3, 5, 10]),
    seed=SEED, weight=st.sampled_from(
        ['sin'] if m == 'physical' else ['sin', 'one', 'cos']),
    outside=st.booleans())), quick=120)
def fit_iam(case, ctx):
    """fitting a model to its own values reproduces them; values outside 0
    to 90 degrees have no influence; order does not matter"""
    c, m = case, case['model']
    aoi = np.arange(0, 90.5, c['step'])
    y = beam(m, aoi, c['p'])
    f = getattr(iam, m)
    kw = {} if WF[c['weight']] is None else dict(weight=WF[c['weight']])
    x, z = aoi, y
    if c['outside']:
        x = np.concatenate([aoi, [-85., -20., 95., 120.], [-40.] * 60,
                            [100.] * 60])
        z = np.concatenate([y, [.9, .3, .8, 2.], [.5] * 60, [.7] * 60])
    try:
        q = powell(iam.fit, x, z, m, **kw)
        o = shuffled(len(aoi), c['seed'])
        q2 = powell(iam.fit, aoi[o], y[o], m, **kw)
    except GaveUp:
        ctx.label('scipy failed')
        ctx.trivial()
        return
    require(set(q) == set(c['p']), f'parameters {sorted(q)}')
    close(f(aoi, **q), y, 0, .03 if m == 'physical' else 4e-3, f'{m} fitted {q}', info=c)
    close(f(aoi, **q2), y, 0, .03 if m == 'physical' else 4e-3, f'{m} fitted shuffled', info=c)
    ctx.label(m)


@sub(lambda: st.permutations(MODELS).flatmap(lambda m: fixed(
    src=st.just(m[0]), dst=st.just(m[1]),
    p=fixed(a_r=flt(.08, .45)) if m[:2] == ['martin_ruiz', 'physical']
    else params(m[0]),
    weight=st.sampled_from(
        ['sin'] if m[1] == 'physical' else ['sin', 'one', 'cos']),
    fix_n=st.sampled_from([None, True, False]))), quick=120, thorough=1200)
def convert_iam(case, ctx):
    """the converted parameters minimise the documented weighted deviation
    between the models (compared with a grid search)"""
    c, d = case, case['dst']
    aoi = np.linspace(0, 90, 91)
    y = beam(c['src'], aoi, c['p'])
    w = weights(c['weight'], aoi)
    kw = {} if WF[c['weight']] is None else dict(weight=WF[c['weight']])
    if c['fix_n'] is not None:
        kw['fix_n'] = c['fix_n']
    p = dict(c['p'])
    try:
        q = powell(iam.convert, c['src'], p, d, **kw)
    except GaveUp:
        ctx.label('scipy failed')
        ctx.trivial()
        return
    require(p == c['p'], 'source parameters modified')
    r = cost(y, d, aoi, q, w)
    if d == 'ashrae':
        grid = [dict(b=b) for b in np.linspace(1e-4, .6, 150)]
    elif d == 'martin_ruiz':
        grid = [dict(a_r=b) for b in np.linspace(1e-3, .8, 150)]
    elif c['src'] == 'ashrae' and c['fix_n'] is not False:
        n = math.sin(math.acos(c['p']['b'] / (1 + c['p']['b'])))
        close(q['n'], n, 1e-6, 0, 'fixed n')
        ctx.label('fixed n')
        grid = [dict(n=n, K=4, L=x) for x in np.linspace(1e-6, .08, 60)]
    else:
        lo = 1.05 if c['src'] == 'martin_ruiz' else .95
        grid = [dict(n=n, K=4, L=x) for n in np.linspace(lo, 2, 16)
                for x in np.linspace(1e-6, .08, 16)]
    require(set(q) == set(grid[0]), f'parameters {sorted(q)}')
    best = min(cost(y, d, aoi, g, w) for g in grid)
    slack = .02 if d != 'physical' else .035 if c['src'] == 'martin_ruiz' \
        else .12
    require(r <= best * 1.05 + slack, f'{c["src"]} -> {d}: {q} deviates by '
            f'{r}, a grid search finds {best}')
    ctx.label(f'{c["src"]}->{d}')


@sub(lambda: fixed(m=st.sampled_from(MODELS),
                   bad=st.sampled_from(['schlick', 'sapm', 'nope'])),
     quick=10)
def iam_rejects(case, ctx):
    """models without fit support and wrong parameter names are rejected"""
    m, bad = case['m'], case['bad']
    aoi = np.arange(0, 91, 10.)
    raises(NotImplementedError, iam.fit, aoi, aoi / 90, bad, what='fit')
    raises(NotImplementedError, iam.convert, bad, {'b': .1}, m, what='src')
    raises(NotImplementedError, iam.convert, 'ashrae', {'b': .1}, bad,
           what='dst')
    raises(ValueError, iam.convert, m, {'zz': .1}, 'ashrae', what='names')
    good = {'ashrae': {'b': .1}, 'martin_ruiz': {'a_r': .2},
            'physical': {'n': 1.4, 'K': 4., 'L': .002}}[m]
    to = 'ashrae' if m != 'ashrae' else 'martin_ruiz'
    raises(ValueError, iam.convert, m, {**good, 'zz': .1}, to,
           what='one name too many')
    for k in good:
        raises(ValueError, iam.convert, m,
               {i: v for i, v in good.items() if i != k}, to,
               what='missing name')


# -------------------------------------------------- PVsyst power coefficient
@sub(lambda: fixed(
    alpha_sc=flt(-.002, .01), gamma_ref=flt(.9, 1.5), mu=flt(-.001, .001),
    IL=flt(1, 12), I0=logflt(1e-12, 1e-9), Rsh=logflt(100, 3000),
    R0=logflt(300, 1e4), Rs=flt(.05, .6), ns=st.integers(24, 96),
    ex=opt(flt(2, 8)), eg=opt(flt(1, 1.4)), gref=opt(flt(500, 1100)),
    tref=opt(flt(15, 40))), quick=60)
def temperature_coefficient(case, ctx):
    """relative derivative of maximum power with temperature, compared with
    differences of an independently solved diode curve"""
    c = case
    ex, eg, tr, gr = (d if c[k] is None else c[k] for k, d in
                      (('ex', 5.5), ('eg', 1.121), ('tref', 25.),
                       ('gref', 1000.)))

    def pmp(t):
        tk, trk = t + 273.15, tr + 273.15
        gam = c['gamma_ref'] + c['mu'] * (t - tr)
        base = max(0, (c['Rsh'] - c['R0'] * math.exp(-ex))
                   / (1 - math.exp(-ex)))
        d = Diode(c['IL'] + c['alpha_sc'] * (t - tr),
                  c['I0'] * (tk / trk)**3 * math.exp(
                      eg / (KE * gam) * (1 / trk - 1 / tk)), c['Rs'],
                  base + (c['R0'] - base) * math.exp(-ex),
                  gam * KE * tk * c['ns'])
        x = d.mpp_vd()
        return d.p(x if np.isscalar(x) else x[0])
    h = .5
    exp = (pmp(tr - 2 * h) - 8 * pmp(tr - h) + 8 * pmp(tr + h)
           - pmp(tr + 2 * h)) / (12 * h) / pmp(tr)
    kw = {k: v for k, v in (('R_sh_exp', c['ex']), ('EgRef', c['eg']),
                            ('irrad_ref', c['gref']),
                            ('temp_ref', c['tref'])) if v is not None}
    g = sdm.pvsyst_temperature_coeff(
        c['alpha_sc'], c['gamma_ref'], c['mu'], c['IL'], c['I0'], c['Rsh'],
        c['R0'], c['Rs'], c['ns'], **kw)
    close(g, exp, 1e-3, 1e-6, 'temperature coefficient', info=c)
