"""C42 single-diode fits."""
import contextlib
import io
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib.ivtools import sde, sdm
from scipy.optimize import root
from scipy.special import lambertw

from ..cmp import close, raises, require, snapshot, unchanged
from ..core import sub
from ..gen import ints, fixed, flt, logflt, opt
from ..refs.diode import Diode

RULE = ('Specifications or curves come from an independent solution of the '
        'single-diode equation with random parameters.  A case is trivial '
        'when scipy\'s solver reports failure or the documented method '
        'declares the data unusable.')
ASSUMPTIONS = ('Generating parameters are those of ordinary modules '
               '(ideality 0.95-1.4, Rs 0.5-6 % and Rsh 15-150 times of '
               'Voc/Isc); regression-based fits are only near exact there.')

KB = 8.617333262145e-5
K, Q = 1.380649e-23, 1.602176634e-19


def module(ns, n, isc, vc, rs, rsh, t=25.):
    """reference parameters (IL, I0, Rs, Rsh, a) with about the given
    short-circuit current and cell voltage"""
    a = n * ns * KB * (t + 273.15)
    voc = vc * ns
    R = voc / isc
    IL = isc * (1 + rs / rsh)
    return [IL, (IL - 1 / (rsh * R) * voc) / math.expm1(voc / a), rs * R,
            rsh * R, a]


def MODULE():
    return dict(ns=st.sampled_from([36, 48, 60, 66, 72, 96, 120]),
                n=flt(.95, 1.4), isc=logflt(1, 15), vc=flt(.56, .72),
                rs=flt(.005, .06), rsh=logflt(15, 150))


def mod_of(c, t=25.):
    return module(c['ns'], c['n'], c['isc'], c['vc'], c['rs'], c['rsh'], t)


def points(p):
    d = Diode(*p)
    vd = d.mpp_vd()
    im = d.i(vd)
    return dict(i_sc=d.i_at_v(0.), v_oc=d.v_at_i(0.), i_mp=im,
                v_mp=d.v(vd))


def desoto_at(p, T, al, eg, dg, tref):
    """De Soto parameters at temperature T and the reference irradiance"""
    T0, T1 = tref + 273.15, T + 273.15
    e1 = eg * (1 + dg * (T1 - T0))
    return [p[0] + al * (T1 - T0),
            p[1] * (T1 / T0)**3 * math.exp((eg / T0 - e1 / T1) / KB),
            p[2], p[3], p[4] * T1 / T0]


def desoto_root(s, al, be, ns, eg, dg, tref, guess, opts, wobble):
    """scipy's solution of the five defining equations from the documented
    starting values (Duffie and Beckman p. 753), each off by `wobble`; None
    when it does not get to a root"""
    isc, voc, imp, vmp = (s[k] for k in ('i_sc', 'v_oc', 'i_mp', 'v_mp'))
    T0, T2 = tref + 273.15, tref + 275.15
    a = 1.5 * KB * T0 * ns
    i0 = isc * math.exp(-voc / a)
    g = {'IL_0': isc, 'Io_0': i0, 'Rsh_0': 100., 'a_0': a,
         'Rs_0': (a * math.log1p((isc - imp) / i0) - vmp) / imp}
    g.update(guess)
    x0 = np.array([g[k] for k in ('IL_0', 'Io_0', 'Rs_0', 'Rsh_0', 'a_0')])
    eg2 = eg * (1 + dg * 2)

    def curr(IL, I0, Rs, Rsh, a, v, i):
        return i - IL + I0 * np.expm1((v + i * Rs) / a) + (v + i * Rs) / Rsh

    def f(p):
        IL, I0, Rs, Rsh, a = p
        G = I0 / a * np.exp((vmp + imp * Rs) / a) + 1 / Rsh
        return [curr(IL, I0, Rs, Rsh, a, 0, isc),
                curr(IL, I0, Rs, Rsh, a, voc, 0),
                curr(IL, I0, Rs, Rsh, a, vmp, imp),
                imp - vmp * G / (1 + Rs * G),
                curr(IL + 2 * al, I0 * (T2 / T0)**3
                     * np.exp((eg / T0 - eg2 / T2) / KB), Rs, Rsh,
                     a * T2 / T0, voc + 2 * be, 0)]
    with np.errstate(all='ignore'):
        r = root(f, x0 * (1 + np.array(wobble)), **(opts or {}))
    return r.x if r.success and max(map(abs, r.fun)) < 1e-7 * isc else None


def solvable(*args):
    """the root which that search finds from each of eight nearly identical
    starts, or None"""
    xs = []
    rnd = np.random.default_rng(1)
    for m in (0, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4):
        x = desoto_root(*args, m * rnd.choice([-1, 1], 5))
        if x is None or xs and not np.allclose(x, xs[0], 1e-3, 0):
            return None
        xs.append(x)
    return xs[0]


# ----------------------------------------------------------------- De Soto
@sub(lambda: fixed(
    al=flt(-.0002, .001), eg=st.sampled_from([None, 1.121, 1.475, 1.7]),
    dg=st.sampled_from([None, -.0002677, -.0003, 0.]),
    tref=st.sampled_from([None, 25, 20., 35, 0., -20, 60.]), gref=opt(flt(500, 1200)),
    guess=st.sampled_from(['none', 'none', 'near', 'partial']),
    kw=st.sampled_from([None, None, {'tol': 1e-12}, {'options': {'xtol': 1e-11}}]),
    jit=st.lists(flt(-.02, .02), min_size=5, max_size=5), **MODULE()),
    quick=1500)
def fit_desoto(case, ctx):
    """the returned parameters satisfy the five defining equations, and are
    the generating ones when the search starts near them"""
    c = case
    eg, dg = c['eg'] or 1.121, -.0002677 if c['dg'] is None else c['dg']
    tref = 25 if c['tref'] is None else c['tref']
    p = mod_of(c, tref)
    s = points(p)
    al = c['al'] * c['isc']
    be = (points(desoto_at(p, tref + 2, al, eg, dg, tref))['v_oc']
          - s['v_oc']) / 2
    kw = {}
    for k, n in (('eg', 'EgRef'), ('dg', 'dEgdT'), ('tref', 'temp_ref'),
                 ('gref', 'irrad_ref'), ('kw', 'root_kwargs')):
        if c[k] is not None:
            kw[n] = c[k]
    names = ['IL_0', 'Io_0', 'Rs_0', 'Rsh_0', 'a_0']
    if c['guess'] != 'none':
        g = {k: x * (1 + j) for k, x, j in zip(names, p, c['jit'])}
        if c['guess'] == 'partial':
            g = {k: g[k] for k in ('Rsh_0', 'a_0')}
        kw['init_guess'] = g
    b = snapshot([kw])
    spec = dict(s, alpha_sc=al, beta_voc=be, cells_in_series=c['ns'])
    own = (s, al, be, c['ns'], eg, dg, tref, kw.get('init_guess', {}),
           c['kw'])
    try:
        out, res = sdm.fit_desoto(**spec, **kw)
    except RuntimeError as e:
        require('Parameter estimation failed' in str(e), f'error {e}')
        unchanged(b, [kw], 'arguments')
        # with a tightened tolerance the verdict hangs on rounding
        require(c['kw'] or solvable(*own) is None, 'declared failed, though the search '
                'from the documented starting values finds a root')
        ctx.label('no convergence')
        ctx.trivial()
        return
    unchanged(b, [kw], 'arguments')
    ctx.label('guess ' + c['guess'])
    require(set(out) == {'I_L_ref', 'I_o_ref', 'R_s', 'R_sh_ref', 'a_ref',
                         'alpha_sc', 'EgRef', 'dEgdT', 'irrad_ref',
                         'temp_ref'}, f'keys {sorted(out)}')
    for k, x in (('alpha_sc', al), ('EgRef', eg), ('dEgdT', dg),
                 ('irrad_ref', c['gref'] or 1000), ('temp_ref', tref)):
        require(out[k] == x, f'{k} {out[k]} != {x}')
    f = [float(out[k]) for k in ('I_L_ref', 'I_o_ref', 'R_s', 'R_sh_ref',
                                 'a_ref')]
    require(res.success and np.array_equal(res.x, f), 'optimize result')
    x = solvable(*own)
    if x is not None:
        ctx.label('root known')
        close(f, x, 2e-3, 0, 'root of the defining equations', info=c)
    if min(f) <= 0 or f[4] > 6 * p[4] or f[4] < p[4] / 6:
        ctx.label('unphysical solution')
        return
    # residuals of the defining equations, relative to the current.  The
    # solver (hybr/lm, a least-squares search) may stop at a point that is
    # not a root; the returned OptimizeResult then reports the residual, and
    # the parameters must be as good as reported
    reported = float(np.max(np.abs(res.fun)))
    inexact = reported > 1e-5 * s['i_sc']
    if inexact:
        require(c['guess'] != 'near', f'residual {reported} from the '
                'generating parameters')
        ctx.label('reported inexact')
    tol = 1e-7 * s['i_sc'] + 1.05 * reported

    def curr(q, v, i):
        vd = v + i * q[2]
        return q[0] - q[1] * math.expm1(vd / q[4]) - vd / q[3] - i
    close(curr(f, 0, s['i_sc']), 0, 0, tol, 'short circuit equation')
    close(curr(f, s['v_oc'], 0), 0, 0, tol, 'open circuit equation')
    close(curr(f, s['v_mp'], s['i_mp']), 0, 0, tol, 'maximum power point')
    g = f[1] / f[4] * math.exp((s['v_mp'] + s['i_mp'] * f[2]) / f[4]) \
        + 1 / f[3]
    close(s['i_mp'] * (1 + f[2] * g), s['v_mp'] * g, 0, 2 * tol,
          'dP/dV at the maximum power point')
    q = desoto_at(f, tref + 2, al, eg, dg, tref)
    close(curr(q, s['v_oc'] + 2 * be, 0), 0, 0, tol,
          'open circuit equation 2 K above reference')
    if inexact:
        return
    r = points(f)
    for k in s:
        close(r[k], s[k], 1e-3, 0, k + ' of the fitted model', info=c)
    if c['guess'] == 'near':
        for k, x, y in zip(names, f, p):
            close(x, y, 5e-3 if k in ('Rsh_0', 'Io_0') else 1e-3, 0, k,
                  info=c)


@sub(lambda: fixed(k=st.sampled_from(['Rs', 'IL', 'a_ref', 'Rsh_ref', '']),
                   **MODULE()), quick=30)
def fit_desoto_bad(case, ctx):
    """an unknown starting value name is rejected"""
    s = points(mod_of(case))
    raises(ValueError, sdm.fit_desoto, **s, alpha_sc=.001, beta_voc=-.1,
           cells_in_series=case['ns'], init_guess={case['k']: 1.},
           what='init_guess')


# ---------------------------------------------------------------- Batzelis
@sub(lambda: fixed(al=flt(-.0002, .001), be=flt(-.0045, -.002), isc=logflt(
    .5, 20), voc=logflt(1, 400), fi=flt(.85, .98), fv=flt(.72, .9),
    np_=st.booleans()), quick=2000)
def fit_desoto_batzelis(case, ctx):
    """the published closed form; the model passes through the
    short-circuit, (nearly) open-circuit and maximum power points"""
    c = case
    isc, voc = c['isc'], c['voc']
    imp, vmp = c['fi'] * isc, c['fv'] * voc
    args = dict(v_mp=vmp, i_mp=imp, v_oc=voc, i_sc=isc,
                alpha_sc=c['al'] * isc, beta_voc=c['be'] * voc)
    if c['np_']:
        args = {k: np.float64(x) for k, x in args.items()}
    out = sdm.fit_desoto_batzelis(**args)
    d = (1 - c['be'] * 298.15) / (50.1 - c['al'] * 298.15)
    w = lambertw(math.exp(1 / d + 1)).real
    a = d * voc
    rs = (a * (w - 1) - vmp) / imp
    den = isc * (1 - 1 / w) - imp
    rsh = a * (w - 1) / den
    iph = (1 + rs / rsh) * isc
    exp = dict(alpha_sc=c['al'] * isc, a_ref=a, R_s=rs, R_sh_ref=rsh,
               I_L_ref=iph, I_o_ref=iph * math.exp(-1 / d))
    require(set(out) == set(exp), f'keys {sorted(out)}')
    if abs(den) < 1e-3 * isc:
        ctx.label('degenerate shunt')
        ctx.trivial()
        return
    for k, x in exp.items():
        close(out[k], x, 1e-8, 1e-11 * abs(a * (w - 1) / imp) if k == 'R_s'
              else 0, k, info=c)
    if rs > 0 and rsh > 0:
        ctx.label('physical')
        f = Diode(*[float(out[k]) for k in ('I_L_ref', 'I_o_ref', 'R_s',
                                            'R_sh_ref', 'a_ref')])
        close(f.i_at_v(0.), isc, 1e-6, 0, 'short-circuit current', info=c)


# ----------------------------------------------------------- Sandia simple
def linfit(x, y):
    xm, ym = x.mean(), y.mean()
    b = ((x - xm) * (y - ym)).sum() / ((x - xm)**2).sum()
    return ym - b * xm, b


@sub(lambda: fixed(npts=ints(20, 200), vlim=opt(flt(.1, .6)),
                   ilim=opt(flt(.02, .3)), space=st.sampled_from(
                       ['v', 'v', 'vd']),
                   given=st.sampled_from([(), ('v_oc',), ('i_sc',),
                                          ('v_mp_i_mp',),
                                          ('v_oc', 'i_sc', 'v_mp_i_mp')]),
                   pos=st.booleans(), off=st.one_of(st.just([1.] * 4), st.lists(
                       flt(.9, 1.1), min_size=4, max_size=4)),
                   **MODULE()), quick=600)
def fit_sandia_simple(case, ctx):
    """the documented two regressions; the result is close to the
    generating parameters and its model reproduces the curve"""
    c = case
    p = mod_of(c)
    d = Diode(*p)
    voc = d.v_at_i(0.)
    if c['space'] == 'v':
        v = np.linspace(0, voc, c['npts'])
        i = np.array([d.i_at_v(x) for x in v])
    else:
        vd = np.linspace(d.vd_at_v(0.), d.vd_at_i(0.), c['npts'])
        i = np.array([d.i(x) for x in vd])
        v = np.array([d.v(x) for x in vd])
        v[0] = 0.
    i = np.maximum(i, 0)
    pt = points(p)
    o = c['off']
    full = dict(v_oc=o[0] * pt['v_oc'], i_sc=o[1] * pt['i_sc'],
                v_mp_i_mp=(o[2] * pt['v_mp'], o[3] * pt['i_mp']))
    kw = {k: full[k] for k in c['given']}
    vlim, ilim = c['vlim'] or .2, c['ilim'] or .1
    if c['vlim']:
        kw['vlim'] = vlim
    if c['ilim']:
        kw['ilim'] = ilim
    b = snapshot([v, i])
    try:
        out = sde.fit_sandia_simple(v, i, **kw)
    except RuntimeError as e:
        require('Parameter extraction failed' in str(e), f'error {e}')
        ctx.label('failed')
        ctx.trivial()
        return
    unchanged(b, [v, i], 'curve')
    require(len(out) == 5, 'five parameters')
    voc = kw.get('v_oc', v[-1])
    isc = kw.get('i_sc', i[0])
    m = int(np.argmax(v * i))
    vm, im = kw.get('v_mp_i_mp', (v[m], i[m]))
    # a point at the limits is in or out by rounding
    n = int((v < vlim * voc).sum())
    if np.min(np.abs(v - vlim * voc)) < 1e-9 * voc or n < 2:
        ctx.label('limit on a point')
        ctx.trivial()
        return
    while True:
        b0, b1 = linfit(v[:n], i[:n])
        if b1 < 0:
            break
        n += 1
        require(n < len(v), 'no falling slope but no error')
    b1 = -b1
    y = b0 - b1 * v - i
    if np.min(np.abs(y - ilim * isc)) < 1e-9 * isc:
        ctx.label('limit on a point')
        ctx.trivial()
        return
    s = y > ilim * isc
    if s.sum() < 4:
        ctx.label('few points')
        ctx.trivial()
        return
    V, I, L = v[s], i[s], np.log(y[s])
    A = np.column_stack([V - V.mean(), I - I.mean()])
    sc = np.abs(A).max(axis=0)
    (b3, b4), *_ = np.linalg.lstsq(A / sc, L - L.mean(), rcond=None)
    b3, b4 = b3 / sc[0], b4 / sc[1]
    a, rs = 1 / b3, b4 / b3
    gsh = b1 / (1 - rs * b1)
    iph = (1 + gsh * rs) * b0

    def i0(V, I):
        return (iph - I - gsh * (V + rs * I)) / math.expm1((V + rs * I) / a)
    e = [x for x in (i0(vm, im), i0(voc, 0)) if x > 0]
    require(e, 'undetermined saturation current but no error')
    ref = (iph, sum(e) / len(e), rs, 1 / gsh, a)
    # sensitivity to rounding in the nearly flat part
    for k, (x, r) in enumerate(zip(out, ref)):
        close(x, r, (1e-7, 1e-4, 1e-5, 1e-3, 1e-5)[k], 0,
              ('photocurrent', 'saturation_current', 'resistance_series',
               'resistance_shunt', 'nNsVth')[k], info=c)
    if kw and set(o) != {1.}:
        ctx.label('given points off the curve')
        return
    if c['space'] == 'v' and c['npts'] >= 60 and vlim <= .4 and \
            .03 <= ilim <= .15 and c['n'] >= 1 and c['rsh'] < 100:
        ctx.label('close to the generating model')
        f = points([float(x) for x in out])
        for k in pt:
            close(f[k], pt[k], .03, 0, k + ' of the fitted model', info=c)


# ------------------------------------------------------------------ Sandia
SGRID = st.sampled_from([
    ([100, 200, 400, 600, 800, 1000, 1100], [15, 25, 40, 50, 60, 75]),
    ([200, 300, 500, 700, 900, 1000], [10, 25, 45, 65]),
    ([400, 500, 600, 700, 800, 900, 1000], [15, 25, 35, 45])])


def vcurves(ps, n, rnd, pad, order):
    """IV curves of parameter sets, by vectorised bisection in the diode
    voltage"""
    res = {k: [] for k in ('i_sc', 'v_oc', 'i_mp', 'v_mp', 'v', 'i')}
    for p in ps:
        d = Diode(*p)
        pt = points(p)
        v = np.linspace(0, pt['v_oc'], n)
        lo = np.zeros(n)
        hi = np.full(n, d.vd_at_i(0.) + 1e-9)
        for _ in range(60):
            m = (lo + hi) / 2
            i = p[0] - p[1] * np.expm1(m / p[4]) - m / p[3]
            up = m - i * p[2] > v
            hi, lo = np.where(up, m, hi), np.where(up, lo, m)
        m = (lo + hi) / 2
        i = p[0] - p[1] * np.expm1(m / p[4]) - m / p[3]
        i = np.maximum(i, 0)
        o = rnd.permutation(n) if order else np.arange(n)
        v, i = v[o], i[o]
        if pad:
            v = np.append(v, [np.nan] * pad)
            i = np.append(i, [np.nan] * pad)
        res['v'].append(v)
        res['i'].append(i)
        for k in pt:
            res[k].append(pt[k])
    return {k: np.array(x) for k, x in res.items()}


def SCASE(**k):
    return fixed(grid=SGRID, seed=ints(0, 10**6),
                 npts=st.sampled_from([100, 101, 250]), pad=st.sampled_from(
                     [0, 0, 7]), order=st.booleans(), al=flt(.0001, .0009),
                 ns=st.sampled_from([36, 60, 72, 96]), n=flt(.97, 1.35),
                 isc=logflt(1.5, 12), vc=flt(.58, .7), rs=flt(.01, .05),
                 rsh=logflt(20, 90), const=st.sampled_from(
                     [None, (1000., 25.), (800., 20.), (1000., 40.),
                      (1100., 15.)]), **k)


def const_of(c):
    """reference irradiance and temperature, and the keyword giving them"""
    if not c['const']:
        return 1000., 25., {}
    E0, t0 = (1000., 25.) if c['const'] is True else c['const']
    return E0, t0, dict(const={'E0': E0, 'T0': t0, 'k': K, 'q': Q})


def grid_of(c, rnd):
    g, t = (x.ravel().astype(float) for x in np.meshgrid(*c['grid']))
    o = rnd.permutation(len(g))
    return g[o], t[o]


def per_curve(out, ps, ctx):
    u = np.asarray(out['u'], dtype=bool)
    require(u.shape == (len(ps),), 'one filter value per curve')
    require(u.mean() > .8, f'only {u.mean():.0%} of clean curves accepted')
    for k, j, tol in (('iph', 0, 1e-3), ('io', 1, .3), ('rs', 2, .4),
                      ('rsh', 3, .4)):
        r = np.array([p[j] for p in ps])
        close(np.asarray(out[k])[u], r[u], tol, 0, k + ' of each curve')


@sub(lambda: SCASE(mu=flt(-.0008, .0008), r0=flt(2, 8)), quick=24, shards=4)
def fit_pvsyst_sandia(case, ctx):
    """recovers the PVsyst model from its IV curves, whatever the order of
    curves and points"""
    c = case
    rnd = np.random.default_rng(c['seed'])
    g, t = grid_of(c, rnd)
    E0, t0, kw = const_of(c)
    p = mod_of(c, t0)
    al = c['al'] * c['isc']
    R0 = c['r0'] * p[3]
    base = max((p[3] - R0 * math.exp(-5.5)) / (1 - math.exp(-5.5)), 0)

    def at(G, T):
        T0, T1 = t0 + 273.15, T + 273.15
        gam = c['n'] + c['mu'] * (T - t0)
        return [G / E0 * (p[0] + al * (T - t0)),
                p[1] * (T1 / T0)**3 * math.exp(
                    1.121 / KB / gam * (1 / T0 - 1 / T1)),
                p[2], base + (R0 - base) * math.exp(-5.5 * G / E0),
                c['ns'] * gam * KB * T1]
    ps = [at(G, T) for G, T in zip(g, t)]
    iv = dict(vcurves(ps, c['npts'], rnd, c['pad'], c['order']), ee=g, tc=t)
    spec = dict(cells_in_series=c['ns'], alpha_sc=al, beta_voc=-.1)
    b = snapshot([iv, spec, kw])
    with contextlib.redirect_stdout(io.StringIO()):
        out = sdm.fit_pvsyst_sandia(iv, spec, **kw)
    unchanged(b, [iv, spec, kw], 'curves')
    per_curve(out, ps, ctx)
    require(out['cells_in_series'] == c['ns'], 'cells_in_series')
    for k, x, r, a in (('gamma_ref', c['n'], 3e-3, 0), ('mu_gamma', c['mu'],
                                                       0, 1e-4),
                       ('I_L_ref', p[0], 1e-3, 0), ('I_o_ref', p[1], .1, 0),
                       ('R_sh_ref', p[3], .02, 0), ('R_sh_0', R0, .01, 0),
                       ('R_sh_exp', 5.5, 0, 0), ('R_s', p[2], .1, 0),
                       ('EgRef', 1.121, .03, 0)):
        close(out[k], x, r, a, k, info=c)


@sub(lambda: SCASE(strict=st.just(False)), quick=24, shards=4)
def fit_desoto_sandia(case, ctx):
    """recovers the De Soto model from its IV curves, whatever the order of
    curves and points"""
    c = case
    rnd = np.random.default_rng(c['seed'])
    g, t = grid_of(c, rnd)
    E0, t0, kw = const_of(c)
    p = mod_of(c, t0)
    al = c['al'] * c['isc']
    ps = []
    for G, T in zip(g, t):
        q = desoto_at(p, T, al, 1.121, -.0002677, t0)
        ps.append([q[0] * G / E0, q[1], q[2], q[3] * E0 / G, q[4]])
    be = (points(desoto_at(p, t0 + 1, al, 1.121, -.0002677, t0))['v_oc']
          - points(desoto_at(p, t0 - 1, al, 1.121, -.0002677, t0))['v_oc']
          ) / 2
    iv = dict(vcurves(ps, c['npts'], rnd, c['pad'], c['order']), ee=g, tc=t)
    spec = dict(cells_in_series=c['ns'], alpha_sc=al, beta_voc=be)
    b = snapshot([iv, spec, kw])
    out = sdm.fit_desoto_sandia(iv, spec, **kw)
    unchanged(b, [iv, spec, kw], 'curves')
    per_curve(out, ps, ctx)
    require(out['cells_in_series'] == c['ns'], 'cells_in_series')
    for k, x, r in (('a_ref', p[4], .02), ('I_L_ref', p[0], 1e-3),
                    ('I_o_ref', p[1], .5), ('R_sh_ref', p[3], .04),
                    ('R_s', p[2], .12), ('dEgdT', -.0002677, 0)):
        close(out[k], x, r, 0, k, info=c)
    # known finding: the band gap is fitted with the sign of dEgdT reversed,
    # which multiplies it by (1 - dEgdT T0) / (1 + dEgdT T0)
    x = .0002677 * (t0 + 273.15)
    e = float(out['EgRef'])
    allowed = [1.121] if c['strict'] else [1.121, 1.121 * (1 + x) / (1 - x)]
    require(any(abs(e / y - 1) < .02 for y in allowed),
            f'EgRef {e} instead of 1.121')


# -------------------------------------------------------- PVsyst IEC 61853
IGRID = st.sampled_from([
    ([100, 200, 400, 600, 800, 1000, 1100], [15, 25, 50, 75]),
    ([100, 300, 500, 700, 1000], [25, 45, 65]),
    ([50, 150, 400, 1000, 1200], [10, 25, 40, 70])])


def pvsyst_at(p, G, T, n, mu, al, R0, ns, eg, ex=5.5, g0=1000., t0=25.):
    T0, T1 = t0 + 273.15, T + 273.15
    gam = n + mu * (T - t0)
    e = math.exp(-ex)
    base = max((p[3] - R0 * e) / (1 - e), 0)
    return [G / g0 * (p[0] + al * (T - t0)),
            p[1] * (T1 / T0)**3 * math.exp(eg / KB / gam
                                           * (1 / T0 - 1 / T1)),
            p[2], base + (R0 - base) * math.exp(-ex * G / g0),
            ns * gam * KB * T1]


def iec_ref(g, t, d, ns, eg, alpha, beta, Rs, coeff, gmin, gtol, ttol):
    isc, voc, imp, vmp = (d[k] for k in ('i_sc', 'v_oc', 'i_mp', 'v_mp'))
    sg = np.abs(g - 1000) <= gtol
    stc = np.abs(t - 25) <= ttol

    def tco(y):
        a, b = linfit(t[sg], y[sg])
        return b / (a + 25 * b)
    if alpha is None:
        alpha = tco(isc) * isc[sg & stc][0]
    if beta is None:
        beta = tco(vmp)
    m = g >= (gmin or 0)
    y = vmp[m] / (1 + beta * (t[m] - 25)) / (coeff * (isc - imp)[m])
    base, sl = linfit(np.exp(-5.5 * g[m] / 1000), y)
    R0 = base + sl
    Rr = base * (1 - math.exp(-5.5)) + R0 * math.exp(-5.5)
    if Rs is None:
        X = np.column_stack([imp, np.log(imp), vmp])
        X = X - X.mean(axis=0)
        sc = np.abs(X).max(axis=0)
        b, *_ = np.linalg.lstsq(X / sc, voc - voc.mean(), rcond=None)
        Rs = b[0] / sc[0]
    e = math.exp(-5.5)
    base = max((Rr - R0 * e) / (1 - e), 0)
    rsh = base + (R0 - base) * np.exp(-5.5 * g / 1000)
    vt = ns * KB * (t + 273.15)
    t1 = isc * (1 + Rs / rsh) - voc / rsh
    t2 = (isc - imp) * (1 + Rs / rsh) - vmp / rsh
    x = (vt * np.log(t2 / t1))[stc]
    y = (vmp + imp * Rs - voc)[stc]
    gam = (x * y).sum() / (x * x).sum()
    TT = (t + 273.15) / 298.15

    def unit(G):
        return TT**3 * np.exp(eg / KB / G * (1 / 298.15 - 1 / (t + 273.15)))
    io = math.exp(np.mean(np.log(t1 / np.expm1(voc / (gam * vt)))
                          - np.log(unit(gam))))
    il = isc + io * unit(gam) * np.expm1(isc * Rs / (gam * vt)) \
        + isc * Rs / rsh
    y = il - g / 1000 * alpha * (t - 25)
    IL = (g / 1000 * y).sum() / ((g / 1000)**2).sum()
    il = g / 1000 * (IL + alpha * (t - 25))
    ge = (eg / KB * (1 / 298.15 - 1 / (t + 273.15))
          + (vmp + imp * Rs) / vt) / (
        np.log((il - imp - (vmp + imp * Rs) / rsh) / io) - 3 * np.log(TT))
    a, b = linfit(t - 25, ge)
    return dict(alpha_sc=alpha, gamma_ref=a, mu_gamma=b, I_L_ref=IL,
                I_o_ref=io, R_sh_ref=Rr, R_sh_0=R0, R_sh_exp=5.5, R_s=Rs,
                cells_in_series=ns, EgRef=eg)


@sub(lambda: fixed(
    grid=IGRID, seed=ints(0, 10**6), mu=flt(-.0008, .0008),
    r0=flt(2, 8), al=flt(.0001, .0009), eg=st.sampled_from(
        [None, 1.121, 1.3]), ga=st.sampled_from([None, 'exact', 'off']),
    gb=opt(flt(-.006, -.001)), grs=st.sampled_from([None, 'exact']),
    coeff=opt(flt(.05, .3)), gmin=st.sampled_from([None, 0, 200, 390.]),
    gt=st.sampled_from([None, 5, 20]), tt=st.sampled_from([None, .2, 1]),
    dg=flt(-4, 4), dtt=flt(-.15, .15), s=logflt(.2, 5), cur=st.booleans(),
    noise=st.sampled_from([0, 0, 1e-3]), **MODULE()), quick=500)
def fit_pvsyst_iec61853(case, ctx):
    """the published regressions on IEC 61853 matrices; independent of the
    row order, and scaling all currents or all voltages and the number of
    cells scales the parameters"""
    c = case
    rnd = np.random.default_rng(c['seed'])
    g, t = (x.ravel().astype(float) for x in np.meshgrid(*c['grid']))
    g, t = g + c['dg'], t + c['dtt']
    p = mod_of(c)
    al = c['al'] * c['isc']
    ps = [pvsyst_at(p, G, T, c['n'], c['mu'], al, c['r0'] * p[3], c['ns'],
                    1.121) for G, T in zip(g, t)]
    pts = [points(q) for q in ps]
    d = {k: np.array([x[k] for x in pts]) for k in pts[0]}
    for k in d:
        d[k] = d[k] * (1 + c['noise'] * rnd.uniform(-1, 1, len(g)))
    kw = {}
    if c['eg'] is not None:
        kw['EgRef'] = c['eg']
    if c['ga']:
        kw['alpha_sc'] = al * (1 if c['ga'] == 'exact' else .8)
    if c['gb'] is not None:
        kw['beta_mp'] = c['gb']
    if c['grs']:
        kw['R_s'] = p[2]
    if c['coeff'] is not None:
        kw['r_sh_coeff'] = c['coeff']
    if c['gmin'] is not None:
        kw['min_Rsh_irradiance'] = c['gmin']
    if c['gt'] is not None:
        kw['irradiance_tolerance'] = c['gt']
    if c['tt'] is not None:
        kw['temperature_tolerance'] = c['tt']
    with np.errstate(all='ignore'):
        ref = iec_ref(g, t, d, c['ns'], c['eg'] or 1.121,
                      kw.get('alpha_sc'), c['gb'], kw.get('R_s'),
                      c['coeff'] or .12, c['gmin'], c['gt'] or 20,
                      c['tt'] or 1)
    if not all(np.isfinite(x) for x in ref.values()) or \
            ref['R_sh_0'] <= 0 or ref['R_sh_ref'] <= 0 or ref['R_s'] < 0:
        ctx.label('unusable data')
        ctx.trivial()
        return
    base = (ref['R_sh_ref'] - ref['R_sh_0'] * math.exp(-5.5))
    if abs(base) < 1e-6 * ref['R_sh_ref']:
        ctx.trivial()
        return

    def run(d, ns, o, **over):
        a = [np.array(x)[o] for x in (g, t, d['i_sc'], d['v_oc'], d['i_mp'],
                                      d['v_mp'])]
        b = snapshot(a)
        r = sdm.fit_pvsyst_iec61853_sandia_2025(*a, ns, **{**kw, **over})
        unchanged(b, a, 'measurements')
        return r
    o0 = np.arange(len(g))
    a = run(d, c['ns'], o0)
    require(set(a) == set(ref), f'keys {sorted(a)}')
    tol = dict(I_o_ref=1e-5, R_s=1e-7, gamma_ref=1e-6)

    def cmp(a, ref, what):
        for k, x in ref.items():
            close(a[k], x, tol.get(k, 1e-6), 1e-8 if k == 'mu_gamma' else
                  1e-9 * abs(ref['R_sh_0']) if k == 'R_sh_ref' else 0,
                  k + what, info=c)
    cmp(a, ref, '')
    cmp(run(d, c['ns'], rnd.permutation(len(g))), ref, ' (rows shuffled)')
    s = c['s']
    if c['cur']:
        ctx.label('currents scaled')
        d2 = dict(d, i_sc=s * d['i_sc'], i_mp=s * d['i_mp'])
        over = {k: x * (s if k == 'alpha_sc' else 1 / s)
                for k, x in kw.items() if k in ('alpha_sc', 'R_s')}
        f = dict(alpha_sc=s, I_L_ref=s, I_o_ref=s, R_sh_ref=1 / s,
                 R_sh_0=1 / s, R_s=1 / s)
        b = run(d2, c['ns'], o0, **over)
    else:
        ctx.label('voltages scaled')
        d2 = dict(d, v_oc=2 * d['v_oc'], v_mp=2 * d['v_mp'])
        over = {k: x * 2 for k, x in kw.items() if k == 'R_s'}
        f = dict(R_sh_ref=2, R_sh_0=2, R_s=2, cells_in_series=2)
        b = run(d2, 2 * c['ns'], o0, **over)
    cmp(b, {k: x * f.get(k, 1) for k, x in ref.items()}, ' (scaled)')
    if c['noise'] == 0 and c['eg'] in (None, 1.121) and not c['coeff'] and \
            not c['gb'] and c['ga'] != 'off' and c['n'] < 1.3 and \
            20 < c['rsh'] < 60 and .01 < c['rs'] < .04:
        ctx.label('model compared')
        for G, T, m in zip(g, t, pts):
            if G < 190:
                continue
            q = points(pvsyst_at(
                [a['I_L_ref'], a['I_o_ref'], a['R_s'], a['R_sh_ref']], G, T,
                a['gamma_ref'], a['mu_gamma'], a['alpha_sc'], a['R_sh_0'],
                c['ns'], a['EgRef']))
            close(q['v_mp'] * q['i_mp'], m['v_mp'] * m['i_mp'],
                  .05 if G > 390 else .15, 0,
                  f'power of the fitted model at {G}, {T}', info=c)


@sub(lambda: fixed(mu=flt(-.0008, .0008), r0=flt(1, 8), al=flt(.0001,
                                                               .0009),
                   ex=opt(flt(3, 8)), eg=opt(flt(1., 1.7)),
                   g0=opt(flt(400, 1200)), t0=opt(flt(15, 60)),
                   **MODULE()), quick=1500)
def pvsyst_temperature_coeff(case, ctx):
    """relative temperature derivative of the maximum power of the PVsyst
    model at reference conditions"""
    c = case
    t0 = c['t0'] or 25.
    p = mod_of(c, t0)
    kw = {n: c[k] for k, n in (('ex', 'R_sh_exp'), ('eg', 'EgRef'),
                               ('g0', 'irrad_ref'), ('t0', 'temp_ref'))
          if c[k] is not None}
    al = c['al'] * c['isc']
    out = sdm.pvsyst_temperature_coeff(
        al, c['n'], c['mu'], p[0], p[1], p[3], c['r0'] * p[3], p[2],
        c['ns'], **kw)

    def pm(T):
        q = pvsyst_at(p, c['g0'] or 1000., T, c['n'], c['mu'], al,
                      c['r0'] * p[3], c['ns'], c['eg'] or 1.121,
                      c['ex'] or 5.5, c['g0'] or 1000., t0)
        d = Diode(*q)
        return d.p(d.mpp_vd())
    h = .25
    d = (8 * (pm(t0 + h) - pm(t0 - h)) - (pm(t0 + 2 * h) - pm(t0 - 2 * h))
         ) / 12 / h
    close(out, d / pm(t0), 1e-4, 2e-7, 'temperature coefficient', info=c)


@sub(lambda: fixed(
    ct=st.sampled_from(['monoSi', 'multiSi', 'polySi', 'cis', 'cigs', 'cdte',
                        'amorphous']),
    ns=st.sampled_from([36, 60, 72, 96]), isc=flt(3, 12), vc=flt(.58, .72),
    ff=flt(.68, .8), fi=flt(.91, .96), al=flt(.0002, .0008),
    be=flt(-.0036, -.0025), ga=flt(-.5, -.25), tref=opt(flt(15, 35)),
    kw=st.booleans()), quick=60, thorough=600, shards=4)
def fit_cec_sam(case, ctx):
    """the fitted CEC module has the data sheet's points and temperature
    coefficients"""
    from PySAM import PySSC
    c = case
    voc = c['vc'] * c['ns']
    imp = c['fi'] * c['isc']
    vmp = c['ff'] * c['isc'] * voc / imp
    al, be = c['al'] * c['isc'], c['be'] * voc
    tref = 25. if c['tref'] is None else c['tref']
    a = [c['ct'], vmp, imp, voc, c['isc'], al, be, c['ga'], c['ns']]
    names = ['celltype', 'v_mp', 'i_mp', 'v_oc', 'i_sc', 'alpha_sc',
             'beta_voc', 'gamma_pmp', 'cells_in_series']
    k = {} if c['tref'] is None else {'temp_ref': c['tref']}
    with contextlib.redirect_stdout(io.StringIO()):
        want = PySSC.ssc_sim_from_dict(dict(
            tech_model='6parsolve', financial_model=None, celltype=c['ct'],
            Vmp=vmp, Imp=imp, Voc=voc, Isc=c['isc'], alpha_isc=al,
            beta_voc=be, gamma_pmp=c['ga'], Nser=c['ns'], Tref=tref))
        if want['cmod_success'] != 1:
            raises(RuntimeError, sdm.fit_cec_sam, *a, **k,
                   what='no solution')
            ctx.label('no solution')
            ctx.trivial()
            return
        if c['kw']:
            out = sdm.fit_cec_sam(**dict(zip(names, a)), **k)
        else:
            out = sdm.fit_cec_sam(*a, **k)
    require(isinstance(out, tuple) and len(out) == 6, f'result {out!r}')
    close(list(out), [want[x] for x in ('Il', 'Io', 'Rs', 'Rsh', 'a',
                                        'Adj')], 1e-9, 0, 'SAM result')
    IL, I0, rs, rsh, a_ref, adj = map(float, out)
    ref = [IL, I0, rs, rsh, a_ref]

    def at(t):
        return points(desoto_at(ref, t, al * (1 - adj / 100), 1.121,
                                -.0002677, tref))
    p = at(tref)
    for x, v in (('v_oc', voc), ('i_mp', imp), ('v_mp', vmp)):
        close(p[x], v, 5e-4, 0, 'data sheet ' + x, info=c)
    # SAM relaxes the short-circuit current in steps of 1 % if it must
    steps = math.log(p['i_sc'] / c['isc']) / math.log(1.01)
    require(abs(steps - round(steps)) < .05 and -.5 < steps < 8.5,
            f'short-circuit current {p["i_sc"]} for {c["isc"]}')
    b = (at(tref + 2)['v_oc'] - p['v_oc']) / 2
    close(b, be * (1 + adj / 100), .005, 0, 'voltage coefficient', info=c)
    hot = at(tref + 25)
    g = (hot['i_mp'] * hot['v_mp'] / (p['i_mp'] * p['v_mp']) - 1) * 4
    close(g, c['ga'], .12, 0, 'power coefficient', info=c)
    ctx.label(c['ct'], 'relaxed' if round(steps) else 'exact')
