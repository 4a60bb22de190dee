"""C30 incidence angle modifiers."""
import math
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib import iam
from pvlib._deprecation import pvlibDeprecationWarning
from scipy.interpolate import CubicSpline

from ..cmp import arr, close, raises, require, same_index, snapshot, \
    unchanged, within
from ..core import sub
from ..elem import NAN, P, S, elem
from ..gen import fixed, flt, opt, series_index, uni

RULE = ('Angles from -180 to 180 degrees with 0, 90 and values beside 90 '
        'over-weighted, parameters from wide ranges; non-trivial = a '
        'finite non-zero modifier in the case.')
ASSUMPTIONS = ['Refractive indices of at least 1 (glass and coatings in '
               'air).', 'Reference points of iam.interp are sorted.']

AOI = st.one_of(flt(-180, 180, (0, 90, -90, 60, 1e-3)),
                flt(0, 90, (30, 60, 89.999, 1e-6)),
                st.sampled_from([89.9999, 90.0001, 90., 0., -90., 180.,
                                 89.99999999]))
A = P(AOI, nan=True)


def cosd(x):
    return math.cos(math.radians(x))


def d(v, default):
    return default if v is None else v


# ---------------------------------------------------------------- ASHRAE
def ashrae_ref(aoi, b):
    if math.isnan(aoi):
        return NAN
    if abs(aoi) >= 90:
        return 0.
    return max(0., 1 - d(b, .05) * (1 / cosd(aoi) - 1))


elem(__name__, 'ashrae', iam.ashrae,
     dict(aoi=A, b=S(opt(flt(0, .6, (.05,))))), ashrae_ref, quick=500,
     types={'scalar': None}, modes=('scalar', 'array', 'series', 'array2d'),
     rtol=1e-7, doc='published expression, zero beyond 90 degrees')


# ----------------------------------------------------------- Martin-Ruiz
def mr_ref(aoi, a_r):
    a = d(a_r, .16)
    if math.isnan(aoi):
        return NAN
    if abs(aoi) >= 90:
        return 0.
    return (1 - math.exp(-cosd(aoi) / a)) / (1 - math.exp(-1 / a))


elem(__name__, 'martin_ruiz', iam.martin_ruiz,
     dict(aoi=A, a_r=S(opt(flt(.01, 1, (.16,))))), mr_ref, quick=500,
     types={'scalar': None}, modes=('scalar', 'array', 'series', 'array2d'),
     doc='published expression, zero beyond 90 degrees')


@sub(lambda: fixed(aoi=st.lists(AOI, min_size=1, max_size=4),
                   a=st.lists(flt(.02, .5), min_size=1, max_size=3)),
     quick=100)
def martin_ruiz_parameters(case, ctx):
    """one coefficient per angle broadcasts; a zero or negative one is
    rejected"""
    aoi, a = np.array(case['aoi']), np.array(case['a'])
    got = iam.martin_ruiz(aoi[:, None], a)
    exp = [[mr_ref(x, y) for y in a] for x in aoi]
    close(got, exp, 1e-9, 1e-12, 'broadcast')
    for bad in (0, -.1, np.append(a, 0), np.append(-a[:1], .2)):
        raises(ValueError, iam.martin_ruiz, 30., bad, what=f'a_r={bad}')
    raises(ValueError, iam.martin_ruiz, aoi, 0, what='a_r=0')


# ---------------------------------------------------------------- physical
def refract(n1, n2, c):
    """cosine behind the interface, reflectances (s, p)"""
    s = n1 / n2 * math.sqrt(max(0., 1 - c * c))
    cc = math.sqrt(max(0., 1 - s * s))
    if c == 0 and cc == 0:
        return cc, 0., 0.
    rs = ((n1 * c - n2 * cc) / (n1 * c + n2 * cc))**2
    rp = ((n1 * cc - n2 * c) / (n1 * cc + n2 * c))**2
    return cc, rs, rp


def physical_ref(aoi, n, K, L, n_ar):
    n, kl = d(n, 1.526), d(K, 4.) * d(L, .002)
    if math.isnan(aoi):
        return NAN
    if abs(aoi) >= 90:
        return 0.

    def tau(c):
        c2, a, b = refract(1, n_ar or n, c)
        ts, tp = 1 - a, 1 - b
        if n_ar:
            # plate of coating: sum of the internal reflections
            c3, e, f = refract(n_ar, n, c2)
            ts = ts * (1 - e) / (1 - a * e)
            tp = tp * (1 - f) / (1 - b * f)
            c2 = c3
        if c2 == 0:
            return 0.
        return (ts + tp) / 2 * math.exp(-kl / c2)
    return tau(cosd(aoi)) / tau(1.)


def phys_skip(aoi, n, **kw):
    # uncoated index 1: the beam is not bent, and absorption makes the
    # limit at 90 degrees depend on rounding
    return n is not None and n < 1.001 and (
        89.999 < abs(aoi) < 90.001
        or kw['n_ar'] is not None and abs(aoi) > 89.999)


elem(__name__, 'physical', iam.physical,
     dict(aoi=A, n=S(opt(flt(1, 2.5, (1.526, 1., 1.3)))),
          K=S(opt(flt(0, 40))), L=S(opt(flt(0, .02))),
          n_ar=S(opt(flt(1.01, 1.8, (1.29, 1.526))))), physical_ref,
     skip=phys_skip, quick=900, types={'scalar': None}, rtol=1e-7, atol=1e-8,
     modes=('scalar', 'array', 'series', 'array2d'),
     doc='Fresnel transmission of glass with an optional coating, Bouguer '
         'absorption, normalised to normal incidence')


@sub(lambda: fixed(aoi=st.lists(AOI, min_size=1, max_size=5),
                   n=flt(1.05, 2), K=flt(0, 10), L=flt(0, .01)), quick=150)
def physical_coatings(case, ctx):
    """a coating with the index of air or of the glass changes nothing; the
    quarter of sqrt(n) never transmits less at normal incidence"""
    c = case
    a = np.array(c['aoi'])
    kw = dict(n=c['n'], K=c['K'], L=c['L'])
    base = iam.physical(a, **kw)
    close(iam.physical(a, n_ar=1, **kw), base, 1e-9, 1e-12, 'index 1')
    close(iam.physical(a, n_ar=c['n'], **kw), base, 1e-9, 1e-12, 'index n')
    within(base, 0, 1, 1e-9, 'range')
    # infinitely thin glass: absorption drops out
    close(iam.physical(a, n=c['n'], K=0., L=c['L']),
          iam.physical(a, n=c['n'], K=c['K'], L=0.), 1e-12, 0, 'KL=0')


@sub(lambda: st.lists(fixed(
    aoi=AOI, n=st.one_of(flt(1, 2.5), st.sampled_from([1., 1., 1.3, 1.526])),
    K=flt(0, 40), L=flt(0, .02),
    n_ar=st.one_of(flt(1.01, 1.8), st.sampled_from([1., 1.3, 1.526]))),
    min_size=1, max_size=5).flatmap(lambda rows: fixed(
        rows=st.just(rows), vec=st.sets(st.sampled_from(
            ['aoi', 'n', 'K', 'L', 'n_ar']), min_size=1).map(sorted),
        ar=st.booleans())), quick=300)
def physical_arrays(case, ctx):
    """optical constants given per element: every element as if alone"""
    rows, vec = case['rows'], case['vec']
    kw = {k: np.array([r[k] for r in rows]) if k in vec else rows[0][k]
          for k in rows[0] if case['ar'] or k != 'n_ar'}
    if not case['ar'] and vec == ['n_ar']:
        ctx.trivial()
        return
    s = snapshot(kw)
    with np.errstate(all='ignore'):
        got = iam.physical(**kw)
    unchanged(s, kw, 'arguments')
    require(np.shape(got) == (len(rows),), f'shape {np.shape(got)}')
    for i in range(len(rows)):
        p = {k: float(v[i]) if np.ndim(v) else v for k, v in kw.items()}
        p.setdefault('n_ar', None)
        if phys_skip(**p):
            continue
        if p['n_ar'] == 1:
            p['n_ar'] = None
        close(got[i], physical_ref(**p), 1e-7, 1e-8, f'element {i}',
              info=case)
    ctx.label(*(v for v in vec if v in kw))


# -------------------------------------------------------------------- SAPM
def sapm_mod(u):
    return {'B0': u[0], 'B1': u[1], 'B2': u[2], 'B3': u[3], 'B4': u[4],
            'B5': u[5]}


MODULE = st.tuples(flt(.9, 1.1, (1,)), flt(-.01, .01), flt(-6e-4, 6e-4),
                   flt(-2e-5, 2e-5), flt(-2e-7, 2e-7), flt(-2e-9, 2e-9)
                   ).map(sapm_mod)


def sapm_ref(aoi, module, upper):
    if math.isnan(aoi):
        return NAN
    if aoi < 0:
        return 0.
    v = sum(module[f'B{i}'] * aoi**i for i in range(6))
    v = max(0., v)
    return v if upper is None else min(v, upper)


elem(__name__, 'sapm', iam.sapm,
     dict(aoi=A, module=S(MODULE), upper=S(opt(flt(0, 2, (1,))))), sapm_ref,
     quick=400, types={'scalar': None}, rtol=1e-9, atol=1e-9,
     modes=('scalar', 'array', 'series', 'array2d'),
     doc='polynomial in the angle, not negative, at most the upper limit')


# ----------------------------------------------------------------- Schlick
elem(__name__, 'schlick', iam.schlick, dict(aoi=A),
     lambda aoi: NAN if math.isnan(aoi) else 0. if abs(aoi) >= 90
     else 1 - (1 - cosd(aoi))**5, quick=300,
     modes=('scalar', 'array', 'series', 'array2d'),
     doc='published expression, zero beyond 90 degrees')


# ------------------------------------------------------------------ interp
@st.composite
def table(draw, lo=2):
    n = draw(st.integers(lo, 8))
    first = draw(st.sampled_from([0., 0., 10., -90.]))
    x, t = [first], first
    for _ in range(n - 1):
        t += draw(flt(1, 25))
        x.append(t)
    y = [draw(flt(.05, 1.2)) for _ in range(n)]
    return dict(x=x, y=y, form=draw(st.sampled_from(
        ['list', 'array', 'series', 'tuple'])))


FORM = dict(list=list, array=np.array, tuple=tuple,
            series=lambda v: pd.Series(v, index=range(5, 5 + len(v))))


def linear(x, y, t):
    for i in range(len(x) - 1):
        if t <= x[i + 1] or i == len(x) - 2:
            return y[i] + (t - x[i]) * (y[i + 1] - y[i]) / (x[i + 1] - x[i])


@sub(lambda: fixed(t=table(), aoi=st.lists(AOI, min_size=1, max_size=6),
                   nan=st.integers(0, 5), norm=st.sampled_from(
                       [None, True, False]),
                   method=st.sampled_from([None, 'linear', 'cubic',
                                           'quadratic']),
                   kind=st.sampled_from(['scalar', 'array', 'series',
                                         '2d'])), quick=500)
def interp(case, ctx):
    """interpolation between the reference points, linear extrapolation for
    the linear method, never negative, one at normal incidence"""
    c, t, m = case, case['t'], case['method']
    x, y = t['x'], t['y']
    need = {None: 2, 'linear': 2, 'quadratic': 3, 'cubic': 4}[m]
    a = np.array(c['aoi'] + [NAN] * (c['nan'] == 0))
    kw = {} if m is None else {'method': m}
    if c['norm'] is not None:
        kw['normalize'] = c['norm']
    args = [FORM[t['form']](x), FORM[t['form']](y)]
    if len(x) < need:
        raises(ValueError, iam.interp, a, *args, what='too few points', **kw)
        ctx.label('too few')
        return

    def f(q):
        q = abs(q)
        if m in (None, 'linear'):
            return linear(x, y, q)
        return float(sp(q))
    if m == 'cubic':
        sp = CubicSpline(x, y)
    elif m == 'quadratic':
        # data on a parabola, which the spline has to reproduce
        p = np.polynomial.Polynomial.fit(x[:3], y[:3], 2)
        y = [float(p(q)) for q in x]
        if min(y) < 0:
            ctx.trivial()
            return
        args[1] = FORM[t['form']](y)
        sp = p
    f0 = f(0) if c['norm'] in (None, True) else 1.
    if f0 < .02:
        ctx.trivial()
        return
    exp = np.array([NAN if math.isnan(q) else max(0., f(q)) / f0 for q in a])
    if c['kind'] == 'scalar':
        a, exp = float(a[0]), exp[0]
    elif c['kind'] == 'series':
        a = pd.Series(a, index=series_index(len(a)))
    elif c['kind'] == '2d':
        a, exp = a.reshape(1, -1), exp.reshape(1, -1)
    s = snapshot([a, args])
    got = iam.interp(a, *args, **kw)
    unchanged(s, [a, args], 'arguments')
    if c['kind'] == 'series':
        same_index(got, a.index, 'iam')
    require(np.shape(got) == np.shape(exp), f'shape {np.shape(got)}')
    big = 1 if m in (None, 'linear') else 1e3
    close(np.ravel(arr(got)), np.ravel(exp), 1e-7 * big, 1e-8 * big,
          f'interp {m}', info=c)
    ctx.label(m or 'default', c['kind'], t['form'])


@sub(lambda: fixed(t=table(), aoi=uni(0, 90), i=st.integers(0, 7),
                   bad=st.sampled_from(['nope', 'polynomial', ''])),
     quick=100)
def interp_rejects(case, ctx):
    """negative reference values, unknown methods and single points are
    rejected; deprecated methods warn and still interpolate"""
    c, t = case, case['t']
    x, y = list(t['x']), list(t['y'])
    i = c['i'] % len(y)
    neg = list(y)
    neg[i] = -.01
    raises(ValueError, iam.interp, c['aoi'], x, neg, what='negative iam')
    raises(ValueError, iam.interp, c['aoi'], x, y, method=c['bad'],
           what='method')
    raises(ValueError, iam.interp, c['aoi'], x[:1], y[:1], what='one point')
    at = [q for q in x if q >= 0]
    for m in ('nearest', 'previous', 'next', 'zero', 'slinear'):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            got = iam.interp(np.array(at), x, y, method=m, normalize=False)
        require(any(issubclass(k.category, pvlibDeprecationWarning)
                    for k in w), f'{m} does not warn')
        close(got, [y[x.index(q)] for q in at], 1e-9, 1e-12, m)


# -------------------------------------------------------------- invariants
@sub(lambda: fixed(aoi=st.lists(flt(0, 90, (89.999,)), min_size=2,
                                max_size=6), b=flt(.01, .3),
                   a=flt(.05, .5), n=flt(1.05, 2), K=flt(0, 10),
                   L=flt(0, .01)), quick=150)
def shape(case, ctx):
    """one at normal incidence, falling with the angle, even in the angle,
    zero from behind"""
    c = case
    x = np.sort(np.array(c['aoi']))
    back = np.array([90., 95., 135., 180.])
    for name, f in (
            ('ashrae', lambda q: iam.ashrae(q, c['b'])),
            ('martin_ruiz', lambda q: iam.martin_ruiz(q, c['a'])),
            ('physical', lambda q: iam.physical(q, c['n'], c['K'], c['L'])),
            ('schlick', iam.schlick)):
        close(f(np.zeros(1)), 1., 1e-12, 0, f'{name} at 0')
        v = f(x)
        within(v, 0, 1, 1e-9, name)
        require((np.diff(v) <= 1e-9).all(), f'{name} rises with the angle: '
                f'{v} at {x}')
        close(f(-x), v, 1e-12, 1e-15, f'{name} of negative angles')
        close(f(back), 0 * back, 0, 1e-12, f'{name} from behind')
        close(f(-back), 0 * back, 0, 1e-12, f'{name} from behind, negative')
