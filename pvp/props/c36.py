"""C36: spectral response, photon energy, mismatch, reference spectra."""
import csv
import math
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.interpolate import CubicSpline

from pvlib import spectrum as sp
from ..core import sub
from ..cmp import (close, require, raises, snapshot, unchanged, same_index,
                   Fail)
from ..gen import flt, fixed

RULE = """Wavelength grids of 2 to 14 points between 200 and 4500 nm, evenly
or unevenly spaced, integer or float, inside or beyond the data; spectra and
responses with zeros, several decades of magnitude and missing values; in
every documented container (scalar, 1-d and 2-d array, Series, DataFrame).
Non-trivial: at least one nonzero value."""

HC = 1.98644586e-25          # J m
HCQ = 1239.8419843320025     # nm eV
HERE = os.path.dirname(os.path.dirname(__file__))
with open(os.path.join(HERE, 'refs', 'astmg173.csv')) as f:
    _rows = list(csv.reader(f))[1:]
G173 = {k: [float(r[i]) for r in _rows[1:]]
        for i, k in enumerate(_rows[0])}
VAL = st.one_of(st.sampled_from([0., 1.]), flt(0, 2), flt(1e-6, 1e3))


@st.composite
def grid(draw, lo=200., hi=4500., n=None):
    """increasing wavelengths"""
    n = n or draw(st.integers(2, 14))
    kind = draw(st.sampled_from(['even', 'uneven', 'int']))
    a = draw(flt(lo, hi - 100))
    if kind == 'even':
        step = draw(flt(1, (hi - a) / n))
        g = [a + i * step for i in range(n)]
    else:
        d = draw(st.lists(flt(1, 100), min_size=n, max_size=n))
        g = list(a + np.cumsum(d))
        if kind == 'int':
            g = [int(a) + int(sum(math.ceil(x) for x in d[:i + 1]))
                 for i in range(n)]
    return [x if kind == 'int' else float(x) for x in g]


def trap(y, x):
    return math.fsum((x[i + 1] - x[i]) * (y[i] + y[i + 1]) / 2
                     for i in range(len(x) - 1))


def lerp(x, xs, ys):
    """linear interpolation, zero outside"""
    if not xs[0] <= x <= xs[-1]:
        return 0.
    for i in range(len(xs) - 1):
        if xs[i] <= x <= xs[i + 1]:
            if x == xs[i + 1]:
                return ys[i + 1]
            return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (
                xs[i + 1] - xs[i])
    return ys[0]


# ------------------------------------------------------------- SR and QE
@st.composite
def conv_case(draw):
    g = draw(st.one_of(grid(), grid().flatmap(st.permutations),
                       grid(n=1)))
    mode = draw(st.sampled_from(['scalar', 'array', 'array2d', 'series',
                                 'frame', 'series+wl', 'list']))
    v = st.one_of(VAL, VAL, VAL, st.just(math.nan)) if draw(
        st.integers(0, 3)) == 0 else VAL
    m = draw(st.sampled_from([1, 2, 3, len(g)]))
    return dict(mode=mode, g=g, rows=[draw(st.lists(
        v, min_size=len(g), max_size=len(g))) for _ in range(m)],
        fn=draw(st.sampled_from(['sr_to_qe', 'qe_to_sr'])),
        norm=draw(st.booleans()))


@sub(conv_case, quick=500)
def conversion(case, ctx):
    """quantum efficiency = response * hc/(q * wavelength), every container;
    normalization per spectrum; the inverse undoes it"""
    g, rows, mode = case['g'], case['rows'], case['mode']
    fwd, inv = (sp.sr_to_qe, sp.qe_to_sr)[:: 1 if case['fn'] == 'sr_to_qe'
                                          else -1]

    def factor(w):
        return HCQ / w if case['fn'] == 'sr_to_qe' else w / HCQ
    norm = case['norm']
    if mode in ('array', 'array2d', 'list') and np.isnan(rows).any():
        norm = False      # what the maximum is then is not documented
    exp = [[v * factor(w) for v, w in zip(r, g)] for r in rows]
    kw = {}
    if mode == 'scalar':
        x, kw, exp, norm = rows[0][0], dict(wavelength=g[0]), exp[0][0], False
    elif mode == 'array':
        x, kw, exp = np.array(rows[0]), dict(wavelength=np.array(g)), [exp[0]]
    elif mode == 'list':
        x = np.array(rows[0])
        kw, exp = dict(wavelength=list(g)), [exp[0]]
    elif mode == 'array2d':
        x, kw = np.array(rows), dict(wavelength=np.array(g))
    elif mode == 'frame':
        x = pd.DataFrame(np.array(rows).T, index=g,
                         columns=[f'm{i}' for i in range(len(rows))])
    elif mode == 'series':
        x, exp = pd.Series(rows[0], index=g, name='cell'), [exp[0]]
    else:
        # wavelengths given take precedence over the index
        x = pd.Series(rows[0], index=range(len(g)), name='cell')
        kw, exp = dict(wavelength=np.array(g)), [exp[0]]
    before, bkw = snapshot(x), snapshot(kw)
    with np.errstate(all='ignore'):
        out = fwd(x, normalize=norm, **kw)
        back = inv(fwd(x, **kw), **kw)
    unchanged(before, x, 'input')
    unchanged(bkw, kw, 'wavelength')
    if norm:
        def top(r):
            return max((v for v in r if v == v), default=math.nan)
        exp = [[v / top(r) if top(r) > 0 else math.nan for v in r]
               for r in exp]
    if mode == 'frame':
        require(isinstance(out, pd.DataFrame), 'DataFrame expected')
        require(list(out.columns) == list(x.columns), 'columns changed')
        require(list(out.index) == g, 'index changed')
        got = out.values.T
        close(back.values, x.values, 1e-12, 0, 'round trip')
    elif mode.startswith('series'):
        same_index(out, x.index, 'result')
        require(out.name == 'cell', 'name lost')
        got = [out.values]
        close(back.values, x.values, 1e-12, 0, 'round trip')
    else:
        require(np.shape(out) == np.shape(x), f'shape {np.shape(out)}')
        got = out if mode in ('array2d', 'scalar') else [out]
        close(back, x, 1e-12, 0, 'round trip')
    close(got, exp, 1e-9, 0, case['fn'], info=case)
    if not np.any(np.asarray(rows) > 0):
        ctx.trivial()
    ctx.label(mode, 'normalized' if norm else 'plain')


@sub(lambda: fixed(fn=st.sampled_from(['sr_to_qe', 'qe_to_sr']),
                   v=st.lists(VAL, min_size=1, max_size=4),
                   mode=st.sampled_from(['scalar', 'array'])), quick=20)
def conversion_rejects(case, ctx):
    """without wavelengths and without an index: TypeError"""
    x = case['v'][0] if case['mode'] == 'scalar' else np.array(case['v'])
    raises(TypeError, getattr(sp, case['fn']), x)


# -------------------------------------------------- average photon energy
@st.composite
def spectra_case(draw, m=None, lo=200., hi=4500.):
    g = draw(grid(lo, hi))
    m = m or draw(st.sampled_from([1, 2, 4]))
    rows = [draw(st.lists(VAL, min_size=len(g), max_size=len(g)))
            for _ in range(m)]
    for r in rows:
        if draw(st.integers(0, 9)) == 0:
            r[draw(st.integers(0, len(r) - 1))] = math.nan
        elif draw(st.integers(0, 9)) == 0:
            r[:] = [0.] * len(r)
    return dict(g=g, rows=rows, frame=draw(st.booleans()),
                scale=draw(flt(1e-3, 1e3)), desc=draw(st.booleans()))


def table(case, key='rows'):
    rows, g = case[key], case['g']
    if case['frame']:
        return pd.DataFrame(rows, columns=g, index=pd.date_range(
            '2021-01-01', periods=len(rows), freq='h', tz='UTC'))
    return pd.Series(rows[0], index=g)


@sub(spectra_case, quick=400)
def photon_energy(case, ctx):
    """the defining integrals, spectrum by spectrum; bounded by the photon
    energies at the ends; unchanged by scaling and by listing the
    wavelengths downwards"""
    g = case['g']
    x = table(case)
    before = snapshot(x)
    out = sp.average_photon_energy(x)
    unchanged(before, x, 'spectra')
    rows = case['rows'] if case['frame'] else case['rows'][:1]
    exp = []
    for r in rows:
        n = trap([v * w for v, w in zip(r, g)], g)
        exp.append(HCQ * trap(r, g) / n if n > 0 else math.nan)
    if case['frame']:
        same_index(out, x.index, 'result')
    else:
        require(np.ndim(out) == 0, 'scalar expected')
    vals = np.atleast_1d(np.asarray(out))
    close(vals, exp, 1e-9, 0, 'average photon energy', info=case)
    ok = np.isfinite(vals)
    require(((vals[ok] <= HCQ / g[0] * (1 + 1e-9))
             & (vals[ok] >= HCQ / g[-1] * (1 - 1e-9))).all(),
            'outside the photon energies of the spectrum')
    close(np.atleast_1d(sp.average_photon_energy(x * case['scale'])), vals,
          1e-9, 0, 'scaled spectrum')
    rev = x.iloc[:, ::-1] if case['frame'] else x.iloc[::-1]
    close(np.atleast_1d(sp.average_photon_energy(rev)), vals, 1e-9, 0,
          'descending wavelengths')
    if not ok.any():
        ctx.trivial()
    ctx.label('frame' if case['frame'] else 'series',
              'has-nan' if not ok.all() else 'finite')


@sub(lambda: spectra_case(), quick=40)
def photon_energy_rejects(case, ctx):
    """negative spectra: ValueError; plain arrays: TypeError"""
    x = table(case).copy()
    raises(TypeError, sp.average_photon_energy, x.values)
    if case['frame']:
        x.iloc[-1, 0] = -1e-9
    else:
        x.iloc[0] = -1e-9
    raises(ValueError, sp.average_photon_energy, x)


# ----------------------------------------------------- spectral mismatch
@st.composite
def mm_case(draw):
    lo, hi = draw(st.sampled_from([(300., 1500.), (300., 600.),
                                   (200., 4500.)]))
    c = draw(spectra_case(lo=lo, hi=hi))
    # around the range of the spectrum, overlapping it partly or fully
    a = c['g'][0] + draw(flt(-100, 50))
    b = max(c['g'][-1] + draw(flt(-50, 200)), a + 50)
    n = draw(st.integers(2, 9))
    c['sr_g'] = [float(x) for x in np.linspace(a, b, n)]
    c['sr'] = draw(st.lists(flt(.01, 1, (1, 0)), min_size=len(c['sr_g']),
                            max_size=len(c['sr_g'])))
    c['ref'] = draw(st.sampled_from(['default', 'own', 'own-grid']))
    c['ref_g'] = c['g'] if c['ref'] == 'own' else draw(grid(lo, hi))
    if c['ref'] == 'own-grid':
        c['ref_g'] = [float(x) for x in np.linspace(
            c['g'][0] + draw(flt(-100, 20)), c['g'][-1] + 100, n + 2)]
    c['refv'] = draw(st.lists(flt(.01, 2, (0, 1)), min_size=len(c['ref_g']),
                              max_size=len(c['ref_g'])))
    c['ks'], c['kr'] = draw(flt(1e-2, 1e2)), draw(flt(1e-2, 1e2))
    return c


def ref_global(g):
    return [lerp(w, G173['wavelength'], G173['global']) for w in g]


@sub(mm_case, quick=400)
def mismatch(case, ctx):
    """ratio of usable fractions from the defining integrals, with the given
    or the standard reference; independent of the scales of response,
    spectrum and reference; one when the spectrum is the reference or the
    response is flat"""
    g = case['g']
    x = table(case)
    sr = pd.Series(case['sr'], index=case['sr_g'])
    if case['ref'] == 'default':
        rg, rv, kw = g, ref_global(g), {}
    else:
        rg, rv = case['ref_g'], case['refv']
        kw = dict(e_ref=pd.Series(rv, index=rg))
    before = snapshot((x, sr, kw))
    with np.errstate(all='ignore'):
        out = sp.calc_spectral_mismatch_field(sr, x, **kw)
    unchanged(before, (x, sr, kw), 'inputs')
    ss = [lerp(w, case['sr_g'], case['sr']) for w in g]
    srr = [lerp(w, case['sr_g'], case['sr']) for w in rg]

    def uf(v, s, w):
        d = trap(v, w)
        return trap([a * b for a, b in zip(v, s)], w) / d if d else math.nan
    ur = uf(rv, srr, rg)
    rows = case['rows'] if case['frame'] else case['rows'][:1]
    exp = []
    for r in rows:
        u = uf(r, ss, g)
        exp.append(u / ur if ur else math.nan)
    if case['frame']:
        same_index(out, x.index, 'result')
    else:
        require(np.ndim(out) == 0, 'scalar expected')
    vals = np.atleast_1d(np.asarray(out, dtype=float))
    good = np.isfinite(exp)
    if not ur or not np.isfinite(ur) or ur < 1e-12:
        ctx.trivial()
        return
    close(vals, exp, 1e-8, 1e-14, 'mismatch', info=case)
    with np.errstate(all='ignore'):
        kw2 = {k: v * case['kr'] for k, v in kw.items()}
        close(np.atleast_1d(sp.calc_spectral_mismatch_field(
            sr * case['ks'], x * case['scale'], **kw2)), vals, 1e-9, 1e-14,
            'scaled inputs')
        flat = pd.Series([.7] * 2, index=[1., 9000.])
        one = np.atleast_1d(sp.calc_spectral_mismatch_field(flat, x, **kw))
        close(one[good], np.ones(good.sum()), 1e-9, 0, 'flat response')
        if case['ref'] != 'default':
            e = kw['e_ref']
            close(sp.calc_spectral_mismatch_field(sr, e, e_ref=e), 1., 1e-9,
                  0, 'spectrum equal to the reference')
    if not good.any():
        ctx.trivial()
    ctx.label('ref-' + case['ref'], 'frame' if case['frame'] else 'series')


# ------------------------------------------------------ reference spectra
def points(lo, hi):
    """wavelengths of interest: a grid, a single one, or in any order"""
    return st.one_of(grid(lo, hi), st.lists(flt(lo, hi), min_size=1,
                                            max_size=1),
                     grid(lo, hi).flatmap(st.permutations),
                     st.lists(st.sampled_from(
                         [280., 280.5, 400., 401., 1700., 1702., 4000., 279.9,
                          4000.1, 550.25]), min_size=1, max_size=4))


@sub(lambda: fixed(g=points(200, 4500), kind=st.sampled_from(
    ['list', 'array', 'index', 'none', 'unknown']),
    name=st.sampled_from(['ASTM G173', 'astm g173-03', '', 'AM0'])),
    quick=120)
def reference(case, ctx):
    """standard values at the standard wavelengths, linear in between, zero
    outside; unknown standards are rejected"""
    if case['kind'] == 'unknown':
        raises(ValueError, sp.get_reference_spectra, standard=case['name'])
        ctx.label('unknown')
        return
    g = case['g']
    if case['kind'] == 'none':
        out, g = sp.get_reference_spectra(), G173['wavelength']
    else:
        w = {'list': list, 'array': np.array,
             'index': pd.Index}[case['kind']](g)
        out = sp.get_reference_spectra(w)
    require(set(out.columns) == {'extraterrestrial', 'global', 'direct'},
            f'columns {list(out.columns)}')
    close(np.array(out.index, dtype=float), g, 0, 0, 'wavelengths')
    for k in out.columns:
        e = (G173[k] if case['kind'] == 'none' else
             [lerp(v, G173['wavelength'], G173[k]) for v in g])
        close(out[k].values, e, 1e-9, 1e-30, k, info=case)
    # a caller changing the result must not change later ones
    keep = out.copy()
    out.iloc[:] = -1.
    again = sp.get_reference_spectra() if case['kind'] == 'none' else \
        sp.get_reference_spectra(w)
    if not again.equals(keep):
        raise Fail('a later result was changed')
    ctx.label(case['kind'])


SRX = [290, 350, 400, 500, 650, 800, 900, 950, 1000, 1050, 1100, 1150, 1190]
SRY = [0, .27, .37, .52, .71, .88, .97, 1, .93, .58, .21, .05, 0]
SPL = CubicSpline(SRX, SRY, bc_type='not-a-knot')


@sub(lambda: fixed(g=points(200, 1500), kind=st.sampled_from(
    ['list', 'array', 'none'])), quick=120)
def example_response(case, ctx):
    """the spline through the published points, zero outside"""
    g = case['g']
    if case['kind'] == 'none':
        out, g = sp.get_example_spectral_response(), list(
            range(280, 1201, 5))
    else:
        out = sp.get_example_spectral_response(
            {'list': list, 'array': np.array}[case['kind']](g))
    if not isinstance(out, pd.Series):
        raise Fail('Series expected')
    close(np.array(out.index, dtype=float), g, 0, 0, 'wavelengths')
    exp = [float(SPL(w)) if 290 <= w <= 1190 else 0. for w in g]
    close(out.values, exp, 1e-9, 1e-12, 'response')
