"""C45 ModelChain versus the models called by hand."""
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib import (atmosphere, clearsky, irradiance, modelchain,
                   solarposition)

from .. import chain as ch
from .. import sysgen as sg
from ..cmp import Fail, close, require, snapshot, unchanged
from ..core import sub
from ..gen import fixed, flt

RULE = ('Random systems (one to three arrays), model selections and weather '
        'tables with and without the optional columns, as one table, list '
        'or tuple; non-trivial = positive AC power at some time.')
ASSUMPTIONS = ('The ineichen clear-sky default of complete_irradiance is '
               'exercised through simplified_solis, because the turbidity '
               'table is not part of this checkout.')


def trim(case):
    """module temperature makes irrad_ref moot; keep only the array's"""
    if 'module_temperature' in case['w']['cols']:
        for a in case['sys']['arrays']:
            a['temp'].pop('irrad_ref', None)


def compare(case, res, exp, per=None):
    """res: ModelChainResult; exp: pipeline()"""
    n = len(case['sys']['arrays'])
    tup = n > 1 or case['w']['form'] != 'frame'
    for k in ch.PER_ARRAY:
        got = getattr(res, k)
        e = exp[k]
        if not e:
            require(got is None, f'{k}: {type(got).__name__}, expected None')
            continue
        if k == 'albedo':
            got = got if isinstance(got, tuple) else (got,) * n
            sg.same(got, tuple(e), k)
        elif tup:
            sg.same(got, tuple(e), k)
        else:
            sg.same(got, e[0], k)
    for k in ch.SYSTEM:
        if k in exp:
            sg.same(getattr(res, k), exp[k], k)


def weather_used(case, fr, res, cols=('ghi', 'dhi', 'dni')):
    """results.weather: the recognised columns plus the defaults"""
    ws = res.weather if isinstance(res.weather, tuple) else (res.weather,)
    require(isinstance(res.weather, tuple) == (case['w']['form'] != 'frame'),
            'weather container')
    require(res.times.equals(fr[0].index), 'times')
    for w, f in zip(ws, fr):
        keys = [*cols, 'wind_speed', 'temp_air', 'precipitable_water']
        for k in keys:
            if k in f:
                close(w[k], f[k], 0, 0, f'weather {k}')
        for k, d in (('wind_speed', 0), ('temp_air', 20)):
            if k not in f:
                close(w[k], d, 0, 0, f'default {k}')


def case_():
    return st.tuples(ch.chain(), ch.weather()).map(
        lambda t: dict(t[0], w=t[1]))


@sub(case_, quick=700, shards=4)
def full_run(case, ctx):
    """run_model at every stage"""
    c = case
    trim(c)
    fr = ch.frames(c)
    data = ch.given(c, fr)
    exp = ch.pipeline(c, fr)
    b = snapshot(fr)
    mc = ch.build(c)
    r = mc.run_model(data)
    require(r is mc, 'run_model does not return the chain')
    unchanged(b, fr, 'weather')
    compare(c, mc.results, exp)
    weather_used(c, fr, mc.results)
    m = c['m']
    ctx.label(m['dc'], 'ac ' + m['ac'], 'temperature ' + m['temp'],
              'iam ' + m['aoi'], f'{len(fr)} arrays')
    for a in c['sys']['arrays']:
        ctx.label(a['mount']['kind'])
    if not np.nanmax(np.append(np.asarray(exp['ac'], float), -1)) > 0:
        ctx.trivial()


@sub(case_, quick=300, shards=2)
def poa_run(case, ctx):
    """run_model_from_poa at every stage"""
    c = case
    trim(c)
    n = len(c['sys']['arrays'])
    if n > 1 and c['w']['form'] == 'frame':
        c['w']['form'] = 'tuple'
    fr = [f.rename(columns=dict(ghi='poa_global', dni='poa_direct',
                                dhi='poa_diffuse')) for f in ch.frames(c)]
    exp = ch.pipeline(c, fr, 'poa')
    b = snapshot(fr)
    mc = ch.build(c)
    mc.run_model_from_poa(ch.given(c, fr))
    unchanged(b, fr, 'data')
    compare(c, mc.results, exp)
    weather_used(c, fr, mc.results, ())
    ctx.label(c['m']['dc'], f'{n} arrays')


@sub(lambda: st.tuples(case_(), st.one_of(
    st.just([True] * 3), st.just([False] * 3), st.lists(
        st.booleans(), min_size=3, max_size=3))).map(
    lambda t: dict(t[0], poa=t[1])), quick=300, shards=2)
def effective_run(case, ctx):
    """run_model_from_effective_irradiance at every stage"""
    c = case
    trim(c)
    n = len(c['sys']['arrays'])
    if n > 1 and c['w']['form'] == 'frame':
        c['w']['form'] = 'tuple'
    fr = [f.rename(columns=dict(ghi='poa_global', dni='effective_irradiance')
                   ).drop(columns=['dhi'] + ([] if p else [
                       'poa_global'])) for f, p in zip(ch.frames(c),
                                                       c['poa'])]
    exp = ch.pipeline(c, fr, 'effective')
    exp.pop('total_irrad')
    b = snapshot(fr)
    mc = ch.build(c)
    mc.run_model_from_effective_irradiance(ch.given(c, fr))
    unchanged(b, fr, 'data')
    tup = n > 1 or c['w']['form'] != 'frame'
    for k in ('effective_irradiance', 'cell_temperature', 'dc',
              'diode_params', 'dc_ohmic_losses'):
        if exp[k]:
            sg.same(getattr(mc.results, k),
                    tuple(exp[k]) if tup else exp[k][0], k)
    sg.same(mc.results.ac, exp['ac'], 'ac')
    weather_used(c, fr, mc.results, ())
    ctx.label(c['m']['dc'], f'{n} arrays',
              {n: 'poa given', 0: 'no poa'}.get(
                  sum(c['poa'][:n]), 'poa for some arrays'))


@sub(lambda: st.tuples(case_(), st.sampled_from(['dni', 'ghi', 'dhi', None]),
                       ).map(lambda t: dict(t[0], lack=t[1])),
     quick=250, shards=2)
def complete_irradiance(case, ctx):
    """the missing component follows from the other two, and the completed
    table can be run"""
    c = case
    trim(c)
    w = c['w']
    w['missing'] = None
    n = len(c['sys']['arrays'])
    if n > 1 and w['form'] == 'frame':
        w['form'] = 'list'
    fr = ch.frames(c)
    full = snapshot(fr)
    k = c['lack']
    ix, p = fr[0].index, c['place']
    pres = atmosphere.alt2pres(p['alt'])
    sp = solarposition.get_solarposition(
        ix, p['lat'], p['lon'], altitude=p['alt'], pressure=pres,
        temperature=12, method=c['m']['solpos'])
    cs = clearsky.simplified_solis(
        sp['apparent_elevation'], pressure=pres,
        dni_extra=irradiance.get_extra_radiation(ix))
    if k:
        fr = [f.drop(columns=k) for f in fr]
    b = snapshot(fr)
    mc = ch.build(c, clearsky_model='simplified_solis')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore', UserWarning)
        r = mc.complete_irradiance(ch.given(c, fr))
    require(r is mc, 'return value')
    unchanged(b, fr, 'weather')
    ws = mc.results.weather
    require(isinstance(ws, tuple) == (w['form'] != 'frame'), 'container')
    ws = ws if isinstance(ws, tuple) else (ws,)
    cosz = np.cos(np.radians(sp['zenith']))
    for g, f in zip(ws, full):
        require(set(g.columns) == set(f.columns), f'columns {list(g)}')
        if k == 'dni':
            e = irradiance.dni(f['ghi'], f['dhi'], sp['zenith'],
                               dni_clear=cs['dni'], clearsky_tolerance=1.1)
        elif k == 'ghi':
            e = f['dhi'] + f['dni'] * cosz
        elif k == 'dhi':
            e = f['ghi'] - f['dni'] * cosz
        for col in f:
            close(g[col], e if col == k else f[col], 1e-9, 1e-9,
                  f'{col} completed')
    ctx.label(str(k))
    if k is None:
        ctx.trivial()
    # the completed table is usable as it is
    done = mc.results.weather
    fin = ch.pipeline(c, list(ws) if len(ws) == n else [ws[0]] * n)
    mc.run_model(done)
    sg.same(mc.results.ac, fin['ac'], 'ac of the completed table')


def f_dc(mc):
    e = mc.results.effective_irradiance
    t = mc.results.cell_temperature
    one = not isinstance(e, tuple)
    d = tuple(x * 2 + y for x, y in zip(*[
        (q,) if one else q for q in (e, t)]))
    mc.results.dc = d[0] if one else d
    return mc


@sub(lambda: st.tuples(case_(), flt(.5, 1), flt(.5, 1), flt(-5, 5)).map(
    lambda t: dict(t[0], f=t[1], g=t[2], d=t[3])), quick=150, shards=2)
def own_models(case, ctx):
    """user functions take the place of any of the models"""
    c = case
    c['m']['aoi'] = c['m']['spectral'] = c['m']['ohmic'] = 'no_loss'
    w = c['w']
    w['cols'] = [k for k in w['cols'] if 'temperature' not in k]
    fr = ch.frames(c)
    n = len(fr)
    tup = n > 1 or w['form'] != 'frame'
    calls = []

    def each(mc, x):
        return (x,) * n if tup else x

    def aoi(mc):
        calls.append('aoi')
        mc.results.aoi_modifier = each(mc, c['f'])

    def spec(mc):
        calls.append('spectral')
        mc.results.spectral_modifier = each(mc, c['g'])

    def temp(mc):
        calls.append('temperature')
        t = pd.Series(25. + c['d'], mc.results.times)
        mc.results.cell_temperature = each(mc, t)

    def dc(mc):
        calls.append('dc')
        f_dc(mc)

    def ohmic(mc):
        calls.append('ohmic')

    def losses(mc):
        calls.append('losses')
        mc.results.losses = .5

    def ac(mc):
        calls.append('ac')
        d = mc.results.dc
        mc.results.ac = sum(d) if isinstance(d, tuple) else d * 1
        mc.results.ac = mc.results.ac * mc.results.losses
    mc = ch.build(c, aoi_model=aoi, spectral_model=spec,
                  temperature_model=temp, dc_model=dc, dc_ohmic_model=ohmic,
                  losses_model=losses, ac_model=ac)
    mc.run_model(ch.given(c, fr))
    require(calls == ['aoi', 'spectral', 'temperature', 'dc', 'ohmic',
                      'losses', 'ac'], f'order of the calls: {calls}')
    # with factors f, g instead of no loss
    exp = ch.pipeline(c, fr)
    tot = 0
    for i, a in enumerate(c['sys']['arrays']):
        ti = exp['total_irrad'][i]
        eff = c['g'] * (ti['poa_direct'] * c['f'] + a['module'].get(
            'FD', 1.) * ti['poa_diffuse'])
        got = mc.results.effective_irradiance
        sg.same(got[i] if tup else got, eff, 'effective irradiance')
        tot = tot + eff * 2 + 25 + c['d']
    close(mc.results.ac, tot * .5, 1e-10, 1e-9, 'ac')
