"""C47 ModelChain entry points and model inference."""
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib import modelchain, pvsystem

from .. import chain as ch
from .. import sysgen as sg
from ..cmp import Fail, close, raises, require, snapshot, unchanged
from ..core import sub
from ..gen import fixed, flt
from .c46 import settle, union_models, union_system

RULE = ('Random chains and weather; parameter dictionaries with random '
        'members removed; non-trivial = the chain could be built and ran.')

CARRY = ['temp_air', 'wind_speed', 'pressure', 'precipitable_water',
         'cell_temperature', 'module_temperature']


def aslist(x, n):
    return list(x) if isinstance(x, tuple) else [x] * n


@sub(lambda: st.tuples(ch.chain(), ch.weather()).map(
    lambda t: dict(t[0], w=t[1])), quick=350, shards=4)
def entry_points(case, ctx):
    """plane-of-array and effective irradiance of a full run reproduce it"""
    c = case
    n = len(c['sys']['arrays'])
    fr = ch.frames(c)
    mc = ch.build(c)
    mc.run_model(ch.given(c, fr))
    r = ch.results(mc.results)
    form = c['w']['form']
    if n > 1 and form == 'frame':
        form = 'list'

    def box(x):
        return x[0] if form == 'frame' else (
            list(x) if form == 'list' else tuple(x))
    tup = n > 1 or form != 'frame'

    def same(got, keys):
        for k in keys:
            e = r[k]
            if e is None:
                continue
            if k not in ch.SYSTEM:
                e = tuple(aslist(e, n)) if tup else aslist(e, n)[0]
            sg.same(got[k], e, f'{k} from {what}', 1e-10, 1e-10)
    what = 'plane of array'
    poa = [pd.concat([ti[['poa_global', 'poa_direct', 'poa_diffuse']],
                      f[[k for k in CARRY if k in f]]], axis=1)
           for ti, f in zip(aslist(r['total_irrad'], n), fr)]
    b = snapshot(poa)
    m2 = ch.build(c)
    m2.run_model_from_poa(box(poa))
    same(ch.results(m2.results), [
        'solar_position', 'airmass', 'aoi', 'aoi_modifier',
        'spectral_modifier', 'effective_irradiance', 'cell_temperature',
        'dc', 'diode_params', 'dc_ohmic_losses', 'losses', 'ac'])
    unchanged(b, poa, 'data')
    what = 'effective irradiance'
    eff = [pd.concat([e.rename('effective_irradiance'), p[['poa_global', *[
        k for k in CARRY if k in p]]]], axis=1)
        for e, p in zip(aslist(r['effective_irradiance'], n), poa)]
    m3 = ch.build(c)
    m3.run_model_from_effective_irradiance(box(eff))
    same(ch.results(m3.results), [
        'effective_irradiance', 'cell_temperature', 'dc', 'diode_params',
        'dc_ohmic_losses', 'losses', 'ac'])
    what = 'effective irradiance and cell temperature'
    ec = [pd.DataFrame({'effective_irradiance': e, 'cell_temperature': t})
          for e, t in zip(aslist(r['effective_irradiance'], n),
                          aslist(r['cell_temperature'], n))]
    m4 = ch.build(c)
    m4.run_model_from_effective_irradiance(box(ec))
    same(ch.results(m4.results), ['cell_temperature', 'dc', 'losses', 'ac'])
    if not np.nanmax(np.append(np.asarray(r['ac'], float), -1)) > 0:
        ctx.trivial()
    ctx.label(form, f'{n} arrays', c['m']['dc'])


@sub(lambda: st.tuples(ch.chain(), ch.weather(), flt(.2, .9)).map(
    lambda t: dict(t[0], w=t[1], f=t[2])), quick=250, shards=3)
def containers(case, ctx):
    """one table, a list and a tuple of equal tables give the same results;
    wrong numbers, indexes, columns and bare tables are rejected"""
    c = case
    w = c['w']
    w['form'] = 'frame'
    n = len(c['sys']['arrays'])
    fr = ch.frames(c)
    ref = ch.build(c)
    ref.run_model(fr[0])
    a = ch.results(ref.results)
    for box in (list, tuple):
        m = ch.build(c)
        m.run_model(box(fr))
        b = ch.results(m.results)
        for k, e in a.items():
            if e is None or k in ('times', 'albedo'):
                continue
            if k not in ch.SYSTEM:
                e = tuple(aslist(e, n))
            sg.same(b[k], e, f'{k} from a {box.__name__}')
    poa = [f.rename(columns=dict(ghi='poa_global', dni='poa_direct',
                                 dhi='poa_diffuse')) for f in fr]
    eff = [f.rename(columns=dict(ghi='effective_irradiance')) for f in fr]
    entries = [('run_model', fr, 'dni'),
               ('run_model_from_poa', poa, 'poa_direct'),
               ('run_model_from_effective_irradiance', eff,
                'effective_irradiance')]
    entries.append(('complete_irradiance',
                    [f.drop(columns='dhi') for f in fr], None))
    entries.append(('prepare_inputs', fr, 'ghi'))
    ix = fr[0].index
    late = ix[-1] + pd.Timedelta('7min')
    other = [ix + pd.Timedelta('7min'), ix[:-1].append(ix[-1:] + (
        late - ix[-1])), ix[::-1], ix[:-1], ix.append(ix[-1:] + (
            late - ix[-1])), ix[:1].append(ix[1:] + (late - ix[-1]))]
    for name, d, col in entries:
        mc = ch.build(c)
        fn = getattr(mc, name)
        for bad in (d + d[:1], d[:-1]):
            raises(ValueError, fn, bad, what=f'{name}, {len(bad)} tables for '
                   f'{n} arrays') if bad or n > 1 else None
        if col:
            raises(ValueError, fn, tuple(x.drop(columns=col) for x in d),
                   what=f'{name} without {col}')
            for k in range(n):
                part = list(d)
                part[k] = part[k].drop(columns=col)
                raises(ValueError, fn, part if n > 1 else part[0],
                       what=f'{name}, table {k} without {col}')
        if n > 1:
            for i, jx in enumerate(other):
                mixed = list(d)
                k = 1 + (i + len(name)) % (n - 1)
                mixed[k] = mixed[k].iloc[[0]].reindex(
                    range(len(jx)), fill_value=1.).set_axis(jx)
                raises(ValueError, fn, mixed,
                       what=f'{name}, other times ({i})')
            if name not in ('run_model', 'prepare_inputs'):
                raises(TypeError, fn, d[0], what=f'{name}, one table for '
                       f'{n} arrays')
        # an error leaves the chain usable
        if name == 'run_model':
            fn(fr[0])
            sg.same(mc.results.ac, a['ac'], 'ac after errors')
    ctx.label(f'{n} arrays')


# ---------------------------------------------------------------- inference
DC_TABLE = [('sapm', ['A0', 'A1', 'C3']),
            ('cec', ['a_ref', 'I_L_ref', 'I_o_ref', 'R_sh_ref', 'R_s',
                     'Adjust']),
            ('desoto', ['a_ref', 'I_L_ref', 'I_o_ref', 'R_sh_ref', 'R_s']),
            ('pvsyst', ['gamma_ref', 'mu_gamma', 'I_L_ref', 'I_o_ref',
                        'R_sh_ref', 'R_sh_0', 'R_sh_exp', 'R_s']),
            ('pvwatts', ['pdc0', 'gamma_pdc'])]
DC_REQ = {
    'sapm': ['C0', 'C1', 'C2', 'C3', 'Isco', 'Impo', 'Voco', 'Vmpo', 'Aisc',
             'Aimp', 'Bvoco', 'Mbvoc', 'Bvmpo', 'Mbvmp', 'N',
             'Cells_in_Series'],
    'desoto': ['alpha_sc', 'a_ref', 'I_L_ref', 'I_o_ref', 'R_sh_ref', 'R_s'],
    'cec': ['alpha_sc', 'a_ref', 'I_L_ref', 'I_o_ref', 'R_sh_ref', 'R_s',
            'Adjust'],
    'pvsyst': ['gamma_ref', 'mu_gamma', 'I_L_ref', 'I_o_ref', 'R_sh_ref',
               'R_sh_0', 'R_s', 'alpha_sc', 'EgRef', 'cells_in_series'],
    'pvwatts': ['pdc0', 'gamma_pdc']}
AOI_TABLE = [('physical', ['n', 'K', 'L']),
             ('sapm', ['B0', 'B1', 'B2', 'B3', 'B4', 'B5']),
             ('ashrae', ['b']), ('martin_ruiz', ['a_r']),
             ('interp', ['theta_ref', 'iam_ref'])]
TEMP_TABLE = [('sapm', ['a', 'b', 'deltaT']), ('pvsyst', ['u_c', 'u_v']),
              ('faiman', ['u0', 'u1']), ('fuentes', ['noct_installed']),
              ('noct_sam', ['noct', 'module_efficiency'])]
AC_TABLE = [('sandia', ['C0', 'C1', 'C2']), ('adr', ['ADRCoefficients']),
            ('pvwatts', ['pdc0'])]


def first(table, keys):
    for name, req in table:
        if set(req) <= keys:
            return name
    return None


def tables(t):
    return [n for n, _ in t]


def some(names, least=1):
    return st.lists(st.sampled_from(names), min_size=least, max_size=3,
                    unique=True)


@st.composite
def inference_case(draw):
    s = draw(union_system(2))
    full = s['arrays']
    keep_dc = draw(some(tables(DC_TABLE)))
    keep_aoi = draw(some(tables(AOI_TABLE)))
    keep_t = draw(some(tables(TEMP_TABLE)))
    keep_ac = draw(some(tables(AC_TABLE)))
    dcreq = {k: v + (['A0', 'A1', 'A2', 'A3', 'A4'] if k == 'sapm' else [])
             + (['R_sh_exp'] if k == 'pvsyst' else [])
             for k, v in DC_REQ.items()}
    allp = {**{k: dcreq[k] for k in keep_dc}}
    tset = {k: draw(sg.temp_params(k, full=True)) for k in keep_t}
    inv = {}
    for k in keep_ac:
        inv.update({'sandia': s['inv'], 'adr': draw(
            sg.inverter_params('adr')), 'pvwatts': {
                'pdc0': s['inv']['Pdco']}}[k])
    for a in full:
        m = dict(a['module'], R_sh_exp=5.5)
        want = set(sum(allp.values(), [])) | set(sum(
            [dict(AOI_TABLE)[k] for k in keep_aoi], []))
        a['module'] = {k: v for k, v in m.items() if k in want}
        a['temp'] = {k: v for d in tset.values() for k, v in d.items()}
    # remove a key or two, from one array or the inverter
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 1, 2]))):
        d = draw(st.sampled_from(['module', 'temp', 'inv']))
        t = inv if d == 'inv' else full[draw(
            st.integers(0, len(full) - 1))][d]
        if t:
            t.pop(draw(st.sampled_from(sorted(t))))
    return dict(place=draw(ch.place()), sys=dict(s, arrays=full, inv=inv),
                w=draw(ch.weather(tmax=3)), m=draw(union_models()))


def common(dicts):
    return set.intersection(*[set(d) for d in dicts])


@sub(inference_case, quick=350, shards=4)
def inference(case, ctx):
    """unnamed models are the ones the parameters determine"""
    c = case
    arrs = c['sys']['arrays']
    mk = common([a['module'] for a in arrs])
    tk = common([a['temp'] for a in arrs])
    ik = set(c['sys']['inv'])
    dc, aoi = first(DC_TABLE, mk), first(AOI_TABLE, mk)
    temp, ac = first(TEMP_TABLE, tk), first(AC_TABLE, ik)
    sysobj = ch.build_system(c['sys'])
    loc = ch.location(c['place'])
    ok = dc and aoi and temp and ac and set(DC_REQ[dc]) <= mk and \
        not (ac == 'adr' and len(arrs) > 1)
    if not ok:
        raises(ValueError, modelchain.ModelChain, sysobj, loc,
               what=f'parameters allow dc {dc} aoi {aoi} temperature {temp} '
               f'ac {ac}')
        ctx.label('not determined')
        # naming a model does not make up for its missing parameters
        for n, req in DC_REQ.items():
            if not set(req) <= mk and aoi and temp and ac:
                raises(ValueError, modelchain.ModelChain, sysobj, loc,
                       dc_model=n, what=f'dc_model {n} without its '
                       'parameters')
        return
    if ac != 'pvwatts' and dc == 'pvwatts' or not set(
            sg_ac(ac)) <= ik:
        modelchain.ModelChain(sysobj, loc)
        ctx.trivial()
        ctx.label('not runnable')
        return
    m = dict(c['m'], dc=dc, aoi=aoi, temp=temp, ac=ac, spectral=None,
             ohmic='no_loss', losses='no_loss')
    cc = dict(c, m=m)
    if temp == 'sapm':
        for a in arrs:
            a['temp'].pop('irrad_ref', None)
    fr = ch.frames(cc)
    kw = dict(transposition_model=m['trans'], airmass_model=m['airmass'],
              solar_position_method=m['solpos'])
    m1 = modelchain.ModelChain(sysobj, loc, **kw)
    m1.run_model(ch.given(cc, fr))
    named = modelchain.ModelChain(
        sysobj, loc, dc_model=dc, ac_model=ac.upper(), aoi_model=aoi,
        temperature_model=temp, spectral_model='no_loss', **kw)
    named.run_model(ch.given(cc, fr))
    exp = ch.pipeline(cc, fr)
    a, b = ch.results(m1.results), ch.results(named.results)
    for k in a:
        if k != 'times':
            sg.same(a[k], b[k], f'{k}: inferred and named')
    sg.same(a['ac'], exp['ac'], f'ac with {dc}, {aoi}, {temp}, {ac}')
    ctx.label('dc ' + dc, 'aoi ' + aoi, 'temp ' + temp, 'ac ' + ac)
    # another temperature model than the parameters' one is inconsistent
    for t in tables(TEMP_TABLE):
        if t != temp:
            raises(ValueError, modelchain.ModelChain, sysobj, loc,
                   temperature_model=t, what=f'{t} with parameters for '
                   f'{temp}')


def sg_ac(ac):
    return {'sandia': ['Paco', 'Pdco', 'Vdco', 'Pso', 'C0', 'C1', 'C2', 'C3',
                       'Pnt'],
            'adr': ['Pnom', 'Vnom', 'Pacmax', 'Pnt', 'ADRCoefficients',
                    'Vmax', 'Vmin', 'Vdcmax', 'MPPTHi', 'MPPTLow'],
            'pvwatts': ['pdc0']}[ac]


BAD = ['', 'none', 'sap', 'a', 'adrs', 'singlediode', 'no-loss', 'pv',
       'physicals', 'simple', 'pvwatts_dc', 'sandia_multi', 'ross',
       'faiman_rad', 'generic', 'desoto ', 'percent']
OPTIONS = ['dc_model', 'ac_model', 'aoi_model', 'spectral_model',
           'temperature_model', 'dc_ohmic_model', 'losses_model']


@sub(lambda: st.tuples(ch.place(), union_system(2), union_models(),
                       st.sampled_from(OPTIONS), st.sampled_from(BAD),
                       st.booleans()).map(
    lambda t: dict(place=t[0], sys=t[1], m=settle(t[2], t[1]['temp']),
                   opt=t[3], bad=t[4], later=t[5])), quick=200)
def bad_names(case, ctx):
    """unknown model names are rejected, at construction and later, and
    leave an existing chain as it was"""
    c = case
    c['sys']['inv'].setdefault('pdc0', c['sys']['inv']['Pdco'])
    if c['later']:
        mc = ch.build(c)
        old = repr(mc)
        raises(ValueError, setattr, mc, c['opt'], c['bad'],
               what=f'{c["opt"]} = {c["bad"]!r}')
        require(repr(mc) == old, f'{c["opt"]} changed by the error')
    else:
        raises(ValueError, ch.build, c, **{c['opt']: c['bad']},
               what=f'{c["opt"]} = {c["bad"]!r}')


@sub(lambda: st.tuples(ch.place(), union_system(2), ch.weather(tmax=3),
                       st.sampled_from(['pvwatts', 'sapm']),
                       st.sampled_from([None, 'losses_model', 'aoi_model',
                                        'transposition_model',
                                        'solar_position_method',
                                        'airmass_model',
                                        'clearsky_model'])).map(
    lambda t: dict(place=t[0], sys=t[1], w=t[2], kind=t[3], over=t[4])),
    quick=160, shards=3)
def factories(case, ctx):
    """with_pvwatts and with_sapm are chains with the documented models"""
    c = case
    for a in c['sys']['arrays']:
        a['temp'] = dict(a=-3.5, b=-.06, deltaT=2.)
    c['sys']['inv'].setdefault('pdc0', c['sys']['inv']['Pdco'])
    m = dict(solpos='nrel_numpy', airmass='kastenyoung1989', temp='sapm',
             ohmic='no_loss')
    m.update(dict(dc='pvwatts', ac='pvwatts', losses='pvwatts',
                  trans='perez', aoi='physical', spectral='no_loss')
             if c['kind'] == 'pvwatts' else
             dict(dc='sapm', ac='sandia', losses='no_loss',
                  trans='haydavies', aoi='sapm', spectral='sapm'))
    kw = {}
    if c['over']:
        k = {'losses_model': 'losses', 'aoi_model': 'aoi',
             'transposition_model': 'trans', 'clearsky_model': 'clear',
             'solar_position_method': 'solpos',
             'airmass_model': 'airmass'}[c['over']]
        m[k] = kw[c['over']] = {'losses': 'no_loss', 'aoi': 'ashrae',
                                'trans': 'isotropic', 'clear': 'haurwitz',
                                'solpos': 'ephemeris',
                                'airmass': 'simple'}[k]
    cc = dict(c, m=m)
    fr = ch.frames(cc)
    f = modelchain.ModelChain.with_pvwatts if c['kind'] == 'pvwatts' \
        else modelchain.ModelChain.with_sapm
    mc = f(ch.build_system(c['sys']), ch.location(c['place']), name='q', **kw)
    require(mc.name == 'q', 'name')
    require(mc.clearsky_model == kw.get('clearsky_model', 'ineichen'),
            f'clear sky model {mc.clearsky_model}')
    mc.run_model(ch.given(cc, fr))
    exp = ch.pipeline(cc, fr)
    sg.same(mc.results.airmass, exp['airmass'], 'airmass')
    sg.same(mc.results.solar_position, exp['solar_position'],
            'solar position')
    sg.same(mc.results.ac, exp['ac'], 'ac')
    sg.same(mc.results.losses, exp['losses'], 'losses')
    ctx.label(c['kind'], str(c['over']))


NAME = st.sampled_from([None, 'north', 'roof 1', 'ünit', ''])


@sub(lambda: st.tuples(ch.chain(), ch.weather(tmax=5), st.lists(
    NAME, min_size=5, max_size=5), st.booleans()).map(
    lambda t: dict(t[0], w=t[1], names=t[2], ran=t[3])), quick=40)
def representations(case, ctx):
    """the printed forms of chain, results, system, arrays and location show
    what they consist of"""
    c = case
    s = ch.build_system(c['sys'])
    nm = c['names']
    s.name, s.inverter = nm[0], nm[1]
    for a, k in zip(s.arrays, nm[2:]):
        a.name, a.module, a.module_type = k, nm[0], nm[1]
    loc = ch.location(c['place'])
    mc = ch.build(c, s, loc)
    mc.name = nm[3]

    def holds(text, **want):
        lines = [x.strip() for x in text.split('\n')]
        for k, v in want.items():
            require(f'{k}: {v}'.strip() in lines, f'{k}: {v} not in {text}')
    for a in s.arrays:
        r = repr(a)
        require(r.startswith('Array:'), r)
        holds(r, name=a.name, module=a.module, albedo=a.albedo,
              module_type=a.module_type, strings=a.strings,
              mount=a.mount, modules_per_string=a.modules_per_string,
              temperature_model_parameters=a.temperature_model_parameters)
    r = repr(s)
    require(r.startswith('PVSystem:'), r)
    holds(r, name=s.name, inverter=s.inverter)
    at = 0
    for a in s.arrays:
        for line in repr(a).split('\n'):
            at = r.find(line.strip(), at)
            require(at >= 0, f'array missing in {r}')
    require(r.count('Array:') == len(s.arrays), 'number of arrays')
    r = repr(mc)
    require(r.startswith('ModelChain:'), r)
    holds(r, name=mc.name, transposition_model=c['m']['trans'],
          clearsky_model='ineichen', airmass_model=c['m']['airmass'],
          solar_position_method=c['m']['solpos'])
    for k, v in (('ac_model', mc.ac_model), ('dc_model', mc.dc_model),
                 ('aoi_model', mc.aoi_model),
                 ('spectral_model', mc.spectral_model),
                 ('temperature_model', mc.temperature_model),
                 ('losses_model', mc.losses_model)):
        holds(r, **{k: getattr(v, '__name__', v)})
    n = len(s.arrays)
    if c['ran']:
        mc.run_model(ch.given(c, ch.frames(c)))
    res = mc.results
    text = repr(res)
    require('ModelChainResult' in text.split('\n')[0], text[:80])
    holds(text, **{'Number of Arrays': n if type(res.dc) is tuple else 1})

    def shown(x):
        if isinstance(x, tuple):
            return 'Tuple (' + ', '.join(map(shown, x)) + ')'
        if isinstance(x, pd.DataFrame):
            return f'DataFrame ({len(x)} rows x {x.shape[1]} columns)'
        return f'Series (length {len(x)})' if isinstance(x, pd.Series) \
            else repr(x)
    for k, v in ch.results(res).items():
        if k == 'times':
            require(str(None if v is None else v[:3]) in text, 'times')
        else:
            holds(text, **{k: shown(v)})
    ctx.label('ran' if c['ran'] else 'before a run', f'{n} arrays')
