"""C44 PVSystem and Array methods versus the model functions."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib import (atmosphere, iam, inverter, irradiance, pvsystem, spectrum,
                   temperature)

from ..cmp import close, raises, require, snapshot, unchanged
from ..core import sub
from ..gen import fixed, flt, logflt, opt, uni
from .. import sysgen as sg

RULE = ('Random systems of one to four arrays (fixed and tracking mounts, '
        'own parameters and layout), inputs as scalars, arrays or Series, '
        'given per array or system-wide; non-trivial = two or more arrays, '
        'or optional parameters present.')
ASSUMPTIONS = 'Physical parameter ranges.'


def index(n):
    return pd.date_range('2021-06-01 05:30', periods=n, freq='h',
                         tz='Etc/GMT+7')


def box(vals, form):
    """a list of element values in the chosen container"""
    if form == 'scalar':
        return vals[0]
    if form == 'array':
        return np.array(vals, float)
    return pd.Series(np.array(vals, float), index=index(len(vals)))


def arrays(module, temp=None, mounts=('fixed', 'tracker'), n=(1, 4)):
    t = st.just({}) if temp is None else temp
    return st.lists(st.tuples(sg.mount(mounts), sg.layout(), module, t).map(
        lambda q: dict(q[1], mount=q[0], module=q[2], temp=q[3])),
        min_size=n[0], max_size=n[1])


def subset(names):
    return st.tuples(*[st.booleans() for _ in names]).map(
        lambda t: [k for k, b in zip(names, t) if b])


def decoys():
    """unrelated keys that must be ignored"""
    return st.sampled_from([{}, {}, dict(Name='x', Technology='Mono-c-Si'),
                            dict(temp_air=3., poa_global=9., aoi=1.)])


def rows(**strats):
    """per array (4) and per time (4) values of every input"""
    return st.lists(st.lists(fixed(**strats), min_size=4, max_size=4),
                    min_size=4, max_size=4)


FORM = st.sampled_from(['scalar', 'array', 'series', 'series'])
STYLE = dict(form=FORM, nt=st.integers(1, 4),
             unwrap=st.sampled_from([None, None, True, False]),
             tuple1=st.booleans(), wide=st.booleans(),
             bad=st.sampled_from([0] * 9 + [-1, 1]))


class Call:
    """one method call on a system, compared array by array"""

    def __init__(self, c, ctx):
        self.c, self.ctx = c, ctx
        self.sys = pvsystem.PVSystem([sg.build_array(d)
                                      for d in c['arrays']])
        self.n = len(c['arrays'])
        if self.n == 1 and c.get('tuple1'):
            self.sys = pvsystem.PVSystem(self.sys.arrays[0])

    def vals(self, key, i):
        c = self.c
        return box([r[key] for r in c['rows'][i][:c['nt']]], c['form'])

    def per(self, key):
        return [self.vals(key, i) for i in range(self.n)]

    def check(self, method, per=None, wide=None, shared=None, expect=None):
        """per: per-array inputs (a tuple unless one array); wide: inputs
        that may also be given once; expect(i, inputs) -> result"""
        c = self.c
        per, wide, shared = per or {}, wide or {}, shared or {}
        ins = {}
        for k, v in per.items():
            ins[k] = v[0] if self.n == 1 and not c['tuple1'] else tuple(v)
        one = c['wide']
        for k, v in wide.items():
            ins[k] = v[0] if one else tuple(v)
        ins.update(shared)
        kw = {} if c['unwrap'] is None else {'unwrap': c['unwrap']}
        fn = getattr(self.sys, method)
        before = snapshot(ins)
        pars = snapshot([[a.module_parameters, a.temperature_model_parameters]
                         for a in self.sys.arrays])
        got = fn(**ins, **kw)
        unchanged(before, ins, 'arguments of ' + method)
        unchanged(pars, [[a.module_parameters, a.temperature_model_parameters]
                         for a in self.sys.arrays], 'parameters')
        exp = tuple(expect(i, {
            **{k: v[i] for k, v in per.items()},
            **{k: v[0] if one else v[i] for k, v in wide.items()}, **shared})
            for i in range(self.n))
        if self.n == 1 and c['unwrap'] is not False:
            exp = exp[0]
        sg.same(got, exp, method)
        if self.n == 1:
            self.ctx.trivial()
        else:
            self.ctx.label('several arrays')
        if c['bad'] and (per or not one):
            k = (list(per) or list(wide))[0]
            b = list((per or wide)[k])
            b = b[:-1] if c['bad'] < 0 else b + [b[-1]]
            raises(ValueError, fn, **dict(ins, **{k: tuple(b)}),
                   what=f'{method} with {len(b)} inputs for {self.n} arrays')
            self.ctx.label('length mismatch')
        if self.n > 1 and per and c['bad']:
            k = list(per)[0]
            raises(ValueError, fn, **dict(ins, **{k: per[k][0]}),
                   what=f'{method} with one input for {self.n} arrays')


# ------------------------------------------------------------- orientation
SUN = dict(zen=flt(0, 120, (0, 90)), azi=flt(0, 359.9, (180,)))


@sub(lambda: fixed(arrays=arrays(st.just({})), sun=st.lists(
    fixed(**SUN), min_size=4, max_size=4), rows=rows(
        dni=flt(0, 1000, (0,)), ghi=flt(0, 1200, (0,)),
        dhi=flt(0, 600, (0,)), alb=flt(0, 1)),
    given=subset(['dni_extra', 'airmass', 'albedo']),
    model=st.sampled_from([None, 'isotropic', 'klucher', 'haydavies',
                           'reindl', 'king', 'perez', 'perez-driesse']),
    am=st.lists(flt(1, 20), min_size=4, max_size=4), i0=flt(1320, 1410),
    mp=st.sampled_from([None, '1990']), **STYLE), quick=800, shards=2)
def orientation(case, ctx):
    """get_aoi and get_irradiance for each array's own orientation"""
    c = dict(case)
    nt = c['nt']
    q = Call(c, ctx)
    zen = box([s['zen'] for s in c['sun'][:nt]], c['form'])
    azi = box([s['azi'] for s in c['sun'][:nt]], c['form'])
    ori = [sg.orientation(a['mount'], zen, azi) for a in c['arrays']]
    q.check('get_aoi', shared=dict(solar_zenith=zen, solar_azimuth=azi),
            expect=lambda i, a: irradiance.aoi(*ori[i], zen, azi)) \
        if not c['bad'] else None
    model = c['model']
    if model == 'perez' and c['form'] == 'scalar':
        model = 'haydavies'         # perez returns 1-element arrays
    shared = dict(solar_zenith=zen, solar_azimuth=azi)
    kw = {}
    if model is not None:
        shared['model'] = model
    if c['mp'] and model in ('perez',):
        kw['model_perez'] = c['mp']
        shared['model_perez'] = c['mp']
    if 'dni_extra' in c['given']:
        i0 = c['i0']
        shared['dni_extra'] = i0
    elif c['form'] == 'series':
        i0 = irradiance.get_extra_radiation(index(nt))
    else:
        i0 = 1367.
    if 'airmass' in c['given']:
        am = box(c['am'][:nt], c['form'])
        shared['airmass'] = am
    else:
        am = atmosphere.get_relative_airmass(zen)
    wide = {k: q.per(k) for k in ('dni', 'ghi', 'dhi')}
    if 'albedo' in c['given']:
        wide['albedo'] = q.per('alb') if c['rows'][0][0]['alb'] > .1 else [
            box([0.] * nt, c['form']) for _ in range(q.n)]

    def expect(i, a):
        alb = a['albedo'] if 'albedo' in a else sg.albedo_of(c['arrays'][i])
        return irradiance.get_total_irradiance(
            *ori[i], zen, azi, a['dni'], a['ghi'], a['dhi'], dni_extra=i0,
            airmass=am, albedo=alb, model=model or 'haydavies', **kw)
    q.check('get_irradiance', wide=wide, shared=shared, expect=expect)


# --------------------------------------------------------------- incidence
def any_iam(full=False):
    return st.sampled_from(['ashrae', 'physical', 'martin_ruiz', 'interp',
                            'schlick', 'sapm']).flatmap(
        lambda m: st.tuples(st.just(m), arrays(
            sg.merge(sg.iam_params(m), decoys(),
                     sg.pvwatts_params()))))


def direct_iam(model, aoi, par):
    if model == 'sapm':
        return iam.sapm(aoi, par)
    return getattr(iam, model)(aoi, **sg.pick(par, sg.IAM_KEYS[model]))


@sub(lambda: fixed(ma=any_iam(), rows=rows(aoi=flt(0, 120, (0, 90))),
                   up=st.booleans(), **STYLE), quick=400)
def incidence(case, ctx):
    """get_iam with each array's own parameters"""
    model, arrs = case['ma']
    c = dict(case, arrays=arrs)
    q = Call(c, ctx)
    par = [a['module'] for a in arrs]
    ctx.label(model)
    sh = dict(iam_model=model.upper() if c['up'] else model)
    q.check('get_iam', per=dict(aoi=q.per('aoi')), shared=sh,
            expect=lambda i, a: direct_iam(model, a['aoi'], par[i]))
    if all(k in par[0] for k in ('n',)) or model == 'physical':
        # the documented default
        close(q.sys.arrays[0].get_iam(30.), iam.physical(
            30., **sg.pick(par[0], sg.IAM_KEYS['physical'])), what='default')
    for m in ('not_a_model', 'martin_ruiz_diffuse', 'fit', ''):
        raises(ValueError, q.sys.arrays[0].get_iam, 30., m, what=repr(m))


# ------------------------------------------------------------- temperature
TEMP = ['sapm', 'pvsyst', 'faiman', 'faiman_rad', 'fuentes', 'noct_sam',
        'ross']


def any_temp():
    return st.sampled_from(TEMP).flatmap(lambda m: st.tuples(
        st.just(m), arrays(sg.present(
            module_efficiency=sg.U(.1, .22), alpha_absorption=sg.U(.7, .95),
            noct=sg.U(40, 50)), sg.temp_params(m))))


def direct_temp(model, d, a):
    p = d['temp']
    f = dict(sapm=temperature.sapm_cell, pvsyst=temperature.pvsyst_cell,
             faiman=temperature.faiman, faiman_rad=temperature.faiman_rad,
             fuentes=temperature.fuentes, noct_sam=temperature.noct_sam,
             ross=temperature.ross)[model]
    kw = sg.pick(p, sg.TEMP_REQUIRED[model] + sg.TEMP_OPTIONAL[model])
    if model == 'pvsyst':
        kw.update(sg.pick(d['module'], ['module_efficiency',
                                        'alpha_absorption']))
    if model == 'fuentes' and d['mount'].get('module_height') is not None:
        kw['module_height'] = d['mount']['module_height']
    if model == 'noct_sam' and a.get('effective_irradiance') is not None:
        kw['effective_irradiance'] = a['effective_irradiance']
    if model == 'faiman_rad' and a.get('longwave_down') is not None:
        kw['ir_down'] = a['longwave_down']
    if model != 'ross':
        kw['wind_speed'] = a['wind_speed']
    return f(a['poa_global'], a['temp_air'], **kw)


@sub(lambda: fixed(ma=any_temp(), rows=rows(
    poa_global=flt(0, 1200, (0,)), temp_air=flt(-20, 45),
    wind_speed=flt(.1, 20), effective_irradiance=flt(.5, 1.1),
    longwave_down=flt(150, 500)), opt=subset(
        ['effective_irradiance', 'longwave_down']), **STYLE),
    quick=350, shards=2)
def cell_temperature(case, ctx):
    """get_cell_temperature with each array's own parameters; a missing
    required parameter is a KeyError"""
    model, arrs = case['ma']
    c = dict(case, arrays=arrs)
    if model == 'fuentes':
        c.update(form='series', nt=4)
    c['rows'] = [[dict(r, effective_irradiance=r['effective_irradiance']
                       * r['poa_global']) for r in w] for w in c['rows']]
    q = Call(c, ctx)
    ctx.label(model)
    wide = {k: q.per(k) for k in ['temp_air', 'wind_speed', *c['opt']]}
    q.check('get_cell_temperature', per=dict(
        poa_global=q.per('poa_global')), wide=wide, shared=dict(model=model),
        expect=lambda i, a: direct_temp(model, arrs[i], a))
    a = q.sys.arrays[0]
    raises(ValueError, a.get_cell_temperature, 800., 20., 1., 'none',
           what='unknown model')
    if sg.TEMP_REQUIRED[model]:
        d = dict(arrs[0])
        k = sg.TEMP_REQUIRED[model][c['nt'] % len(sg.TEMP_REQUIRED[model])]
        d['temp'] = {x: v for x, v in d['temp'].items() if x != k}
        raises(KeyError, sg.build_array(d).get_cell_temperature,
               *[box([v] * 4, 'series') for v in (800., 20., 1.)], model,
               what=f'{model} without {k}')


# ----------------------------------------------------------------- DC power
FAMILY = dict(
    desoto=(sg.desoto_params, pvsystem.calcparams_desoto, [
        'alpha_sc', 'a_ref', 'I_L_ref', 'I_o_ref', 'R_sh_ref', 'R_s',
        'EgRef', 'dEgdT', 'irrad_ref', 'temp_ref']),
    cec=(lambda: sg.merge(sg.desoto_params(), fixed(Adjust=sg.U(-5, 20))),
         pvsystem.calcparams_cec, [
        'alpha_sc', 'a_ref', 'I_L_ref', 'I_o_ref', 'R_sh_ref', 'R_s',
        'Adjust', 'EgRef', 'dEgdT', 'irrad_ref', 'temp_ref']),
    pvsyst=(sg.pvsyst_params, pvsystem.calcparams_pvsyst, [
        'alpha_sc', 'gamma_ref', 'mu_gamma', 'I_L_ref', 'I_o_ref',
        'R_sh_ref', 'R_sh_0', 'R_s', 'cells_in_series', 'R_sh_exp', 'EgRef',
        'irrad_ref', 'temp_ref']),
    sapm=(lambda: sg.merge(sg.sapm_params(), sg.sapm_spectral(),
                           sg.sapm_iam(), sg.present(FD=sg.U(.8, 1))),
          None, None),
    pvwatts=(sg.pvwatts_params, None, ['pdc0', 'gamma_pdc', 'temp_ref', 'k',
                                       'cap_adjustment']))


@sub(lambda: fixed(fa=st.sampled_from(list(FAMILY)).flatmap(
    lambda f: st.tuples(st.just(f), arrays(sg.merge(
        decoys(), FAMILY[f][0]())))), rows=rows(
    g=flt(0, 1200, (0, 1000)), t=flt(-10, 75), aoi=flt(0, 95),
    gb=flt(0, 1000), gd=flt(0, 400)), am=st.lists(
        flt(.6, 12), min_size=4, max_size=4), v=flt(0, 40), **STYLE),
    quick=400, shards=2)
def dc_power(case, ctx):
    """calcparams_*, sapm, pvwatts_dc, singlediode and SAPM losses"""
    fam, arrs = case['fa']
    c = dict(case, arrays=arrs)
    q = Call(c, ctx)
    ctx.label(fam)
    par = [a['module'] for a in arrs]
    per = dict(effective_irradiance=q.per('g'), temp_cell=q.per('t'))
    keys = FAMILY[fam][2]
    if fam in ('desoto', 'cec', 'pvsyst'):
        fn = FAMILY[fam][1]
        q.check('calcparams_' + fam, per=per, expect=lambda i, a: fn(
            a['effective_irradiance'], a['temp_cell'],
            **sg.pick(par[i], keys)))
        if c['form'] == 'series':
            p5 = fn(per['effective_irradiance'][0], per['temp_cell'][0],
                    **sg.pick(par[0], keys))
            names = ['photocurrent', 'saturation_current',
                     'resistance_series', 'resistance_shunt', 'nNsVth']
            kw = dict(zip(names, p5))
            sg.same(q.sys.singlediode(**kw), pvsystem.singlediode(**kw),
                    'singlediode')
            sg.same(q.sys.i_from_v(c['v'], **kw),
                    pvsystem.i_from_v(c['v'], **kw), 'i_from_v')
    elif fam == 'sapm':
        q.check('sapm', per=per, expect=lambda i, a: pvsystem.sapm(
            a['effective_irradiance'], a['temp_cell'], par[i]))
        am = box(c['am'][:c['nt']], c['form'])
        if not c['bad']:
            q.check('sapm_spectral_loss', shared=dict(airmass_absolute=am),
                    expect=lambda i, a: spectrum.spectral_factor_sapm(
                        am, par[i]))
        if all('FD' in p for p in par):
            q.check('sapm_effective_irradiance', per=dict(
                poa_direct=q.per('gb'), poa_diffuse=q.per('gd'),
                aoi=q.per('aoi')), shared=dict(airmass_absolute=am),
                expect=lambda i, a: pvsystem.sapm_effective_irradiance(
                    a['poa_direct'], a['poa_diffuse'], am, a['aoi'],
                    par[i]))
    else:
        q.check('pvwatts_dc', per=per, expect=lambda i, a:
                pvsystem.pvwatts_dc(a['effective_irradiance'],
                                    a['temp_cell'], **sg.pick(par[i], keys)))


# CEC "Technology" / Sandia "Material" and the First Solar module type
CELL = {'Multi-c-Si': 'multisi', 'Mono-c-Si': 'monosi', 'Thin Film': 'cigs',
        'CIGS': 'cigs', 'CIS': 'cigs', 'CdTe': 'cdte', 'c-Si': 'multisi',
        'mc-Si': 'multisi', 'HIT-Si': 'monosi', 'EFG mc-Si': 'multisi',
        'a-Si / mono-Si': 'monosi'}
COEF = [.86, -.02, -.006, .06, .09, -.002]


@sub(lambda: fixed(arrays=arrays(st.one_of(
    fixed(first_solar_spectral_coefficients=st.lists(
        flt(-.1, .1), min_size=6, max_size=6)),
    fixed(Technology=st.sampled_from(['Multi-c-Si', 'Mono-c-Si', 'CIGS',
                                      'CdTe'])),
    fixed(Material=st.sampled_from(sorted(CELL))),
    fixed(Material=st.sampled_from(sorted(CELL)),
          Technology=st.sampled_from(['Mono-c-Si', 'CdTe'])),
    fixed(Technology=st.sampled_from(sorted(CELL)),
          first_solar_spectral_coefficients=st.just(COEF)))),
    rows=rows(pw=flt(.2, 7)), am=st.lists(
        flt(.6, 9), min_size=4, max_size=4), **STYLE), quick=700)
def spectral(case, ctx):
    """first_solar_spectral_loss with given coefficients, else by the
    array's cell technology"""
    c = case
    q = Call(c, ctx)
    am = box(c['am'][:c['nt']], c['form'])

    def expect(i, a):
        m = c['arrays'][i]['module']
        co = m.get('first_solar_spectral_coefficients')
        ty = None
        if co is None:
            ty = CELL[m.get('Technology', m.get('Material'))]
        return spectrum.spectral_factor_firstsolar(
            a['pw'], am, module_type=ty, coefficients=co)
    q.check('first_solar_spectral_loss', wide=dict(pw=q.per('pw')),
            shared=dict(airmass_absolute=am), expect=expect)


@sub(lambda: fixed(am=uni(.8, 6), pw=uni(.3, 6), other=st.sampled_from(
    sorted(CELL))), quick=60)
def cell_types(case, ctx):
    """each known cell technology, named by Technology or by Material"""
    c = case
    for name, ty in CELL.items():
        e = spectrum.spectral_factor_firstsolar(c['pw'], c['am'], ty)
        for par in (dict(Technology=name), dict(Material=name),
                    dict(Technology=name, Material=c['other'])):
            a = pvsystem.Array(pvsystem.FixedMount(), module_parameters=par)
            got = pvsystem.PVSystem(a).first_solar_spectral_loss(
                c['pw'], c['am'])
            close(got, e, 1e-12, 0, f'{par}')


# ------------------------------------------------------------------- AC
@sub(lambda: st.sampled_from(['sandia', 'pvwatts', 'adr']).flatmap(
    lambda m: fixed(model=st.just(m), inv=sg.inverter_params(m),
                    n=st.integers(1, 4), up=st.booleans(), f=st.lists(
        st.lists(fixed(p=flt(0, 1.5, (0,)), v=flt(.5, 1.3)), min_size=4,
                 max_size=4), min_size=4, max_size=4), **STYLE)),
     quick=500)
def ac_power(case, ctx):
    """get_ac with one input per array"""
    c, n, m = case, case['n'], case['model']
    inv = c['inv']
    lay = dict(mount=dict(kind='fixed'), modules_per_string=1, strings=1,
               module={}, temp={})
    s = pvsystem.PVSystem([sg.build_array(lay) for _ in range(n)],
                          inverter_parameters=inv)
    p0 = inv.get('Pdco', inv.get('pdc0', inv.get('Pnom')))
    v0 = inv.get('Vdco', inv.get('Vnom', 1))
    p = [box([r['p'] * p0 / n for r in c['f'][i][:c['nt']]], c['form'])
         for i in range(n)]
    v = [box([r['v'] * v0 for r in c['f'][i][:c['nt']]], c['form'])
         for i in range(n)]
    bare = n == 1 and not c['tuple1']
    pi, vi = (p[0], v[0]) if bare else (tuple(p), tuple(v))
    name = m.upper() if c['up'] else m
    ctx.label(m)
    if n == 1:
        ctx.trivial()
    b = snapshot([p, v, inv])
    if m == 'adr' and n > 1:
        raises(ValueError, s.get_ac, name, pi, v_dc=vi, what='adr, arrays')
        return
    got = s.get_ac(name, pi) if m == 'pvwatts' else s.get_ac(name, pi,
                                                             v_dc=vi)
    unchanged(b, [p, v, inv], 'arguments')
    if m == 'sandia':
        exp = inverter.sandia(v[0], p[0], inv) if n == 1 else \
            inverter.sandia_multi(tuple(v), tuple(p), inv)
    elif m == 'pvwatts':
        kw = sg.pick(inv, ['eta_inv_nom', 'eta_inv_ref'])
        exp = inverter.pvwatts(p[0], inv['pdc0'], **kw) if n == 1 else \
            inverter.pvwatts_multi(tuple(p), inv['pdc0'], **kw)
    else:
        exp = inverter.adr(v[0], p[0], inv)
    sg.same(got, exp, f'get_ac {m}')
    if c['bad']:
        k = tuple(p + [p[0]])
        raises(ValueError, s.get_ac, name, k, v_dc=vi, what='too many p_dc')
        if n > 1:
            raises(ValueError, s.get_ac, name, p[0], v_dc=vi,
                   what='one p_dc')
            if m == 'sandia':
                raises(ValueError, s.get_ac, name, pi, v_dc=v[0],
                       what='one v_dc')
        for x in ('sandia_multi', 'none', ''):
            raises(ValueError, s.get_ac, x, pi, v_dc=vi, what=repr(x))


# -------------------------------------------------------- scaling and losses
COLS = ['i_sc', 'v_oc', 'i_mp', 'v_mp', 'p_mp', 'i_x', 'i_xx']
VREF = [('V_mp_ref', 'I_mp_ref'), ('Vmpo', 'Impo'), ('Vmpp', 'Impp')]


@sub(lambda: fixed(arrays=arrays(fixed(
    which=st.integers(0, 2), v=flt(10, 60), i=flt(1, 12))),
    pct=st.lists(flt(0, 5), min_size=4, max_size=4), order=st.permutations(
        COLS), ncol=st.integers(1, 7), x=st.lists(
            flt(0, 500), min_size=28, max_size=28), losses=sg.present(
        **{k: flt(0, 10) for k in (
            'soiling', 'shading', 'snow', 'mismatch', 'wiring',
            'connections', 'lid', 'nameplate_rating', 'age',
            'availability', 'dc_ohmic_percent')}), **STYLE), quick=400)
def scaling(case, ctx):
    """string scaling, wiring resistance and PVWatts losses"""
    c = dict(case)
    c['arrays'] = [dict(a, losses=dict(dc_ohmic_percent=p), module={
        VREF[a['module']['which']][0]: a['module']['v'],
        VREF[a['module']['which']][1]: a['module']['i']})
        for a, p in zip(c['arrays'], c['pct'])]
    q = Call(c, ctx)
    cols = c['order'][:c['ncol']]
    dat = [pd.DataFrame(np.reshape(np.roll(c['x'], 3 * i), (4, 7))[
        :c['nt'], :len(cols)], columns=cols, index=index(c['nt']))
        for i in range(q.n)]

    def expect(i, a):
        v, s = c['arrays'][i]['modules_per_string'], c['arrays'][i]['strings']
        f = {'v': v, 'i': s, 'p': v * s}
        return pd.DataFrame({k: dat[i][k] * f[k[0]] for k in cols})
    q.check('scale_voltage_current_power', per=dict(data=dat), expect=expect)
    # percent wiring loss -> resistance of the array
    c['bad'] = 0
    q.check('dc_ohms_from_percent', expect=lambda i, a: (
        c['pct'][i] / 100 * case['arrays'][i]['module']['v']
        * c['arrays'][i]['modules_per_string']
        / (case['arrays'][i]['module']['i'] * c['arrays'][i]['strings'])))
    raises(ValueError, sg.build_array(dict(
        c['arrays'][0], module={'V_mp_ref': 30., 'Impo': 3.})
        ).dc_ohms_from_percent, what='incomplete Vmp, Imp')
    s = pvsystem.PVSystem(q.sys.arrays, losses_parameters=c['losses'])
    lp = {k: v for k, v in c['losses'].items() if k != 'dc_ohmic_percent'}
    sg.same(s.pvwatts_losses(), pvsystem.pvwatts_losses(**lp), 'losses')


# ------------------------------------------------------------- construction
RACK = {('open_rack', 'glass_polymer'): ('sapm', 'open_rack_glass_polymer'),
        ('open_rack', 'glass_glass'): ('sapm', 'open_rack_glass_glass'),
        ('close_mount', 'glass_glass'): ('sapm', 'close_mount_glass_glass'),
        ('insulated_back', 'glass_polymer'):
            ('sapm', 'insulated_back_glass_polymer')}
TPAR = {'open_rack_glass_glass': dict(a=-3.47, b=-.0594, deltaT=3),
        'close_mount_glass_glass': dict(a=-2.98, b=-.0471, deltaT=1),
        'open_rack_glass_polymer': dict(a=-3.56, b=-.0750, deltaT=3),
        'insulated_back_glass_polymer': dict(a=-2.81, b=-.0455, deltaT=0)}
PPAR = {'freestanding': dict(u_c=29., u_v=0), 'insulated': dict(
    u_c=15., u_v=0), 'semi_integrated': dict(u_c=20., u_v=0)}


def inferred_temp(rack, mt):
    if (rack, mt) in RACK:
        return TPAR[RACK[rack, mt][1]]
    for k in ('freestanding', 'insulated', 'semi_integrated'):
        if rack and k in rack:
            return PPAR[k]
    return {}


@sub(lambda: fixed(
    kw=sg.present(surface_tilt=flt(0, 90), surface_azimuth=flt(0, 359),
                  albedo=flt(0, 1), surface_type=st.sampled_from(
                      ['snow', 'sand', 'fresh steel', 'nothing']),
                  module=st.sampled_from(['m1', 'm2']),
                  module_parameters=st.sampled_from([{'pdc0': 3.}, {}]),
                  temperature_model_parameters=fixed(a=flt(-4, -3)),
                  modules_per_string=st.integers(1, 20),
                  strings_per_inverter=st.integers(1, 20),
                  inverter=st.sampled_from(['i1']),
                  inverter_parameters=fixed(pdc0=flt(100, 200)),
                  losses_parameters=st.sampled_from(
                      [{}, dict(dc_ohmic_percent=3., soiling=2.),
                       dict(snow=1.)]),
                  name=st.sampled_from(['s1', 's2'])),
    rack=st.sampled_from([None, 'open_rack', 'close_mount', 'freestanding',
                          'insulated_back', 'insulated', 'semi_integrated']),
    mt=st.sampled_from([None, 'glass_polymer', 'glass_glass', 'other']),
    n=st.integers(0, 3), extra=st.lists(flt(0, 90), min_size=3, max_size=3)),
    quick=500)
def construction(case, ctx):
    """a system built from keywords is the system of the one array those
    keywords describe; defaults and inferred values are as documented"""
    c, kw = case, dict(case['kw'])
    if c['rack'] is not None:
        kw['racking_model'] = c['rack']
    if c['mt'] is not None:
        kw['module_type'] = c['mt']
    b = snapshot(kw)
    s = pvsystem.PVSystem(**kw)
    unchanged(b, kw, 'arguments')
    require(s.num_arrays == 1 and len(s.arrays) == 1, 'number of arrays')
    a = s.arrays[0]
    require(isinstance(a.mount, pvsystem.FixedMount), 'mount')
    want = dict(
        surface_tilt=kw.get('surface_tilt', 0),
        surface_azimuth=kw.get('surface_azimuth', 180),
        racking_model=c['rack'], module_height=None)
    for k, v in want.items():
        require(getattr(a.mount, k) == v, f'mount {k}: '
                f'{getattr(a.mount, k)!r}, expected {v!r}')
    lp = kw.get('losses_parameters', {})
    tp = kw.get('temperature_model_parameters')
    want = dict(
        albedo=sg.albedo_of(kw), module=kw.get('module'), module_type=c['mt'],
        surface_type=kw.get('surface_type'),
        module_parameters=kw.get('module_parameters', {}),
        temperature_model_parameters=tp if tp is not None
        else inferred_temp(c['rack'], c['mt']),
        modules_per_string=kw.get('modules_per_string', 1),
        strings=kw.get('strings_per_inverter', 1),
        array_losses_parameters=sg.pick(lp, ['dc_ohmic_percent']))
    for k, v in want.items():
        require(getattr(a, k) == v,
                f'array {k}: {getattr(a, k)!r}, expected {v!r}')
    for k, v in dict(inverter=kw.get('inverter'), name=kw.get('name'),
                     inverter_parameters=kw.get('inverter_parameters', {}),
                     losses_parameters=lp).items():
        require(getattr(s, k) == v,
                f'system {k}: {getattr(s, k)!r}, expected {v!r}')
    # several arrays keep their order and identity
    arrs = [pvsystem.Array(pvsystem.FixedMount(t, 100 + t))
            for t in c['extra'][:c['n']]]
    if not arrs:
        raises(ValueError, pvsystem.PVSystem, arrays=[], what='no arrays')
    else:
        for box_ in (list, tuple):
            m = pvsystem.PVSystem(box_(arrs), inverter_parameters={'q': 1})
            require(m.num_arrays == len(arrs)
                    and all(x is y for x, y in zip(m.arrays, arrs)),
                    'arrays are not the given ones in order')
    require(pvsystem.PVSystem().inverter_parameters
            is not pvsystem.PVSystem().inverter_parameters,
            'two systems share a default dictionary')
    z = pvsystem.Array(pvsystem.FixedMount())
    require(z.module_parameters is not pvsystem.Array(
        pvsystem.FixedMount()).module_parameters, 'shared default')
    # changing one system's parameters leaves another's alone
    if tp is None and inferred_temp(c['rack'], c['mt']):
        q = pvsystem.PVSystem(**kw).arrays[0]
        q.temperature_model_parameters['a'] = 99.
        a2 = pvsystem.PVSystem(**kw).arrays[0]
        require(a.temperature_model_parameters
                == a2.temperature_model_parameters == inferred_temp(
                    c['rack'], c['mt']), 'systems share parameters')
        ctx.label('inferred temperature parameters')
    # building must not have touched the library's parameter table
    for k, v in TPAR.items():
        t = temperature.TEMPERATURE_MODEL_PARAMETERS['sapm'][k]
        require(t == v, f'TEMPERATURE_MODEL_PARAMETERS sapm {k} = {t}')
    for k, v in PPAR.items():
        t = temperature.TEMPERATURE_MODEL_PARAMETERS['pvsyst'][k]
        require(t == v, f'TEMPERATURE_MODEL_PARAMETERS pvsyst {k} = {t}')
