"""Random model chains, and the same computation written out by hand with
the public model functions."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from . import sysgen as sg
from .gen import ints, fixed, flt, opt, uni

ZENITH_TRUE = ('youngirvine1967', 'young1994')
AIRMASS = ['kastenyoung1989', 'simple', 'kasten1966', 'young1994',
           'youngirvine1967', 'gueymard1993', 'pickering2002',
           'gueymard2003']
TRANSPOSITION = ['haydavies', 'isotropic', 'klucher', 'reindl', 'king',
                 'perez', 'perez-driesse']
SOLPOS = ['nrel_numpy', 'nrel_numpy', 'ephemeris', 'pyephem']
DC = ['sapm', 'desoto', 'cec', 'pvsyst', 'pvwatts']
AC = ['sandia', 'pvwatts', 'adr']
AOI = ['ashrae', 'physical', 'sapm', 'martin_ruiz', 'schlick', 'interp',
       'no_loss']
SPECTRAL = ['first_solar', 'sapm', 'no_loss', None]
TEMP = ['sapm', 'pvsyst', 'faiman', 'fuentes', 'noct_sam']
LOSS_KEYS = ['soiling', 'shading', 'snow', 'mismatch', 'wiring',
             'connections', 'lid', 'nameplate_rating', 'age',
             'availability']


def place():
    return fixed(lat=flt(-66, 66, (0, 32)), lon=flt(-180, 180),
                 alt=flt(0, 3000, (0,)),
                 tz=st.sampled_from(['UTC', 'Etc/GMT+7', 'Asia/Kolkata',
                                     'Europe/Berlin', 'Asia/Tokyo']))


def dc_params(dc):
    return {'sapm': lambda: sg.merge(sg.sapm_params(), sg.present(
                FD=sg.U(.8, 1))),
            'desoto': sg.desoto_params,
            'cec': lambda: sg.merge(sg.desoto_params(),
                                    fixed(Adjust=sg.U(-5, 20))),
            'pvsyst': sg.pvsyst_params,
            'pvwatts': sg.pvwatts_params}[dc]()


def spectral_params(m):
    if m == 'sapm':
        return sg.sapm_spectral()
    if m == 'first_solar':
        return st.one_of(
            fixed(first_solar_spectral_coefficients=st.lists(
                flt(-.01, .01), min_size=5, max_size=5).map(
                    lambda t: [.9] + t)),
            fixed(Technology=st.sampled_from(
                ['Mono-c-Si', 'Multi-c-Si', 'CdTe', 'CIGS'])))
    return st.just({})


def module(dc, aoi, spectral, ohmic):
    parts = [dc_params(dc), spectral_params(spectral)]
    if aoi != 'no_loss':
        parts.append(sg.iam_params(aoi, full=True))
    if ohmic != 'no_loss' and dc != 'sapm':
        parts.append(fixed(V_mp_ref=sg.U(20, 50), I_mp_ref=sg.U(3, 11)))
    parts.append(sg.present(module_efficiency=sg.U(.1, .22)))
    return sg.merge(*parts)


def models():
    # pvwatts provides neither currents nor voltages
    return st.sampled_from(DC).flatmap(lambda dc: fixed(
        dc=st.just(dc), ac=st.just('pvwatts') if dc == 'pvwatts'
        else st.sampled_from(['sandia', 'sandia', 'adr', 'pvwatts']),
        aoi=st.sampled_from(AOI), spectral=st.sampled_from(SPECTRAL),
        temp=st.sampled_from(TEMP),
        ohmic=st.just('no_loss') if dc == 'pvwatts' else st.sampled_from(
            ['no_loss', 'dc_ohms_from_percent']),
        losses=st.sampled_from(['no_loss', 'pvwatts']),
        trans=st.sampled_from(TRANSPOSITION),
        solpos=st.sampled_from(SOLPOS), airmass=st.sampled_from(AIRMASS)))


def system(m, nmax=3):
    arr = st.tuples(sg.mount(), sg.layout(),
                    module(m['dc'], m['aoi'], m['spectral'], m['ohmic']),
                    sg.temp_params(m['temp'], full=True),
                    flt(0, 5), st.sampled_from([{}, {}, dict(deltaT=5.)])
                    ).map(lambda t: dict(
                        t[1], mount=t[0], module=t[2], temp=dict(
                            t[5], **t[3]),
                        losses=dict(dc_ohmic_percent=t[4])))
    n = 1 if m['ac'] == 'adr' else nmax
    return fixed(arrays=st.lists(arr, min_size=1, max_size=n),
                 inv=sg.inverter_params(m['ac']),
                 losses=sg.present(**{k: flt(0, 8) for k in LOSS_KEYS}))


def chain(nmax=3):
    """place, models and system, mutually consistent"""
    return models().flatmap(lambda m: st.tuples(
        place(), st.just(m), system(m, nmax)).map(
            lambda t: dict(place=t[0], m=t[1], sys=t[2])))


OPTIONAL = ['temp_air', 'wind_speed', 'albedo', 'pressure',
            'precipitable_water', 'cell_temperature', 'module_temperature']

PARTIAL = ['cell_temperature', 'module_temperature', 'temp_air', 'wind_speed']


def row():
    return fixed(
        ghi=flt(0, 1200, (0,)), dni=flt(0, 1000, (0,)),
        dhi=flt(0, 500, (0,)), temp_air=flt(-20, 45), wind_speed=flt(0, 15),
        albedo=flt(.1, .8), pressure=flt(7e4, 105e3),
        precipitable_water=flt(.2, 6), cell_temperature=flt(-10, 70),
        module_temperature=flt(-10, 70))


def weather(nmax=3, tmax=5):
    """rows per array and which optional columns there are"""
    return fixed(
        n=st.integers(3, tmax), rows=st.lists(st.lists(
            row(), min_size=tmax, max_size=tmax), min_size=nmax,
            max_size=nmax),
        cols=st.tuples(*[st.booleans() if k in (
            'temp_air', 'wind_speed', 'albedo') else st.sampled_from(
                [False, False, True]) for k in OPTIONAL]).map(
            lambda t: [k for k, b in zip(OPTIONAL, t) if b]),
        day=ints(0, 364), hour=st.integers(0, 23),
        step=st.sampled_from(['1h', '30min', '3h']),
        form=st.sampled_from(['frame', 'list', 'tuple']),
        drop=st.one_of(st.just([]), st.just([]), st.lists(st.lists(
            st.sampled_from(PARTIAL), max_size=3, unique=True),
            min_size=nmax, max_size=nmax)),
        naive=st.sampled_from([False, False, False, True]),
        missing=st.sampled_from([None] * 8 + ['ghi', 'dni', 'temp_air']))


def times(w, tz):
    t0 = pd.Timestamp('2022-01-01') + pd.Timedelta(
        days=w['day'], hours=w['hour'])
    ix = pd.date_range(t0, periods=w['n'], freq=w['step'], tz='UTC')
    if w['naive']:
        return ix.tz_localize(None)
    return ix.tz_convert(tz)


def needed(m, cols):
    """columns present, given the chosen models"""
    cols = list(cols)
    if m['spectral'] == 'first_solar' and 'precipitable_water' not in cols:
        cols.append('precipitable_water')
    return cols


def frames(case, w=None, extra=()):
    """list of one weather DataFrame per array (all the same data when the
    chain is given a single frame)"""
    w = w or case['w']
    n = len(case['sys']['arrays'])
    ix = times(w, case['place']['tz'])
    cols = ['ghi', 'dni', 'dhi', *needed(case['m'], w['cols'])]
    out = []
    for i in range(n):
        r = w['rows'][0 if w['form'] == 'frame' else i % len(w['rows'])]
        own = w.get('drop') if w['form'] != 'frame' else None
        own = [k for k in cols if not own or k not in own[i % len(own)]]
        d = pd.DataFrame(r[:w['n']], index=ix)[own].astype(float)
        if w['missing'] in d:
            d.iloc[w['n'] // 2, list(d.columns).index(w['missing'])] = np.nan
        out.append(d)
    return out


def given(case, fr, w=None):
    """what is passed to the chain"""
    w = w or case['w']
    if w['form'] == 'frame':
        return fr[0]
    return list(fr) if w['form'] == 'list' else tuple(fr)


def location(p):
    from pvlib.location import Location
    return Location(p['lat'], p['lon'], tz=p['tz'], altitude=p['alt'])


def build_system(s):
    from pvlib import pvsystem
    return pvsystem.PVSystem([sg.build_array(a) for a in s['arrays']],
                             inverter_parameters=dict(s['inv']),
                             losses_parameters=dict(s['losses']))


def build(case, sysobj=None, loc=None, **over):
    from pvlib.modelchain import ModelChain
    m = case['m']
    kw = dict(
        transposition_model=m['trans'], solar_position_method=m['solpos'],
        airmass_model=m['airmass'], dc_model=m['dc'], ac_model=m['ac'],
        aoi_model=m['aoi'], spectral_model=m['spectral'],
        temperature_model=m['temp'], dc_ohmic_model=m['ohmic'],
        losses_model=m['losses'])
    kw.update(over)
    return ModelChain(sysobj or build_system(case['sys']),
                      loc or location(case['place']), **kw)


DESOTO = ['alpha_sc', 'a_ref', 'I_L_ref', 'I_o_ref', 'R_sh_ref', 'R_s',
          'EgRef', 'dEgdT', 'irrad_ref', 'temp_ref']
PVSYST = ['alpha_sc', 'gamma_ref', 'mu_gamma', 'I_L_ref', 'I_o_ref',
          'R_sh_ref', 'R_sh_0', 'R_s', 'cells_in_series', 'R_sh_exp',
          'EgRef', 'irrad_ref', 'temp_ref']
CELL = {'Mono-c-Si': 'monosi', 'Multi-c-Si': 'multisi', 'CdTe': 'cdte',
        'CIGS': 'cigs'}


def scaled(dc, a):
    v, i = a['modules_per_string'], a['strings']
    f = {'v': v, 'i': i, 'p': v * i}
    return pd.DataFrame({k: dc[k] * f[k[0]] for k in dc.columns})


def pipeline(case, fr, entry='weather'):
    """results of every stage: scalars of the system and a list per array.

    entry: 'weather', 'poa' or 'effective' (what the columns of fr hold)"""
    from pvlib import (atmosphere, iam, inverter, irradiance, pvsystem,
                       solarposition, spectrum, temperature)
    p, m, s = case['place'], case['m'], case['sys']
    ix = fr[0].index
    out = {k: [] for k in (
        'aoi', 'total_irrad', 'aoi_modifier', 'spectral_modifier',
        'effective_irradiance', 'cell_temperature', 'dc', 'diode_params',
        'dc_ohmic_losses', 'albedo')}
    if entry != 'effective':
        first = fr[0]
        sp = solarposition.get_solarposition(
            ix, p['lat'], p['lon'], altitude=p['alt'],
            pressure=first['pressure'] if 'pressure' in first
            else atmosphere.alt2pres(p['alt']),
            temperature=first['temp_air'] if 'temp_air' in first else 12,
            method=m['solpos'])
        out['solar_position'] = sp
        z, az = sp['apparent_zenith'], sp['azimuth']
        rel = atmosphere.get_relative_airmass(
            sp['zenith'] if m['airmass'] in ZENITH_TRUE else z,
            model=m['airmass'])
        am = atmosphere.get_absolute_airmass(
            rel, atmosphere.alt2pres(p['alt']))
        out['airmass'] = pd.DataFrame(dict(airmass_relative=rel,
                                           airmass_absolute=am))
    for a, w in zip(s['arrays'], fr):
        mp = a['module']
        if entry != 'effective':
            tilt, sazi = sg.orientation(a['mount'], z, az)
            aoi = irradiance.aoi(tilt, sazi, z, az)
            out['aoi'].append(aoi)
            if entry == 'weather':
                alb = w['albedo'] if 'albedo' in w else sg.albedo_of(a)
                out['albedo'].append(alb)
                ti = irradiance.get_total_irradiance(
                    tilt, sazi, z, az, w['dni'], w['ghi'], w['dhi'],
                    dni_extra=irradiance.get_extra_radiation(ix),
                    airmass=rel, albedo=alb, model=m['trans'])
            else:
                ti = w[['poa_global', 'poa_direct', 'poa_diffuse']]
            out['total_irrad'].append(ti)
            if m['aoi'] == 'no_loss':
                im = 1.0
            elif m['aoi'] == 'sapm':
                im = iam.sapm(aoi, mp)
            else:
                im = getattr(iam, m['aoi'])(
                    aoi, **sg.pick(mp, sg.IAM_KEYS[m['aoi']]))
            out['aoi_modifier'].append(im)
            if m['spectral'] == 'sapm':
                sm = spectrum.spectral_factor_sapm(am, mp)
            elif m['spectral'] == 'first_solar':
                co = mp.get('first_solar_spectral_coefficients')
                sm = spectrum.spectral_factor_firstsolar(
                    w['precipitable_water'], am, coefficients=co,
                    module_type=None if co else CELL[mp['Technology']])
            else:
                sm = 1
            out['spectral_modifier'].append(sm)
            eff = sm * (ti['poa_direct'] * im
                        + mp.get('FD', 1.) * ti['poa_diffuse'])
            poa = ti['poa_global']
        else:
            eff = w['effective_irradiance']
            poa = w['poa_global'] if all('poa_global' in x for x in fr) \
                else eff
        out['effective_irradiance'].append(eff)
        ta = w['temp_air'] if 'temp_air' in w else pd.Series(20., ix)
        ws = w['wind_speed'] if 'wind_speed' in w else pd.Series(0., ix)
        tp = a['temp']
        if 'cell_temperature' in w:
            tc = w['cell_temperature']
        elif 'module_temperature' in w and m['temp'] == 'sapm':
            tc = temperature.sapm_cell_from_module(
                w['module_temperature'], poa, tp['deltaT'])
        elif m['temp'] == 'sapm':
            tc = temperature.sapm_cell(
                poa, ta, ws, tp['a'], tp['b'], tp['deltaT'],
                **sg.pick(tp, ['irrad_ref']))
        elif m['temp'] == 'pvsyst':
            tc = temperature.pvsyst_cell(
                poa, ta, ws, u_c=tp['u_c'], u_v=tp['u_v'],
                **sg.pick(mp, ['module_efficiency', 'alpha_absorption']))
        elif m['temp'] == 'faiman':
            tc = temperature.faiman(poa, ta, ws, u0=tp['u0'], u1=tp['u1'])
        elif m['temp'] == 'fuentes':
            kw = sg.pick(tp, sg.TEMP_OPTIONAL['fuentes'])
            if a['mount'].get('module_height') is not None:
                kw['module_height'] = a['mount']['module_height']
            tc = temperature.fuentes(poa, ta, ws, tp['noct_installed'], **kw)
        else:
            tc = temperature.noct_sam(
                poa, ta, ws, tp['noct'], tp['module_efficiency'],
                effective_irradiance=eff,
                **sg.pick(tp, sg.TEMP_OPTIONAL['noct_sam']))
        out['cell_temperature'].append(tc)
        if m['dc'] == 'pvwatts':
            dc = pvsystem.pvwatts_dc(eff, tc, **sg.pick(mp, [
                'pdc0', 'gamma_pdc', 'temp_ref', 'k', 'cap_adjustment'])) \
                * (a['modules_per_string'] * a['strings'])
        elif m['dc'] == 'sapm':
            dc = scaled(pvsystem.sapm(eff, tc, mp), a)
        else:
            if m['dc'] == 'desoto':
                q = pvsystem.calcparams_desoto(eff, tc, **sg.pick(mp, DESOTO))
            elif m['dc'] == 'cec':
                q = pvsystem.calcparams_cec(
                    eff, tc, **sg.pick(mp, DESOTO + ['Adjust']))
            else:
                q = pvsystem.calcparams_pvsyst(eff, tc, **sg.pick(mp, PVSYST))
            out['diode_params'].append(pd.DataFrame(dict(zip(
                ('I_L', 'I_o', 'R_s', 'R_sh', 'nNsVth'), q))))
            dc = scaled(pvsystem.singlediode(*q), a).fillna(0)
        if m['ohmic'] == 'dc_ohms_from_percent':
            v, i = (mp['Vmpo'], mp['Impo']) if m['dc'] == 'sapm' else \
                (mp['V_mp_ref'], mp['I_mp_ref'])
            rw = pvsystem.dc_ohms_from_percent(
                v, i, a['losses']['dc_ohmic_percent'],
                a['modules_per_string'], a['strings'])
            lo = pvsystem.dc_ohmic_losses(rw, dc['i_mp'])
            out['dc_ohmic_losses'].append(lo)
            dc = dc.assign(p_mp=dc['p_mp'] - lo)
        out['dc'].append(dc)
    out['losses'] = 1
    if m['losses'] == 'pvwatts':
        f = (100 - pvsystem.pvwatts_losses(**s['losses'])) / 100
        out['losses'] = f
        out['dc'] = [d * f for d in out['dc']]
    pm = [d if m['dc'] == 'pvwatts' else d['p_mp'] for d in out['dc']]
    one = len(pm) == 1
    if m['ac'] == 'pvwatts':
        kw = sg.pick(s['inv'], ['eta_inv_nom', 'eta_inv_ref'])
        if one:
            ac = inverter.pvwatts(pm[0], s['inv']['pdc0'], **kw)
        else:
            ac = inverter.pvwatts_multi(pm, s['inv']['pdc0'], **kw)
        ac = ac.fillna(0)
    else:
        vm = [d['v_mp'] for d in out['dc']]
        if m['ac'] == 'adr':
            ac = inverter.adr(vm[0], pm[0], s['inv'])
        elif one:
            ac = inverter.sandia(vm[0], pm[0], s['inv'])
        else:
            ac = inverter.sandia_multi(vm, pm, s['inv'])
    out['ac'] = ac
    return out


PER_ARRAY = ['aoi', 'total_irrad', 'aoi_modifier', 'spectral_modifier',
             'effective_irradiance', 'cell_temperature', 'dc',
             'diode_params', 'dc_ohmic_losses', 'albedo']
SYSTEM = ['solar_position', 'airmass', 'losses', 'ac']


def results(res):
    """the fields of a ModelChainResult as a dict"""
    return {k: getattr(res, k) for k in PER_ARRAY + SYSTEM + [
        'weather', 'times']}
