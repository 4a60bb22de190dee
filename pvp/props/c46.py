"""C46 ModelChain runs are independent of history and of each other."""
import copy
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib import temperature

from .. import chain as ch
from .. import sysgen as sg
from ..cmp import Fail, require, snapshot, unchanged
from ..core import sub
from ..gen import fixed, flt

RULE = ('Sequences of five to nine operations (runs from any entry point, on '
        'any data and container, changes of model or of the system, writing into '
        'the results) '
        'on one to three chains sharing a system and location; non-trivial = '
        'three or more runs.')

ENTRY = ['weather', 'weather', 'weather', 'poa', 'effective', 'complete',
         'prepare']


def union_system(nmax=3):
    """a system with parameters for every model"""
    par = sg.merge(
        sg.sapm_params(), sg.sapm_spectral(), sg.sapm_iam(),
        sg.pvwatts_params(), sg.pvsyst_params(), sg.desoto_params(),
        fixed(Adjust=sg.U(-5, 20), V_mp_ref=sg.U(20, 50),
              I_mp_ref=sg.U(3, 11), Technology=st.sampled_from(
                  ['Mono-c-Si', 'CdTe'])),
        *[sg.iam_params(m, full=True) for m in
          ('ashrae', 'physical', 'martin_ruiz', 'interp')])
    inv = sg.inverter_params('sandia')

    def arr(temp):
        return st.tuples(sg.mount(), sg.layout(), par, sg.temp_params(
            temp, full=True), flt(0, 5)).map(lambda t: dict(
                t[1], mount=t[0], module=t[2], temp=t[3],
                losses=dict(dc_ohmic_percent=t[4])))
    return st.sampled_from(ch.TEMP).flatmap(lambda t: fixed(
        temp=st.just(t), arrays=st.lists(arr(t), min_size=1, max_size=nmax),
        inv=inv, losses=losses(), alt=fixed(
            array=arr(t), inv=inv, losses=losses())))


def losses():
    return sg.present(**{k: flt(0, 8) for k in (
        'soiling', 'wiring', 'age')})


def union_models():
    return fixed(
        dc=st.sampled_from(ch.DC), ac=st.sampled_from(['sandia', 'pvwatts']),
        aoi=st.sampled_from(ch.AOI), spectral=st.sampled_from(ch.SPECTRAL),
        ohmic=st.sampled_from(['no_loss', 'dc_ohms_from_percent']),
        losses=st.sampled_from(['no_loss', 'pvwatts']),
        trans=st.sampled_from(ch.TRANSPOSITION[:5]),
        solpos=st.just('ephemeris'), airmass=st.sampled_from(ch.AIRMASS))


def settle(m, temp):
    m = dict(m, temp=temp)
    if m['dc'] == 'pvwatts':
        m.update(ac='pvwatts', ohmic='no_loss')
    return m


def wx():
    return st.tuples(ch.weather(tmax=4), st.booleans()).map(
        lambda t: dict(t[0], nopoa=t[1]))


def op():
    return st.one_of(
        fixed(do=st.just('run'), chain=st.integers(0, 2),
              entry=st.sampled_from(ENTRY), w=st.integers(0, 2)),
        fixed(do=st.just('run'), chain=st.integers(0, 2),
              entry=st.sampled_from(ENTRY), w=st.integers(0, 2)),
        fixed(do=st.just('run'), chain=st.integers(0, 2),
              entry=st.sampled_from(ENTRY), w=st.integers(0, 2)),
        fixed(do=st.just('run'), chain=st.integers(0, 2),
              entry=st.sampled_from(ENTRY), w=st.integers(0, 2)),
        fixed(do=st.just('set'), chain=st.integers(0, 2),
              m=union_models(), which=st.sampled_from(
                  ['dc', 'aoi', 'spectral', 'losses', 'ohmic'])),
        fixed(do=st.just('configure'), chain=st.just(0),
              what=st.sampled_from(list(ATTR)), array=st.integers(0, 2),
              inplace=st.booleans()),
        fixed(do=st.just('scribble'), chain=st.integers(0, 2)))


ATTR = dict(losses='losses_parameters', inv='inverter_parameters',
            module='module_parameters', temp='temperature_model_parameters',
            mount='mount', strings='strings',
            modules_per_string='modules_per_string', albedo='albedo',
            ohmic='array_losses_parameters')


def configure(c, sysobj, o):
    """exchange one part of the system with the alternative, in the objects
    and in the description"""
    s, what = c['sys'], o['what']
    if what in ('losses', 'inv'):
        new, s['alt'][what], obj = s['alt'][what], s[what], sysobj
        s[what] = new
        real = dict(new)
    else:
        k = o['array'] % len(s['arrays'])
        a, obj, alt = s['arrays'][k], sysobj.arrays[k], s['alt']['array']
        key = 'losses' if what == 'ohmic' else what
        for d in (a, alt):
            d.setdefault(key, None)
        a[key], alt[key] = alt[key], a[key]
        for d in (a, alt):
            if d[key] is None:
                del d[key]
        other = sg.build_array(copy.deepcopy(a))
        real = getattr(other, ATTR[what])
    if o['inplace'] and isinstance(real, dict):
        d = getattr(obj, ATTR[what])
        d.clear()
        d.update(real)
    else:
        setattr(obj, ATTR[what], real)


def data_for(c, m, w, entry):
    """the tables passed for one run, and the container used"""
    cc = dict(c, m=m, w=w)
    n = len(c['sys']['arrays'])
    form = w['form']
    if entry in ('poa', 'effective', 'complete') and n > 1 \
            and form == 'frame':
        form = 'tuple'
    fr = ch.frames(cc, dict(w, form=form))
    if entry == 'poa':
        fr = [f.rename(columns=dict(ghi='poa_global', dni='poa_direct',
                                    dhi='poa_diffuse')) for f in fr]
    elif entry == 'effective':
        fr = [f.rename(columns=dict(ghi='poa_global',
                                    dni='effective_irradiance')
                       ).drop(columns=['dhi', *(
                           ['poa_global'] if w.get('nopoa') else [])])
              for f in fr]
    elif entry == 'complete':
        fr = [f.drop(columns='dhi') for f in fr]
    data = fr[0] if form == 'frame' else (
        list(fr) if form == 'list' else tuple(fr))
    return fr, data


def perform(mc, entry, data):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return {'weather': mc.run_model, 'poa': mc.run_model_from_poa,
                'effective': mc.run_model_from_effective_irradiance,
                'complete': mc.complete_irradiance,
                'prepare': mc.prepare_inputs}[entry](data)


def scribble(res):
    """overwrite everything the results hold"""
    def over(x):
        if isinstance(x, tuple):
            for y in x:
                over(y)
        elif isinstance(x, (pd.DataFrame, pd.Series)):
            try:
                x.loc[:] = -77.
            except Exception:
                pass
            try:
                x.to_numpy()[...] = -78.
            except Exception:
                pass                        # read-only view
    for k, v in ch.results(res).items():
        if k != 'times':
            over(v)


def freeze(sysobj, loc):
    return [[dict(a.module_parameters), dict(a.temperature_model_parameters),
             dict(a.array_losses_parameters), [a.albedo, a.strings,
             a.modules_per_string, repr(a.mount)]] for a in sysobj.arrays] + [
        dict(sysobj.inverter_parameters), dict(sysobj.losses_parameters),
        [loc.latitude, loc.longitude, loc.tz, loc.altitude],
        {k: dict(v) for k, v in
         temperature.TEMPERATURE_MODEL_PARAMETERS.items()}]


def compare_runs(got, want, what):
    for k, e in want.items():
        if e is None:
            continue
        g = got[k]
        if k == 'times':
            require(g.equals(e), f'{what}: times differ')
        else:
            sg.same(g, e, f'{what}: {k}', 1e-12, 1e-12)


@sub(lambda: st.tuples(ch.place(), union_system(), st.lists(
    union_models(), min_size=3, max_size=3), st.lists(
        wx(), min_size=3, max_size=3), st.lists(op(), min_size=5, max_size=9),
    st.integers(1, 3)).map(lambda t: dict(
        place=t[0], sys=t[1], ms=t[2], ws=t[3], ops=t[4], nch=t[5])),
    quick=280, shards=8)
def history(case, ctx):
    """every run equals the same run on a fresh chain"""
    c = case
    c['sys'] = copy.deepcopy(c['sys'])
    for d in (c['sys'], c['sys']['alt']):
        d['inv'].setdefault('pdc0', d['inv']['Pdco'])
    loc = ch.location(c['place'])
    sysobj = ch.build_system(copy.deepcopy(c['sys']))
    temp = c['sys']['temp']
    ms = [settle(m, temp) for m in c['ms']]
    over = dict(clearsky_model='simplified_solis')
    mcs = [ch.build(dict(c, m=m), sysobj, loc, **over)
           for m in ms[:c['nch']]]
    frozen = snapshot(freeze(sysobj, loc))
    held = []               # (frames, copies) given so far
    runs = 0
    for j, o in enumerate(c['ops']):
        i = o['chain'] % len(mcs)
        mc = mcs[i]
        if o['do'] == 'scribble':
            scribble(mc.results)
            ctx.label('scribble')
        elif o['do'] == 'configure':
            configure(c, sysobj, o)
            frozen = snapshot(freeze(sysobj, loc))
            ctx.label('reconfigured')
        elif o['do'] == 'set':
            new = settle(o['m'], temp)
            if o['which'] == 'dc':
                for k, a in (('dc', 'dc_model'), ('ac', 'ac_model'),
                             ('ohmic', 'dc_ohmic_model')):
                    setattr(mc, a, new[k])
                    ms[i] = dict(ms[i], **{k: new[k]})
            else:
                k = o['which']
                if not (k == 'ohmic' and ms[i]['dc'] == 'pvwatts'):
                    setattr(mc, {'aoi': 'aoi_model', 'spectral':
                                 'spectral_model', 'losses': 'losses_model',
                                 'ohmic': 'dc_ohmic_model'}[k], new[k])
                    ms[i] = dict(ms[i], **{k: new[k]})
            ctx.label('model changed')
        else:
            w = c['ws'][o['w']]
            fr, data = data_for(c, ms[i], w, o['entry'])
            held.append((fr, snapshot(fr)))
            fresh = ch.build(dict(copy.deepcopy(c), m=ms[i]), **over)
            perform(fresh, o['entry'], data)
            want = ch.results(fresh.results)
            perform(mc, o['entry'], data)
            compare_runs(ch.results(mc.results), want,
                         f'operation {j} ({o["entry"]})')
            runs += 1
            ctx.label(o['entry'])
        for a, b in held:
            unchanged(b, a, f'weather after operation {j}')
        unchanged(frozen, freeze(sysobj, loc), f'system after {j}')
    if runs < 3:
        ctx.trivial()
    ctx.label(f'{runs} runs', f'{len(mcs)} chains')


@sub(lambda: st.tuples(ch.chain(2), ch.weather(tmax=6), st.permutations(
    range(6)), st.integers(1, 6), st.sampled_from(['weather', 'poa'])).map(
        lambda t: dict(t[0], w=t[1], perm=t[2], k=t[3], entry=t[4])),
    quick=200, shards=4)
def rows(case, ctx):
    """reordering or subsetting the weather does the same to the results"""
    c = case
    if c['m']['temp'] == 'fuentes':         # depends on the previous time
        c['m']['temp'] = 'faiman'
        for a in c['sys']['arrays']:
            a['temp'] = dict(u0=25., u1=6.)
    w = dict(c['w'], n=6)
    if c['entry'] == 'poa' and w['form'] == 'frame':
        w['form'] = 'list'
    fr, data = data_for(c, c['m'], w, c['entry'])
    sel = c['perm'][:c['k']]
    part = [f.iloc[sel] for f in fr]
    pdata = part[0] if w['form'] == 'frame' else part
    a, b = ch.build(c), ch.build(c)
    perform(a, c['entry'], data)
    perform(b, c['entry'], pdata)

    def take(x):
        if isinstance(x, tuple):
            return tuple(take(y) for y in x)
        if isinstance(x, (pd.Series, pd.DataFrame)) and len(x) == 6:
            return x.iloc[sel]
        return x
    ra, rb = ch.results(a.results), ch.results(b.results)
    for k in ra:
        if k != 'times' and ra[k] is not None:
            sg.same(rb[k], take(ra[k]), k, 1e-9, 1e-9)
    require(b.results.times.equals(fr[0].index[sel]), 'times')
    if sel == list(range(6)):
        ctx.trivial()
    ctx.label('sorted' if sel == sorted(sel) else 'reordered')
