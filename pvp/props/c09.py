"""C09 decomposition of GHI."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib import irradiance as irr

from ..cmp import close, raises, same_index, within, require
from ..core import sub
from ..elem import P, S, elem, NAN
from ..gen import ints, epoch, fixed, flt, opt, zone
from ..refs import decomp as D
from ..refs.irrad import cosd, extra_spencer

RULE = ('Random GHI (0 and negative included), zenith (limits, horizon and '
        'night included), day of year, limits and containers; non-trivial = '
        'a finite non-zero expected output.')

ghi = flt(0, 1400, (0, 1, 1000))
ghin = st.one_of(ghi, ghi, ghi, flt(-20, 0))
zen = flt(0, 180, (0, 45, 60, 80, 86, 87, 87.001, 88, 89.9, 90.5, 120))
doy = st.one_of(ints(1, 366).map(float), flt(1, 366))
MINC = S(opt(flt(0.01, .3, (.065,))))
MAXZ = S(opt(flt(50, 95, (87, 80, 85))))
NT = {'scalar': None, 'array': None, 'series': None}

# thresholds of each diffuse-fraction curve, in kt
EDGE = dict(erbs=(.22, .8), erbs_driesse=(.216, .792),
            orgill_hollands=(.35, .75), boland=(), louche=())


def _skip(name):
    def f(**k):
        z = k.get('zenith', k.get('solar_zenith'))
        ex = k.get('dni_extra')
        if ex is None:
            ex = extra_spencer(k['datetime_or_doy'])
        mc = k.get('min_cos_zenith')
        kt = D.ratio_kt(k['ghi'], z, ex, .065 if mc is None else mc,
                        2. if name == 'louche' else 1.)
        # rounding of cos(90 deg) decides DNI there
        return abs(z - 90) < 1e-3 or \
            any(abs(kt - e) < 1e-9 for e in EDGE[name])
    return f


def _ref(f):
    def g(**k):
        k = {a: v for a, v in k.items() if v is not None}
        z = k.pop('zenith', None)
        z = k.pop('solar_zenith') if z is None else z
        ex = k.pop('dni_extra', None)
        d = k.pop('datetime_or_doy', None)
        if ex is None:
            ex = extra_spencer(d)
        m = dict(min_cos_zenith='min_cos', max_zenith='max_zen',
                 a_coeff='a', b_coeff='b')
        return f(zen=z, extra=ex, **{m.get(a, a): v for a, v in k.items()})
    return g


def _label(name):
    f = _skip(name)

    def g(**k):
        z = k.get('zenith', k.get('solar_zenith'))
        ex = k.get('dni_extra')
        if ex is None:
            ex = extra_spencer(k['datetime_or_doy'])
        kt = D.ratio_kt(k['ghi'], z, ex, .065)
        mz = k.get('max_zenith') or 87
        if z > mz:
            return 'beyond zenith limit'
        if k['ghi'] < 0:
            return 'negative ghi'
        return f'segment {sum(kt > e for e in EDGE[name])}'
    return g


for name, zn, lim in [('erbs', 'zenith', True),
                      ('erbs_driesse', 'zenith', True),
                      ('orgill_hollands', 'zenith', True),
                      ('boland', 'solar_zenith', True),
                      ('louche', 'solar_zenith', False)]:
    par = {'ghi': P(ghin, nan=True), zn: P(zen, nan=True),
           'datetime_or_doy': P(doy), 'max_zenith': MAXZ}
    if lim:
        par['min_cos_zenith'] = MINC
    if name == 'boland':
        par['a_coeff'] = S(opt(flt(4, 12)))
        par['b_coeff'] = S(opt(flt(.3, .8)))
    elem(__name__, name, getattr(irr, name), par, _ref(getattr(D, name)),
         types=NT, skip=_skip(name), label=_label(name), quick=600,
         rtol=1e-8, atol=1e-8, shards=2,
         doc=name + ': published curve, closure completion and limits')
    if name in ('erbs_driesse', 'orgill_hollands'):
        par = dict(par)
        par['dni_extra'] = P(flt(1300, 1420))
        if name == 'erbs_driesse':
            del par['datetime_or_doy']
        elem(__name__, name + '_dni_extra', getattr(irr, name), par,
             _ref(getattr(D, name)), types=NT, skip=_skip(name), quick=200,
             rtol=1e-8, atol=1e-8,
             doc=name + ' with extraterrestrial irradiance given')

elem(__name__, 'campbell_norman', irr.campbell_norman,
     dict(zenith=P(flt(0, 95, (90.5,)), nan=True),
          transmittance=P(flt(.1, 1)), pressure=P(flt(5e4, 1.1e5)),
          dni_extra=P(flt(1300, 1420))),
     lambda zenith, transmittance, pressure, dni_extra: D.campbell_norman(
         zenith, transmittance, pressure, dni_extra), types=NT,
     skip=lambda **k: abs(k['zenith'] - 90) < 1e-3, rtol=1e-8, atol=1e-7,
     quick=200, doc='Campbell-Norman direct/diffuse/global')

elem(__name__, 'diffuse_par', irr.diffuse_par_spitters,
     dict(daily_solar_zenith=P(flt(0, 90), nan=True),
          global_diffuse_fraction=P(flt(0, 1))),
     lambda daily_solar_zenith, global_diffuse_fraction: D.par_spitters(
         daily_solar_zenith, global_diffuse_fraction), quick=200,
     doc='daily PAR diffuse fraction, Spitters')


def _idx():
    @st.composite
    def b(draw):
        n = draw(st.integers(1, 6))
        return dict(start=draw(epoch()), step=draw(st.sampled_from(
            [60, 900, 3600, 86400 * 10])), tz=draw(zone),
            ghi=draw(st.lists(ghin, min_size=n, max_size=n)),
            zen=draw(st.lists(zen, min_size=n, max_size=n)),
            kind=draw(st.sampled_from(['array', 'series'])),
            model=draw(st.sampled_from(sorted(EDGE))))
    return b()


@sub(_idx, quick=400)
def datetime_index(case, ctx):
    """with a DatetimeIndex: a DataFrame labelled by it; day = UTC day of
    year; closure GHI = DHI + DNI cos(zenith) row by row; no negative
    irradiance for non-negative GHI"""
    n, name = len(case['ghi']), case['model']
    t = pd.to_datetime([case['start'] + case['step'] * i for i in range(n)],
                       unit='s', utc=True)
    days = t.day_of_year
    t = t.tz_convert(case['tz'])
    g, z = np.array(case['ghi']), np.array(case['zen'])
    if case['kind'] == 'series':
        g, z = pd.Series(g, index=t), pd.Series(z, index=t)
    r = getattr(irr, name)(g, z, t)
    same_index(r, t, name)
    require(set(r.columns) == {'dni', 'dhi', 'kt'}, str(r.columns))
    ok = []
    for i in range(n):
        k = dict(ghi=case['ghi'][i], datetime_or_doy=days[i],
                 zenith=case['zen'][i])
        e = _ref(getattr(D, name))(**k)
        s = _skip(name)(**k)
        ok.append(s)
        for c in e:
            close(r[c].iloc[i], e[c], 1e-8, 1e-8, f'{name} {c} row {i}',
                  ok=s)
    ctx.label(name)
    G, Z = np.array(case['ghi']), np.array(case['zen'])
    dni, dhi = r['dni'].to_numpy(), r['dhi'].to_numpy()
    if name == 'erbs_driesse':
        G = np.maximum(G, 0)
    # closure: when DNI is not cut, else DHI = GHI
    close(dhi + dni * np.cos(np.radians(Z)), G, 1e-7, 1e-6,
          name + ' closure', ok=np.array(ok))
    pos = G >= 0
    within(dni[pos], 0, math.inf, 0, name + ' dni')
    # Louche's published polynomial gives a beam index of 0.002 at GHI = 0,
    # hence a DHI down to -0.002 * extraterrestrial
    within(dhi[pos], -3. if name == 'louche' else 0, math.inf, 1e-9,
           name + ' dhi')
    lim = 90 if name == 'louche' else 87
    close(dni[Z > lim], 0, 0, 0, name + ' dni beyond limit')
    close(dhi[Z > lim], G[Z > lim], 0, 0, name + ' dhi beyond limit')


@sub(lambda: fixed(g=ghi, z=zen), quick=40)
def needs_extra(case, ctx):
    """Erbs-Driesse without date and extraterrestrial irradiance is
    rejected"""
    raises(ValueError, irr.erbs_driesse, case['g'], case['z'])


@sub(lambda: fixed(name=st.sampled_from(
    ['erbs', 'erbs_driesse', 'orgill_hollands', 'boland', 'louche']),
    n=st.integers(1, 4), t=epoch(), tz=zone, g=st.lists(
        ghi, min_size=4, max_size=4), z=st.lists(zen, min_size=4,
                                                 max_size=4),
    how=st.sampled_from(['times', 'day', 'extra', 'extras'])), quick=150)
def tables(case, ctx):
    """a DatetimeIndex (Erbs-Driesse: any GHI Series) gives a table on that
    index, otherwise a dictionary, with the same values"""
    name, n, how = case['name'], case['n'], case['how']
    f = getattr(irr, name)
    if how.startswith('extra') and name not in ('erbs_driesse',
                                                'orgill_hollands'):
        how = 'day'
    ix = pd.date_range(pd.Timestamp(case['t'], unit='s', tz='UTC'),
                       periods=n, freq='30min').tz_convert(case['tz'])
    g, z = (pd.Series(np.array(case[k][:n], float), ix) for k in 'gz')
    day = ix if how == 'times' else ix.tz_convert('UTC').dayofyear[0]
    kw = {}
    if how.startswith('extra'):
        kw['dni_extra'] = 1367. if how == 'extra' else pd.Series(1367., ix)
        if name == 'erbs_driesse':
            day = None
    out = f(g, z, day, **kw)
    ref = f(g.to_numpy(), z.to_numpy(), day, **{
        k: np.asarray(v) for k, v in kw.items()})
    table = how == 'times' or name == 'erbs_driesse'
    require(isinstance(out, pd.DataFrame) == table,
            f'{type(out).__name__} from {name} by {how}')
    require(list(out.keys()) == list(ref.keys()) == ['dni', 'dhi', 'kt'],
            f'outputs {list(out.keys())}')
    if table:
        same_index(out, ix, name)
    for k in out.keys():
        close(np.asarray(out[k], float), np.asarray(ref[k], float), 1e-12,
              1e-12, f'{name} {k}')
    ctx.label(name, how)
