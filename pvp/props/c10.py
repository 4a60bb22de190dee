"""C10 DISC / DIRINT / DIRINDEX."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib import irradiance as irr

from ..cmp import close, same_index, snapshot, unchanged, within
from ..core import sub
from ..elem import P, S, elem, NAN
from ..gen import ints, epoch, fixed, flt, opt, zone
from ..refs import decomp as D
from ..refs.irrad import cosd, extra_spencer

RULE = ('Random GHI series (gaps, lengths 1..8), zenith (bin edges, horizon, '
        'night), pressure, dew point and limits; every coefficient cell of '
        'DIRINT is targeted by construction; non-trivial = a finite '
        'non-zero expected beam irradiance.')

ghi = flt(0, 1400, (0, 1, 1000))
ghin = st.one_of(ghi, ghi, ghi, flt(-20, 0))
zen = flt(0, 130, (0, 45, 80, 86, 87, 87.001, 88, 89.9, 90.5))
doy = st.one_of(ints(1, 366).map(float), flt(1, 366))
pres = flt(3e4, 1.1e5, (101325,))


def _disc(ghi, solar_zenith, datetime_or_doy, pressure, min_cos_zenith,
          max_zenith, max_airmass):
    return D.disc(ghi, solar_zenith, datetime_or_doy, pressure,
                  .065 if min_cos_zenith is None else min_cos_zenith,
                  87. if max_zenith is None else max_zenith,
                  12. if max_airmass is None else max_airmass)


def _skip(**k):
    kt = _disc(**k)['kt']
    return abs(kt - .6) < 1e-9


LIM = dict(min_cos_zenith=S(opt(flt(.01, .3))),
           max_zenith=S(opt(flt(50, 90, (80, 85)))),
           max_airmass=S(opt(flt(2, 20))))
elem(__name__, 'disc', irr.disc,
     dict(ghi=P(ghin, nan=True), solar_zenith=P(zen, nan=True),
          datetime_or_doy=P(doy), pressure=P(pres), **LIM), _disc,
     skip=_skip, types={'scalar': None, 'array': None, 'series': None},
     rtol=1e-8, atol=1e-7, quick=800, shards=2,
     doc='DISC: DNI, clearness index and limited absolute air mass')


def _disc_np(**k):
    k['pressure'] = None
    return _disc(**k)


elem(__name__, 'disc_relative', lambda **k: irr.disc(pressure=None, **k),
     dict(ghi=P(ghin, nan=True), solar_zenith=P(zen, nan=True),
          datetime_or_doy=P(doy), **LIM), _disc_np,
     skip=lambda **k: abs(_disc_np(**k)['kt'] - .6) < 1e-9,
     types={'scalar': None, 'array': None, 'series': None},
     rtol=1e-8, atol=1e-7, quick=200,
     doc='DISC with relative air mass (pressure None)')


def _series():
    @st.composite
    def b(draw):
        n = draw(st.sampled_from([1, 2, 2, 3, 4, 6, 8]))

        def L(s):
            return draw(st.lists(s, min_size=n, max_size=n))
        # clearness indices walked so that every persistence bin occurs
        base = draw(flt(.1, 1.0))
        mode = draw(st.sampled_from(['free', 'walk', 'walk']))
        if mode == 'walk':
            amp = draw(st.sampled_from([.01, .03, .06, .12, .3, .8]))
            kt = [min(max(base + amp * s, 0), 1.15)
                  for s in L(flt(-1, 1))]
        else:
            kt = L(flt(0, 1.3))
        z = L(st.one_of(flt(0, 85, (25, 40, 55, 70, 80)),
                        flt(0, 85, (25, 40, 55, 70, 80)),
                        flt(80, 100, (87, 90))))
        return dict(start=draw(epoch()), tz=draw(zone),
                    step=draw(st.sampled_from([60, 1800, 3600])),
                    kt=kt, zen=z,
                    gap=draw(st.one_of(st.just(-1), st.just(-1),
                                       st.integers(0, n - 1))),
                    pressure=draw(pres), pvec=draw(st.booleans()),
                    pv=L(pres),
                    tdew=draw(st.one_of(st.none(), st.just('scalar'),
                                        st.just('series'))),
                    td=L(flt(-30, 30, (1.0714, 10.9735, 16.7659))),
                    delta=draw(st.booleans()),
                    mc=draw(st.one_of(st.none(), st.none(),
                                      flt(.01, .2))),
                    mz=draw(st.one_of(st.none(), st.none(), flt(60, 90))))
    return b()


def _prep(case):
    n = len(case['kt'])
    t = pd.to_datetime([case['start'] + case['step'] * i for i in range(n)],
                       unit='s', utc=True)
    days = list(t.day_of_year)
    t = t.tz_convert(case['tz'])
    g = [k * extra_spencer(d, 1370.) * max(cosd(z), .065)
         for k, d, z in zip(case['kt'], days, case['zen'])]
    if case['gap'] >= 0:
        g[case['gap']] = NAN
    p = case['pv'] if case['pvec'] else [case['pressure']] * n
    td = None if case['tdew'] is None else (
        case['td'] if case['tdew'] == 'series' else [case['td'][0]] * n)
    kw = {}
    kw['pressure'] = pd.Series(p, index=t) if case['pvec'] \
        else case['pressure']
    if td is not None:
        kw['temp_dew'] = pd.Series(td, index=t) \
            if case['tdew'] == 'series' else case['td'][0]
    kw['use_delta_kt_prime'] = case['delta']
    lim = {}
    if case['mc'] is not None:
        kw['min_cos_zenith'] = lim['min_cos'] = case['mc']
    if case['mz'] is not None:
        kw['max_zenith'] = lim['max_zen'] = case['mz']
    return n, t, days, g, p, td, kw, lim


@sub(_series, quick=1200, shards=3)
def dirint(case, ctx):
    """DIRINT = DISC times the tabulated coefficient of its kt', zenith, dew
    point and persistence bins"""
    n, t, days, g, p, td, kw, lim = _prep(case)
    gs, zs = pd.Series(g, index=t), pd.Series(case['zen'], index=t)
    before = snapshot([gs, zs, kw])
    r = irr.dirint(gs, zs, t, **kw)
    unchanged(before, [gs, zs, kw], 'dirint arguments')
    exp, edge, kp = D.dirint(g, case['zen'], days, p, case['delta'], td,
                             **lim)
    same_index(r, t, 'dirint')
    # DISC is discontinuous only through these tests
    close(r, exp, 1e-8, 1e-7, 'dirint', ok=edge, info=kw)
    ok = np.isfinite(r.to_numpy())
    within(r.to_numpy()[ok], 0, math.inf, 0, 'dirint')
    mz = lim.get('max_zen', 87)
    z = np.array(case['zen'])
    close(r[(z > mz) & ok], 0, 0, 0, 'dirint beyond the zenith limit')
    for d, k in zip(case['zen'], kp):
        if not math.isnan(k):
            ctx.label(f'kt bin {sum(k >= e for e in D.EDGE_KT)}')
            ctx.label(f'zenith bin {sum(d >= e for e in D.EDGE_Z)}')
    if not any(math.isfinite(x) and x for x in exp):
        ctx.trivial()


def _cells():
    @st.composite
    def b(draw):
        # one middle sample with chosen bins; neighbours placed to give the
        # wanted persistence
        ks = (.02,) + D.EDGE_KT + (1.,)
        zs = (0,) + D.EDGE_Z + (86.9,)
        ws = (-60., (math.log(1) + .075) / .07, (math.log(2) + .075) / .07,
              (math.log(3) + .075) / .07, 32.)
        de = (0,) + D.EDGE_D + (.55,)
        zi = draw(st.integers(0, 5))
        rows = []
        for ki in range(6):
            di = draw(st.integers(0, 6))
            wi = draw(st.integers(0, 4))
            u = [draw(flt(.02, .98)) for _ in range(4)]
            rows.append([
                ks[ki] + (ks[ki + 1] - ks[ki]) * u[0],
                zs[zi] + (zs[zi + 1] - zs[zi]) * u[1],
                None if wi == 4 else ws[wi] + (ws[wi + 1] - ws[wi]) * u[2],
                None if di == 6 else de[di] + (de[di + 1] - de[di]) * u[3]])
        return dict(rows=rows, doy=draw(ints(1, 365)),
                    pressure=draw(pres))
    return b()


@sub(_cells, quick=900, shards=4)
def coefficient_table(case, ctx):
    """targets every cell of the DIRINT coefficient table"""
    t = pd.date_range('2021-01-01', periods=3, freq='60s', tz='UTC') + \
        pd.Timedelta(days=case['doy'] - 1)
    ex = extra_spencer(case['doy'], 1370.)
    for kp, z, td, dl in case['rows']:
        am = min(D.am_kasten66(z) * case['pressure'] / 101325., 12.)
        f = D.ktp_factor(am)
        nb = kp
        if dl is not None:
            nb = kp - dl if kp - dl > 0 else kp + dl

        def g(k):
            return k * f * ex * max(cosd(z), .065)
        gg = [g(nb), g(kp), g(nb)]
        kw = dict(pressure=case['pressure'],
                  use_delta_kt_prime=dl is not None)
        if td is not None:
            kw['temp_dew'] = td
        r = irr.dirint(pd.Series(gg, index=t), pd.Series(z, index=t), t,
                       **kw)
        exp, edge, k = D.dirint(gg, [z] * 3, [case['doy']] * 3,
                                [case['pressure']] * 3, dl is not None,
                                None if td is None else [td] * 3)
        close(r, exp, 1e-8, 1e-7, f'dirint kt\'={k[1]}', ok=edge,
              info=(kp, z, td, dl))


@sub(_series, quick=500, shards=2)
def dirindex(case, ctx):
    """DIRINDEX = clear-sky DNI times DIRINT(GHI)/DIRINT(GHI clear), not
    negative"""
    n, t, days, g, p, td, kw, lim = _prep(case)
    gc = [extra_spencer(d, 1370.) * max(cosd(z), .065) * (.5 + .3 * k)
          for d, z, k in zip(days, case['zen'], case['kt'])]
    dc = [900. * max(cosd(z), 0) ** .3 for z in case['zen']]
    S_ = [pd.Series(v, index=t) for v in (g, gc, dc, case['zen'])]
    before = snapshot([S_, kw])
    r = irr.dirindex(*S_, t, **kw)
    unchanged(before, [S_, kw], 'dirindex arguments')
    a, e1, _ = D.dirint(g, case['zen'], days, p, case['delta'], td, **lim)
    b, e2, _ = D.dirint(gc, case['zen'], days, p, case['delta'], td, **lim)
    with np.errstate(all='ignore'):
        exp = np.array(dc) * np.array(a) / np.array(b)
    exp = np.where(exp < 0, 0, exp)
    same_index(r, t, 'dirindex')
    close(r, exp, 1e-7, 1e-6, 'dirindex', ok=np.array(e1) | np.array(e2)
          | (np.array(b) < 1e-3))
    if not np.any(np.isfinite(exp) & (exp > 0)):
        ctx.trivial()
