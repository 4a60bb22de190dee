"""C08 reverse transposition."""
import copy
import math
import re
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pvlib import irradiance as irr

from ..cmp import close, raises, require, same_index, snapshot, unchanged
from ..core import sub
from ..elem import NAN
from ..gen import ints, fixed, flt, logflt, opt, zone
from ..refs import decomp as D
from ..refs import irrad as R

RULE = ('Plane-of-array values at random geometries, generated by the '
        'forward model from a known GHI or arbitrary; a case is trivial when '
        'no element has a finite reference result or when a GTI-DIRINT '
        'iterate lies within 1e-7 of a coefficient bin edge, where the '
        'algorithm is discontinuous.')


# --------------------------------------------------------------- reverse
def forward(ghi, tilt, az, zen, saz, extra, am, alb):
    e = D.erbs_driesse(ghi, zen, extra)
    s = R.perez_driesse(tilt, az, e['dhi'], e['dni'], extra, zen, saz, am)
    beam = e['dni'] * R.proj(tilt, az, zen, saz)
    return max(beam, 0) + s['poa_sky_diffuse'] \
        + ghi * alb * (1 - R.cosd(tilt)) / 2


ZEN = st.one_of(flt(0, 86.9, (0, 45)), flt(0, 86.9), flt(0, 86.9),
                flt(86, 95, (87, 90)))
PT = fixed(tilt=flt(0, 90, (0, 30, 90)), az=flt(0, 360, (180,)), zen=ZEN,
           saz=flt(0, 360, (180,)), extra=flt(1300, 1420),
           alb=flt(0, .9, (.25,)), kt=st.one_of(flt(0, 1.2), flt(.15, .85)),
           kind=st.sampled_from(['fwd', 'fwd', 'fwd', 'fwd', 'fwd', 'any',
                                 'nan', 'zero', 'neg', 'big']),
           any=flt(0, 1500), am=flt(1, 12))


@sub(lambda: fixed(
    pts=st.lists(PT, min_size=1, max_size=5),
    xtol=st.sampled_from([None, None, .01, 1., 1e-3, .1, 5., 1e-7]),
    give_am=st.booleans(), give_alb=st.booleans(),
    mode=st.sampled_from(['scalar', 'array', 'series', 'mixed', '2d']),
    full=st.booleans()), quick=500, shards=4)
def ghi_from_poa(case, ctx):
    """the returned GHI brackets the root of the forward model within xtol,
    or is flagged as not converged"""
    pts = case['pts'][:1] if case['mode'] == 'scalar' else case['pts']
    xtol = .01 if case['xtol'] is None else case['xtol']
    one = case['mode'] == 'mixed'
    for p in pts[1:] if one else ():
        # geometry shared by all elements
        p.update({k: pts[0][k] for k in ('tilt', 'az', 'extra', 'alb')})
    poa, prm = [], []
    for p in pts:
        a = (p['tilt'], p['az'], p['zen'], p['saz'], p['extra'],
             p['am'] if case['give_am'] else None,
             p['alb'] if case['give_alb'] else .25)
        prm.append(a)
        g = max(10, 1.25 * p['extra'] * R.cosd(p['zen']))
        poa.append({'fwd': lambda: forward(p['kt'] / 1.25 * g, *a),
                    'any': lambda: p['any'], 'nan': lambda: NAN,
                    'zero': lambda: 0., 'neg': lambda: -p['any'],
                    'big': lambda: 4000.}[p['kind']]())
    n = len(pts)
    ix = pd.date_range('2024-06-01', periods=n, freq='h', tz='Etc/GMT+5')
    conv = {'scalar': lambda x: x[0], 'array': np.array,
            'series': lambda x: pd.Series(x, index=ix),
            'mixed': lambda x: pd.Series(x, index=ix),
            '2d': lambda x: np.array(x).reshape(1, -1)}[case['mode']]
    kw = dict(zip(('surface_tilt', 'surface_azimuth', 'solar_zenith',
                   'solar_azimuth', 'dni_extra'),
                  [[p[k] for p in pts] for k in ('tilt', 'az', 'zen', 'saz',
                                                 'extra')]))
    if case['give_am']:
        kw['airmass'] = [p['am'] for p in pts]
    if case['give_alb']:
        kw['albedo'] = [p['alb'] for p in pts]
    kw = {k: v[0] if one and k in ('surface_tilt', 'surface_azimuth',
                                   'dni_extra', 'albedo') else conv(v)
          for k, v in kw.items()}
    kw['poa_global'] = conv(poa)
    s = snapshot([kw])
    if case['xtol'] is not None:
        kw['xtol'] = case['xtol']
    if case['full']:
        kw['full_output'] = True
    out = irr.ghi_from_poa_driesse_2024(**kw)
    for k in ('xtol', 'full_output'):
        kw.pop(k, None)
    unchanged(s, [kw], 'arguments')
    if case['full']:
        require(isinstance(out, tuple) and len(out) == 3, 'full output')
        ghi, cv, ni = out
    else:
        ghi = out
        cv = ni = None
    if case['mode'] in ('series', 'mixed'):
        for x in out if case['full'] else (ghi,):
            same_index(x, ix, 'series')
    shape = {'scalar': (), '2d': (1, n)}.get(case['mode'], (n,))
    require(np.shape(ghi) == shape, f'shape {np.shape(ghi)}')
    ghi = np.ravel(np.asarray(ghi, float))
    if cv is not None:
        cv, ni = np.ravel(np.asarray(cv)), np.ravel(np.asarray(ni))
        require(cv.dtype == bool, 'converged is boolean')
    good = False
    for k, (p, a, y) in enumerate(zip(pts, prm, poa)):
        info = dict(p, poa=y, ghi=ghi[k], xtol=xtol)
        if math.isnan(y):
            require(math.isnan(ghi[k]), f'not missing {info}')
            require(cv is None or (not cv[k] and ni[k] == 0), f'flag {info}')
            continue
        if y <= 0:
            close(ghi[k], 0, 0, 0, 'no irradiance', info=info)
            require(cv is None or (cv[k] and ni[k] == 0), f'flag {info}')
            continue
        top = max(10, 1.25 * p['extra'] * R.cosd(p['zen']))
        f0, f1 = forward(0, *a) - y, forward(top, *a) - y
        if math.isnan(f1) or abs(f1) < 1e-6 * y:
            ctx.label('edge of the search range')
            continue
        if f0 * f1 > 0:
            ctx.label('no solution')
            require(math.isnan(ghi[k]), f'not missing {info}')
            require(cv is None or (not cv[k] and ni[k] == -1),
                    f'flag {info}')
            continue
        require(0 <= ghi[k] <= top * (1 + 1e-12), f'out of range {info}')
        # 25 bisections are allowed
        reach = top / 2**25
        tol = max(xtol, reach)
        if cv is not None and abs(xtol - reach) > .6 * xtol:
            require(bool(cv[k]) == (xtol > reach), f'flag {info}, {cv[k]}')
            require(1 <= ni[k] <= 25, f'iterations {ni[k]}')
        h = 1.01 * tol + 1e-9 * top
        fa, fb = forward(max(ghi[k] - h, 0), *a) - y, \
            forward(ghi[k] + h, *a) - y
        if not (fa <= 0 <= fb or fb <= 0 <= fa):
            # both ends on one side: only a flat forward model explains it
            slack = 1e-9 * y
            require(min(abs(fa), abs(fb)) <= slack,
                    f'forward model gives {fa + y}..{fb + y} near the '
                    f'result, not {y}; {info}')
        good = True
        ctx.label('solved')
        if p['kind'] == 'fwd' and p['kt'] < .8 and p['zen'] < 80:
            g = p['kt'] / 1.25 * top
            if abs(ghi[k] - g) <= h:
                ctx.label('the generating GHI')
    if not good:
        ctx.trivial()


@sub(lambda: fixed(x=st.sampled_from([0, 0., -1e-9, -.01, -3])), quick=20)
def xtol_invalid(case, ctx):
    """a tolerance that is not positive is rejected"""
    raises(ValueError, irr.ghi_from_poa_driesse_2024, 30, 180, 40, 180, 500,
           1366, xtol=case['x'], what='xtol')


# ------------------------------------------------------------ GTI-DIRINT
class Edge(Exception):
    pass


def near(x, es, tol=1e-7):
    return any(abs(x - e) < tol for e in es)


def coef(kp, zen, dl, w):
    """DIRINT coefficient; dl / w None: not used"""
    if math.isnan(kp) or not zen >= 0 or kp > 1:
        if abs(kp - 1) < 1e-7:
            raise Edge
        return NAN
    if near(kp, D.EDGE_KT) or near(kp, (1.,)):
        raise Edge
    if near(zen, D.EDGE_Z, 1e-9):
        raise Edge
    di, wi = 6, 4
    if dl is not None:
        if math.isnan(dl):
            return NAN
        if near(dl, D.EDGE_D) or near(dl, (1.,)):
            raise Edge
        if dl > 1:
            return NAN
        di = D._bin(D.EDGE_D, dl)
    if w is not None:
        if math.isnan(w):
            return NAN
        if near(w, D.EDGE_W):
            raise Edge
        wi = D._bin(D.EDGE_W, w)
    return D.DIRINT[D._bin(D.EDGE_KT, kp)][D._bin(D.EDGE_Z, zen)][di][wi]


def sky(model, pm, tilt, az, zen, saz, dni, ghi, dhi, extra, am):
    if model == 'isotropic':
        return R.isotropic(tilt, dhi)['poa_sky_diffuse']
    if model == 'klucher':
        return R.klucher(tilt, az, dhi, ghi, zen, saz)
    if model == 'haydavies':
        return R.haydavies(tilt, az, dhi, dni, extra, zen,
                           saz)['poa_sky_diffuse']
    if model == 'reindl':
        return R.reindl(tilt, az, dhi, dni, ghi, extra, zen,
                        saz)['poa_sky_diffuse']
    if model == 'king':
        return R.king(tilt, dhi, ghi, zen)
    if model == 'perez':
        if dhi > 0 and not math.isnan(dni) and \
                near(R.perez_eps(dhi, dni, zen), R.PEREZ_BINS):
            raise Edge
        if dhi == 0 and dni == 0:
            raise Edge
        return R.perez(tilt, az, dhi, dni, extra, zen, saz, am,
                       pm)['poa_sky_diffuse']
    return R.perez_driesse(tilt, az, dhi, dni, extra, zen, saz,
                           am)['poa_sky_diffuse']


MODELS = ('perez', 'perez', 'isotropic', 'haydavies', 'klucher', 'reindl',
          'king', 'perez-driesse')


def mx(x, y):
    return NAN if math.isnan(x) else max(x, y)


def lockstep(c, pts, I0, aoi, poa, tdew):
    n = len(pts)
    am = [D.am_kasten66(p['zen']) * c['p'] / 101325. for p in pts]
    if any(p['zen'] > 89.9999 and p['zen'] < 90.0001 for p in pts):
        raise Edge
    w = [math.exp(.07 * x - .075) for x in tdew] if tdew else [None] * n
    co = ([1] * 3 + [.5] * 7 + [.25] * 10 + [.125] * 1000)[:c['iters']]
    best = [dict(d=9999., ghi=NAN, dni=NAN, dhi=NAN, kp=NAN)
            for _ in range(n)]
    x = list(poa)
    for it, cf in enumerate(co):
        d = [b['d'] for b, a in zip(best, aoi) if a < 90]
        if any(abs(v - 1) < 1e-6 for v in d):
            raise Edge
        if all(v <= 1 for v in d):
            break
        kts = []
        for i in range(n):
            kt = x[i] / (I0[i] * max(R.cosd(aoi[i]), .065))
            kt = min(mx(kt, 0), 2) if not math.isnan(kt) else NAN
            kts.append(kt)
        kp = [D.kt_prime(k, a, 2.) for k, a in zip(kts, am)]
        res = []
        for i, p in enumerate(pts):
            if c['delta']:
                nb = [abs(kp[i] - kp[j]) for j in (i - 1, i + 1)
                      if 0 <= j < n and not math.isnan(kp[j])]
                dl = sum(nb) / len(nb) if nb and not math.isnan(kp[i]) \
                    else NAN
            else:
                dl = None
            if math.isnan(kts[i]) or math.isnan(am[i]):
                dn = NAN
            else:
                if abs(kts[i] - .6) < 1e-7:
                    raise Edge
                dn = max(D.disc_kn(kts[i], min(am[i], 12)) * I0[i], 0)
            dn = dn * coef(kp[i], p['zen'], dl, w[i])
            cz = R.cosd(p['zen'])
            gh = kts[i] * I0[i] * max(.065, cz)
            dh = mx(gh - dn * cz, 0)
            dn, gh = mx(dn, 0), mx(gh, 0)
            q = c['geo'][i]
            if any(math.isnan(v) for v in (dn, gh, dh)):
                m = NAN
            else:
                m = max(dn * math.cos(math.radians(aoi[i])), 0) + sky(
                    c['model'], c['pm'] or 'allsitescomposite1990', q[0],
                    q[1], p['zen'], p['saz'], dn, gh, dh, I0[i], am[i]) \
                    + gh * q[2] * (1 - R.cosd(q[0])) / 2
            diff = m - poa[i]
            if abs(abs(diff) - best[i]['d']) < 1e-8 * (1 + poa[i]) and \
                    it > 0 and (abs(gh - best[i]['ghi']) > 1e-6
                                or abs(dn - best[i]['dni']) > 1e-6):
                raise Edge
            if abs(diff) < best[i]['d']:
                best[i] = dict(d=abs(diff), ghi=gh, dni=dn, dhi=dh,
                               kp=kp[i])
            elif it == 0:
                best[i].update(ghi=gh, dni=dn, dhi=dh, kp=kp[i])
            res.append(diff)
        x = [mx(a - cf * b, 1.) if not math.isnan(a - cf * b) else NAN
             for a, b in zip(x, res)]
    return best, am, w


GP = fixed(zen=st.one_of(flt(5, 85), flt(5, 85), flt(5, 85), flt(84, 96)),
           saz=flt(0, 360, (90, 270)), poa=st.one_of(
               flt(1, 1200), flt(20, 900), flt(20, 900),
               st.sampled_from([0., -5., None])),
           kt=flt(.05, .75), use=st.sampled_from(['kt', 'kt', 'poa']),
           tilt=flt(0, 90), az=flt(0, 360, (180,)), alb=flt(0, .8),
           td=flt(-30, 30))


@sub(lambda: fixed(
    pts=st.one_of(st.lists(GP, min_size=1, max_size=7), st.lists(
        GP, min_size=1, max_size=7), st.lists(
        GP, min_size=12, max_size=20)), tz=zone, t0=ints(
        0, 2000000), track=st.booleans(), model=st.sampled_from(MODELS),
    pm=st.sampled_from([None, 'france1988', 'albany1988']),
    p=flt(6e4, 1.05e5, (101325,)), give_p=st.booleans(),
    delta=st.booleans(), tdew=st.sampled_from([None, 'scalar', 'series']),
    alb=st.sampled_from([None, 'scalar', 'series']),
    iters=st.sampled_from([30, 30, 30, 30, 10, 3, 1, 35]),
    gt=st.sampled_from([True, True, False]),
    sunrise=st.booleans()), quick=800, shards=8)
def gti_dirint(case, ctx):
    """the documented iteration: components whose transposition reproduces
    the measurement within 1 W/m2, or a warning saying how many points
    failed; best iterate returned; closure"""
    c = copy.deepcopy(case)
    pts = c['pts']
    n = len(pts)
    if c['sunrise']:
        # sun beside and behind a steep plane facing south
        c['track'] = False
        for k, p in enumerate(pts):
            p['tilt'], p['az'], p['zen'] = 80., 180., 50 + p['zen'] / 2.9
            p['saz'] = (70 + p['saz'] / 25 if p['saz'] < 180 else
                        96 + (p['saz'] - 180) / 9)
            p['saz'] = p['saz'] if p['td'] > -10 else 360 - p['saz']
    if not c['give_p']:
        c['p'] = 101325.
    geo = []
    for p in pts:
        q = p if c['track'] else pts[0]
        geo.append((q['tilt'], q['az'],
                    .25 if c['alb'] is None else
                    pts[0]['alb'] if c['alb'] == 'scalar' else p['alb']))
    c['geo'] = geo
    aoi = [R.angle(g[0], g[1], p['zen'], p['saz']) for g, p in
           zip(geo, pts)]
    if any(abs(a - 90) < 1e-6 or abs(a - 65) < 1e-6 or abs(a - 80) < 1e-6
           for a in aoi) or any(abs(p['saz'] - 180) < 1e-9 for p in pts):
        ctx.trivial()
        return
    t = pd.date_range(pd.Timestamp('2019-01-01', tz='UTC')
                      + pd.Timedelta(minutes=c['t0']), periods=n,
                      freq='30min').tz_convert(c['tz'])
    I0 = [R.extra_spencer(x.dayofyear, 1370.)
          for x in t.tz_convert('UTC')]
    poa = []
    for p, a, e in zip(pts, aoi, I0):
        v = p['kt'] * e * max(R.cosd(a), .065) if p['use'] == 'kt' \
            else p['poa']
        poa.append(NAN if v is None else v)
    td = None
    kw = dict(model=c['model'], use_delta_kt_prime=c['delta'])

    def ser(x):
        return pd.Series(x, index=t)
    if c['model'] == 'perez' and c['pm']:
        kw['model_perez'] = c['pm']
    else:
        c['pm'] = None
    if c['give_p']:
        kw['pressure'] = c['p']
    if c['tdew'] == 'scalar':
        td = [pts[0]['td']] * n
        kw['temp_dew'] = pts[0]['td']
    elif c['tdew'] == 'series':
        td = [p['td'] for p in pts]
        kw['temp_dew'] = ser(td)
    if c['alb'] is not None:
        kw['albedo'] = geo[0][2] if c['alb'] == 'scalar' else \
            ser([g[2] for g in geo])
    if c['iters'] != 30:
        kw['max_iterations'] = c['iters']
    if not c['gt']:
        kw['calculate_gt_90'] = False
    args = [ser(poa), ser(aoi), ser([p['zen'] for p in pts]),
            ser([p['saz'] for p in pts]), t]
    args += [ser([g[k] for g in geo]) if c['track'] else geo[0][k]
             for k in (0, 1)]
    if min(aoi) >= 90:
        ctx.label('never in front')
        raises(ValueError, irr.gti_dirint, *args, **kw, what='AOI >= 90')
        return
    s = snapshot([args, kw])
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        out = irr.gti_dirint(*args, **kw)
    unchanged(s, [args, kw], 'arguments')
    ws = [x for x in ws if issubclass(x.category, RuntimeWarning)
          and 'converge' in str(x.message)]
    same_index(out, t, 'gti_dirint')
    require(list(out.columns) == ['ghi', 'dni', 'dhi'],
            f'columns {list(out.columns)}')
    o = {k: out[k].to_numpy(float) for k in out}
    # closure, whatever the iteration did
    for i in range(n):
        g, b, d = (o[k][i] for k in ('ghi', 'dni', 'dhi'))
        cz = R.cosd(pts[i]['zen'])
        inf = f'{pts[i]} aoi {aoi[i]}: ghi {g} dni {b} dhi {d}'
        if aoi[i] < 90:
            require(not (g < 0 or b < 0 or d < 0), 'negative ' + inf)
            if cz >= .065 and not math.isnan(g) and d > 0:
                close(d + b * cz, g, 1e-9, 1e-9, 'closure', info=inf)
        elif not c['gt']:
            require(math.isnan(g) and math.isnan(b) and math.isnan(d),
                    'value behind the plane ' + inf)
        elif not math.isnan(g):
            close(d + b * cz, g, 1e-9, 1e-9, 'closure behind', info=inf)
            ct = R.cosd(geo[i][0])
            close(d * (1 + ct) / 2 + g * geo[i][2] * (1 - ct) / 2, poa[i],
                  1e-9, 1e-8, 'diffuse on the plane', info=inf)
            ctx.label('behind the plane')
    try:
        best, am, w = lockstep(c, pts, I0, aoi, poa, td)
    except Edge:
        ctx.label('bin edge')
        ctx.trivial()
        return
    nf = sum(1 for b, a in zip(best, aoi) if a < 90 and not b['d'] <= 1)
    if any(abs(b['d'] - 1) < 1e-6 for b in best):
        ctx.trivial()
        return
    require(bool(ws) == (nf > 0), f'{len(ws)} warnings, {nf} points failed')
    if ws:
        ctx.label('not converged')
        m = re.match(r'\D*(\d+)', str(ws[0].message))
        require(m and int(m.group(1)) == nf,
                f'{nf} points failed but the warning says {ws[0].message}')
    else:
        ctx.label('converged')
    ok = [a >= 90 for a in aoi]
    for k in ('ghi', 'dni', 'dhi'):
        close(o[k], [b[k] for b in best], 1e-6, 1e-5, k, ok=np.array(ok),
              info=c)
    if not any(np.isfinite(b['ghi']) for b in best):
        ctx.trivial()
    if not c['gt']:
        return
    # behind the plane: DISC with the mean kt' of the same half day's points
    # with 65 < aoi < 80
    for i in range(n):
        if aoi[i] < 90:
            continue
        am_ = pts[i]['saz'] < 180
        sel = [best[j]['kp'] for j in range(n)
               if t[j].date() == t[i].date() and 65 < aoi[j] < 80
               and (pts[j]['saz'] < 180) == am_
               and not math.isnan(best[j]['kp'])]
        if not sel or not pts[i]['zen'] < 90 or math.isnan(am[i]) or \
                math.isnan(poa[i]):
            require(math.isnan(o['dni'][i]), f'dni {o["dni"][i]} without '
                                             'basis')
            continue
        kp = sum(sel) / len(sel)
        kt = kp * D.ktp_factor(am[i])
        if abs(kt - .6) < 1e-7:
            continue
        dd = max(D.disc_kn(kt, min(am[i], 12)) * I0[i], 0)
        try:
            cs = [coef(v, pts[i]['zen'], None, w[i])
                  for v in (kp, best[i]['kp'])]
        except Edge:
            continue
        ctx.label('behind, with basis')
        got = o['dni'][i]
        require(any(math.isnan(v) and math.isnan(got) or
                    abs(got - dd * v) <= 1e-6 * abs(dd * v) + 1e-5
                    for v in cs), f'dni {got} behind the plane, expected '
                                  f'{dd} times one of {cs}')
