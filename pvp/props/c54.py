"""C54 element independence, containers and untouched arguments."""
import inspect
import math
import pkgutil
import importlib

import numpy as np
import pandas as pd
from hypothesis import strategies as st
import pvlib
from pvlib import (albedo, atmosphere, bifacial, clearsky, iam, inverter,
                   irradiance, pvarray, pvsystem, shading, singlediode, snow,
                   solarposition, spa, spectrum, temperature, tools,
                   tracking, transformer)

from .. import core
from ..cmp import Fail, arr, snapshot, unchanged
from ..gen import ints, flt, logflt, uni

RULE = ('For each of ~150 public model functions: random elements in the '
        'physical domain (with NaN in one place), a random index '
        '(unordered, duplicated, text, float, unsorted times), a random '
        'selection/permutation with repetition, a random subset of '
        'parameters held constant.  Non-trivial = at least two different '
        'elements with a finite result.')
ASSUMPTIONS = ('Functions whose result depends on other elements by '
               'definition (persistence, transients, rolling windows, fits) '
               'are excluded; they are decided by their own properties.')


# ------------------------------------------------------- module-level tables
def _tables():
    out = {}
    mods = [pvlib]
    for m in pkgutil.walk_packages(pvlib.__path__, 'pvlib.'):
        if '.iotools' in m.name or 'spa_c_files' in m.name:
            continue
        try:
            mods.append(importlib.import_module(m.name))
        except Exception:
            continue
    for mod in mods:
        for n, v in vars(mod).items():
            if n.startswith('__'):
                continue
            if isinstance(v, (dict, list, np.ndarray, pd.DataFrame,
                              pd.Series)):
                out[f'{mod.__name__}.{n}'] = v
    return out


TABLES = _tables()


def deep(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and \
            all(deep(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and \
            all(deep(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and \
            a.shape == b.shape and \
            np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')
    if isinstance(a, (pd.Series, pd.DataFrame)):
        return a.equals(b)
    try:
        return bool(a is b or a == b or (a != a and b != b))
    except Exception:
        return a is b


FROZEN = {k: snapshot(v) for k, v in TABLES.items()}


def check_tables(name):
    for k, v in TABLES.items():
        if not deep(FROZEN[k], v):
            raise Fail(f'{name} changed the module-level table {k}')


# ------------------------------------------------------------------ elements
class A:
    """element values of one parameter"""
    def __init__(self, lo, hi, special=(), log=False, ints=True):
        self.lo, self.hi = lo, hi
        self.s = logflt(lo, hi) if log else flt(lo, hi, special=special)
        self.ints = ints and math.ceil(lo) <= math.floor(hi)


class T:
    """time stamps, as offsets in seconds from 2020-01-01 in a zone"""
    def __init__(self, scalar=True):
        self.s = ints(0, 4 * 366 * 24 * 12 - 1).map(lambda k: 300 * k)
        self.ints = False
        self.scalar = scalar


ZONE = 'Etc/GMT+7'


def stamps(v):
    return pd.to_datetime(np.asarray(v, dtype='int64') + 1577836800,
                          unit='s', utc=True).tz_convert(ZONE)


def flat(res, name=''):
    """name -> one-dimensional result"""
    if isinstance(res, pd.DataFrame):
        return {f'{name}.{c}': res[c] for c in res.columns}
    if isinstance(res, dict):
        out = {}
        for k, v in res.items():
            out.update(flat(v, f'{name}.{k}'))
        return out
    if isinstance(res, (tuple, list)):
        out = {}
        for i, v in enumerate(res):
            out.update(flat(v, f'{name}.{i}'))
        return out
    return {name: res}


def scribble(res):
    """overwrite every result in place"""
    for v in flat(res).values():
        if isinstance(v, np.ndarray) and v.flags.writeable and v.ndim \
                and v.dtype.kind == 'f':
            v[...] = -777.
        elif isinstance(v, pd.Series) and v.dtype.kind == 'f':
            v.iloc[:] = -777.


def values(res, n, what):
    out = {}
    for k, v in flat(res).items():
        a = arr(v)
        if a.size == 1:
            a = np.broadcast_to(a.reshape(()), (n,))
        elif a.ndim != 1 or len(a) != n:
            raise Fail(f'{what}: output {k!r} has shape {a.shape} for {n} '
                       'elements')
        out[k] = np.array(a)
    return out


def same_values(a, b, e, what, rows=None, info=None):
    if set(a) != set(b):
        raise Fail(f'{what}: outputs {sorted(a)} vs {sorted(b)}')
    for k in a:
        x, y = a[k], b[k]
        with np.errstate(all='ignore'):
            # the scale of the largest input-independent magnitude: an
            # angle near zero is no more exact than one near 360
            good = np.abs(x - y) <= e.atol + e.rtol * np.maximum(
                np.abs(x), np.abs(y))
            if e.wrap and k in e.wrap:
                d = np.abs(x - y) % e.wrap[k]
                good |= np.minimum(d, e.wrap[k] - d) <= 1e-7
        good |= (x == y) | (np.isnan(x) & np.isnan(y))
        if rows is not None:
            good = good | ~rows
        if not good.all():
            i = int(np.argmin(good))
            raise Fail(f'{what}: output {k or "value"!r} element {i}: '
                       f'{x[i]!r} vs {y[i]!r}; {info}')


class E:
    def __init__(self, name, fn, vec, stat=None, rtol=1e-9, atol=1e-9,
                 modes='asSidcn', wrap=None, quick=25, index=True,
                 pack=None):
        """modes: a array calls (always), s scalar calls, S Series calls,
        i integer calls, d call with constants as scalars, n NaN."""
        self.name, self.fn, self.vec = name, fn, vec
        self.stat = stat or {}
        self.rtol, self.atol, self.modes = rtol, atol, modes
        self.wrap, self.quick, self.index = wrap, quick, index
        self.pack = pack


INDEXES = ('shuffled', 'duplicated', 'text', 'float', 'times', 'duptimes')


def make_index(kind, n):
    if kind == 'shuffled':
        return pd.Index([(7 * i + 3) % 23 for i in range(n)])
    if kind == 'duplicated':
        return pd.Index([i // 2 for i in range(n)])
    if kind == 'text':
        return pd.Index([chr(122 - (i % 3)) for i in range(n)])
    if kind == 'float':
        return pd.Index([2.5 - i * .5 for i in range(n)])
    t = pd.date_range('2021-03-28 01:30', periods=n, freq='17min',
                      tz='Europe/Berlin')[::-1]
    if kind == 'duptimes':
        t = t[[i // 2 for i in range(n)]]
    return t


def strategy(e):
    @st.composite
    def build(draw):
        n = draw(st.sampled_from([2, 3, 4, 5, 7, 9]))
        vals = {k: draw(st.lists(a.s, min_size=n, max_size=n))
                for k, a in e.vec.items()}
        keys = list(e.vec)
        const = []
        if 'd' in e.modes and len(keys) > 1:
            const = draw(st.lists(st.sampled_from(keys), unique=True,
                                  max_size=len(keys) - 1))
        case = {'vals': vals, 'const': sorted(const),
                'pick': draw(st.lists(st.integers(0, n - 1), min_size=1,
                                      max_size=n + 2)),
                'index': draw(st.sampled_from(INDEXES)),
                'one': draw(st.integers(0, n - 1))}
        fk = [k for k in keys if isinstance(e.vec[k], A)]
        if 'n' in e.modes and fk:
            case['nan'] = [draw(st.sampled_from(fk)),
                           draw(st.integers(0, n - 1))]
        if e.stat:
            case['static'] = {k: draw(st.integers(0, len(v) - 1))
                              for k, v in e.stat.items()}
        return case
    return build()


def runner(e):
    def run(case, ctx):
        vals = case['vals']
        n = len(next(iter(vals.values())))
        static = {k: e.stat[k][i]
                  for k, i in case.get('static', {}).items()}
        static = {k: v for k, v in static.items() if v is not LEFT_OUT}
        if static:
            info_s = {k: v for k, v in static.items()}
        else:
            info_s = {}

        def call(kw, what):
            kw = {**kw, **{k: snapshot(v) for k, v in static.items()}}
            before = {k: snapshot(v) for k, v in kw.items()}
            with np.errstate(all='ignore'):
                res = e.fn(**(e.pack(kw) if e.pack else kw))
            for k, v in kw.items():
                unchanged(before[k], v, f'{e.name}: argument {k} ({what})')
            return res

        def box(k, v):
            if isinstance(e.vec[k], T):
                return stamps(v)
            return np.array(v, dtype=float)

        arrays = {k: box(k, v) for k, v in vals.items()}
        base = values(call(arrays, 'arrays'), n, f'{e.name} arrays')
        info = {**vals, **info_s}

        # repeated calls: identical, also after the caller has used the
        # first result up
        scribble(call({k: v.copy() for k, v in arrays.items()}, 'copies'))
        again = values(call(arrays, 'arrays'), n, e.name)
        for k in base:
            if not np.array_equal(base[k], again[k], equal_nan=True):
                raise Fail(f'{e.name}: a repeated call gives another '
                           f'result in {k!r}: {base[k]} {again[k]} {info}')

        # selection and permutation
        pick = np.array(case['pick'])
        sub = values(call({k: v[pick] for k, v in arrays.items()}, 'picked'),
                     len(pick), f'{e.name} picked')
        same_values(sub, {k: v[pick] for k, v in base.items()}, e,
                    f'{e.name}: selected elements {case["pick"]}', info=info)

        # a single element as scalar
        if 's' in e.modes:
            i = case['one']
            kw = {k: (stamps([v[i]])[0] if isinstance(e.vec[k], T)
                      else float(v[i])) for k, v in vals.items()}
            one = values(call(kw, 'scalars'), 1, f'{e.name} scalar')
            same_values(one, {k: v[[i]] for k, v in base.items()}, e,
                        f'{e.name}: scalar call of element {i}', info=info)

        # Series on any index
        if 'S' in e.modes:
            has_t = [k for k in e.vec if isinstance(e.vec[k], T)]
            if has_t:
                idx = arrays[has_t[0]]
            else:
                idx = make_index(case['index'], n)
                ctx.label(case['index'])
            kw = {k: (v if isinstance(e.vec[k], T)
                      else pd.Series(v.copy(), index=idx.copy(), name=None))
                  for k, v in arrays.items()}
            res = call(kw, 'Series')
            if e.index:
                for k, v in flat(res).items():
                    if isinstance(v, pd.Series) and \
                            not v.index.equals(idx):
                        raise Fail(f'{e.name}: output {k!r} has index '
                                   f'{list(v.index)}, input {list(idx)}')
            same_values(values(res, n, f'{e.name} Series'), base, e,
                        f'{e.name}: Series on {case["index"]} index',
                        info=info)

        # constant parameters: scalar or full array
        if case['const']:
            i = case['one']
            full, part = {}, {}
            for k, v in arrays.items():
                if k in case['const']:
                    full[k] = v[np.full(n, i)]
                    part[k] = v[i] if isinstance(e.vec[k], T) else \
                        float(v[i])
                else:
                    full[k] = part[k] = v
            skip_t = any(isinstance(e.vec[k], T) for k in case['const'])
            if not skip_t:
                a = values(call(full, 'full'), n, f'{e.name} full')
                b = values(call(part, 'broadcast'), n, f'{e.name} broadcast')
                same_values(b, a, e, f'{e.name}: {case["const"]} as scalar '
                            f'of element {i} instead of array', info=info)
                ctx.label('broadcast')

        # integers
        ik = [k for k in e.vec if e.vec[k].ints]
        if 'i' in e.modes and ik:
            fl = dict(arrays)
            it = dict(arrays)
            for k in ik:
                a = e.vec[k]
                r = np.clip(np.rint(arrays[k]), math.ceil(a.lo),
                            math.floor(a.hi))
                fl[k] = r
                it[k] = r.astype('int64')
            a = values(call(fl, 'whole floats'), n, e.name)
            b = values(call(it, 'integers'), n, f'{e.name} integers')
            same_values(b, a, e, f'{e.name}: integers instead of floats '
                        f'in {ik}', info={k: list(map(float, v))
                                          for k, v in fl.items()
                                          if not isinstance(e.vec[k], T)})
            # constants broadcast over integer vectors, and the reverse
            if case['const']:
                i = case['one']
                if not any(isinstance(e.vec[k], T) for k in case['const']):
                    mix = {k: (float(arrays[k][i]) if k in case['const']
                               else it[k]) for k in it}
                    ref = {k: (float(arrays[k][i]) if k in case['const']
                               else fl[k]) for k in it}
                    a = values(call(ref, 'x'), n, e.name)
                    b = values(call(mix, 'x'), n, e.name)
                    same_values(b, a, e, f'{e.name}: integer vectors with '
                                f'scalars {case["const"]}', info=str(mix))
            ctx.label('integers')

        # a missing value stays where it is
        if 'nan' in case:
            k, i = case['nan']
            kw = dict(arrays)
            kw[k] = kw[k].copy()
            kw[k][i] = np.nan
            rows = np.arange(n) != i
            got = values(call(kw, 'NaN'), n, f'{e.name} NaN')
            same_values(got, base, e, f'{e.name}: NaN in {k}[{i}] and '
                        'another element', rows=rows, info=info)
            if 'S' in e.modes and not any(isinstance(a, T)
                                          for a in e.vec.values()):
                idx = make_index(case['index'], n)
                ser = {q: pd.Series(v, index=idx) for q, v in kw.items()}
                g2 = values(call(ser, 'NaN Series'), n, f'{e.name} NaN')
                same_values(g2, got, e, f'{e.name}: NaN in {k}[{i}], Series',
                            info=info)
        check_tables(e.name)

        fin = np.ones(n, bool)
        diff = False
        for v in base.values():
            fin &= np.isfinite(v)
            f = v[np.isfinite(v)]
            diff |= len(f) > 1 and bool((f != f[0]).any())
        if not diff:
            ctx.trivial()
        if len(set(case['pick'])) < len(case['pick']):
            ctx.label('repeated-elements')
        if (~fin).any():
            ctx.label('non-finite-element')
    return run


def series_only(f):
    """functions documented for Series alone"""
    def g(**kw):
        return f(**{k: pd.Series(v) if isinstance(v, np.ndarray) else v
                    for k, v in kw.items()})
    return g


LEFT_OUT = object()
REG = []


def fn(name, func, vec, **kw):
    REG.append(E(name, func, vec, **kw))


# ------------------------------------------------------------ parameter kinds
ZEN = A(0, 130, special=(60, 85, 95))
ZEND = A(0, 85)
AZ = A(0, 360)
TILT = A(0, 90)
GHI = A(0, 1300)
DNI = A(0, 1100)
DHI = A(0, 600)
EXT = A(1320, 1415)
AOI = A(0, 120, special=(60,))
TAIR = A(-40, 50)
WIND = A(0, 20)
AM = A(1, 35)
PW = A(.1, 8)
PRES = A(50000, 108000)
AOD = A(.01, .9)
DOY = A(1, 366)
POA = A(0, 1300)
EE = A(1, 1300)
POSE = dict(surface_tilt=TILT, surface_azimuth=AZ, solar_zenith=ZEN,
            solar_azimuth=AZ)

# ----------------------------------------------------------------- atmosphere
fn('pres2alt', atmosphere.pres2alt, dict(pressure=A(30000, 110000)))
fn('alt2pres', atmosphere.alt2pres, dict(altitude=A(-400, 9000)))
fn('get_absolute_airmass', atmosphere.get_absolute_airmass,
   dict(airmass_relative=AM, pressure=PRES))
fn('get_relative_airmass', atmosphere.get_relative_airmass,
   dict(zenith=A(-10, 110, special=(90, 87))),
   stat=dict(model=['simple', 'kasten1966', 'youngirvine1967',
                    'kastenyoung1989', 'gueymard1993', 'young1994',
                    'pickering2002', 'gueymard2003']), quick=60, rtol=1e-7)
fn('gueymard94_pw', atmosphere.gueymard94_pw,
   dict(temp_air=TAIR, relative_humidity=A(0, 100)))
fn('rh_from_tdew', atmosphere.rh_from_tdew,
   dict(temp_air=TAIR, temp_dew=A(-50, 40)))
fn('tdew_from_rh', atmosphere.tdew_from_rh,
   dict(temp_air=TAIR, relative_humidity=A(1, 100)))
fn('bird_hulstrom80_aod_bb', atmosphere.bird_hulstrom80_aod_bb,
   dict(aod380=AOD, aod500=AOD))
fn('kasten96_lt', atmosphere.kasten96_lt,
   dict(airmass_absolute=AM, precipitable_water=PW, aod_bb=AOD))
fn('angstrom_aod_at_lambda', atmosphere.angstrom_aod_at_lambda,
   dict(aod0=AOD, lambda0=A(350, 1000), alpha=A(.1, 2.5),
        lambda1=A(350, 1000)))
fn('angstrom_alpha', atmosphere.angstrom_alpha,
   dict(aod1=A(.01, .4), lambda1=A(350, 600), aod2=A(.01, .4),
        lambda2=A(601, 1100)))
fn('windspeed_powerlaw', atmosphere.windspeed_powerlaw,
   dict(wind_speed_reference=WIND, height_reference=A(1, 20),
        height_desired=A(1, 20), exponent=A(.05, .5)))
fn('windspeed_powerlaw-surface', atmosphere.windspeed_powerlaw,
   dict(wind_speed_reference=WIND, height_reference=A(1, 20),
        height_desired=A(1, 20)),
   stat=dict(surface_type=['unstable_air_above_flat_open_coast',
                           'neutral_air_above_human_inhabited_areas',
                           'stable_air_above_open_water_surface']))
fn('inland_water_dvoracek', albedo.inland_water_dvoracek,
   dict(solar_elevation=A(-20, 90)),
   stat=dict(surface_condition=['clear_water_no_waves',
                                'green_water_ripples_up_to_2.5cm',
                                'clear_water_frequent_whitecaps']))
fn('inland_water_dvoracek-coeffs', albedo.inland_water_dvoracek,
   dict(solar_elevation=A(-20, 90), color_coeff=A(.05, .5),
        wave_roughness_coeff=A(.1, 2)))

# ----------------------------------------------------------------- irradiance
fn('get_extra_radiation-doy', irradiance.get_extra_radiation,
   dict(datetime_or_doy=DOY),
   stat=dict(method=['spencer', 'asce'], solar_constant=[1366.1, 1361.]))
fn('get_extra_radiation-times', irradiance.get_extra_radiation,
   dict(datetime_or_doy=T()),
   stat=dict(method=['spencer', 'asce', 'nrel', 'pyephem']),
   modes='asS', quick=40)
fn('aoi_projection', irradiance.aoi_projection, POSE)
fn('aoi', irradiance.aoi, POSE, atol=3e-6)      # acos near +-1
fn('beam_component', irradiance.beam_component, dict(POSE, dni=DNI))
SKY = dict(POSE, dni=DNI, ghi=GHI, dhi=DHI, dni_extra=EXT, airmass=AM)
MODELS = ['isotropic', 'klucher', 'haydavies', 'reindl', 'king', 'perez',
          'perez-driesse']
fn('get_total_irradiance', irradiance.get_total_irradiance,
   dict(SKY, albedo=A(0, 1)),
   stat=dict(model=MODELS), quick=80)
fn('get_total_irradiance-components', irradiance.get_total_irradiance,
   dict(SKY, albedo=A(0, 1)),
   stat=dict(model=['isotropic', 'haydavies', 'reindl', 'perez',
                    'perez-driesse'], diffuse_components=[True]), quick=40)
fn('get_sky_diffuse', irradiance.get_sky_diffuse, SKY,
   stat=dict(model=MODELS,
             model_perez=['allsitescomposite1990', 'phoenix1988']),
   quick=80)
fn('poa_components', irradiance.poa_components,
   dict(aoi=AOI, dni=DNI, poa_sky_diffuse=DHI,
        poa_ground_diffuse=A(0, 300)))
fn('get_ground_diffuse', irradiance.get_ground_diffuse,
   dict(surface_tilt=TILT, ghi=GHI, albedo=A(0, 1)))
fn('get_ground_diffuse-surface', irradiance.get_ground_diffuse,
   dict(surface_tilt=TILT, ghi=GHI),
   stat=dict(surface_type=['urban', 'grass', 'fresh snow', 'sea']))
COMP = [False, True]
fn('isotropic', irradiance.isotropic, dict(surface_tilt=TILT, dhi=DHI),
   stat=dict(return_components=COMP))
fn('klucher', irradiance.klucher, dict(POSE, dhi=DHI, ghi=GHI))
fn('haydavies', irradiance.haydavies,
   dict(POSE, dhi=DHI, dni=DNI, dni_extra=EXT),
   stat=dict(return_components=COMP))
fn('haydavies-ratio', irradiance.haydavies,
   dict(surface_tilt=TILT, surface_azimuth=AZ, dhi=DHI, dni=DNI,
        dni_extra=EXT, projection_ratio=A(-1, 5)))
fn('reindl', irradiance.reindl,
   dict(POSE, dhi=DHI, dni=DNI, ghi=GHI, dni_extra=EXT),
   stat=dict(return_components=COMP))
fn('king', irradiance.king,
   dict(surface_tilt=TILT, dhi=DHI, ghi=GHI, solar_zenith=ZEN))
fn('perez', irradiance.perez,
   dict(POSE, dhi=DHI, dni=DNI, dni_extra=EXT, airmass=AM),
   stat=dict(return_components=COMP,
             model=['allsitescomposite1990', '1990', 'albany1988']),
   quick=50)
fn('perez_driesse', irradiance.perez_driesse,
   dict(POSE, dhi=DHI, dni=DNI, dni_extra=EXT, airmass=AM),
   stat=dict(return_components=COMP))
fn('perez_driesse-no-airmass', irradiance.perez_driesse,
   dict(POSE, dhi=DHI, dni=DNI, dni_extra=EXT))
fn('ghi_from_poa_driesse_2024', irradiance.ghi_from_poa_driesse_2024,
   dict(surface_tilt=A(0, 60), surface_azimuth=AZ, solar_zenith=ZEND,
        solar_azimuth=AZ, poa_global=A(50, 1100), dni_extra=EXT,
        albedo=A(0, .9)), stat=dict(xtol=[1e-4]), rtol=0, atol=1e-1,
   quick=10, modes='asSdn')
fn('clearsky_index', irradiance.clearsky_index,
   dict(ghi=GHI, ghi_clear=A(0, 1100)))
fn('clearness_index', irradiance.clearness_index,
   dict(ghi=GHI, solar_zenith=ZEN, extra_radiation=EXT))
fn('clearness_index_zenith_independent',
   irradiance.clearness_index_zenith_independent,
   dict(clearness_index=A(0, 1.2), airmass=AM))
fn('disc', irradiance.disc,
   dict(ghi=GHI, solar_zenith=ZEN, datetime_or_doy=DOY, pressure=PRES))
fn('disc-times', irradiance.disc,
   dict(ghi=GHI, solar_zenith=ZEN, datetime_or_doy=T()))
for _n in ('erbs', 'erbs_driesse', 'orgill_hollands', 'boland'):
    _z = 'solar_zenith' if _n == 'boland' else 'zenith'
    fn(_n, getattr(irradiance, _n), {'ghi': GHI, _z: ZEN,
                                     'datetime_or_doy': DOY})
    fn(_n + '-times', getattr(irradiance, _n),
       {'ghi': GHI, _z: ZEN, 'datetime_or_doy': T()})
fn('louche', irradiance.louche,
   dict(ghi=GHI, solar_zenith=ZEN, datetime_or_doy=DOY))
fn('louche-times', irradiance.louche,
   dict(ghi=GHI, solar_zenith=ZEN, datetime_or_doy=T()))
fn('campbell_norman', irradiance.campbell_norman,
   dict(zenith=ZEN, transmittance=A(.1, .9), pressure=PRES, dni_extra=EXT))
fn('dni', series_only(irradiance.dni),
   dict(ghi=GHI, dhi=DHI, zenith=ZEN, dni_clear=A(0, 1000)), modes='aSin')
fn('complete_irradiance-dni', series_only(irradiance.complete_irradiance),
   dict(solar_zenith=ZEN, ghi=GHI, dhi=DHI), modes='aSin')
fn('complete_irradiance-ghi', series_only(irradiance.complete_irradiance),
   dict(solar_zenith=ZEN, dni=DNI, dhi=DHI), modes='aSin')
fn('complete_irradiance-dhi', series_only(irradiance.complete_irradiance),
   dict(solar_zenith=ZEN, dni=DNI, ghi=GHI), modes='aSin')
fn('diffuse_par_spitters', irradiance.diffuse_par_spitters,
   dict(daily_solar_zenith=A(0, 89), global_diffuse_fraction=A(0, 1)))

# ------------------------------------------------------------------ clear sky
fn('ineichen', clearsky.ineichen,
   dict(apparent_zenith=ZEN, airmass_absolute=AM, linke_turbidity=A(1, 9),
        altitude=A(0, 4000), dni_extra=EXT),
   stat=dict(perez_enhancement=COMP))
fn('haurwitz', series_only(clearsky.haurwitz), dict(apparent_zenith=ZEN),
   modes='aSin')
fn('simplified_solis', clearsky.simplified_solis,
   dict(apparent_elevation=A(-20, 90), aod700=A(0, .45),
        precipitable_water=A(.1, 10), pressure=PRES, dni_extra=EXT))
fn('bird', clearsky.bird,
   dict(zenith=ZEN, airmass_relative=AM, aod380=AOD, aod500=AOD,
        precipitable_water=PW, ozone=A(.1, .5), pressure=PRES,
        dni_extra=EXT, asymmetry=A(.6, .9), albedo=A(0, .9)))

# ------------------------------------------------------------------------ IAM
fn('iam.ashrae', iam.ashrae, dict(aoi=A(-100, 120), b=A(.01, .2)))
fn('iam.physical', iam.physical,
   dict(aoi=A(-100, 120, special=(0, 90)), n=A(1.1, 2), K=A(0, 8),
        L=A(0, .01)))
fn('iam.physical-ar', iam.physical,
   dict(aoi=A(-100, 120, special=(0, 90)), n_ar=A(1.1, 1.4)))
fn('iam.martin_ruiz', iam.martin_ruiz,
   dict(aoi=A(-100, 120), a_r=A(.05, .5)))
fn('iam.martin_ruiz_diffuse', iam.martin_ruiz_diffuse,
   dict(surface_tilt=A(0, 180), a_r=A(.05, .5)), rtol=1e-8)
fn('iam.interp', iam.interp, dict(aoi=A(-90, 90)),
   stat=dict(theta_ref=[[0, 20, 45, 60, 75, 90],
                        np.array([0., 20, 45, 60, 75, 90])],
             iam_ref=[[1.01, 1, .98, .95, .8, .01]],
             method=['linear', 'quadratic', 'cubic'],
             normalize=[True, False]))
SAPM_IAM = dict(B0=1, B1=-.002438, B2=.0003103, B3=-1.246e-5, B4=2.112e-7,
                B5=-1.359e-9)
fn('iam.sapm', iam.sapm, dict(aoi=A(-10, 120)),
   stat=dict(module=[SAPM_IAM, pd.Series(SAPM_IAM)],
             upper=[LEFT_OUT, 1.]))
fn('iam.schlick', iam.schlick, dict(aoi=A(-100, 120)))
fn('iam.schlick_diffuse', iam.schlick_diffuse,
   dict(surface_tilt=A(0, 180)), rtol=1e-7)
fn('iam.marion_diffuse', iam.marion_diffuse,
   dict(surface_tilt=A(0, 180)),
   stat=dict(model=['ashrae', 'physical', 'martin_ruiz', 'schlick']),
   quick=10)
fn('iam.marion_integrate', iam.marion_integrate,
   dict(surface_tilt=A(0, 90)),
   stat=dict(function=[iam.ashrae, iam.schlick],
             region=['sky', 'horizon', 'ground'], num=[60]), quick=15)

# ------------------------------------------------------------------ inverters
SANDIA = dict(Paco=250., Pdco=259.6, Vdco=40., Pso=1.77, C0=-2.5e-5,
              C1=-1.3e-5, C2=7e-5, C3=-6.3e-4, Pnt=.075)
ADR = dict(Pnom=2000., Vnom=400., Vmax=480., Vmin=200., Vdcmax=600.,
           MPPTHi=500., MPPTLow=210., Pacmax=1900., Pnt=1.5,
           ADRCoefficients=[.01385, .0152, .00794, .00286, -.01872,
                            -.01305, 0, 0, 0])
fn('inverter.sandia', inverter.sandia,
   dict(v_dc=A(15, 60), p_dc=A(0, 300, special=(1.77,))),
   stat=dict(inverter=[SANDIA, pd.Series(SANDIA)]))
fn('inverter.sandia_multi', inverter.sandia_multi,
   dict(v1=A(15, 60), v2=A(15, 60), p1=A(0, 150), p2=A(0, 150)),
   stat=dict(inverter=[SANDIA]),
   pack=lambda k: dict(v_dc=(k['v1'], k['v2']), p_dc=(k['p1'], k['p2']),
                       inverter=k['inverter']))
fn('inverter.adr', inverter.adr,
   dict(v_dc=A(0, 700, special=(0, 400)), p_dc=A(0, 2500)),
   stat=dict(inverter=[ADR], vtol=[.1, 0., .3]))
fn('inverter.pvwatts', inverter.pvwatts,
   dict(pdc=A(0, 150), pdc0=A(50, 120)))
fn('inverter.pvwatts_multi', inverter.pvwatts_multi,
   dict(a=A(0, 80), b=A(0, 80), pdc0=A(50, 120)),
   pack=lambda k: dict(pdc=(k['a'], k['b']), pdc0=k['pdc0']))
fn('transformer.simple_efficiency', transformer.simple_efficiency,
   dict(input_power=A(0, 1200), no_load_loss=A(.001, .02),
        load_loss=A(.001, .03), transformer_rating=A(500, 1500)))

# ------------------------------------------------------- arrays, single diode
fn('pvefficiency_adr', pvarray.pvefficiency_adr,
   dict(effective_irradiance=EE, temp_cell=A(-20, 80), k_a=A(90, 110),
        k_d=A(-10, -2), tc_d=A(0, .05), k_rs=A(0, .1), k_rsh=A(0, .3)))
fn('huld', pvarray.huld,
   dict(effective_irradiance=POA, temp_mod=A(-20, 80), pdc0=A(1, 300)),
   stat=dict(cell_type=['csi', 'cis', 'cdte'],
             k_version=['pvgis5', 'pvgis6']))
fn('pvarray.batzelis', pvarray.batzelis,
   dict(effective_irradiance=POA, temp_cell=A(-20, 80)),
   stat=dict(v_mp=[31.], i_mp=[8.2], v_oc=[38.], i_sc=[8.8],
             alpha_sc=[.0005], beta_voc=[-.0031]), rtol=1e-8)
DES = dict(alpha_sc=[.004], I_L_ref=[8.5], I_o_ref=[2e-10], R_sh_ref=[300.],
           R_s=[.35])
GT = dict(effective_irradiance=POA, temp_cell=A(-30, 90))
fn('calcparams_desoto', pvsystem.calcparams_desoto,
   dict(GT), stat=dict(DES, a_ref=[1.6]))
fn('calcparams_desoto-vectors', pvsystem.calcparams_desoto,
   dict(GT, alpha_sc=A(-.01, .02), a_ref=A(.5, 3), I_L_ref=A(1, 12),
        I_o_ref=A(1e-11, 1e-8, log=True), R_sh_ref=A(50, 2000),
        R_s=A(0, 1)))
fn('calcparams_cec', pvsystem.calcparams_cec,
   dict(GT), stat=dict(DES, a_ref=[1.6], Adjust=[7., 0.]))
fn('calcparams_pvsyst', pvsystem.calcparams_pvsyst,
   dict(GT), stat=dict(DES, gamma_ref=[1.05], mu_gamma=[-.0003],
                       R_sh_0=[1500.], cells_in_series=[60]))
SAPM = dict(SAPM_IAM, A0=.9281, A1=.06615, A2=-.01384, A3=.001298,
            A4=-4.6e-5, C0=1.01284, C1=-.0128398, C2=.279317,
            C3=-7.24463, C4=.996446, C5=.003554, C6=1.15535, C7=-.155353,
            Isco=5.09115, Impo=4.54629, Voco=59.2608, Vmpo=48.3156,
            Aisc=.000397, Aimp=.000181, Bvoco=-.21696, Mbvoc=0.,
            Bvmpo=-.235488, Mbvmp=0., N=1.4032, Cells_in_Series=96,
            IXO=4.97599, IXXO=3.18803, FD=1)
fn('sapm', pvsystem.sapm, dict(GT),
   stat=dict(module=[SAPM, pd.Series(SAPM)]))
fn('sapm_effective_irradiance', pvsystem.sapm_effective_irradiance,
   dict(poa_direct=POA, poa_diffuse=DHI, airmass_absolute=A(.5, 15),
        aoi=AOI), stat=dict(module=[SAPM]))
SD = dict(photocurrent=A(.05, 10), saturation_current=A(1e-12, 1e-6,
                                                         log=True),
          resistance_series=A(.01, 1), resistance_shunt=A(20, 5000),
          nNsVth=A(.8, 4))
fn('singlediode-lambertw', pvsystem.singlediode, SD,
   stat=dict(method=['lambertw']), rtol=1e-5, atol=1e-6, quick=15)
fn('singlediode-newton', pvsystem.singlediode, SD,
   stat=dict(method=['newton']), rtol=1e-5, atol=1e-6, quick=15)
fn('singlediode-brentq', pvsystem.singlediode, SD,
   stat=dict(method=['brentq']), rtol=1e-5, atol=1e-6, quick=8)
fn('i_from_v', pvsystem.i_from_v, dict(SD, voltage=A(0, 8)),
   stat=dict(method=['lambertw', 'newton', 'brentq', 'chandrupatla']), rtol=1e-5,
   atol=1e-6, quick=25)
fn('v_from_i', pvsystem.v_from_i, dict(SD, current=A(0, .05)),
   stat=dict(method=['lambertw', 'newton', 'brentq', 'chandrupatla']), rtol=1e-5,
   atol=1e-6, quick=25)
fn('max_power_point', pvsystem.max_power_point, SD,
   stat=dict(method=['brentq', 'newton', 'chandrupatla']), rtol=1e-5, atol=1e-5, quick=15)
fn('bishop88', singlediode.bishop88, dict(SD, diode_voltage=A(-5, 20)),
   stat=dict(gradients=COMP), rtol=1e-8)
fn('bishop88-recombination', singlediode.bishop88,
   dict(SD, diode_voltage=A(-5, 20), d2mutau=A(0, 2), NsVbi=A(50, 100)),
   stat=dict(gradients=COMP, breakdown_factor=[0., .002],
             breakdown_voltage=[-25.]), rtol=1e-8)
fn('bishop88_i_from_v', singlediode.bishop88_i_from_v,
   dict(SD, voltage=A(0, 8)), stat=dict(method=['newton', 'brentq', 'chandrupatla']),
   rtol=1e-5, atol=1e-6, quick=15)
fn('bishop88_v_from_i', singlediode.bishop88_v_from_i,
   dict(SD, current=A(0, .05)), stat=dict(method=['newton', 'brentq', 'chandrupatla']),
   rtol=1e-5, atol=1e-6, quick=15)
fn('bishop88_mpp', singlediode.bishop88_mpp, SD,
   stat=dict(method=['newton', 'brentq', 'chandrupatla']), rtol=1e-5, atol=1e-5, quick=15)
fn('estimate_voc', singlediode.estimate_voc,
   {k: SD[k] for k in ('photocurrent', 'saturation_current', 'nNsVth')})
fn('singlediode.batzelis', singlediode.batzelis, SD, rtol=1e-7)
fn('pvwatts_dc', pvsystem.pvwatts_dc,
   dict(effective_irradiance=POA, temp_cell=A(-30, 90), pdc0=A(50, 500),
        gamma_pdc=A(-.006, 0)),
   stat=dict(k=[LEFT_OUT, .01], cap_adjustment=COMP), quick=40)
fn('pvwatts_losses', pvsystem.pvwatts_losses,
   dict(soiling=A(0, 20), shading=A(0, 20), snow=A(0, 20),
        mismatch=A(0, 20), wiring=A(0, 20), lid=A(0, 20), age=A(0, 20),
        availability=A(0, 20)))
fn('dc_ohms_from_percent', pvsystem.dc_ohms_from_percent,
   dict(vmp_ref=A(20, 60), imp_ref=A(1, 12), dc_ohmic_percent=A(0, 10),
        modules_per_string=A(1, 20), strings=A(1, 20)))
fn('dc_ohmic_losses', pvsystem.dc_ohmic_losses,
   dict(resistance=A(0, 5), current=A(0, 20)))

# ---------------------------------------------------------- shading, trackers
fn('ground_angle', shading.ground_angle,
   dict(surface_tilt=A(0, 90), gcr=A(.1, .9), slant_height=A(0, 1)))
fn('masking_angle', shading.masking_angle,
   dict(surface_tilt=A(0, 90), gcr=A(.1, .9), slant_height=A(0, 1)))
fn('masking_angle_passias', shading.masking_angle_passias,
   dict(surface_tilt=A(1, 89), gcr=A(.1, .9)), rtol=1e-7)
fn('sky_diffuse_passias', shading.sky_diffuse_passias,
   dict(masking_angle=A(0, 80)))
fn('projected_solar_zenith_angle', shading.projected_solar_zenith_angle,
   dict(solar_zenith=A(0, 90), solar_azimuth=AZ, axis_tilt=A(0, 40),
        axis_azimuth=AZ), atol=1e-8)
fn('shaded_fraction1d', shading.shaded_fraction1d,
   dict(solar_zenith=A(0, 89), solar_azimuth=AZ, axis_azimuth=AZ,
        shaded_row_rotation=A(-60, 60), collector_width=A(1, 3),
        pitch=A(3.1, 9), axis_tilt=A(0, 20), surface_to_axis_offset=A(0, .3),
        cross_axis_slope=A(-10, 10)), rtol=1e-7)
fn('direct_martinez', shading.direct_martinez,
   dict(poa_global=A(10, 1200), poa_direct=A(0, 1000),
        shaded_fraction=A(0, 1), shaded_blocks=A(0, 6)),
   stat=dict(total_blocks=[6, 12]))
fn('tracking.singleaxis', tracking.singleaxis,
   dict(apparent_zenith=A(0, 100, special=(90,)), solar_azimuth=AZ),
   stat=dict(axis_tilt=[0, 10.], axis_azimuth=[180., 15], max_angle=[60, 90],
             backtrack=COMP, gcr=[.35], cross_axis_tilt=[0, 4.]),
   wrap={'.surface_azimuth': 360.}, quick=60, atol=1e-7, modes='asSin')
fn('calc_surface_orientation', tracking.calc_surface_orientation,
   dict(tracker_theta=A(-90, 90)),
   stat=dict(axis_tilt=[0, 20], axis_azimuth=[0, 180., 200]),
   wrap={'.surface_azimuth': 360.}, atol=1e-7)
fn('calc_axis_tilt', tracking.calc_axis_tilt,
   dict(slope_azimuth=AZ, slope_tilt=A(0, 40), axis_azimuth=AZ))

# ---------------------------------------------------------------- temperature
WX = dict(poa_global=POA, temp_air=TAIR, wind_speed=WIND)
fn('temperature.sapm_cell', temperature.sapm_cell, dict(WX),
   stat=dict(a=[-3.47], b=[-.0594], deltaT=[3]))
fn('temperature.sapm_module', temperature.sapm_module, dict(WX),
   stat=dict(a=[-3.47], b=[-.0594]))
fn('temperature.sapm_cell_from_module', temperature.sapm_cell_from_module,
   dict(module_temperature=A(-20, 80), poa_global=POA, deltaT=A(0, 4)))
fn('temperature.pvsyst_cell', temperature.pvsyst_cell, dict(WX),
   stat=dict(u_c=[29., 15], u_v=[0., 1.2], module_efficiency=[.1, .21]))
fn('temperature.faiman', temperature.faiman, dict(WX),
   stat=dict(u0=[25., 20], u1=[6.84, 5]))
fn('temperature.faiman_rad', temperature.faiman_rad,
   dict(WX, ir_down=A(150, 450)),
   stat=dict(sky_view=[1., .7], emissivity=[.88]))
fn('temperature.ross', temperature.ross,
   dict(poa_global=POA, temp_air=TAIR), stat=dict(noct=[45, 48.5]))
fn('temperature.noct_sam', temperature.noct_sam,
   dict(WX, effective_irradiance=A(1, 1300)),
   stat=dict(noct=[45.], module_efficiency=[.2], array_height=[1, 2],
             mount_standoff=[.4, 1, 3, 4]))
fn('temperature.generic_linear', temperature.generic_linear, dict(WX),
   stat=dict(u_const=[25.], du_wind=[6.84], module_efficiency=[.19],
             absorptance=[.9]))

# ---------------------------------------------------------- losses and spectra
fn('dc_loss_nrel', snow.dc_loss_nrel, dict(snow_coverage=A(0, 1)),
   stat=dict(num_strings=[1, 3, 8]))
fn('spectral_factor_firstsolar', spectrum.spectral_factor_firstsolar,
   dict(precipitable_water=A(.05, 10), airmass_absolute=A(.4, 12)),
   stat=dict(module_type=['cdte', 'multisi', 'asi', 'xsi']))
fn('spectral_factor_sapm', spectrum.spectral_factor_sapm,
   dict(airmass_absolute=A(.4, 30)), stat=dict(module=[SAPM]))
fn('spectral_factor_caballero', spectrum.spectral_factor_caballero,
   dict(precipitable_water=PW, airmass_absolute=A(.5, 10), aod500=AOD),
   stat=dict(module_type=['cdte', 'multisi', 'asi', 'perovskite']))
fn('spectral_factor_pvspec', spectrum.spectral_factor_pvspec,
   dict(airmass_absolute=A(.5, 10), clearsky_index=A(.05, 1.2)),
   stat=dict(module_type=['multisi', 'fs4-1', 'cigs']))
fn('spectral_factor_jrc', spectrum.spectral_factor_jrc,
   dict(airmass=A(.5, 10), clearsky_index=A(.05, 1.2)),
   stat=dict(module_type=['multisi', 'cdte']))
fn('spectral_factor_polo', spectrum.spectral_factor_polo,
   dict(precipitable_water=PW, airmass_absolute=A(.5, 10), aod500=AOD,
        aoi=A(0, 89), pressure=PRES, albedo=A(0, .9)),
   stat=dict(module_type=['cdte', 'monosi']))

# ------------------------------------------------------------------- bifacial
fn('power_mismatch_deline', bifacial.power_mismatch_deline,
   dict(rmad=A(0, .5)), stat=dict(fill_factor=[LEFT_OUT, .75]))
fn('vf_row_sky_2d', bifacial.utils.vf_row_sky_2d,
   dict(surface_tilt=A(0, 179)), stat=dict(gcr=[.3, .6], x=[0, .4, 1]))
fn('vf_row_ground_2d', bifacial.utils.vf_row_ground_2d,
   dict(surface_tilt=A(0, 179)), stat=dict(gcr=[.3, .6], x=[0, .4, 1]))
fn('vf_row_sky_2d_integ', bifacial.utils.vf_row_sky_2d_integ,
   dict(surface_tilt=A(0, 179)), stat=dict(gcr=[.3, .6], x0=[0, .2],
                                           x1=[.7, 1]), rtol=1e-8)
fn('vf_row_ground_2d_integ', bifacial.utils.vf_row_ground_2d_integ,
   dict(surface_tilt=A(0, 179)), stat=dict(gcr=[.3, .6], x0=[0, .2],
                                           x1=[.7, 1], height=[1.5],
                                           pitch=[4.]), rtol=1e-8)
ROW = dict(gcr=[.35], height=[1.5], pitch=[5.])
INF = dict(surface_tilt=A(0, 90), surface_azimuth=AZ, solar_zenith=A(0, 89),
           solar_azimuth=AZ, ghi=GHI, dhi=DHI, dni=DNI, albedo=A(0, .9))
fn('infinite_sheds.get_irradiance_poa',
   bifacial.infinite_sheds.get_irradiance_poa, INF,
   stat=ROW, quick=15, rtol=1e-7, atol=1e-6)
fn('infinite_sheds.get_irradiance-haydavies',
   bifacial.infinite_sheds.get_irradiance,
   dict(INF, dni_extra=EXT), stat=dict(ROW, model=['haydavies']),
   quick=15, rtol=1e-7, atol=1e-6)

# -------------------------------------------------------------- solar position
fn('equation_of_time_spencer71', solarposition.equation_of_time_spencer71,
   dict(dayofyear=DOY))
fn('equation_of_time_pvcdrom', solarposition.equation_of_time_pvcdrom,
   dict(dayofyear=DOY))
fn('declination_spencer71', solarposition.declination_spencer71,
   dict(dayofyear=DOY))
fn('declination_cooper69', solarposition.declination_cooper69,
   dict(dayofyear=DOY))
fn('solar_zenith_analytical', solarposition.solar_zenith_analytical,
   dict(latitude=A(-1.5, 1.5), hourangle=A(-3, 3), declination=A(-.4, .4)),
   atol=1e-7)
fn('solar_azimuth_analytical', solarposition.solar_azimuth_analytical,
   dict(latitude=A(-1.5, 1.5), hourangle=A(-3, 3), declination=A(-.4, .4),
        zenith=A(.1, 1.6)), atol=1e-6)
fn('get_solarposition', solarposition.get_solarposition,
   dict(time=T()),
   stat=dict(latitude=[40., -33], longitude=[-105., 151.2],
             altitude=[1000., 0],
             method=['nrel_numpy', 'ephemeris', 'pyephem']),
   modes='aS', quick=40, atol=5e-6)
fn('nrel_earthsun_distance', solarposition.nrel_earthsun_distance,
   dict(time=T()), modes='aS')
fn('pyephem_earthsun_distance', solarposition.pyephem_earthsun_distance,
   dict(time=T()), modes='aS')
fn('hour_angle', solarposition.hour_angle,
   dict(times=T(), equation_of_time=A(-15, 15)),
   stat=dict(longitude=[-105.2, 0, 30]), modes='aSn', atol=1e-8)
fn('calculate_deltat', spa.calculate_deltat,
   dict(year=A(-1000, 2400, special=(1900, 2005, 2050)), month=A(1, 12)),
   modes='asdn', rtol=1e-9)
fn('spa.julian_day', spa.julian_day, dict(unixtime=A(-1e9, 2.5e9)))
fn('spa.heliocentric_longitude', spa.heliocentric_longitude,
   dict(jme=A(-.2, .2, ints=False)), modes='an', atol=1e-7)
fn('spa.atmospheric_refraction_correction',
   spa.atmospheric_refraction_correction,
   dict(local_pressure=A(500, 1100), local_temp=A(-30, 45),
        topocentric_elevation_angle_wo_atmosphere=A(-5, 90),
        atmos_refract=A(.3, .8)), modes='asidn')
fn('spa.topocentric_azimuth_angle', spa.topocentric_azimuth_angle,
   dict(topocentric_astronomers_azimuth=A(-360, 720)), modes='asin',
   atol=1e-7)

# ----------------------------------------------------------------------- tools
for _n, _a in (('cosd', A(-400, 400)), ('sind', A(-400, 400)),
               ('tand', A(-80, 80))):
    fn('tools.' + _n, getattr(tools, _n), dict(angle=_a), rtol=1e-12)
for _n, _a in (('asind', A(-1, 1)), ('acosd', A(-1, 1)),
               ('atand', A(-50, 50))):
    fn('tools.' + _n, getattr(tools, _n), dict(number=_a), rtol=1e-11)

REG = [e for e in REG if e is not None]
for _e in REG:
    core.add(__name__, _e.name.replace('.', '_').lower(), runner(_e),
             (lambda e: (lambda: strategy(e)))(_e), quick=_e.quick * 2,
             thorough=_e.quick * 40,
             doc=f'{_e.name}: containers, selection, broadcasting, '
                 'integers, NaN isolation, untouched arguments')
