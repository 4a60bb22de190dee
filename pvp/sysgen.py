"""Random PV systems as plain dictionaries, and builders for them."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .cmp import Fail, arr, close, require
from .gen import flt, logflt, opt, uni

U = uni


def present(**strats):
    """dict in which each key is present or not"""
    return st.fixed_dictionaries({}, optional=strats)


def merge(*ds):
    return st.tuples(*ds).map(lambda t: {k: v for d in t
                                         for k, v in d.items()})


# ---- module parameters ------------------------------------------------
def sapm_params():
    return merge(st.fixed_dictionaries(dict(
        Isco=U(2, 12), Impo=U(2, 11), Voco=U(20, 70), Vmpo=U(15, 60),
        Aisc=U(0, .001), Aimp=U(-.001, .001), C0=U(.95, 1.05),
        C1=U(-.05, .05), Bvoco=U(-.25, -.05), Mbvoc=U(-.02, .02),
        Bvmpo=U(-.25, -.05), Mbvmp=U(-.02, .02), N=U(1, 1.5),
        C2=U(-.3, .5), C3=U(-15, 0),
        Cells_in_Series=st.sampled_from([36, 60, 72, 96]))),
        st.sampled_from([{}, dict(IXO=5.1, C4=.98, C5=.02),
                         dict(IXO=5.1, C4=.98, C5=.02, IXXO=3.4, C6=1.1,
                              C7=-.1)]))


def sapm_spectral():
    return st.fixed_dictionaries(dict(
        A0=U(.9, 1), A1=U(.01, .07), A2=U(-.02, 0), A3=U(0, .001),
        A4=U(-.0001, 0)))


def sapm_iam():
    return st.fixed_dictionaries(dict(
        B0=U(.98, 1), B1=U(-.003, .003), B2=U(-.0004, 0), B3=U(0, 1e-5),
        B4=U(-1e-7, 0), B5=U(0, 1e-9)))


def desoto_params():
    return merge(st.fixed_dictionaries(dict(
        alpha_sc=U(.001, .006), a_ref=U(1, 2.5), I_L_ref=U(3, 12),
        I_o_ref=logflt(1e-12, 1e-9), R_sh_ref=logflt(100, 1000),
        R_s=U(.1, .6))),
        present(EgRef=U(1.1, 1.3), dEgdT=U(-.0004, 0),
                irrad_ref=U(900, 1100), temp_ref=U(20, 30)))


def pvsyst_params():
    return merge(st.fixed_dictionaries(dict(
        alpha_sc=U(.001, .006), gamma_ref=U(1, 1.3), mu_gamma=U(-.001, .001),
        I_L_ref=U(3, 12), I_o_ref=logflt(1e-12, 1e-9),
        R_sh_ref=logflt(200, 500), R_sh_0=logflt(600, 3000), R_s=U(.1, .6),
        cells_in_series=st.sampled_from([60, 72]), EgRef=U(1.1, 1.3))),
        present(R_sh_exp=U(4, 7), irrad_ref=U(900, 1100),
                temp_ref=U(20, 30)))


def pvwatts_params():
    return merge(st.fixed_dictionaries(dict(
        pdc0=U(80, 500), gamma_pdc=U(-.006, -.002))),
        present(temp_ref=U(20, 30), k=U(0, .05),
                cap_adjustment=st.booleans()))


IAM_KEYS = dict(ashrae=['b'], physical=['n', 'K', 'L', 'n_ar'],
                martin_ruiz=['a_r'], schlick=[],
                interp=['theta_ref', 'iam_ref', 'method', 'normalize'])


def iam_params(model, full=False):
    f = {'ashrae': dict(b=U(0, .1)),
         'physical': dict(n=U(1.3, 1.7), K=U(1, 8), L=U(.001, .005)),
         'martin_ruiz': dict(a_r=U(.1, .3)), 'schlick': {},
         'sapm': None, 'interp': None}[model]
    if model == 'sapm':
        return sapm_iam()
    if model == 'interp':
        return merge(st.fixed_dictionaries(dict(
            theta_ref=st.just([0, 30, 60, 75, 90]),
            iam_ref=st.tuples(U(.9, 1), U(.85, .9), U(.5, .8)).map(
                lambda t: [1.0, *t, 0]))),
            present(method=st.sampled_from(['linear', 'quadratic']),
                    normalize=st.booleans()))
    if full:
        s = st.fixed_dictionaries(f)
    else:
        s = present(**f)
    if model == 'physical':
        s = merge(s, present(n_ar=U(1.1, 1.29)))
    return s


# ---- temperature model parameters --------------------------------------
def temp_params(model, full=False):
    two = {'pvsyst': dict(u_c=U(15, 35), u_v=U(0, 4)),
           'faiman': dict(u0=U(15, 35), u1=U(1, 9))}
    if model in two:
        return st.fixed_dictionaries(two[model]) if full \
            else present(**two[model])
    return {
        'sapm': lambda: merge(st.fixed_dictionaries(dict(
            a=U(-4, -2.5), b=U(-.12, -.03), deltaT=U(0, 4))),
            present(irrad_ref=U(900, 1100))),
        'faiman_rad': lambda: present(u0=U(15, 35), u1=U(1, 9),
                                      sky_view=U(0, 1), emissivity=U(.7, 1)),
        'fuentes': lambda: merge(
            st.fixed_dictionaries(dict(noct_installed=U(40, 55))),
            present(wind_height=U(1, 12), emissivity=U(.7, .95),
                    absorption=U(.7, .95), surface_tilt=U(0, 60),
                    module_width=U(.2, 1), module_length=U(.8, 2))),
        'noct_sam': lambda: merge(st.fixed_dictionaries(dict(
            noct=U(40, 52), module_efficiency=U(.1, .22))),
            present(transmittance_absorptance=U(.7, .95),
                    array_height=st.sampled_from([1, 2]),
                    mount_standoff=U(.2, 6))),
        'ross': lambda: st.one_of(
            st.fixed_dictionaries(dict(noct=U(40, 55))),
            st.fixed_dictionaries(dict(k=U(.01, .05)))),
    }[model]()


TEMP_OPTIONAL = dict(
    sapm=['irrad_ref'], pvsyst=['u_c', 'u_v'], faiman=['u0', 'u1'],
    faiman_rad=['u0', 'u1', 'sky_view', 'emissivity'],
    fuentes=['wind_height', 'emissivity', 'absorption', 'surface_tilt',
             'module_width', 'module_length'],
    noct_sam=['transmittance_absorptance', 'array_height',
              'mount_standoff'], ross=['noct', 'k'])
TEMP_REQUIRED = dict(sapm=['a', 'b', 'deltaT'], pvsyst=[], faiman=[],
                     faiman_rad=[], fuentes=['noct_installed'],
                     noct_sam=['noct', 'module_efficiency'], ross=[])


# ---- mounts --------------------------------------------------------------
def mount(kinds=('fixed', 'tracker')):
    m = {'fixed': st.fixed_dictionaries(
            dict(kind=st.just('fixed')), optional=dict(
                surface_tilt=flt(0, 90, (0, 20)),
                surface_azimuth=flt(0, 359.99, (180,)),
                module_height=U(.3, 8))),
         'tracker': st.fixed_dictionaries(
            dict(kind=st.just('tracker')), optional=dict(
                axis_tilt=flt(0, 30, (0,)), axis_azimuth=flt(0, 359.99),
                max_angle=flt(30, 90), backtrack=st.booleans(),
                gcr=flt(.1, .8), cross_axis_tilt=flt(-10, 10, (0,)),
                module_height=U(.3, 8)))}
    return st.one_of(*[m[k] for k in kinds])


def build_mount(d, racking_model=None):
    from pvlib import pvsystem
    kw = {k: v for k, v in d.items() if k != 'kind'}
    cls = pvsystem.FixedMount if d['kind'] == 'fixed' \
        else pvsystem.SingleAxisTrackerMount
    return cls(racking_model=racking_model, **kw)


def orientation(d, zen, azi):
    """tilt and azimuth of the mount, from its description"""
    from pvlib import tracking
    if d['kind'] == 'fixed':
        return d.get('surface_tilt', 0.), d.get('surface_azimuth', 180.)
    t = tracking.singleaxis(
        zen, azi, axis_tilt=d.get('axis_tilt', 0),
        axis_azimuth=d.get('axis_azimuth', 0),
        max_angle=d.get('max_angle', 90),
        backtrack=d.get('backtrack', True), gcr=d.get('gcr', 2 / 7),
        cross_axis_tilt=d.get('cross_axis_tilt', 0))
    return t['surface_tilt'], t['surface_azimuth']


ALBEDO_DEFAULT = {'urban': .18, 'grass': .20, 'fresh grass': .26,
                  'soil': .17, 'sand': .40, 'snow': .65, 'fresh snow': .75,
                  'asphalt': .12, 'concrete': .30, 'aluminum': .85,
                  'copper': .74, 'fresh steel': .35, 'dirty steel': .08,
                  'sea': .06}


def albedo_of(d):
    if d.get('albedo') is not None:
        return d['albedo']
    return ALBEDO_DEFAULT.get(d.get('surface_type'), .25)


def layout():
    """per-array fields other than parameters"""
    return st.fixed_dictionaries(dict(
        albedo=opt(flt(0, 1)),
        surface_type=st.sampled_from([None, 'urban', 'snow', 'sea',
                                      'concrete', 'moon dust']),
        modules_per_string=st.integers(1, 30), strings=st.integers(1, 60)))


def build_array(d):
    """d: mount, layout fields, module, temp (parameter dicts)"""
    from pvlib import pvsystem
    return pvsystem.Array(
        build_mount(d['mount'], d.get('racking_model')),
        albedo=d.get('albedo'), surface_type=d.get('surface_type'),
        module_type=d.get('module_type'), module_parameters=d['module'],
        temperature_model_parameters=d.get('temp'),
        modules_per_string=d['modules_per_string'], strings=d['strings'],
        array_losses_parameters=d.get('losses'))


def pick(d, keys):
    return {k: d[k] for k in keys if k in d}


# ---- inverters -----------------------------------------------------------
def inverter_params(model):
    if model == 'sandia':
        return logflt(1e3, 1e6).flatmap(lambda p: st.fixed_dictionaries(dict(
            Paco=st.just(p), Pdco=U(1.01 * p, 1.1 * p), Vdco=U(200, 800),
            Pso=U(.001 * p, .01 * p), C0=U(-1e-2 / p, 1e-2 / p),
            C1=U(-1e-4, 1e-4), C2=U(-1e-3, 1e-3), C3=U(-1e-3, 1e-3),
            Pnt=U(0, .001 * p))))
    if model == 'pvwatts':
        return merge(st.fixed_dictionaries(dict(pdc0=logflt(1e3, 1e6))),
                     present(eta_inv_nom=U(.9, .99), eta_inv_ref=U(.9, .99)))
    return logflt(1e3, 1e6).flatmap(lambda p: st.fixed_dictionaries(dict(
        Pacmax=st.just(p), Pnom=U(.9 * p, 1.05 * p), Vnom=U(250, 600),
        Vmin=U(50, 200), Vmax=U(700, 1200), Vdcmax=U(1250, 1500),
        MPPTHi=U(700, 1200), MPPTLow=U(50, 200), Pnt=U(0, 5),
        ADRCoefficients=st.tuples(
            U(.005, .02), U(.005, .02), U(.005, .02), U(-.01, .01),
            U(-.01, .01), U(-.01, .01), U(-.005, .005), U(-.005, .005),
            U(-.005, .005)).map(list))))


# ---- deep comparison ------------------------------------------------------
def same(a, e, what='result', rtol=1e-11, atol=1e-11):
    """a has the structure, index, columns and values of e"""
    if isinstance(e, tuple):
        require(isinstance(a, tuple), f'{what}: {type(a).__name__}, expected '
                'a tuple')
        require(len(a) == len(e), f'{what}: {len(a)} items, expected '
                f'{len(e)}')
        for i, (x, y) in enumerate(zip(a, e)):
            same(x, y, f'{what}[{i}]', rtol, atol)
    elif isinstance(e, (pd.DataFrame, dict)):
        require(isinstance(a, pd.DataFrame) == isinstance(e, pd.DataFrame)
                and hasattr(a, 'keys'),
                f'{what}: {type(a).__name__}, expected {type(e).__name__}')
        require(list(a.keys()) == list(e.keys()),
                f'{what}: columns {list(a.keys())}, expected '
                f'{list(e.keys())}')
        for k in e.keys():
            same(a[k], e[k], f'{what}[{k}]', rtol, atol)
    elif isinstance(e, pd.Series):
        require(isinstance(a, pd.Series),
                f'{what}: {type(a).__name__}, expected Series')
        require(a.index.equals(e.index)
                and getattr(a.index, 'tz', None)
                == getattr(e.index, 'tz', None), f'{what}: index differs')
        close(a, e, rtol, atol, what)
    elif e is None:
        require(a is None, f'{what}: {a!r}, expected None')
    elif isinstance(e, np.ndarray) and e.ndim:
        require(isinstance(a, np.ndarray),
                f'{what}: {type(a).__name__}, expected ndarray')
        close(a, e, rtol, atol, what)
    elif isinstance(e, (str, bool)):
        require(a == e, f'{what}: {a!r}, expected {e!r}')
    else:
        if isinstance(a, (pd.Series, pd.DataFrame, tuple, str)):
            raise Fail(f'{what}: {type(a).__name__}, expected a scalar')
        close(arr(a), e, rtol, atol, what)
