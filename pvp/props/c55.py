"""C55 deprecation machinery preserves behaviour."""
import inspect
import io
import linecache
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st
import pvlib
from pvlib import bifacial, iam, iotools, irradiance, location, modelchain
from pvlib import tracking
from pvlib._deprecation import (deprecated, pvlibDeprecationWarning,
                                renamed_kwarg_warning, warn_deprecated)

from ..cmp import Fail, require
from ..core import sub
from ..gen import fixed, flt

RULE = ('Generated functions (positional, default, variadic and '
        'keyword-only parameters; returning or raising), generated '
        'decorator options and generated calls, valid and invalid; and '
        "every deprecated public name of pvlib on generated arguments.  "
        'Non-trivial = the wrapped code was reached through the deprecated '
        'name.')
ASSUMPTIONS = ('Warnings are recorded with the "always" filter; '
               'pvfactors_timeseries and the web clients are called through '
               'their own properties (C20, C52).')

WORDS = ['alpha', 'beta', 'gamma', 'delta', 'epsilon']
VAL = st.one_of(st.integers(-5, 5), st.sampled_from(['boom', 'x', '', None]),
                flt(-2, 2))


class Recorder:
    def __enter__(self):
        self.cm = warnings.catch_warnings(record=True)
        self.list = self.cm.__enter__()
        warnings.simplefilter('always')
        return self

    def __exit__(self, *a):
        return self.cm.__exit__(*a)

    def ours(self):
        return [w for w in self.list
                if issubclass(w.category, (pvlibDeprecationWarning,
                                           PendingDeprecationWarning))]


def outcome(f, args, kwargs):
    """('value', v) or ('error', type)"""
    try:
        return ('value', f(*args, **kwargs))
    except Exception as e:
        return ('error', type(e).__name__)


# --------------------------------------------------------- generated functions
@st.composite
def signature(draw):
    n = draw(st.integers(0, 3))
    names = WORDS[:n]
    ndef = draw(st.integers(0, n))
    return {'names': names,
            'defaults': draw(st.lists(VAL, min_size=ndef, max_size=ndef)),
            'star': draw(st.booleans()),
            'kwonly': draw(st.lists(st.sampled_from(['kone', 'ktwo']),
                                    unique=True, max_size=2)),
            'kwargs': draw(st.booleans()),
            'doc': draw(st.sampled_from(
                ['', 'One line.', 'Summary.\n\n    Parameters\n    ------'
                 '----\n    alpha : int\n        First.\n    ']))}


def build(sig, name='original', method=False):
    ps = []
    nd = len(sig['defaults'])
    k = len(sig['names']) - nd
    for i, p in enumerate(sig['names']):
        ps.append(p if i < k else f'{p}=_d[{i - k}]')
    if sig['star']:
        ps.append('*rest')
    elif sig['kwonly']:
        ps.append('*')
    for i, p in enumerate(sig['kwonly']):
        ps.append(f'{p}={i}')
    if sig['kwargs']:
        ps.append('**more')
    first = {'self': 'self', 'cls': 'cls', False: None}[method]
    if first:
        ps.insert(0, first)
    rec = (sig['names'] + (['rest'] if sig['star'] else []) + sig['kwonly'] +
           (['more'] if sig['kwargs'] else []))
    body = [f'def {name}({", ".join(ps)}):']
    body.append(f'    {sig["doc"]!r}')
    body.append(f'    seen = [{", ".join(rec)}]')
    body.append('    _calls.append(list(seen))')
    body.append('    if "boom" in seen: raise KeyError("boom")')
    body.append('    return ("result", seen)' if name != '__init__'
                else '    self.seen = seen')
    calls = []
    ns = {'_d': list(sig['defaults']), '_calls': calls}
    exec('\n'.join(body), ns)
    f = ns[name]
    if not sig['doc']:
        f.__doc__ = None
    return f, calls


@st.composite
def call_of(draw, sig, extra=()):
    npos = draw(st.integers(0, len(sig['names']) + 1))
    args = draw(st.lists(VAL, min_size=npos, max_size=npos))
    keys = draw(st.lists(st.sampled_from(
        sig['names'][min(npos, len(sig['names'])):] + sig['kwonly'] +
        ['other'] + list(extra)), unique=True, max_size=4))
    if draw(st.integers(0, 2)) > 0:
        # a call which is valid as far as required names go
        need = sig['names'][npos:len(sig['names']) - len(sig['defaults'])]
        keys = [k for k in keys if k != 'other'] + [
            k for k in need if k not in keys]
        args = args[:len(sig['names'])]
    return {'args': args, 'kwargs': {k: draw(VAL) for k in keys}}


OPTIONS = fixed(
    since=st.sampled_from(['0.11.0', '1.0']),
    name=st.sampled_from(['', 'pvlib.module.thing']),
    alternative=st.sampled_from(['', 'pvlib.module.newer']),
    addendum=st.sampled_from(['', 'Mind the gap.']),
    removal=st.sampled_from(['', '0.20.0', None]),
    pending=st.sampled_from([False, False, False, True]),
    message=st.sampled_from(['', '', 'Please avoid %(name)s, prefer '
                             '%(alternative)s (a %(obj_type)s).']))


def expected_message(o, name, kind):
    name = o['name'] or name
    if o['message']:
        return o['message'] % dict(name=name, alternative=o['alternative'],
                                   obj_type=kind)
    m = f'The {name} {kind}'
    if o['pending']:
        m += ' will be deprecated in a future version'
    else:
        m += f' was deprecated in pvlib {o["since"]}'
        if o['removal'] == '':
            m += ' and will be removed soon'
        elif o['removal']:
            m += f' and will be removed in {o["removal"]}'
    m += '.'
    if o['alternative']:
        m += f' Use {o["alternative"]} instead.'
    if o['addendum']:
        m += ' ' + o['addendum']
    return m


def decorate(o, obj, ctx):
    """The decorated object, or None where the options contradict."""
    if o['pending'] and o['removal']:
        try:
            deprecated(**o)(obj)
        except ValueError:
            ctx.label('contradictory-options')
            return None
        raise Fail('pending deprecation with a scheduled removal accepted')
    return deprecated(**o)(obj)


def check_warning(rec, o, name, kind, what):
    ws = rec.ours()
    if len(ws) != 1 or len(rec.list) != 1:
        raise Fail(f'{what}: {len(rec.list)} warnings, expected one: '
                   f'{[str(w.message) for w in rec.list]}')
    w = ws[0]
    cat = PendingDeprecationWarning if o['pending'] else \
        pvlibDeprecationWarning
    require(w.category is cat, f'{what}: category {w.category}, expected '
            f'{cat}')
    got, want = str(w.message).strip(), expected_message(o, name, kind)
    require(got == want, f'{what}: message {got!r}, expected {want!r}')
    # compiled extension suffix aside, the warning points at the caller
    require(w.filename.rstrip('c') == __file__.rstrip('c'),
            f'{what}: warning attributed to {w.filename}, the call is in '
            f'{__file__}')
    line = linecache.getline(w.filename, w.lineno)
    require('f(*args, **kwargs)' in line or 'warn_deprecated(' in line,
            f'{what}: warning attributed to the line {line!r}')


def check_doc(doc, old, o, name, kind):
    require(doc and f'.. deprecated:: {o["since"]}' in doc,
            f'docstring {doc!r} has no deprecation note')
    require(expected_message(o, name, kind) in doc,
            f'docstring {doc!r} lacks the message')
    for line in (old or '').splitlines():
        require(line.strip() in doc, f'docstring {doc!r} lost {line!r}')


@st.composite
def function_case(draw):
    sig = draw(signature())
    return {'sig': sig, 'options': draw(OPTIONS),
            'calls': [draw(call_of(sig))
                      for _ in range(draw(st.integers(1, 3)))]}


@sub(lambda: function_case(), quick=600, thorough=20000)
def deprecated_function(case, ctx):
    """deprecated(...)(function): result, error, one warning, metadata"""
    sig, o = case['sig'], case['options']
    plain, plain_calls = build(sig)
    func, func_calls = build(sig)
    old_doc = func.__doc__
    with Recorder() as rec:
        new = decorate(o, func, ctx)
    require(not rec.list, 'decorating warns')
    if new is None:
        return ctx.trivial()
    require(new.__name__ == 'original', f'name {new.__name__}')
    check_doc(new.__doc__, old_doc, o, 'original', 'function')
    require(inspect.signature(new) == inspect.signature(plain),
            f'signature {inspect.signature(new)}')
    reached = False
    for c in case['calls']:
        e = outcome(plain, c['args'], dict(c['kwargs']))
        kw = dict(c['kwargs'])
        with Recorder() as rec:
            a = outcome(new, c['args'], kw)
        require(a == e, f'deprecated call gives {a}, the function {e}')
        require(kw == c['kwargs'], 'keyword arguments changed')
        check_warning(rec, o, 'original', 'function', 'call')
        ctx.label(e[0])
        reached |= e[0] == 'value'
        with Recorder() as rec:
            outcome(plain, c['args'], dict(c['kwargs']))
        require(not rec.list, 'the undecorated function warns')
    require(func_calls == plain_calls[::2], 'the function body was not run '
            'exactly once per call')
    if not reached:
        ctx.trivial()


@st.composite
def class_case(draw):
    sig = draw(signature())
    msig = draw(signature())
    return {'sig': sig, 'options': draw(OPTIONS), 'call': draw(call_of(sig)),
            'msig': msig, 'mcall': draw(call_of(msig)),
            'kind': draw(st.sampled_from(['class', 'subclass', 'method',
                                          'classmethod']))}


@sub(lambda: class_case(), quick=500, thorough=15000)
def deprecated_class(case, ctx):
    """deprecated classes, methods and class methods"""
    o, kind = case['options'], case['kind']
    c, m = case['call'], case['mcall']

    def make(deco):
        init, _ = build(case['sig'], '__init__', 'self')
        body = {'__init__': init, '__doc__': case['sig']['doc'] or None,
                'CONST': 7}
        if kind == 'method':
            meth, _ = build(case['msig'], 'action', 'self')
            body['action'] = deco(meth) if deco else meth
        else:
            meth, _ = build(case['msig'], 'action', 'cls')
            meth = classmethod(meth)
            body['action'] = deco(meth) if deco and kind == 'classmethod' \
                else meth
        cls = type('Widget', (), body)
        if deco and kind in ('class', 'subclass'):
            cls = deco(cls)
        if kind == 'subclass':
            base = cls
            cls = type('Gadget', (base,), {})
        return cls
    with Recorder() as rec:
        plain = make(None)
        try:
            cls = make(deprecated(**o))
        except ValueError:
            require(o['pending'] and o['removal'], 'options rejected')
            ctx.label('contradictory-options')
            return ctx.trivial()
    require(not (o['pending'] and o['removal']),
            'pending deprecation with a scheduled removal accepted')
    require(not rec.list, 'decorating warns')
    require(isinstance(cls, type) and cls.__name__ == plain.__name__,
            f'class became {cls}')

    e = outcome(plain, c['args'], dict(c['kwargs']))
    with Recorder() as rec:
        a = outcome(cls, c['args'], dict(c['kwargs']))
    require(a[0] == e[0] and (a[0] == 'value' or a[1] == e[1]),
            f'construction gives {a}, expected {e}')
    if kind in ('class', 'subclass'):
        check_warning(rec, o, 'Widget', 'class', 'construction')
        base = cls.__mro__[1] if kind == 'subclass' else cls
        check_doc(base.__doc__, case['sig']['doc'], o, 'Widget', 'class')
    else:
        require(not rec.list, 'constructing a class with a deprecated '
                'method warns')
    if a[0] == 'value':
        require(type(a[1]) is cls and a[1].seen == e[1].seen,
                f'instance state {vars(a[1])}')
        require(a[1].CONST == 7 and vars(a[1]) == vars(e[1]),
                'instance attributes differ')
    if kind == 'method':
        if a[0] == 'error':
            return ctx.trivial()
        ta, te = a[1].action, e[1].action
    else:
        ta, te = cls.action, plain.action
    me = outcome(te, m['args'], dict(m['kwargs']))
    with Recorder() as rec:
        ma = outcome(ta, m['args'], dict(m['kwargs']))
    require(ma == me, f'{kind}: action gives {ma}, expected {me}')
    if kind in ('method', 'classmethod'):
        check_warning(rec, o, 'action', 'function', kind)
        require(ta.__name__ == 'action', f'name {ta.__name__}')
        check_doc(ta.__doc__, case['msig']['doc'], o, 'action', 'function')
    else:
        require(not rec.list, f'{kind}: other methods warn')
    ctx.label(kind, a[0])
    if a[0] == 'error':
        ctx.trivial()


# ------------------------------------------------------------ renamed keywords
@st.composite
def renamed_case(draw):
    sig = draw(signature())
    target = [n for n in sig['names'] + sig['kwonly']]
    ren = draw(st.lists(st.sampled_from(target), unique=True, min_size=1,
                        max_size=2)) if target else []
    olds = {f'old_{n}': n for n in ren}
    return {'sig': sig, 'renamed': olds,
            'since': '0.13.0',
            'removal': draw(st.sampled_from(['', '0.20.0', 'LEFT'])),
            'calls': [with_old(draw(call_of(sig, extra=list(olds))), olds,
                               draw(st.integers(0, 3)))
                      for _ in range(draw(st.integers(1, 3)))]}


def with_old(call, olds, how):
    """Mostly use the old names where the call has the new ones, and none
    of the unusable combinations."""
    if how == 0 or not olds:
        return call
    kw = {k: v for k, v in call['kwargs'].items() if k not in olds}
    back = {v: k for k, v in olds.items()}
    args = call['args']
    if how < 3:
        args = args[:how - 1]
        for n in back:
            kw.setdefault(n, 3)
    return {'args': args, 'kwargs': {back.get(k, k): v
                                     for k, v in kw.items()}}


@sub(lambda: renamed_case(), quick=700, thorough=20000)
def renamed_keyword(case, ctx):
    """renamed_kwarg_warning against the function called with new names"""
    sig = case['sig']
    plain, plain_calls = build(sig)
    func, func_calls = build(sig)
    new = func
    for old, name in case['renamed'].items():
        extra = {} if case['removal'] == 'LEFT' else \
            {'removal': case['removal']}
        new = renamed_kwarg_warning(case['since'], old, name, **extra)(new)
    require(new.__name__ == 'original' and new.__doc__ == func.__doc__,
            'name or docstring changed')
    require(inspect.signature(new) == inspect.signature(plain),
            'signature changed')
    reached = False
    for c in case['calls']:
        kw = c['kwargs']
        olds = [k for k in kw if k in case['renamed']]
        both = [k for k in olds if case['renamed'][k] in kw]
        given = dict(kw)
        before = len(func_calls)
        with Recorder() as rec:
            a = outcome(new, c['args'], given)
        require(given == kw, 'keyword arguments of the caller changed')
        if both:
            require(a == ('error', 'ValueError'),
                    f'both {both[0]} and its new name: {a}')
            require(len(func_calls) == before, 'function executed')
            ctx.label('both')
            try:
                new(*c['args'], **kw)
            except ValueError as ex:
                named = [k for k in both
                         if k in str(ex) and case['renamed'][k] in str(ex)]
                require(named, f'error {ex} does not name the parameters')
            except Exception:
                pass
            continue
        mapped = {case['renamed'].get(k, k): v for k, v in kw.items()}
        e = outcome(plain, c['args'], mapped)
        require(a == e, f'{kw} gives {a}, with the new names {e}')
        ws = rec.ours()
        require(len(ws) == len(rec.list) == len(olds),
                f'{len(rec.list)} warnings for old names {olds}')
        for old in olds:
            name = case['renamed'][old]
            hit = [w for w in ws if f"'{old}'" in str(w.message)]
            require(len(hit) == 1, f'{len(hit)} warnings about {old}')
            msg = str(hit[0].message)
            require(f"'{name}'" in msg and case['since'] in msg,
                    f'warning {msg!r} lacks the new name or the version')
            if case['removal'] in ('', 'LEFT'):
                require('soon' in msg, f'warning {msg!r}: removal time')
            else:
                require(case['removal'] in msg, f'warning {msg!r}: removal')
            require(hit[0].category is pvlibDeprecationWarning,
                    f'category {hit[0].category}')
        if len(case['renamed']) == 1:
            for w in ws:
                line = linecache.getline(w.filename, w.lineno)
                require(w.filename.rstrip('c') == __file__.rstrip('c')
                        and 'f(*args, **kwargs)' in line,
                        f'warning attributed to {w.filename}: {line!r}')
        ctx.label('old-name' if olds else 'new-names', e[0])
        reached |= bool(olds) and e[0] == 'value'
    if not reached:
        ctx.trivial()


@sub(lambda: fixed(o=OPTIONS, kind=st.sampled_from(
    ['attribute', 'parameter', 'class', None])), quick=200, thorough=4000)
def warn_directly(case, ctx):
    """warn_deprecated inside a function"""
    o, kind = case['o'], case['kind']
    kw = dict(o)
    if kind:
        kw['obj_type'] = kind
    with Recorder() as rec:
        if o['pending'] and o['removal']:
            ctx.label('contradictory-options')
            ctx.trivial()
            try:
                warn_deprecated(**kw)
            except ValueError:
                require(not rec.list, 'warned as well')
                return
            raise Fail('pending deprecation with a removal accepted')
        warn_deprecated(**kw)
    check_warning(rec, {**o, 'name': o['name']}, '', kind or 'attribute',
                  'warn_deprecated')


# ------------------------------------------------------------- pvlib's own names
def one_deprecation(rec, words, what):
    ws = [w for w in rec.list
          if issubclass(w.category, pvlibDeprecationWarning)]
    require(len(ws) == 1, f'{what}: {len(ws)} deprecation warnings: '
            f'{[str(w.message) for w in ws]}')
    for word in words:
        require(word in str(ws[0].message), f'{what}: warning '
                f'{str(ws[0].message)!r} does not mention {word!r}')


def no_deprecation(rec, what):
    ws = [w for w in rec.list
          if issubclass(w.category, pvlibDeprecationWarning)]
    require(not ws, f'{what} warns: {[str(w.message) for w in ws]}')


def same_result(a, b, what):
    if isinstance(a, (tuple, list)):
        require(type(a) is type(b) and len(a) == len(b), f'{what}: differ')
        for x, y in zip(a, b):
            same_result(x, y, what)
    elif isinstance(a, dict):
        require(list(a) == list(b), f'{what}: keys differ')
        for k in a:
            same_result(a[k], b[k], what)
    elif isinstance(a, (pd.Series, pd.DataFrame)):
        require(type(a) is type(b) and a.equals(b), f'{what}: differ')
    elif isinstance(a, (float, np.ndarray, np.generic)):
        require(np.array_equal(a, b, equal_nan=True), f'{what}: differ')
    else:
        require(a == b or a is b, f'{what}: {a!r} {b!r}')


def vec(lo, hi):
    return st.lists(flt(lo, hi), min_size=4, max_size=4)


@sub(lambda: fixed(tilt=flt(0, 90), az=flt(0, 360), zen=vec(0, 88),
                   saz=vec(0, 360), poa=vec(20, 1000), albedo=flt(0, .9),
                   full=st.booleans()), quick=80, thorough=2000)
def driesse_2023(case, ctx):
    """irradiance.ghi_from_poa_driesse_2023 is ..._2024"""
    args = (case['tilt'], case['az'], np.array(case['zen']),
            np.array(case['saz']), np.array(case['poa']), 1366.)
    kw = dict(albedo=case['albedo'], full_output=case['full'])
    with np.errstate(all='ignore'):
        with Recorder() as rec:
            a = irradiance.ghi_from_poa_driesse_2024(*args, **kw)
        no_deprecation(rec, 'ghi_from_poa_driesse_2024')
        with Recorder() as rec:
            b = irradiance.ghi_from_poa_driesse_2023(*args, **kw)
    one_deprecation(rec, ['ghi_from_poa_driesse_2023',
                          'ghi_from_poa_driesse_2024'], 'driesse_2023')
    same_result(a, b, 'ghi_from_poa_driesse_2023')


@sub(lambda: fixed(zen=vec(0, 100), az=vec(0, 360), tilt=flt(0, 30),
                   axis=flt(0, 360), limit=flt(20, 90),
                   backtrack=st.booleans(), gcr=flt(.1, .8),
                   positional=st.integers(0, 2)), quick=150, thorough=3000)
def singleaxis_keyword(case, ctx):
    """tracking.singleaxis(apparent_azimuth=...)"""
    zen, az = np.array(case['zen']), np.array(case['az'])
    kw = dict(axis_tilt=case['tilt'], axis_azimuth=case['axis'],
              max_angle=case['limit'], backtrack=case['backtrack'],
              gcr=case['gcr'])
    with np.errstate(all='ignore'):
        with Recorder() as rec:
            a = tracking.singleaxis(zen, az, **kw)
            a2 = tracking.singleaxis(apparent_zenith=zen, solar_azimuth=az,
                                     **kw)
        no_deprecation(rec, 'singleaxis with new names')
        with Recorder() as rec:
            if case['positional']:
                b = tracking.singleaxis(zen, apparent_azimuth=az, **kw)
            else:
                b = tracking.singleaxis(apparent_zenith=zen,
                                        apparent_azimuth=az, **kw)
    one_deprecation(rec, ['apparent_azimuth', 'solar_azimuth'], 'singleaxis')
    for k in a:
        same_result(np.asarray(a[k]), np.asarray(b[k]), f'singleaxis {k}')
        same_result(np.asarray(a[k]), np.asarray(a2[k]), f'singleaxis {k}')
    try:
        tracking.singleaxis(zen, solar_azimuth=az, apparent_azimuth=az)
    except ValueError:
        return
    raise Fail('singleaxis accepts both azimuth names')


@sub(lambda: fixed(rot=vec(-80, 80), gcr=flt(.1, .8), height=flt(.5, 4),
                   pitch=flt(2, 9), dead=st.sampled_from(
                       [{}, {'npoints': 100}, {'vectorize': True},
                        {'npoints': 10, 'vectorize': False}])),
     quick=120, thorough=2000)
def ground_view_keyword(case, ctx):
    """vf_ground_sky_2d_integ: old name and parameters without effect"""
    f = bifacial.utils.vf_ground_sky_2d_integ
    rot = np.array(case['rot'])
    rest = (case['gcr'], case['height'], case['pitch'])
    kw = dict(gcr=rest[0], height=rest[1], pitch=rest[2])
    with np.errstate(all='ignore'):
        with Recorder() as rec:
            a = f(rot, *rest)
            a2 = f(tracker_rotation=rot, **kw)
        no_deprecation(rec, 'vf_ground_sky_2d_integ')
        with Recorder() as rec:
            b = f(surface_tilt=rot, **kw)
        one_deprecation(rec, ['surface_tilt', 'tracker_rotation'],
                        'vf_ground_sky_2d_integ')
        same_result(a, b, 'vf_ground_sky_2d_integ')
        same_result(a, a2, 'vf_ground_sky_2d_integ')
        if case['dead']:
            with Recorder() as rec:
                c = f(rot, *rest, **case['dead'])
            one_deprecation(rec, list(case['dead']), 'npoints/vectorize')
            same_result(a, c, 'npoints/vectorize have an effect')
    try:
        f(surface_tilt=rot, tracker_rotation=rot, **kw)
    except ValueError:
        return
    raise Fail('both rotation names accepted')


@sub(lambda: fixed(aoi=vec(-90, 90), method=st.sampled_from(
    ['linear', 'quadratic', 'cubic', 'nearest', 'nearest-up', 'zero',
     'slinear', 'previous', 'next']), normalize=st.booleans()),
     quick=150, thorough=3000)
def iam_interp_methods(case, ctx):
    """iam.interp: deprecated interpolation methods warn, others do not"""
    ref = [0., 20., 45., 60., 75., 90.]
    val = [.99, 1., .97, .9, .7, 0.]
    aoi = np.array(case['aoi'])
    with Recorder() as rec:
        a = iam.interp(aoi, ref, val, method=case['method'],
                       normalize=case['normalize'])
    if case['method'] in ('linear', 'quadratic', 'cubic'):
        no_deprecation(rec, f'method {case["method"]}')
        if case['method'] != 'linear':
            return
    else:
        one_deprecation(rec, [case['method']], f'method {case["method"]}')
    x = np.abs(aoi)
    if case['method'] in ('linear', 'slinear'):
        e = np.interp(x, ref, val)
    elif case['method'] in ('zero', 'previous'):
        e = np.array([val[max(i for i, r in enumerate(ref) if r <= v)]
                      for v in x])
    elif case['method'] == 'next':
        e = np.array([val[min(i for i, r in enumerate(ref) if r >= v)]
                      for v in x])
    else:
        pick = max if case['method'] == 'nearest-up' else min
        e = []
        for v in x:
            d = [abs(v - r) for r in ref]
            m = min(d)
            e.append(val[pick(i for i, q in enumerate(d)
                              if q <= m + 1e-9)])
            if sum(q <= m + 1e-9 for q in d) > 1:
                e[-1] = np.nan          # equally near: not compared
        e = np.array(e)
    if case['normalize']:
        e = e / .99
    ok = np.isnan(e) | (np.abs(a - e) < 1e-9)
    require(ok.all(), f'interp {case["method"]}: {a} expected {e}')


@sub(lambda: fixed(what=st.sampled_from(
    ['orientation', 'king', 'pytz', 'albedos', 'unknown']),
    tilt=flt(0, 90), dhi=flt(0, 500), ghi=flt(0, 1000), zen=flt(0, 90),
    lat=flt(-60, 60), strategy=st.sampled_from(
        ['flat', 'south_at_latitude_tilt']),
    tz=st.sampled_from(['UTC', 'America/Denver', 'Asia/Kolkata'])),
     quick=150, thorough=2000)
def other_names(case, ctx):
    """king, get_orientation, Location.pytz, irradiance.SURFACE_ALBEDOS"""
    w = case['what']
    ctx.label(w)
    with Recorder() as rec:
        if w == 'orientation':
            kw = {} if case['strategy'] == 'flat' else \
                {'latitude': case['lat']}
            t, a = modelchain.get_orientation(case['strategy'], **kw)
            e = (0, 180) if case['strategy'] == 'flat' else \
                (case['lat'], 180)
            require((t, a) == e, f'orientation {(t, a)} expected {e}')
        elif w == 'king':
            v = irradiance.king(case['tilt'], case['dhi'], case['ghi'],
                                case['zen'])
            c = np.cos(np.radians(case['tilt']))
            e = max(case['dhi'] * (1 + c) / 2 + case['ghi'] *
                    (.012 * case['zen'] - .04) * (1 - c) / 2, 0)
            require(abs(v - e) <= 1e-9 * max(1, abs(e)), f'king {v} {e}')
        elif w == 'pytz':
            loc = location.Location(10, 20, tz=case['tz'])
            no_deprecation(rec, 'Location')
            zone = str(loc.pytz)
            require(zone == case['tz'], f'pytz {zone}')
        elif w == 'albedos':
            s = irradiance.SURFACE_ALBEDOS
            require(s is pvlib.albedo.SURFACE_ALBEDOS, 'albedo table')
        else:
            for mod in (irradiance, bifacial, iotools):
                try:
                    mod.no_such_name
                except AttributeError:
                    continue
                raise Fail(f'{mod.__name__}.no_such_name exists')
            no_deprecation(rec, 'unknown attribute')
            return ctx.trivial()
    words = {'orientation': ['get_orientation'],
             'king': ['pvlib.irradiance.king', 'pvlib.irradiance'],
             'pytz': ['pytz', 'tz'],
             'albedos': ['SURFACE_ALBEDOS', 'pvlib.albedo.SURFACE_ALBEDOS'],
             }[w]
    one_deprecation(rec, words, w)


EPW_HEAD = """LOCATION,TOWN,ST,USA,TMY3,724666,{lat:.2f},{lon:.2f},-7.0,1000.0
DESIGN CONDITIONS,0
TYPICAL/EXTREME PERIODS,0
GROUND TEMPERATURES,0
HOLIDAYS/DAYLIGHT SAVINGS,No,0,0,0
COMMENTS 1,x
COMMENTS 2,y
DATA PERIODS,1,1,Data,Sunday, 1/ 1,12/31
"""


@sub(lambda: fixed(lat=flt(-60, 60), lon=flt(-170, 170),
                   hours=st.integers(1, 12),
                   year=st.sampled_from([1995, 2004]),
                   coerce=st.sampled_from([None, 2020]),
                   temps=st.lists(flt(-20, 40), min_size=12, max_size=12),
                   keyword=st.booleans()), quick=60, thorough=1000)
def parse_epw_name(case, ctx):
    """iotools.parse_epw is read_epw"""
    text = EPW_HEAD.format(**case)
    for h in range(case['hours']):
        row = [case['year'], 1, 3, h + 1, 60, 'A' * 10,
               round(case['temps'][h], 1)] + [1] * 28
        text += ','.join(map(str, row)) + '\n'
    with Recorder() as rec:
        a = iotools.read_epw(io.StringIO(text), case['coerce'])
    no_deprecation(rec, 'read_epw')
    with Recorder() as rec:
        if case['keyword']:
            b = iotools.parse_epw(io.StringIO(text),
                                  coerce_year=case['coerce'])
        else:
            b = iotools.parse_epw(io.StringIO(text), case['coerce'])
    one_deprecation(rec, ['parse_epw', 'read_epw'], 'parse_epw')
    same_result(a, b, 'parse_epw')
    require(len(a[0]) == case['hours'], 'rows')


def stand_in(name, alternative):
    """The wrapped function of a deprecated alias is its replacement."""
    old, new = getattr(iotools, name), getattr(iotools, alternative)
    require(inspect.signature(old) == inspect.signature(new),
            f'{name}: signature {inspect.signature(old)}')
    e = outcome(new, ('/nonexistent/dir/file.txt',), {})
    with Recorder() as rec:
        a = outcome(old, ('/nonexistent/dir/file.txt',), {})
    require(a == e and e[0] == 'error', f'{name}: {a}, {alternative}: {e}')
    one_deprecation(rec, [name, alternative], name)


CAMS = """# Coding: utf-8
# Latitude (positive North, ISO 19115): {lat:.4f}
# Longitude (positive East, ISO 19115): {lon:.4f}
# Altitude (m): 100.00
# Summarization (integration) period: 0 year 0 month 0 day 0 h 15 min 0 s
# noValue: nan
# Observation period;TOA;Clear sky GHI;Clear sky BHI;Clear sky DHI;Clear sky BNI
"""


@sub(lambda: fixed(which=st.sampled_from(['cams', 'bsrn', 'missing']),
                   lat=flt(-60, 60), lon=flt(-170, 170),
                   vals=vec(0, 300), integrated=st.booleans(),
                   map_variables=st.booleans(),
                   label=st.sampled_from([None, 'left', 'right'])),
     quick=80, thorough=1000)
def parse_other_names(case, ctx):
    """iotools.parse_cams, parse_bsrn"""
    if case['which'] == 'cams':
        text = CAMS.format(**case)
        for i, v in enumerate(case['vals']):
            a = pd.Timestamp('2020-06-01') + pd.Timedelta(minutes=15 * i)
            b = a + pd.Timedelta(minutes=15)
            text += (f'{a:%Y-%m-%dT%H:%M:%S}.0/{b:%Y-%m-%dT%H:%M:%S}.0;'
                     + ';'.join(f'{v + k:.4f}' for k in range(5)) + '\n')
        kw = dict(integrated=case['integrated'], label=case['label'],
                  map_variables=case['map_variables'])
        with Recorder() as rec:
            a = iotools.read_cams(io.StringIO(text), **kw)
        no_deprecation(rec, 'read_cams')
        with Recorder() as rec:
            b = iotools.parse_cams(io.StringIO(text), **kw)
        one_deprecation(rec, ['parse_cams', 'read_cams'], 'parse_cams')
        same_result(a, b, 'parse_cams')
        require(len(a[0]) == 4, 'rows')
    elif case['which'] == 'bsrn':
        stand_in('parse_bsrn', 'read_bsrn')
    else:
        stand_in('parse_epw', 'read_epw')
        stand_in('parse_cams', 'read_cams')
    ctx.label(case['which'])


# ------------------------------------------------------ calls that must not warn
@sub(lambda: fixed(zen=vec(0, 89), az=vec(0, 360), ghi=vec(0, 900),
                   tilt=flt(0, 60), saz=flt(0, 360), tracker=st.booleans(),
                   model=st.sampled_from(['isotropic', 'klucher',
                                          'haydavies', 'reindl', 'perez',
                                          'perez-driesse'])),
     quick=60, thorough=1000)
def quiet_calls(case, ctx):
    """current interfaces do not pass through deprecated ones"""
    idx = pd.date_range('2021-06-01 08:00', periods=4, freq='2h',
                        tz='Etc/GMT+7')
    ghi = pd.Series(case['ghi'], idx)
    dhi, dni = ghi * .3, ghi * .6
    zen, az = pd.Series(case['zen'], idx), pd.Series(case['az'], idx)
    with np.errstate(all='ignore'), Recorder() as rec:
        irradiance.get_total_irradiance(
            case['tilt'], case['saz'], zen, az, dni, ghi, dhi,
            dni_extra=1366., airmass=1.5, model=case['model'])
        bifacial.infinite_sheds.get_irradiance(
            case['tilt'], case['saz'], zen, az, .4, 1.5, 4., ghi, dhi, dni,
            .2, model='haydavies', dni_extra=1366.)
        bifacial.ants2d.get_irradiance(
            case['tilt'], case['saz'], zen, az, .4, 1.5, 4., ghi, dhi, dni,
            .2, model='perez', dni_extra=pd.Series(1366., idx),
            airmass=pd.Series(1.5, idx))
        mount = (pvlib.pvsystem.SingleAxisTrackerMount(0, case['saz'])
                 if case['tracker'] else
                 pvlib.pvsystem.FixedMount(case['tilt'], case['saz']))
        sys = pvlib.pvsystem.PVSystem(
            [pvlib.pvsystem.Array(
                mount, module_parameters=dict(pdc0=100, gamma_pdc=-.003),
                temperature_model_parameters=dict(a=-3.5, b=-.06,
                                                  deltaT=3))],
            inverter_parameters=dict(pdc0=90))
        loc = location.Location(40, -105, tz='Etc/GMT+7')
        mc = modelchain.ModelChain(sys, loc, aoi_model='physical',
                                   spectral_model='no_loss',
                                   transposition_model=case['model'])
        mc.run_model(pd.DataFrame({'ghi': ghi, 'dni': dni, 'dhi': dhi}))
        loc.get_clearsky(idx, model='haurwitz')
    no_deprecation(rec, 'a call of a current interface')
