"""C41: loss factors, wiring and transformer."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pvlib import pvsystem, transformer
from ..core import sub
from ..cmp import close, require, same_index, snapshot, unchanged
from ..elem import elem, P, S
from ..gen import ints, flt, fixed, opt

RULE = """Losses of 0 to 100 % in any mixture of scalars, arrays and Series
with defaults left out at random; loss Series of different sampling, start
and length combined on another index with every fill method; currents and
powers of either sign.  Non-trivial: a finite nonzero output, or for combined
losses an index that differs from those of the losses."""

M3 = ('scalar', 'array', 'series')
NAMES = dict(soiling=2, shading=3, snow=0, mismatch=2, wiring=2,
             connections=.5, lid=1.5, nameplate_rating=1, age=0,
             availability=3)


def prod_ref(**k):
    f = 1.
    for v in k.values():
        f *= 1 - v / 100
    return (1 - f) * 100


elem(__name__, 'pvwatts_losses', pvsystem.pvwatts_losses,
     {k: P(flt(0, 100, (v, 0, 100)), nan=True) for k, v in NAMES.items()},
     prod_ref, modes=M3, quick=300,
     doc='one minus the product of the remaining fractions')


@sub(lambda: fixed(vals=st.dictionaries(st.sampled_from(sorted(NAMES)),
                                        flt(0, 100), max_size=6)), quick=100)
def pvwatts_defaults(case, ctx):
    """losses left out have their documented values; order does not matter"""
    out = pvsystem.pvwatts_losses(**case['vals'])
    close(out, prod_ref(**{**NAMES, **case['vals']}), 1e-11, 1e-11, 'losses')
    if not case['vals']:
        ctx.trivial()


elem(__name__, 'dc_ohms_from_percent', pvsystem.dc_ohms_from_percent,
     dict(vmp_ref=P(flt(5, 100)), imp_ref=P(flt(.5, 15)),
          dc_ohmic_percent=P(flt(0, 20, (0, 1.5)), nan=True),
          modules_per_string=S(opt(st.integers(1, 30))),
          strings=S(opt(ints(1, 200)))),
     lambda vmp_ref, imp_ref, dc_ohmic_percent, modules_per_string, strings:
     dc_ohmic_percent / 100 * vmp_ref * (modules_per_string or 1) / imp_ref
     / (strings or 1), modes=M3, quick=200,
     doc='percent of reference voltage over reference current')
elem(__name__, 'dc_ohmic_losses', pvsystem.dc_ohmic_losses,
     dict(resistance=P(flt(0, 5, (0,))), current=P(flt(-50, 50, (0,)),
                                                   nan=True)),
     lambda resistance, current: resistance * current**2, modes=M3,
     quick=150, doc='resistance times current squared')


@sub(lambda: fixed(v=flt(5, 100), i=flt(.5, 15), pc=flt(.01, 20),
                   m=st.integers(1, 30), s=ints(1, 200)), quick=150)
def wiring_round_trip(case, ctx):
    """the equivalent resistance loses exactly the given percentage of the
    array power at reference conditions"""
    r = pvsystem.dc_ohms_from_percent(case['v'], case['i'], case['pc'],
                                      case['m'], case['s'])
    i = case['i'] * case['s']
    p = case['v'] * case['m'] * i
    close(pvsystem.dc_ohmic_losses(r, i) / p * 100, case['pc'], 1e-11, 0,
          'loss at reference')


# --------------------------------------------------------- combine losses
@st.composite
def losses_case(draw):
    n = draw(st.integers(1, 12))
    k = draw(st.integers(1, 4))
    tz = draw(st.sampled_from([None, 'UTC', 'America/Denver']))
    ls = []
    for _ in range(k):
        m = draw(st.integers(1, 10))
        ls.append(dict(start=draw(st.integers(-6, 8)),
                       step=draw(st.sampled_from([1, 2, 3, 5])),
                       v=draw(st.lists(flt(0, 1, (0, 1)), min_size=m,
                                       max_size=m))))
    return dict(n=n, step=draw(st.sampled_from([1, 2, 4])), tz=tz, losses=ls,
                fill=draw(st.sampled_from([None, 'ffill', 'bfill',
                                           'nearest'])))


@sub(losses_case, quick=300)
def combine(case, ctx):
    """losses compound on the target index, each filled from its own samples
    by the chosen method; times before (after) the first (last) sample are
    missing for forward (backward) filling"""
    q = pd.Timedelta('30min')
    t0 = pd.Timestamp('2021-03-01', tz=case['tz'])
    off = [k * case['step'] for k in range(case['n'])]
    idx = pd.DatetimeIndex([t0 + k * q for k in off])
    ser, tab = [], []
    for s in case['losses']:
        o = [s['start'] + s['step'] * k for k in range(len(s['v']))]
        tab.append(list(zip(o, s['v'])))
        ser.append(pd.Series(s['v'], index=[t0 + k * q for k in o]))
    kw = {} if case['fill'] is None else dict(fill_method=case['fill'])
    before = snapshot((idx, ser))
    out = pvsystem.combine_loss_factors(idx, *ser, **kw)
    unchanged(before, (idx, ser), 'inputs')
    same_index(out, idx, 'combined')
    exp, skip = [], []
    for t in off:
        f, amb = 1., False
        for s in tab:
            fill = case['fill'] or 'ffill'
            if fill == 'nearest':
                d = min(abs(o - t) for o, _ in s)
                c = [v for o, v in s if abs(o - t) == d]
                amb |= len(set(c)) > 1
                v = c[-1]
            else:
                c = [v for o, v in s if (o <= t if fill == 'ffill'
                                         else o >= t)]
                v = math.nan if not c else (c[-1] if fill == 'ffill'
                                            else c[0])
            f *= 1 - v
        exp.append(1 - f)
        skip.append(amb)
    close(out.values, exp, 1e-11, 1e-12, 'combined', ok=skip, info=case)
    if all([o for o, _ in s] == off for s in tab):
        ctx.trivial()
    ctx.label(case['fill'] or 'default', f'{len(tab)}-losses')


# ------------------------------------------------------------ transformer
def tr_ref(input_power, no_load_loss, load_loss, transformer_rating):
    x = input_power / transformer_rating - no_load_loss
    # L y^2 + y = x, the root that tends to x for small L
    return transformer_rating * 2 * x / (
        1 + math.sqrt(1 + 4 * load_loss * x))


elem(__name__, 'transformer', transformer.simple_efficiency,
     dict(input_power=P(flt(-2e4, 1.5e6, (0,)), nan=True),
          no_load_loss=P(flt(0, .05, (0, .002))),
          load_loss=P(flt(0, .2, (0, .007))),
          transformer_rating=P(flt(1e5, 1e6))),
     tr_ref, modes=M3, quick=300, rtol=1e-10, atol=1e-7,
     doc='positive root of the loss balance')


@sub(lambda: fixed(p=flt(-2e4, 1.5e6, (0,)), nl=flt(0, .05, (0,)),
                   ll=flt(0, .2, (0,)), r=flt(1e5, 1e6), d=flt(1, 1e5)),
     quick=200)
def transformer_balance(case, ctx):
    """input equals output plus no-load and load losses; more input gives
    more output; nothing in costs at least the no-load loss"""
    p, nl, ll, r = (case[k] for k in ('p', 'nl', 'll', 'r'))
    o = transformer.simple_efficiency(p, nl, ll, r)
    close(o + nl * r + ll * o**2 / r, p, 1e-9, 1e-6 * r, 'energy balance')
    require(transformer.simple_efficiency(p + case['d'], nl, ll, r) > o,
            'output falls with more input')
    z = transformer.simple_efficiency(0., nl, ll, r)
    require(z <= -nl * r * (1 - 1e-12), f'{z} at night')
    if nl == 0 and ll == 0:
        ctx.trivial()


KEYS = ['v_mp', 'v_oc', 'i_mp', 'i_x', 'i_xx', 'i_sc', 'p_mp']


@sub(lambda: fixed(keys=st.lists(st.sampled_from(KEYS), min_size=1,
                                 max_size=7, unique=True),
                   n=st.integers(1, 5), v=st.one_of(
                       st.integers(1, 30), st.sampled_from([.5, .25, 1.5])),
                   c=st.one_of(st.integers(1, 40), st.sampled_from(
                       [.5, .25, 1.5])), x=flt(.1, 100)), quick=100)
def scale_power(case, ctx):
    """voltages scale with voltage, currents with current, power with both;
    columns stay in their order; the input is not modified"""
    df = pd.DataFrame({k: case['x'] * (1 + j) * (1 + np.arange(case['n']))
                       for j, k in enumerate(case['keys'])})
    before = snapshot(df)
    out = pvsystem.scale_voltage_current_power(df, voltage=case['v'],
                                               current=case['c'])
    unchanged(before, df, 'data')
    require(list(out.columns) == case['keys'], 'columns changed')
    f = {'v': case['v'], 'i': case['c'], 'p': case['v'] * case['c']}
    for k in case['keys']:
        close(out[k], df[k] * f[k[0]], 1e-12, 0, k)
    close(pvsystem.scale_voltage_current_power(df), df, 0, 0, 'default')
    if case['v'] == case['c'] == 1:
        ctx.trivial()
