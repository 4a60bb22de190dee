"""C23 bifacial mismatch loss."""
import numpy as np
from hypothesis import strategies as st
from pvlib.bifacial import power_mismatch_deline

from ..cmp import close, require
from ..core import sub
from ..elem import P, S, elem
from ..gen import fixed, flt, opt

RULE = ('Random mismatch values, fill factors and polynomials given as '
        'tuples, lists, arrays or Polynomial objects; non-trivial = a '
        'non-zero loss.')

CO = st.one_of(st.none(), st.just([0, .054, .068 * 100]),
               st.lists(flt(-2, 5), min_size=1, max_size=5))

# domain and window of a Polynomial: x -> -1 + 3 x / 2
MAP = ([0, 2], [-1, 2])


def call(idx, rmad, coefficients=None, form='list', **kw):
    if coefficients is not None:
        c = coefficients
        if form == 'poly':
            c = np.polynomial.Polynomial(c)
        elif form == 'mapped':
            c = np.polynomial.Polynomial(c, *MAP)
        elif form == 'tuple':
            c = tuple(c)
        elif form == 'array':
            c = np.array(c, float)
        kw['coefficients'] = c
    return power_mismatch_deline(rmad, **kw)


def ref(rmad, coefficients, form, fill_factor, fill_factor_reference):
    if np.isnan(rmad):
        return np.nan
    c = [0, .142, .032 * 100] if coefficients is None else coefficients
    if form == 'mapped' and coefficients is not None:
        rmad = -1 + 3 * rmad / 2
    v = sum(k * rmad**i for i, k in enumerate(c))
    if fill_factor is not None:
        v *= fill_factor / (fill_factor_reference or .79)
    return v


elem(__name__, 'mismatch', power_mismatch_deline,
     dict(rmad=P(flt(0, .5), nan=True), coefficients=S(CO),
          form=S(st.sampled_from(['list', 'tuple', 'array', 'poly',
                                    'mapped'])),
          fill_factor=S(opt(flt(.5, .9))),
          fill_factor_reference=S(opt(flt(.5, .9)))),
     ref, call=call, quick=600, rtol=1e-9, atol=1e-12,
     doc='the polynomial of the mismatch, scaled by the fill factor ratio')


@sub(lambda: fixed(g=st.lists(flt(50, 1000), min_size=2, max_size=12),
                   k=flt(.1, 3)), quick=100)
def paper_percent_form(case, ctx):
    """the default equals the paper's equation in percent, and does not
    depend on a common irradiance scale"""
    g = np.array(case['g'])

    def rmad(v):
        return np.abs(v[:, None] - v[None, :]).sum() / (len(v)**2 * v.mean())
    d = rmad(g)
    pc = 100 * d
    close(100 * power_mismatch_deline(d), .142 * pc + .032 * pc**2, 1e-9,
          1e-9, 'percent')
    close(power_mismatch_deline(rmad(g * case['k'])),
          power_mismatch_deline(d), 1e-6, 1e-9, 'scale')
    require(power_mismatch_deline(0.) == 0, 'uniform irradiance')
    if d == 0:
        ctx.trivial()
