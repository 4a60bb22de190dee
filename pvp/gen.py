"""Strategies. Everything drawn is JSON-able."""
import math

from hypothesis import strategies as st


def flt(lo, hi, special=(), grid=10**6):
    """A float in [lo, hi]: special values, a uniform grid, a grid skewed to
    lo, and Hypothesis's own float distribution (which likes end points and
    round numbers)."""
    lo, hi = float(lo), float(hi)
    sp = sorted({float(s) for s in special} | {lo, hi}, key=abs)
    span = hi - lo
    # magnitudes far below any physical resolution only test overflow
    tiny = 1e-7 * max(abs(lo), abs(hi))
    even = uni(lo, hi) if grid == 10**6 else _even(grid).map(
        lambda k: lo + span * (k / grid))
    skew = st.integers(0, grid).map(lambda k: lo + span * (k / grid))
    parts = [even, even, skew, st.sampled_from(sp),
             st.floats(lo, hi, allow_nan=False, allow_subnormal=False).map(
                 lambda x: 0. if abs(x) < tiny and lo <= 0 <= hi else x)]
    if len(sp) > 2:
        parts.append(st.sampled_from(sp))
    return st.one_of(*parts)


def _even(n):
    """uniform integers in [0, n]; Hypothesis's own are log-uniform for more
    than 128 values, so two or more short ones are combined"""
    if n <= 127:
        return st.integers(0, n)
    k = 2
    while 128 ** k <= 64 * n:
        k += 1
    top = 128 ** k

    def value(digits):
        v = 0
        for d in digits:
            v = 128 * v + d
        return v * (n + 1) // top
    return st.tuples(*[st.integers(0, 127)] * k).map(value)


def ints(lo, hi):
    """integers, mostly uniform"""
    if hi - lo <= 127:
        return st.integers(lo, hi)
    e = _even(hi - lo).map(lambda k: lo + k)
    return st.one_of(e, e, e, st.integers(lo, hi))


def uni(lo, hi):
    """Uniform float, no special values."""
    span = hi - lo
    return st.tuples(st.integers(0, 127), st.integers(0, 127)).map(
        lambda t: lo + span * ((128 * t[0] + t[1]) / 16383))


def logflt(lo, hi):
    """Log-uniform positive float."""
    a, b = math.log(lo), math.log(hi)
    return uni(a, b).map(lambda x: min(max(math.exp(x), lo), hi))


def fixed(**kw):
    return st.fixed_dictionaries(kw)


def opt(s):
    """None (= leave the argument out) or a value."""
    return st.one_of(st.none(), s)


ZONES = ['UTC', 'America/New_York', 'America/Denver', 'Asia/Kolkata',
         'Australia/Sydney', 'Europe/Berlin', 'Pacific/Auckland',
         'America/St_Johns', 'Etc/GMT+8', 'Asia/Tokyo', 'Africa/Nairobi',
         'Pacific/Honolulu', 'America/Sao_Paulo', 'Asia/Kathmandu']
zone = st.sampled_from(ZONES)

# instants, as integer epoch seconds
EPOCH_1950 = -631152000
EPOCH_2050 = 2524608000


def epoch(lo=EPOCH_1950, hi=EPOCH_2050):
    """Epoch seconds: uniform, plus year ends, leap days and midnights."""
    import calendar
    import datetime as dt

    def sec(y, m, d, h=0, mi=0, s=0):
        return calendar.timegm(dt.datetime(y, m, d, h, mi, s).timetuple())
    sp = []
    for y in (1970, 1999, 2000, 2012, 2016, 2019, 2020, 2023, 2024):
        sp += [sec(y, 1, 1), sec(y, 12, 31, 23, 59, 59), sec(y, 3, 1),
               sec(y, 2, 28, 12), sec(y, 6, 21, 12), sec(y, 12, 21, 12),
               sec(y, 3, 20, 6), sec(y, 9, 22, 18)]
    sp += [sec(2020, 2, 29, 12), sec(2000, 2, 29), sec(2024, 12, 31)]
    sp = [s for s in sp if lo <= s <= hi]
    parts = [ints(lo, hi), ints(lo, hi),
             ints(lo // 86400 + 1, hi // 86400).map(
                 lambda d: d * 86400)]
    if sp:
        parts.append(st.sampled_from(sp))
    return st.one_of(*parts)


def series_index(n, start='2021-03-01 00:30', freq='h', tz='Etc/GMT+7'):
    import pandas as pd
    idx = pd.date_range(start, periods=n, freq=freq, tz=tz)
    return idx[::-1] if n % 2 == 0 else idx
