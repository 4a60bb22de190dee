"""Comparisons that raise Fail with a readable message."""
import numpy as np
import pandas as pd

from .core import Fail


def arr(x):
    """float ndarray view of any numeric result."""
    if isinstance(x, (pd.Series, pd.DataFrame, pd.Index)):
        x = x.to_numpy()
    return np.asarray(x, dtype=float)


def close(actual, expected, rtol=1e-9, atol=1e-9, what='value', ok=None,
          equal_nan=True, info=None):
    """actual == expected elementwise within tolerance; NaN matches NaN."""
    a, e = arr(actual), arr(expected)
    if a.shape != e.shape:
        if e.ndim == 0:
            e = np.broadcast_to(e, a.shape)
        elif a.size == e.size == 1:
            a = a.reshape(e.shape)
        else:
            raise Fail(f'{what}: shape {a.shape}, expected {e.shape}')
    with np.errstate(all='ignore'):
        good = np.abs(a - e) <= atol + rtol * np.abs(e)
    good |= (a == e)
    if equal_nan:
        good |= np.isnan(a) & np.isnan(e)
    if ok is not None:
        good |= np.broadcast_to(np.asarray(ok, bool), good.shape)
    if not good.all():
        i = np.argmin(good.ravel())
        raise Fail(f'{what}: got {a.ravel()[i]!r}, expected '
                   f'{e.ravel()[i]!r} (element {i} of {a.size})'
                   + (f'; {info}' if info is not None else ''))


def within(x, lo, hi, tol=0., what='value', allow_nan=False):
    a = arr(x)
    lo, hi = arr(lo), arr(hi)
    with np.errstate(invalid='ignore'):
        good = (a >= lo - tol) & (a <= hi + tol)
    if allow_nan:
        good |= np.isnan(a)
    if not np.all(good):
        i = int(np.argmin(np.ravel(good)))
        v = np.ravel(np.broadcast_to(a, good.shape))[i]
        raise Fail(f'{what}: {v!r} (element {i}) outside '
                   f'[{np.ravel(np.broadcast_to(lo, good.shape))[i]!r}, '
                   f'{np.ravel(np.broadcast_to(hi, good.shape))[i]!r}]')


def require(cond, msg):
    if not bool(cond):
        raise Fail(msg)


def raises(exc, fn, *a, what='call', **k):
    try:
        r = fn(*a, **k)
    except exc:
        return
    except Exception as e:
        raise Fail(f'{what}: raised {type(e).__name__} ({e}), expected '
                   f'{exc}')
    raise Fail(f'{what}: returned {type(r).__name__}, expected {exc}')


def same_index(obj, index, what='result'):
    if not isinstance(obj, (pd.Series, pd.DataFrame)):
        raise Fail(f'{what}: {type(obj).__name__}, expected a pandas object')
    if not obj.index.equals(index) or \
            getattr(obj.index, 'tz', None) != getattr(index, 'tz', None):
        raise Fail(f'{what}: index differs from the input index')


def snapshot(x):
    """deep copy for mutation checks"""
    if isinstance(x, (pd.Series, pd.DataFrame)):
        return x.copy(deep=True)
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(snapshot(v) for v in x)
    return x


def unchanged(before, now, what='argument'):
    if isinstance(before, pd.Series):
        ok = isinstance(now, pd.Series) and before.equals(now) and \
            before.index.equals(now.index) and before.name == now.name
    elif isinstance(before, pd.DataFrame):
        ok = isinstance(now, pd.DataFrame) and before.equals(now) and \
            list(before.columns) == list(now.columns) and \
            before.index.equals(now.index)
    elif isinstance(before, np.ndarray):
        ok = before.shape == now.shape and \
            np.array_equal(before, now, equal_nan=before.dtype.kind == 'f')
    elif isinstance(before, dict):
        ok = list(before) == list(now)
        if ok:
            for k in before:
                unchanged(before[k], now[k], f'{what}[{k!r}]')
    elif isinstance(before, (list, tuple)):
        ok = len(before) == len(now)
        if ok:
            for i, (b, n) in enumerate(zip(before, now)):
                unchanged(b, n, f'{what}[{i}]')
    else:
        return
    if not ok:
        raise Fail(f'{what} was modified by the call')
