"""Elementwise differential testing of a function against a scalar model.

``Elem`` draws, for each parameter, a list of element values, decides which
parameters are passed as vectors, in which container (python scalar, ndarray,
pandas Series), calls the function, and compares every output element with a
model evaluated on that element's scalars alone.  This decides at once: the
formula, its vectorisation, container preservation, index alignment,
broadcasting of scalars, NaN handling and that no argument is modified.
"""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from . import core
from .cmp import Fail, arr, close, snapshot, unchanged, same_index
from .gen import fixed

NAN = float('nan')


class P:
    """A parameter that may be scalar or vector."""
    def __init__(self, strat, nan=False, integer=False):
        self.strat, self.nan, self.integer = strat, nan, integer


class S:
    """A parameter passed as drawn (model names, coefficients). None means
    'leave it out' unless keep_none."""
    def __init__(self, strat, keep_none=False):
        self.strat, self.keep_none = strat, keep_none


def _names(res):
    if isinstance(res, pd.DataFrame):
        return {c: res[c] for c in res.columns}
    if isinstance(res, dict):
        return dict(res)
    if isinstance(res, tuple):
        return {str(i): r for i, r in enumerate(res)}
    return {'': res}


def elem(module, name, fn, params, ref, modes=('scalar', 'array', 'series'),
         rtol=1e-9, atol=1e-9, skip=None, quick=150, thorough=None,
         types=None, nontrivial=None, label=None, positional=(), doc='',
         maxn=6, extra_ok=False, post=None, allowed_exc=None, call=None,
         all_vec=False, shards=1, tz='Etc/GMT+7', always=()):
    """Register an elementwise differential sub-check.

    ref(**scalars) -> float | dict | tuple.
    skip(**scalars) -> True when the element sits on a discontinuity where
        rounding may pick either side (still called, not compared).
    always: parameters that are vectors whenever anything is.
    types: {'array': type or None, 'series': ...} overrides; None = any.
    """
    pv = {k: v for k, v in params.items() if isinstance(v, P)}
    ps = {k: v for k, v in params.items() if isinstance(v, S)}
    types = dict(types or {})

    def strategy():
        @st.composite
        def build(draw):
            mode = draw(st.sampled_from(list(modes)))
            n = 1 if mode == 'scalar' else draw(
                st.sampled_from([1] + [k for k in (2, 3, 4, 6, 8, 12)
                                       if k <= maxn]))
            case = {'mode': mode, 'n': n}
            if mode == 'scalar' or all_vec:
                vec = list(pv)
            else:
                vec = [k for k in pv if draw(st.integers(0, 3)) > 0]
                if not vec:
                    vec = [draw(st.sampled_from(list(pv)))]
                vec = [k for k in pv if k in vec or k in always]
            if mode == 'scalar' and not all_vec:
                vec = []
            case['vec'] = vec
            vals = {}
            for k, p in pv.items():
                m = n if k in vec else 1
                vals[k] = draw(st.lists(p.strat, min_size=m, max_size=m))
            # NaN in at most one parameter
            nanp = [k for k, p in pv.items() if p.nan]
            if nanp and draw(st.integers(0, 7)) == 0:
                k = draw(st.sampled_from(nanp))
                i = draw(st.integers(0, len(vals[k]) - 1))
                vals[k][i] = NAN
            case['vals'] = vals
            if ps:
                case['static'] = {k: draw(p.strat) for k, p in ps.items()}
            return case
        return build()

    def run(case, ctx):
        mode, n = case['mode'], case['n']
        vals, vec = case['vals'], case['vec']
        idx = pd.date_range('2021-03-01 00:30', periods=n, freq='h', tz=tz)
        if n % 2 == 0 and call is None:
            # the order of the samples means nothing
            idx = idx[::-1]
        kw = {}
        for k, p in pv.items():
            dtype = int if p.integer else float
            if k in vec:
                if mode == 'scalar':
                    kw[k] = dtype(vals[k][0])
                elif mode == 'array':
                    kw[k] = np.array(vals[k], dtype=dtype)
                elif mode == 'array2d':
                    kw[k] = np.array(vals[k], dtype=dtype).reshape(1, n)
                else:
                    kw[k] = pd.Series(np.array(vals[k], dtype=dtype),
                                      index=idx)
            else:
                kw[k] = dtype(vals[k][0])
        static = {k: v for k, v in case.get('static', {}).items()
                  if v is not None or ps[k].keep_none}
        kw.update(static)
        before = {k: snapshot(v) for k, v in kw.items()}
        args = [kw.pop(k) for k in positional if k in kw]
        if call is not None:
            res = call(idx, *args, **kw)
        elif allowed_exc is not None:
            try:
                res = fn(*args, **kw)
            except allowed_exc:
                ctx.label('rejected')
                ctx.trivial()
                return
        else:
            res = fn(*args, **kw)
        for k, a in list(zip(positional, args)) + list(kw.items()):
            unchanged(before[k], a, f'argument {k}')
        if post is not None:
            res = post(res)
        out = _names(res)
        # expected, element by element
        exp, skipped = {}, []
        for i in range(n):
            sc = {k: float(vals[k][i] if k in vec else vals[k][0])
                  for k in pv}
            full = {**sc, **case.get('static', {})}
            with np.errstate(all='ignore'):
                try:
                    e = ref(**full)
                    skipped.append(bool(skip(**full)) if skip else False)
                except Exception as ex:
                    raise core.OracleError(
                        f'{name} {full}: {ex!r}') from ex
            e = _names(e)
            for k, v in e.items():
                exp.setdefault(k, []).append(float(v))
        if not extra_ok and set(exp) != set(out):
            raise Fail(f'outputs {sorted(out)} expected {sorted(exp)}')
        for k, e in exp.items():
            if k not in out:
                raise Fail(f'output {k!r} missing from {sorted(out)}')
            o = out[k]
            want = types.get(mode, 'same')
            if len(vec) < len(pv) and np.ndim(o) == 0:
                # only parameters this output does not depend on were
                # vectors: a scalar result is legitimate
                want = None
            if want == 'same':
                if mode == 'scalar':
                    if np.ndim(o) != 0:
                        raise Fail(f'scalar in, {type(o).__name__} of shape '
                                   f'{np.shape(o)} out ({k})')
                elif mode in ('array', 'array2d'):
                    if not isinstance(o, np.ndarray):
                        raise Fail(f'ndarray in, {type(o).__name__} out '
                                   f'({k})')
                else:
                    same_index(o, idx, f'output {k}')
            a = arr(o)
            ee = np.array(e)
            if mode == 'array2d' and a.ndim == 2:
                if a.shape != (1, n):
                    raise Fail(f'output {k}: shape {a.shape}, expected '
                               f'{(1, n)}')
                a = a.reshape(n)
            if a.ndim == 0:
                if n > 1 and mode != 'scalar':
                    # a constant result is fine only if all inputs it can
                    # depend on were scalar
                    a = np.broadcast_to(a, (n,))
                else:
                    a = a.reshape(1)
            info = {kk: (vv if kk in vec else vv[0])
                    for kk, vv in vals.items()}
            close(a, ee, rtol, atol, what=f'{name}{"." + k if k else ""}',
                  ok=skipped, info={**info, **case.get('static', {})})
        ctx.label(mode)
        if any(skipped):
            ctx.label('has-skipped-element')
        if any(math.isnan(x) for v in vals.values() for x in v):
            ctx.label('has-nan')
        if label is not None:
            for i in range(n):
                sc = {k: float(vals[k][i] if k in vec else vals[k][0])
                      for k in pv}
                lab = label(**{**sc, **case.get('static', {})})
                if lab:
                    ctx.label(lab)
        flat = [x for v in exp.values() for x in v]
        if nontrivial is None:
            good = any(math.isfinite(x) and x != 0 for x in flat)
        else:
            good = nontrivial(exp)
        if not good or all(skipped):
            ctx.trivial()

    core.add(module, name, run, strategy, doc=doc, quick=quick,
             thorough=thorough, shards=shards)


def npmax(*a):
    """maximum that propagates NaN, like np.maximum"""
    r = a[0]
    for x in a[1:]:
        r = float(np.maximum(r, x))
    return r


def npmin(*a):
    r = a[0]
    for x in a[1:]:
        r = float(np.minimum(r, x))
    return r


def div(a, b):
    """IEEE division"""
    with np.errstate(all='ignore'):
        return float(np.float64(a) / np.float64(b))
