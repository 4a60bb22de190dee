"""C53 PAN/OND files and SAM parameter tables."""
import csv
import functools
import io
import os
import pathlib
import warnings

import numpy as np
import pandas as pd
import pvlib
from hypothesis import strategies as st
from pvlib import iotools, pvsystem

from .. import iogen as ig
from ..cmp import raises, require
from ..core import sub
from ..gen import ints, fixed

RULE = ('Generated PAN/OND trees (up to five levels, typed values, lists, '
        'blank lines, encodings) and parameter tables (special characters, '
        'gaps, quoted names, coefficient lists) written and read back, and '
        'random devices of the bundled tables compared with their CSV row; '
        'non-trivial = a nested section or three or more devices.')
ASSUMPTIONS = ['lines without "=" may be omitted or kept without a value; '
               'a section key repeated inside its own level is allowed']

WORD = st.sampled_from([
    'Voc', 'Isc', 'muISC', 'Comment', 'Model', 'Flags', 'NCelS', 'Point_1',
    'Point_2', 'Point_10', 'Str_1', 'Rp_0', 'Name', 'PNomTolLow', 'Mode',
    'IAMProfile', 'PVObject_IAM', 'PVObject_Commercial', 'Converter',
    'ProfilPIO', 'Remarks, Count', 'Gamma', 'a b', 'ÉtaMax'])
TEXT = st.sampled_from([
    'ET SOLAR', 'mtSiMono', '$00900243', '06/04/22 12:39', 'CPS 275/US-800',
    '', 'Version 7.2.1', 'a.b', 'N°3 – "x"', 'Oui', 'www.site.com',
    'x=y', 'k = v = w', '?q=1&r=2', '-', 'E12', '1.2.3', 'nb: 4'])


def number():
    """(text, value) of a number as PVsyst writes it"""
    return st.one_of(
        ints(-10**6, 10**6).map(lambda k: (str(k), k)),
        st.tuples(ints(-10**7, 10**7), st.integers(1, 5)).map(
            lambda z: (f'{z[0] / 10**z[1]:.{z[1]}f}',
                       float(f'{z[0] / 10**z[1]:.{z[1]}f}'))),
        st.sampled_from([('0.0', 0.), ('-0.750', -.75), ('.5', .5), ('3.', 3.),
                         ('1.5E-10', 1.5e-10), ('+7', 7), ('007', 7)]))


ITEM = st.one_of(number(), st.sampled_from(
    ['pvIAM', 'a', '$0A', 'x y', '']).map(lambda s: (s, s)))
VALUE = st.one_of(
    number(), number(), TEXT.map(lambda s: (s, s)),
    st.tuples(st.lists(ITEM, min_size=2, max_size=4)).map(
        lambda z: (','.join(t for t, _ in z[0]), [v for _, v in z[0]])))


def level(depth):
    """a list of (key, (text, value), children or None)"""
    leaf = st.tuples(WORD, VALUE, st.none())
    one = leaf
    if depth:
        one = st.one_of(leaf, leaf, st.tuples(
            WORD, VALUE, st.deferred(lambda: level(depth - 1))))
    return st.lists(one, min_size=1, max_size=5, unique_by=lambda t: t[0])


def clean(tree, taken=()):
    """children may not reuse the key of the section they are in"""
    out = []
    for k, v, ch in tree:
        if k in taken:
            continue
        if ch is not None:
            ch = clean(ch, (k,)) or None
        out.append([k, v, ch])
    return out


def emit(tree, depth, gaps, pad, out):
    for k, (text, _), ch in tree:
        if next(gaps):
            out.append('')
        out.append('  ' * depth + k + '=' + ' ' * pad + text)
        if ch is not None:
            emit_ch(ch, depth + 1, gaps, pad, out)
            out.append('  ' * depth + 'End of ' + text[:10].replace('=', ''))


def emit_ch(ch, depth, gaps, pad, out):
    # no blank line between a section and its first entry
    first = [False]

    def g():
        for x in gaps:
            if not first[0]:
                first[0] = True
                yield False
            else:
                yield x
    emit(ch, depth, g(), pad, out)


def same(got, tree, where, own=None):
    require(isinstance(got, dict), f'{where}: {got!r} is not a section')
    left = dict(got)
    if own is not None and own[0] in left:
        k, (_, v) = own
        check(left.pop(k), v, f'{where}: own value')
    for k, (_, v), ch in tree:
        require(k in left, f'{where}: {k!r} is missing from {list(got)}')
        g = left.pop(k)
        if ch is None:
            check(g, v, f'{where}/{k}')
        else:
            same(g, ch, f'{where}/{k}', (k, (None, v)))
    require(all(v is None and k.startswith('End of')
                for k, v in left.items()), f'{where}: unexpected {left}')


def check(g, v, what):
    if isinstance(v, list):
        require(isinstance(g, list) and len(g) == len(v),
                f'{what}: {g!r}, written {v!r}')
        for a, b in zip(g, v):
            check(a, b, what)
        return
    require(type(g) is type(v) and g == v, f'{what}: {g!r} '
            f'({type(g).__name__}), written {v!r} ({type(v).__name__})')


@sub(lambda: fixed(
    root=st.sampled_from(['PVObject_', 'PVObject_x']),
    kind=st.sampled_from(['pvModule', 'pvGInverter']), tree=level(4),
    after=st.one_of(st.just([]), level(1)),
    gaps=st.lists(st.sampled_from([0, 0, 0, 1]), min_size=7, max_size=7),
    pad=st.sampled_from([0, 0, 1]), eol=st.sampled_from(['\n', '\r\n']),
    last=st.booleans(), enc=st.sampled_from(
        [None, 'utf-8-sig', 'utf-8', 'utf-16']),
    via=st.sampled_from(['str', 'path'])), quick=600)
def panond(case, ctx):
    c = case
    tree = [[c['root'], (c['kind'], c['kind']),
             clean(c['tree'], (c['root'],)) or None]]
    tree += [t for t in clean(c['after']) if t[0] != c['root']]

    def gaps():
        i = 0
        while True:
            yield c['gaps'][i % 7]
            i += 1
    out = []
    g = gaps()
    emit(tree, 0, g, c['pad'], out)
    if out[-1] != '' and not out[-1].startswith('End of'):
        out.append('End of PVObject ' + c['kind'])
    text = c['eol'].join(out) + (c['eol'] if c['last'] else '')
    kw = dict(encoding=c['enc']) if c['enc'] else {}
    with ig.given(text, c['via'], 'a b.PAN', c['enc'] or 'utf-8') as f:
        got = iotools.read_panond(f, **kw)
    if c['enc'] is None:
        got = {k.lstrip('\ufeff'): v for k, v in got.items()}
    same(got, tree, '')

    def depth(t):
        return 1 + max([depth(x[2]) for x in t if x[2]] or [0])
    d = depth(tree)
    if d < 3:
        ctx.trivial()
    ctx.label(f'depth {d}')


# --------------------------------------------------------------- SAM tables
BAD = ' -.()[]:+/",'


def norm(s):
    return ''.join('_' if ch in BAD else ch for ch in s)


def cell(got, text, what, nums=True):
    """a table cell holds its text, or the number it denotes"""
    if text is None:
        require(pd.isna(got), f'{what}: {got!r}, the cell is empty')
        return
    try:
        v = float(text)
    except ValueError:
        v = None
    if v is not None and isinstance(got, (int, float, np.number)):
        require(abs(got - v) <= 1e-15 * abs(v), f'{what}: {got!r}, written '
                f'{text}')
    else:
        require(got == text, f'{what}: {got!r}, written {text!r}')


NAME = st.lists(st.sampled_from(
    ['ABB', 'MICRO-0.25', 'I (208V)', '[208V]', 'A/B+C', 'x:y', 'Co., Ltd.',
     '"Q"', 'é', '&', '10', ' ']), min_size=1, max_size=4).map(
        lambda z: ' '.join(['Make'] + z))
PARAM = {'Vac': 'int', 'Pso': 'num', 'Pnt': 'num', 'C0': 'small', 'Vdc max': 'num',
         'CEC_Date': 'text', 'CEC Type': 'text', 'Cells in Series': 'int',
         'A c': 'num', 'Notes': 'text', 'BIPV': 'yn', 'Bifacial': 'int',
         'ADRCoefficients': 'list'}


@sub(lambda: fixed(
    names=st.lists(NAME, min_size=1, max_size=12),
    params=st.lists(st.sampled_from(list(PARAM)), min_size=1, max_size=9,
                    unique=True), seed=ints(0, 10**6),
    eol=st.sampled_from(['\n', '\r\n']), gap=st.sampled_from([0, .2]),
    via=st.sampled_from(['file', 'file', 'url'])), quick=250)
def sam_table(case, ctx):
    c = dict(case)
    if 'ADRCoefficients' in c['params']:      # never a table of text alone
        c['params'] = [p for p in c['params'] if p != 'Pnt'] + ['Pnt']
    r = np.random.RandomState(c['seed'])
    rows = []
    for n in c['names']:
        row = [n]
        for p in c['params']:
            k = PARAM[p]
            if k != 'list' and r.rand() < c['gap']:
                row.append(None)
            elif k == 'int':
                row.append(str(r.randint(-5, 500)))
            elif k == 'num':
                row.append(f'{r.uniform(-10, 900):.{r.randint(0, 7)}f}')
            elif k == 'small':
                row.append(f'{r.uniform(-1, 1) * 10.0**-r.randint(1, 9):.3e}')
            elif k == 'yn':
                row.append('YN'[r.randint(2)])
            elif k == 'text':
                row.append(['Utility Interactive', 'Source: "A", 9/25/2012',
                            'mc-Si', '3.4 V, 5 A', 'Ω'][r.randint(5)])
            else:
                v = [f'{x:.5f}' for x in r.uniform(-1, 1, 9)]
                row.append(['[ ', '['][r.randint(2)] + ['  ', ' ', '\n'][
                    r.randint(3)].join(v) + [' ]', ']'][r.randint(2)])
        rows.append(row)
    out = io.StringIO()
    w = csv.writer(out, lineterminator=c['eol'])
    w.writerow(['Name'] + c['params'])
    w.writerow(['Units'] + ['V'] * len(c['params']))
    w.writerow(['[0]'] + [f'sam_{i}' for i in range(len(c['params']))])
    for row in rows:
        w.writerow(['' if x is None else x for x in row])
    text = out.getvalue()
    with warnings.catch_warnings(record=True) as told:
        warnings.simplefilter('always')
        if c['via'] == 'url':
            with ig.served({'/D/Tab.csv': text.encode()}) as u:
                db = pvsystem.retrieve_sam(
                    path=('HTTP' + u[4:] if c['seed'] % 2 else u)
                    + '/D/Tab.csv')
        else:
            with ig.given(text, 'str', 'a b.csv') as f:
                db = pvsystem.retrieve_sam(path=f)
    want = [norm(n) for n in c['names']]
    require(list(db.columns) == want, f'devices {list(db.columns)}, '
            f'expected {want}')
    pars = [p.replace(' ', '_') for p in c['params']]
    require(list(db.index) == pars, f'parameters {list(db.index)}')
    for i, row in enumerate(rows):
        for p, name, x in zip(pars, c['params'], row[1:]):
            g = db.iloc[:, i][p]
            what = f'{row[0]!r} {p}'
            if PARAM[name] == 'list':
                require(isinstance(g, list) and g == [
                    float(v) for v in x.strip('[] ').split()],
                    f'{what}: {g!r}, written {x!r}')
            else:
                cell(g, x, what)
    if len(set(want)) < len(want):
        require(any('uplicate' in str(t.message) for t in told),
                f'repeated names {want} without a warning')
        ctx.label('repeated names')
    else:
        require(not any('uplicate' in str(t.message) for t in told),
                f'duplicate warning for {want}')
        for n, row in zip(want, rows):
            require(db[n].name == n, f'{db[n].name!r} under {n!r}')
    if len(rows) < 3:
        ctx.trivial()
    ctx.label(c['via'])


TABLES = {'CECMod': 'sam-library-cec-modules-2019-03-05.csv',
          'SandiaMod': 'sam-library-sandia-modules-2015-6-30.csv',
          'ADRInverter': 'adr-library-cec-inverters-2019-03-05.csv',
          'CECInverter': 'sam-library-cec-inverters-2019-03-05.csv',
          'SandiaInverter': 'sam-library-cec-inverters-2019-03-05.csv'}


@functools.lru_cache(None)
def bundled(name):
    """raw rows of a table shipped with pvlib, or None"""
    p = pathlib.Path(pvlib.__file__).parent / 'data' / TABLES[name]
    if not os.path.exists(p):
        return None
    with open(p, encoding='utf-8', newline='') as h:
        rows = list(csv.reader(h))
    return rows[0], [r for r in rows[3:] if r]


@functools.lru_cache(None)
def loaded(name):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return pvsystem.retrieve_sam(name=name)


EMPTY = {'', 'n/a', 'N/A', 'NaN', 'nan', 'NA', 'null', 'NULL', 'None',
         '#N/A', '<NA>', '-nan', '-NaN'}


@sub(lambda: fixed(name=st.sampled_from(sorted(TABLES)),
                   case_=st.sampled_from(['as', 'low', 'UP']),
                   pick=ints(0, 10**6)), quick=400, shards=4)
def sam_bundled(case, ctx):
    c = case
    tab = bundled(c['name'])
    if tab is None:
        return ctx.trivial()
    head, rows = tab
    name = {'as': c['name'], 'low': c['name'].lower(),
            'UP': c['name'].upper()}[c['case_']]
    db = loaded(name)
    require(db.shape == (len(head) - 1, len(rows)), f'{name}: {db.shape}, '
            f'the table has {len(rows)} devices')
    i = c['pick'] % len(rows)
    row = rows[i]
    dev = norm(row[0])
    require(db.columns[i] == dev, f'{name}: device {i} is '
            f'{db.columns[i]!r}, expected {dev!r}')
    got = db.iloc[:, i]
    same_ = db[dev]
    require(isinstance(same_, pd.DataFrame) or same_.equals(got),
            f'{name}: {dev}')
    require(not any(ch in BAD for ch in db.columns[i]), f'{db.columns[i]!r}')
    for k, x in zip(head[1:], row[1:]):
        what = f'{name}: {dev} {k}'
        g = got[k.replace(' ', '_')]
        if k == 'ADRCoefficients':
            require(g == [float(v) for v in x.strip('[] ').split()],
                    f'{what}: {g!r}, table {x!r}')
        else:
            cell(g, None if x in EMPTY else x, what)
    ctx.label(c['name'])


@sub(lambda: fixed(kind=st.sampled_from(['both', 'neither', 'name', 'path']),
                   name=st.sampled_from(sorted(TABLES) + [
                       'CEC', 'sandia mod', '', 'cecmodule']),
                   pos=st.booleans()), quick=60)
def sam_refuses(case, ctx):
    c = case
    if c['kind'] == 'both':
        raises(ValueError, lambda: pvsystem.retrieve_sam(
            name=c['name'], path='/nonexistent/x.csv'), what='name and path')
    elif c['kind'] == 'neither':
        raises(ValueError, pvsystem.retrieve_sam, what='no table')
    elif c['kind'] == 'path':
        raises(OSError, lambda: pvsystem.retrieve_sam(
            path='/nonexistent/x.csv'), what='missing file')
    elif c['name'] not in TABLES:
        raises(KeyError, lambda: pvsystem.retrieve_sam(
            *([c['name']] if c['pos'] else []),
            **({} if c['pos'] else dict(name=c['name']))),
            what=f'table {c["name"]!r}')
    else:
        ctx.trivial()
