"""Helpers for writing files to be read back."""
import contextlib
import http.server
import io
import os
import pathlib
import shutil
import tempfile
import threading

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .cmp import Fail, require


@contextlib.contextmanager
def given(text, how, name='f.txt', encoding='utf-8', newline=''):
    """the text as 'str' path, 'path', or 'buffer'; text may be bytes"""
    if how in ('buffer', 'bytes'):
        if how == 'bytes':
            yield io.BytesIO(text if isinstance(text, bytes)
                             else text.encode(encoding))
        else:
            yield io.StringIO(text)
        return
    d = tempfile.mkdtemp(prefix='pvp-io-')
    try:
        f = os.path.join(d, name)
        if isinstance(text, bytes):
            with open(f, 'wb') as h:
                h.write(text)
        else:
            with open(f, 'w', encoding=encoding, newline=newline) as h:
                h.write(text)
        yield pathlib.Path(f) if how == 'path' else f
    finally:
        shutil.rmtree(d)


@contextlib.contextmanager
def served(files):
    """serve {path: bytes} on the loopback interface; yields the base URL"""
    class H(http.server.BaseHTTPRequestHandler):
        def do_GET(self):
            b = files.get(self.path.split('?')[0])
            self.send_response(200 if b is not None else 404)
            self.send_header('Content-Length', str(len(b or b'')))
            self.end_headers()
            self.wfile.write(b or b'')

        def log_message(self, *a):
            pass
    s = http.server.ThreadingHTTPServer(('127.0.0.1', 0), H)
    t = threading.Thread(target=s.serve_forever, kwargs=dict(
        poll_interval=.02), daemon=True)
    t.start()
    try:
        yield f'http://127.0.0.1:{s.server_address[1]}'
    finally:
        s.shutdown()
        s.server_close()


def how(*k):
    return st.sampled_from(list(k or ('str', 'path', 'buffer')))


def column(got, want, what):
    """a column read equals the written cells: numbers by value, text as
    text, None as missing"""
    got = list(got)
    require(len(got) == len(want), f'{what}: {len(got)} rows, '
            f'{len(want)} written')
    for i, (g, w) in enumerate(zip(got, want)):
        if w is None:
            require(pd.isna(g), f'{what}[{i}] = {g!r}, expected missing')
        elif isinstance(w, str):
            if isinstance(g, (int, float, np.number)) and not pd.isna(g):
                try:
                    if float(w) == float(g):
                        continue
                except ValueError:
                    pass
            require(g == w, f'{what}[{i}] = {g!r}, written {w!r}')
        else:
            try:
                ok = abs(float(g) - w) <= 1e-12 * max(1, abs(w))
            except (TypeError, ValueError):
                ok = False
            require(ok, f'{what}[{i}] = {g!r}, written {w!r}')


def stamps(index, want, off, what='index'):
    """index holds the wall times `want` (datetimes) at `off` seconds from
    UTC"""
    require(isinstance(index, pd.DatetimeIndex),
            f'{what}: {type(index).__name__}')
    require(index.tz is not None, f'{what}: no time zone')
    require(len(index) == len(want), f'{what}: {len(index)} rows, '
            f'{len(want)} written')
    for i, (g, w) in enumerate(zip(index, want)):
        if g.replace(tzinfo=None) != pd.Timestamp(w) \
                or g.utcoffset().total_seconds() != off:
            raise Fail(f'{what}[{i}] = {g}, expected {w} at offset {off} s')
