"""A stub network: records every HTTP request sent through the requests
library and answers it from a handler; nothing leaves the process."""
import contextlib
import ftplib
import io
import json
import time
from unittest import mock
from urllib.parse import parse_qsl, urlsplit

import requests
from requests.adapters import HTTPAdapter
from requests.structures import CaseInsensitiveDict

from .cmp import Fail, require


class Request:
    def __init__(self, p, timeout):
        u = urlsplit(p.url)
        self.method = p.method
        self.url = f'{u.scheme}://{u.netloc}{u.path}'
        self.path = u.path
        self.raw_query = u.query
        pairs = parse_qsl(u.query, keep_blank_values=True)
        self.query = dict(pairs)
        require(len(self.query) == len(pairs), f'repeated query field in '
                f'{p.url}')
        self.headers = p.headers
        b = p.body or b''
        self.body = b.decode('utf-8') if isinstance(b, bytes) else b
        self.timeout = timeout

    def json(self):
        try:
            return json.loads(self.body)
        except ValueError:
            raise Fail(f'request body is not JSON: {self.body[:200]!r}')


def reply(body='', status=200, ctype='text/plain; charset=utf-8'):
    if isinstance(body, (dict, list)):
        body, ctype = json.dumps(body), 'application/json'
    if isinstance(body, str):
        body = body.encode('utf-8')
    return status, ctype, body


REASON = {200: 'OK', 400: 'Bad Request', 401: 'Unauthorized',
          403: 'Forbidden', 404: 'Not Found', 429: 'Too Many Requests',
          500: 'Internal Server Error', 503: 'Service Unavailable'}


@contextlib.contextmanager
def web(handler):
    """route requests to handler(Request) -> reply(...); yields the list of
    requests made.  Waiting between polls takes no time."""
    seen = []

    def send(self, request, stream=False, timeout=None, *a, **k):
        q = Request(request, timeout)
        seen.append(q)
        status, ctype, body = handler(q)
        r = requests.Response()
        r.status_code = status
        r.reason = REASON.get(status, 'Error')
        r.headers = CaseInsensitiveDict({'Content-Type': ctype})
        r.encoding = requests.utils.get_encoding_from_headers(r.headers)
        r._content = body
        r._content_consumed = True
        r.raw = io.BytesIO(body)
        r.url = request.url
        r.request = request
        return r

    with mock.patch.object(HTTPAdapter, 'send', send), \
            mock.patch.object(time, 'sleep', lambda s: None):
        yield seen


def query(req, want, what):
    """the query fields are exactly `want`: numbers by value, text as text"""
    got = dict(req.query)
    for k, v in want.items():
        require(k in got, f'{what}: query lacks {k!r} (sent {got})')
        g = got.pop(k)
        if isinstance(v, str):
            ok = g == v
        else:
            try:
                ok = float(g) == float(v)
            except ValueError:
                ok = False
        require(ok, f'{what}: {k}={g!r} sent, expected {v!r}')
    require(not got, f'{what}: extra query fields {got}')


class FTP:
    """stands in for ftplib.FTP: files {(directory, name): bytes}"""
    def __init__(self, files, log, replies=None):
        self.files, self.log, self.replies = files, log, replies or {}

    def __call__(self, host='', user='', passwd='', *a, **k):
        self.log.append(('login', host, user, passwd))
        self.cur = ''
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.log.append(('close',))

    def login(self, user='', passwd='', acct=''):
        self.log.append(('login', '', user, passwd))
        return '230 OK'

    def cwd(self, d):
        self.log.append(('cwd', d))
        if d.strip('/') not in {k[0] for k in self.files}:
            raise ftplib.error_perm('550 Failed to change directory.')
        self.cur = d.strip('/')
        return '250 OK'

    def retrbinary(self, cmd, callback, *a, **k):
        self.log.append(('retr', cmd))
        name = cmd.split(' ', 1)[1]
        if '/' in name:
            d, name = name.strip('/').rsplit('/', 1)
        else:
            d = self.cur
        if (d, name) in self.replies:
            r = self.replies[d, name]
            if isinstance(r, Exception):
                raise r
            return r
        b = self.files.get((d, name))
        if b is None:
            raise ftplib.error_perm('550 Failed to open file.')
        for i in range(0, len(b), 1000):
            callback(b[i:i + 1000])
        return '226 Transfer complete.'

    def quit(self):
        self.log.append(('quit',))
        return '221 Goodbye.'

    def close(self):
        self.log.append(('close',))


@contextlib.contextmanager
def ftp(files, replies=None):
    log = []
    with mock.patch.object(ftplib, 'FTP', FTP(files, log, replies)):
        yield log
