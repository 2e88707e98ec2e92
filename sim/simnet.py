"""A simulated network below the real `requests` library: every request the
code under test sends ends here instead of at a socket, whatever interface of
requests it was made with.

A server is a function (request) -> Answer or None (no such host). Faults are
decided per request by the scenario."""
import io
import json

import requests
from urllib3.exceptions import ProtocolError
from urllib3.response import HTTPResponse

from .core import Violation, HarnessError


class Answer:
    def __init__(self, status=200, body=b'', headers=None):
        self.status = status
        self.body = body if isinstance(body, bytes) else json.dumps(
            body).encode()
        self.headers = headers or {'Content-Type': 'application/json'}


class Body(io.RawIOBase):
    """A response body that may break off."""

    def __init__(self, data, cut=None, declared=None):
        super().__init__()
        self.data, self.cut, self.pos = data, cut, 0

    def readable(self):
        return True

    def read(self, n=-1):
        if self.cut is not None and self.pos >= self.cut:
            raise ProtocolError('Connection broken', ConnectionResetError())
        end = len(self.data) if n is None or n < 0 else self.pos + n
        if self.cut is not None:
            end = min(end, self.cut)
        out = self.data[self.pos:end]
        self.pos += len(out)
        if self.cut is not None and (n is None or n < 0):
            raise ProtocolError('Connection broken', ConnectionResetError())
        return out

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)


# faults of one request
FAULTS = ('refused', 'dns', 'reset-before', 'reset-after', 'timeout-before',
    'timeout-after', 'cut-body', '500', '502', '503', '401', '404', 'html',
    'empty', 'truncated', 'garbage', 'wrong-type', 'missing-field', 'ssl')


class SimNet:
    """decide(n, request) -> fault name or None. The server acts on a request
    unless the fault lies before it."""

    def __init__(self, ctx, server, decide, mutate=None):
        self.ctx, self.server, self.decide = ctx, server, decide
        self.mutate = mutate
        self.n = 0
        self.log = []

    def send(self, adapter, request, stream=False, timeout=None, verify=True,
            cert=None, proxies=None):
        self.n += 1
        f = self.decide(self.n, request)
        self.ctx.steps += 1
        ex = requests.exceptions
        if f:
            self.ctx.fault('net:' + f)
        self.log.append((request.method, request.url, f))
        self.ctx.log('net', request.method, request.url, f)
        rt = timeout[1] if isinstance(timeout, tuple) else timeout
        if f == 'refused':
            raise ex.ConnectionError('Connection refused', request=request)
        if f == 'dns':
            raise ex.ConnectionError('Name or service not known',
                request=request)
        if f == 'ssl':
            raise ex.SSLError('certificate verify failed', request=request)
        if f == 'reset-before':
            raise ex.ConnectionError('Connection aborted.', request=request)
        if f in ('timeout-before', 'timeout-after'):
            if f == 'timeout-after':
                self.server(request)
            if rt is None:
                raise Violation('waits-forever', 'a request to %s has no '
                    'timeout: with a silent server it never returns' %
                    request.url)
            self.ctx.time(rt)
            raise ex.ReadTimeout('Read timed out.', request=request)
        self.ctx.time(0.1)
        a = self.server(request)
        if a is None:
            a = Answer(404, b'not found', {'Content-Type': 'text/plain'})
        if f == 'reset-after':
            raise ex.ConnectionError('Connection aborted.', request=request)
        if f and f.isdigit():
            a = Answer(int(f), b'error', {'Content-Type': 'text/plain'})
        elif f == 'html':
            a = Answer(200, b'<html><body>Login</body></html>',
                {'Content-Type': 'text/html'})
        elif f == 'empty':
            a = Answer(200, b'')
        elif f == 'truncated':
            a = Answer(a.status, a.body[:len(a.body) // 2])
        elif f == 'garbage':
            a = Answer(200, b'\xff\xfe\x00\x9f' * 9)
        elif f == 'wrong-type':
            a = Answer(200, [1, 2])
        elif f == 'missing-field':
            a = Answer(200, {'status': 'ok'})
        elif f and f != 'cut-body' and self.mutate:
            a = self.mutate(f, a)
        cut = len(a.body) // 2 if f == 'cut-body' else None
        raw = HTTPResponse(body=Body(a.body, cut), headers=a.headers,
            status=a.status, preload_content=False,
            request_method=request.method)
        r = adapter.build_response(request, raw)
        if not stream:
            r.content
        return r

    def patches(self):
        net = self

        def send(adapter, request, *a, **kw):
            return net.send(adapter, request, *a, **kw)
        return [(requests.adapters.HTTPAdapter, 'send', send)]

    def __enter__(self):
        self.saved = [(o, a, getattr(o, a)) for o, a, v in self.patches()]
        for o, a, v in self.patches():
            setattr(o, a, v)
        return self

    def __exit__(self, *a):
        for o, n, v in self.saved:
            setattr(o, n, v)


def no_network(request):
    raise HarnessError('unexpected request to %s' % request.url)
