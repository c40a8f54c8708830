"""The transport monitor: every HTTP request of the process ends up here.

requests.adapters.HTTPAdapter.send is the lowest point all HTTP of the library
goes through (services, key bundles, pushed authorization requests), so hooking it
sees the requests exactly as they would leave the machine, and nothing leaves it.
"""
import io
import json
import threading
from email.message import Message as EmailMessage
from urllib.parse import parse_qsl, urlsplit

import requests
from requests.adapters import HTTPAdapter
from urllib3 import HTTPResponse

from vclock import CLOCK


class Rec:
    """One outgoing request, and what was answered."""
    __slots__ = ('seq', 'method', 'url', 'scheme', 'netloc', 'path', 'fragment', 'query', 'raw_query',
                 'headers', 'body', 'verify', 'cert', 'timeout', 'thread', 'time', 'op', 'endpoint',
                 'status', 'info', 'resp', 'userinfo')

    def __init__(self, seq, req, verify, cert, timeout):
        self.seq, self.method, self.url = seq, req.method, req.url
        p = urlsplit(req.url)
        self.scheme, self.netloc, self.path, self.raw_query, self.fragment = p
        self.userinfo, _, self.netloc = self.netloc.rpartition('@')
        self.query = parse_qsl(p.query, keep_blank_values=True)
        self.headers = {k.lower(): (v.decode('latin-1') if isinstance(v, bytes) else v)
                        for k, v in req.headers.items()}
        b = req.body
        if b is None:
            b = b''
        elif isinstance(b, str):
            b = b.encode('utf-8')
        elif not isinstance(b, bytes):
            b = b''.join(b)
        self.body = b
        self.verify, self.cert, self.timeout = verify, cert, timeout
        self.thread, self.time = threading.get_ident(), CLOCK.now
        self.op = self.endpoint = self.status = self.resp = None
        self.info = {}

    @property
    def base(self):
        return self.scheme + '://' + self.netloc + self.path

    def form(self):
        return parse_qsl(self.body.decode('utf-8'), keep_blank_values=True)

    def params(self):
        """Form parameters as a dict; repeated parameters are a protocol error."""
        res = {}
        for k, v in self.form():
            if k in res:
                raise ProtocolError('repeated parameter %r in body of %s' % (k, self.url))
            res[k] = v
        return res

    def text(self):
        """Everything that leaves in this request, for leak searches."""
        return '\n'.join([self.url, json.dumps(self.headers), self.body.decode('utf-8', 'replace')])

    def brief(self):
        return {'seq': self.seq, 'method': self.method, 'url': self.url, 'headers':
                {k: v for k, v in self.headers.items() if k not in ('user-agent', 'accept', 'connection',
                                                                   'accept-encoding', 'content-length')},
                'body': self.body.decode('utf-8', 'replace')[:600], 'status': self.status}


class ProtocolError(Exception):
    """The library sent something a strict peer can not make sense of."""


class NetFault(requests.exceptions.ConnectionError):
    pass


class FakeNet:
    def __init__(self):
        self.hosts = {}
        self.log = []
        self.lock = threading.Lock()
        self.jitter = None     # callable(rec, phase) used to perturb schedules
        self.fault = None      # callable(rec) -> None | response tuple | raises

    def attach(self, url, handler):
        p = urlsplit(url)
        self.hosts[(p.scheme, p.netloc)] = handler

    def handle(self, req, verify, cert, timeout):
        with self.lock:
            rec = Rec(len(self.log), req, verify, cert, timeout)
            self.log.append(rec)
        if self.jitter:
            self.jitter(rec, 'before')
        res = None
        h = self.hosts.get((rec.scheme, rec.netloc))
        if self.fault:
            if h is not None and hasattr(h, 'classify'):
                h.classify(rec)
            res = self.fault(rec)
        if res is None:
            if h is None:
                rec.status = 'no such host'
                raise NetFault('no such host: ' + rec.netloc)
            res = h(rec)
        if self.jitter:
            self.jitter(rec, 'after')
        rec.status = res[0]
        rec.resp = res
        return res


CURRENT = None
_installed = False


def use(net):
    global CURRENT
    CURRENT = net
    return net


def _send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
    status, headers, body = CURRENT.handle(request, verify, cert, timeout)
    if isinstance(body, str):
        body = body.encode('utf-8')
    hl = list(headers.items()) if isinstance(headers, dict) else list(headers)
    raw = HTTPResponse(body=io.BytesIO(body), headers=hl, status=status, preload_content=False,
                       reason={200: 'OK', 201: 'Created'}.get(status, 'X'))
    em = EmailMessage()
    for k, v in hl:
        em[k] = v

    class _Orig:
        msg = em

        def isclosed(self):
            return True

        def close(self):
            pass
    raw._original_response = _Orig()
    return self.build_response(request, raw)


def install():
    global _installed
    if not _installed:
        HTTPAdapter.send = _send
        _installed = True


def jresp(obj, status=200, ctype='application/json', headers=None):
    h = {'Content-Type': ctype}
    h.update(headers or {})
    return status, h, json.dumps(obj)
