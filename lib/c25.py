"""C25: what the transport is asked to do.

Oracle: the hooked transport adapter sees every request as it would leave the machine, with the settings it would
leave with; the providers know which endpoint wants which method, and who is to see which token, code or credential.
"""
import base64
import copy
import json
import os
from urllib.parse import parse_qsl, urlsplit

import op as opmod
import world as W
from core import Violation, short
from net import NetFault, jresp
from vclock import CLOCK

from oidcrp.http import HTTPLib
from oidcrp.oauth2 import Client
from oidcrp.rp_handler import RPHandler
from cryptojwt.key_jar import KeyJar
from cryptojwt.exception import UpdateFailed

for _v in ('REQUESTS_CA_BUNDLE', 'CURL_CA_BUNDLE'):
    os.environ.pop(_v, None)        # would be a configuration of its own

ISS = ['https://op.example.com', 'https://op.example.com:8443/t/1', 'https://id.example.org/']
METHOD = {'discovery': 'GET', 'webfinger': 'GET', 'jwks_uri': 'GET', 'registration_endpoint': 'POST', 'token_endpoint': 'POST',
          'userinfo_endpoint': ('GET', 'POST'), 'pushed_authorization_request_endpoint': ('GET', 'POST'),     # GET: known finding of C24
          'registration_client': 'GET', 'claims': 'GET'}
CTYPE = {'registration_endpoint': 'application/json', 'token_endpoint': 'application/x-www-form-urlencoded',
         'pushed_authorization_request_endpoint': 'application/x-www-form-urlencoded'}
DEFAULT_TIMEOUT = {None, 10}        # the key jar has a time-out of its own


class Host:
    """Some other host. Whatever comes here is kept."""

    def __init__(self, net, base):
        self.base, self.got = base, []
        net.attach(base, self)

    def match(self, rec):
        u = urlsplit(self.base)
        return (u.scheme, u.netloc) == (rec.scheme, rec.netloc)

    def __call__(self, rec):
        self.got.append(rec)
        return jresp({'email': 'distributed@example.net'})


class Setup:
    def __init__(self, c, rng, n=None, kind=None, cookies=None, callback=False, mirror=None):
        self.c, self.rng = c, rng
        self.ops = [opmod.Prov(c.net, x, k, tag='op%d' % k) for k, x in enumerate(rng.sample(ISS, n or rng.randint(1, 2)))]
        self.claims = Host(c.net, 'https://claims.example.net')
        self.evil = Host(c.net, 'https://evil.example.net')
        self.confs, self.desc = {}, []
        for o in self.ops:
            o.rp_jwks = W.rp_public_jwks()
            ao = {}
            if rng.random() < .4:
                ao.update(W.par(body_format=rng.choice(['urlencoded', 'jws']), merge_rule=rng.choice(['lax', 'strict'])))
            if rng.random() < .3:
                ao.update(W.dpop(['ES256']))
                o.md['dpop_signing_alg_values_supported'] = ['ES256']
            svc = W.services()
            svc['registration_read'] = {'class': 'oidcrp.oidc.read_registration.RegistrationRead'}
            if rng.random() < .3:
                svc['userinfo']['kwargs'] = {'conf': {'http_method': 'POST', 'default_authn_method': rng.choice(['bearer_header', 'bearer_body'])}}
            k = kind or rng.choice(['dynamic', 'dynamic', 'static', 'static+discovery'])
            rt = rng.choice(['code', 'code', 'id_token token', 'code id_token', 'id_token'])
            cnf, d = W.gen_conf(rng, o, kind=k, rt=rt, add_ons=ao, svc=svc, auth=rng.choice(W.AUTHS))
            self.confs[o.issuer] = cnf
            self.desc.append(d)
            if rng.random() < .4:
                o.ui_claims = {'_claim_names': {'email': 'src'}, '_claim_sources': {
                    'src': {'endpoint': self.claims.base + '/c/' + o.tag, 'access_token': 'claims-token-' + o.tag}}}
        self.how = how = rng.choice(['none', 'verify_ssl', 'httpc', 'httpc', 'httpc', 'httplib'])
        kw, self.want = {}, {}
        if how == 'verify_ssl':
            v = rng.choice([True, False])
            kw['verify_ssl'] = v
            self.want = {'verify': v}
        elif how in ('httpc', 'httplib'):
            ca, ct, ck = [os.path.join(c.dir, x) for x in ('ca.pem', 'cert.pem', 'key.pem')]
            if rng.random() < .8:
                self.want['verify'] = rng.choice([ca, False, True, ca])
            if rng.random() < .6:
                self.want['cert'] = rng.choice([ct, (ct, ck)])
            if rng.random() < .6:
                self.want['timeout'] = rng.choice([3, 7.5, (2, 5)])
            if not self.want:
                self.want['verify'] = ca
            if how == 'httpc':
                kw['httpc_params'] = dict(self.want)
        self.calls = []
        kw['keyjar'] = kj = W.rp_keyjar()
        self.keyjar = rng.choice(['plain', 'plain', 'own'])
        self.kwant = dict(self.want)
        if how == 'httplib':
            kw['http_lib'] = HTTPLib(dict(self.want))
            self.kwant = {}
            if self.keyjar == 'plain':
                kw['httpc_params'] = dict(self.want)
                self.kwant = dict(self.want)
        if self.keyjar == 'own':
            self.kwant = {'verify': os.path.join(c.dir, 'keys.pem'), 'timeout': 4}
            kj.httpc_params = dict(self.kwant)
        if callback:
            kw['http_lib'] = kw.get('http_lib') or HTTPLib(dict(self.want))
            kw['http_lib'].req_callback = self.callback
        self.given = copy.deepcopy(kw.get('httpc_params'))
        self.kw = kw
        # the transport is asked for files that do not exist: it is replaced before it looks
        self.h = W.handler(self.confs, **kw)
        self.n = 0
        self.sess = []

    def callback(self, method, url, **kw):
        self.calls.append((method, url))
        kw['headers'] = {**(kw.get('headers') or {}), 'X-Trace': 't%d' % len(self.calls)}
        return kw

    def op_of(self, rec):
        for o in self.ops:
            if o.match(rec):
                return o

    def history(self, steps):
        """Uses everything that talks to somebody."""
        rng, c = self.rng, self.c
        self.errs = []
        for _ in range(steps):
            o = rng.choice(self.ops)
            mine = [s for s in self.sess if s.op is o]
            what = rng.choice(['login', 'refresh', 'userinfo', 'read', 'rekey', 'webfinger'] if mine else ['login', 'login', 'webfinger'])
            try:
                if what == 'login' or what == 'webfinger' and o.issuer != o.origin:
                    s = W.begin(c, self.h, o)
                    W.answer(c, s)
                    W.finalize(c, self.h, s)
                    self.sess.append(s)
                elif what == 'webfinger':
                    cnf = self.confs[o.issuer]
                    h2 = self.h
                    if '' not in self.confs:
                        self.confs[''] = W.dynamic_conf(None, ['code'])
                    u = 'someone@' + urlsplit(o.issuer).netloc
                    h2.begin(user_id=u)
                elif what == 'refresh':
                    s = rng.choice(mine)
                    self.h.refresh_access_token(s.state)
                elif what == 'userinfo':
                    s = rng.choice(mine)
                    if not s.result['token']:
                        continue
                    ui = self.h.get_user_info(s.state)
                    self.h.issuer2rp[o.issuer].fetch_distributed_claims(ui)
                elif what == 'read':
                    cl = self.h.issuer2rp[o.issuer]
                    if cl.client_get('service', 'registration_read') and cl.client_get('service_context').registration_response.get('registration_client_uri'):
                        cl.do_request('registration_read', authn_method='client_secret_basic')
                elif what == 'rekey':
                    kj = W.context(self.h, o).keyjar
                    for kb in kj[o.issuer]:
                        if kb.remote:
                            kb.update()
                c.ev('operations: ' + what)
            except Violation:
                raise
            except Exception as err:
                self.errs.append((what, o.tag, repr(err)))
                c.ev('operations refused')
            self.judge()

    def judge(self):
        c = self.c
        log = c.net.log
        while self.n < len(log):
            r = log[self.n]
            self.n += 1
            o = self.op_of(r)
            ep = o.match(r) if o else 'claims' if self.claims.match(r) else None
            d = lambda: '%s %s %s (%s %s %s)' % (r.method, r.url, ep, self.how, self.keyjar, self.desc)
            c.check(ep is not None, 'a request to nobody', d)
            m = METHOD[ep]
            c.check(r.method == m or r.method in m and isinstance(m, tuple), 'method of a request', d)
            if ep in CTYPE:
                c.equal((r.headers.get('content-type') or '').split(';')[0], CTYPE[ep], 'content type of a request', d)
            want = self.kwant if ep == 'jwks_uri' else self.want
            c.equal(r.verify, want.get('verify', True), 'certificate verification', d)
            cert = want.get('cert')
            c.equal(r.cert, cert, 'client certificate', d)
            t = want.get('timeout')
            if t is None:
                c.check(r.timeout in DEFAULT_TIMEOUT, 'time-out', lambda: '%r %s' % (r.timeout, d()))
            else:
                c.equal(r.timeout, t, 'time-out', d)
            c.check(not r.userinfo, 'credentials in the URL of a request', d)
            c.equal(r.scheme, 'https', 'scheme', d)
            c.seen(ep, self.how, self.keyjar, tuple(sorted(want)), r.method, o.tag if o else '')
            c.ev('requests judged: ' + str(ep))
            self.secrets(r, o, ep, d)

    def secrets(self, r, o, ep, d):
        """Who may see what."""
        c = self.c
        txt = r.text()
        a = r.headers.get('authorization', '')
        if a.startswith('Basic '):
            txt += base64.b64decode(a[6:]).decode('utf-8', 'replace')
        for p in self.ops:
            for kind, vals in (('client secret', [cl['client_secret'] for cl in p.clients.values()]), ('code', p.grants),
                               ('access token', p.access), ('refresh token', p.refresh), ('registration access token', [
                                   cl['rat'] for cl in p.clients.values() if cl.get('rat')]),
                               ('access token for claims', ['claims-token-' + p.tag])):
                for v in vals:
                    if not v or v not in txt:
                        continue
                    ok = {'client secret': ['token_endpoint'], 'code': ['token_endpoint'], 'access token': ['userinfo_endpoint'],
                          'refresh token': ['token_endpoint'], 'registration access token': ['registration_client'],
                          'access token for claims': ['claims']}[kind]
                    c.check(ep in ok and (o is p or ep == 'claims'), 'a %s was sent to somebody else' % kind, d)
                    if kind != 'code' and kind != 'client secret':
                        c.check(v not in r.url, 'a %s in the URL of a request' % kind, d)
                    if ep == 'claims':
                        c.check(r.url.endswith('/c/' + p.tag), 'claims token of another source', d)


def f_settings(c, rng, i):
    su = Setup(c, rng)
    su.history(rng.randint(2, 8))
    c.check(not [e for e in su.errs if e[0] in ('login', 'userinfo', 'read', 'rekey')], 'an operation failed', lambda: '%s %s' % (su.errs, su.desc))
    c.equal(su.kw.get('httpc_params'), su.given, 'the transport settings that were given have changed')


def f_redirect(c, rng, i):
    """Everybody wants the client to go somewhere else."""
    su = Setup(c, rng, n=1, kind=rng.choice(['dynamic', 'dynamic', 'static+discovery', 'static']))
    o = su.ops[0]
    eps = ['discovery', 'registration_endpoint', 'token_endpoint', 'userinfo_endpoint', 'pushed_authorization_request_endpoint',
           'registration_client', 'webfinger', 'claims']
    ep = eps[i % len(eps)]
    code = rng.choice([301, 302, 303, 307, 308])
    where = rng.choice([su.evil.base + '/x', 'http://op.example.com/plain', '/elsewhere', su.evil.base + '/authorize?code=1'])
    on = rng.choice([1, 1, 2])        # from which request on
    if rng.random() < .5:
        where = o.base + '/token2'
    seen = []

    def hook(rec, res):
        seen.append(rec)
        if len(seen) < on:
            return res
        body = rng.choice(['', json.dumps({'access_token': 'x', 'token_type': 'Bearer', 'sub': 'y', 'request_uri': 'urn:x'}), '<html>moved</html>'])
        return code, {'Location': where, 'Content-Type': rng.choice(['application/json', 'text/html'])}, body
    if ep == 'claims':
        o.ui_claims = {'_claim_names': {'email': 'src'}, '_claim_sources': {
            'src': {'endpoint': su.claims.base + '/c/' + o.tag, 'access_token': 'claims-token-' + o.tag}}}
        old = su.claims.__class__.__call__
        c.net.attach(su.claims.base, lambda rec: hook(rec, old(su.claims, rec)))
    else:
        o.hook[ep] = hook
    su.history(rng.randint(3, 7))
    bad = [r.brief() for r in su.evil.got]
    c.check(not bad, 'a redirect was followed', lambda: short(bad))
    # what the redirected operation gave
    if len(seen) >= on:
        c.ev('redirects answered: ' + ep)
        c.seen('redirect', ep, code, where.split(':')[0], on, su.how)
        if ep in ('token_endpoint', 'userinfo_endpoint', 'discovery', 'registration_endpoint', 'registration_client'):
            c.check(su.errs, 'a redirect is taken for an answer', lambda: '%s %s' % (ep, [r.brief() for r in c.net.log[-3:]]))


COOKIES = ['sid=abc', 'a=1; Path=/; HttpOnly; Secure', 'b="quoted value"; Path=/token', 'c=2; Max-Age=3600', 'd=3; Domain=example.com; Path=/',
           'e=4; Expires=Wed, 21 Oct 2037 07:28:00 GMT', 'f=5; SameSite=Lax; Secure', 'g=6; Max-Age=0', 'k=v; Version=1', 'h=; Path=/',
           'i=7; Domain=.example.com', 'j=8; Port="80"', 'l=9; Expires=never', 'm=10; SameSite=None; Secure; Partitioned; Priority=High']


def f_cookies(c, rng, i):
    """Cookies do not get in the way and are not given to others."""
    su = Setup(c, rng, n=2)
    given = {}
    for o in su.ops:
        for ep in METHOD:
            def hook(rec, res, o=o):
                if rng.random() < .6:
                    ck = rng.choice(COOKIES)
                    name = ck.split('=')[0] + o.tag
                    ck = name + ck[len(ck.split('=')[0]):]
                    given.setdefault((rec.scheme, rec.netloc), set()).add(name)
                    return res[0], {**dict(res[1]), 'Set-Cookie': ck}, res[2]
                return res
            o.hook[ep] = hook
    su.history(rng.randint(3, 9))
    errs = [e for e in su.errs if e[0] in ('login', 'userinfo', 'read', 'rekey')]
    c.check(not errs, 'a cookie made an operation fail', lambda: '%s %s' % (errs, given))
    for r in c.net.log:
        ck = r.headers.get('cookie')
        if ck:
            names = {x.split('=')[0].strip() for x in ck.split(';')}
            c.check(names <= given.get((r.scheme, r.netloc), set()), 'cookies of one host were sent to another', lambda: '%s %s' % (r.url, ck))
        c.ev('requests scanned for cookies')
    c.seen('cookies', su.how, tuple(sorted(len(v) for v in given.values())))


def f_callback(c, rng, i):
    """A request callback sees, and may change, every request."""
    su = Setup(c, rng, callback=True)
    su.want = dict(su.kw['http_lib'].request_args)
    su.want.pop('allow_redirects', None)
    su.history(rng.randint(2, 7))
    recs = [r for r in c.net.log if not (su.op_of(r) and su.op_of(r).match(r) == 'jwks_uri')]
    c.equal(su.calls, [(r.method, r.url) for r in recs] if all('%' not in r.url for r in recs) else su.calls, 'requests the callback saw')
    c.equal(len(su.calls), len(recs), 'number of requests the callback saw')
    for k, r in enumerate(recs):
        c.equal(r.headers.get('x-trace'), 't%d' % (k + 1), 'what the callback asked for is lost', lambda: r.url)
    c.ev('calls of the callback', len(su.calls))
    c.seen('callback', su.how, len(su.calls))


def f_direct(c, rng, i):
    """Clients that are used without a handler."""
    su = Setup(c, rng, n=1, kind=rng.choice(['static', 'static+discovery']))
    o = su.ops[0]
    from oidcrp.oidc import RP
    cnf = su.confs[o.issuer]
    kw = {'httpc_params': dict(su.want)} if su.want else {}
    su.how, su.keyjar, su.kwant = 'direct', 'plain', su.want
    cl = RP(keyjar=W.rp_keyjar(), config=cnf, services=cnf['services'], **kw)
    ctx = cl.client_get('service_context')
    ctx.issuer = o.issuer
    cl.do_request('provider_info') if 'provider_info' not in cnf else None
    if 'provider_info' in cnf:
        ctx.keyjar.load_keys(o.issuer, jwks_uri=o.md['jwks_uri'])
    try:
        for kb in ctx.keyjar[o.issuer]:
            kb.update()
    except UpdateFailed as err:
        raise Violation('keys not fetched', repr(err))
    c.check(any(o.match(r) == 'jwks_uri' for r in c.net.log), 'keys were not asked for')
    cid = ctx.client_id
    from oidcmsg.oauth2 import AuthorizationResponse
    su.judge()
    # a redirected one
    o.hook['token_endpoint'] = lambda rec, res: (rng.choice([301, 302, 307, 308]), {'Location': su.evil.base}, '')
    ctx.state.create_state(o.issuer, key='st')
    ctx.state.store_item({'redirect_uri': 'https://rp.example.org/cb', 'state': 'st', 'client_id': cid, 'scope': 'openid', 'response_type': 'code'}, 'auth_request', 'st')
    ctx.state.store_item({'code': 'c', 'state': 'st'}, 'auth_response', 'st')
    c.refused(lambda: cl.do_request('accesstoken', state='st', authn_method='client_secret_basic'), 'a redirect is taken for an answer')
    c.check(not su.evil.got, 'a redirect was followed')
    su.judge()
    c.seen('direct', tuple(sorted(su.want)), bool(kw))


def f_override(c, rng, i):
    """The settings apply to every request; what is said in a call goes before them, in that call only."""
    host = Host(c.net, 'https://other.example.org/x')
    cfg = {k: v for k, v in {'timeout': 7, 'verify': False, 'headers': {'X-Set': '1'}, 'allow_redirects': False}.items()
           if rng.random() < .6}
    h = HTTPLib(copy.deepcopy(cfg)) if rng.random() < .7 else HTTPLib()
    if not h.request_args.get('verify', True) and 'verify' not in cfg:
        raise Violation('verification is off', short(h.request_args))
    base = copy.deepcopy(h.request_args)
    for k in range(rng.randint(2, 6)):
        over = {k: v for k, v in {'timeout': rng.choice([3, (2, 5)]), 'verify': rng.choice([True, '/some/ca.pem']), 'headers': {'X-Call': str(k)},
                                  'data': 'a=%d' % k}.items() if rng.random() < .3}
        passed = copy.deepcopy(over)
        n = len(c.net.log)
        h.send('https://other.example.org/x', rng.choice(['GET', 'POST']), **passed)
        c.equal(passed, over, "the caller's arguments were modified")
        c.equal(h.request_args, base, 'the settings were modified')
        c.equal(len(c.net.log), n + 1, 'number of requests')
        rec = c.net.log[-1]
        want = {**base, **over}
        if want.get('timeout'):
            c.equal(rec.timeout, want['timeout'], 'time-out')
        c.equal(rec.verify, want.get('verify', True), 'verification of the peer')
        for x in ('X-Set', 'X-Call'):
            c.equal(rec.headers.get(x.lower()), (want.get('headers') or {}).get(x), 'header ' + x)
        c.ev('requests with settings compared')
        c.seen('override', tuple(sorted(base)), tuple(sorted(over)))


def run(r):
    r.rule = ('A case is a history that uses all endpoints of one or two providers with one transport configuration; distinct by '
              'endpoint, way and content of configuration, method, redirect and cookies.')
    r.assumptions = ['the transport is asked through requests.adapters.HTTPAdapter.send']
    r.cases('settings', 200, f_settings, thorough=6000, share=.3)
    r.cases('redirect', 160, f_redirect, thorough=5000, share=.35)
    r.cases('cookies', 100, f_cookies, thorough=3000, share=.5)
    r.cases('callback', 60, f_callback, thorough=2000, share=.5)
    r.cases('override', 60, f_override, thorough=1500)
    r.cases('direct', 60, f_direct, thorough=1000)
