"""C10: failures at the provider never turn into success."""
import json
import os
from urllib.parse import urlencode

import requests

import jose
import op as opmod
import world
from core import Violation, short
from net import NetFault, jresp
from vclock import CLOCK

RULE = ('A case is a client whose flow is disturbed at one chosen call (which endpoint, which occurrence, what kind of '
        'fault) and then continued; the oracle is the session record, the client context and the outgoing traffic. '
        'Non-trivial: a fault that was really injected and judged, or a well-formed answer in an unusual encoding that was '
        'accepted; distinct by (endpoint, fault, response type, set-up).')
ASSUMPTIONS = ['the type checks of message parameters are those of the dependency oidcmsg (a list of one counts as the value)']

REDIRECTS = [300, 301, 302, 303, 304, 305, 307, 308]
CLIENT_ERR = [400, 401, 402, 403, 404, 405, 406, 408, 409, 410, 415, 418, 422, 429, 451]
SERVER_ERR = [500, 501, 502, 503, 504, 505, 507, 599]

REQUIRED = {
    'token_endpoint': ['access_token', 'token_type'],
    'userinfo_endpoint': ['sub'],
    'registration_endpoint': ['client_id'],
    'discovery': ['issuer', 'authorization_endpoint', 'jwks_uri', 'response_types_supported', 'subject_types_supported',
                  'id_token_signing_alg_values_supported'],
}
BADVAL = [None, {'a': {'b': 1}}, [], ['a', 'b'], '', {}]

CONNERR = [requests.exceptions.ConnectionError('refused'), requests.exceptions.ConnectTimeout('timeout'),
           requests.exceptions.ReadTimeout('timeout'), requests.exceptions.SSLError('certificate verify failed'),
           requests.exceptions.ChunkedEncodingError('broken'), requests.exceptions.ContentDecodingError('garbled'),
           NetFault('reset'), requests.exceptions.TooManyRedirects('x')]


def faults(rng, ep):
    """All fault descriptions for an endpoint."""
    res = [('status', s, loc) for s in REDIRECTS for loc in (True, False)]
    res += [('status', s, None) for s in CLIENT_ERR + SERVER_ERR]
    res += [('error', s, enc) for s in (200, 201, 400, 401, 403, 500) for enc in ('json', 'form')]
    res += [('errtext', s, None) for s in (400, 401, 404, 500, 503)]
    res += [('empty', s, ct) for s in (200, 201, 204) for ct in ('application/json', '', 'text/html')]
    res += [('truncate', None, None)] * 3
    res += [('html', s, None) for s in (200, 400, 500)]
    res += [('json', v, None) for v in ('[]', 'null', '5', '"ok"', '{}', 'true', '[{}]')]
    res += [('drop', p, None) for p in REQUIRED.get(ep, [])] * 2
    res += [('bad', p, v) for p in REQUIRED.get(ep, []) for v in BADVAL if not (ep == 'discovery' and v == ['a', 'b'])]
    res += [('conn', k, None) for k in range(len(CONNERR))]
    res += [('conn-after', None, None)]
    res += [('mixed', s, None) for s in (200, 400)]      # the error comes with what a success would have brought
    if ep == 'jwks_uri':
        res = [f for f in res if f[0] in ('status', 'conn', 'html', 'errtext') or f == ('empty', 200, 'application/json')]
        res = [f for f in res if f[0] != 'html' or f[1] != 200]
    return res


class Fault:
    """Applies one fault at the k-th call of an endpoint."""

    def __init__(self, c, ep, fault, skip=0, sel=None):
        self.c, self.ep, self.fault, self.skip, self.sel = c, ep, fault, skip, sel
        self.hit = 0
        self.genuine = None
        c.net.fault = self

    def __call__(self, rec):
        if rec.endpoint != self.ep or self.hit or self.sel and not self.sel(rec):
            return None
        if self.skip:
            self.skip -= 1
            return None
        self.hit += 1
        kind, a, b = self.fault
        if kind == 'conn':
            raise CONNERR[a]
        if kind in ('errtext', 'html', 'json', 'empty', 'error'):
            return self.fixed(kind, a, b)
        # these carry the very answer that the provider would have given
        res = self.hostres(rec)
        self.genuine = res
        if kind == 'conn-after':
            raise CONNERR[0]
        st, h, body = res
        h = dict(h)
        if kind == 'status':
            if b:
                h['Location'] = rec.url + ('&' if '?' in rec.url else '?') + 'again=1'
            return a, h, body
        if kind == 'truncate':
            return st, h, body[:self.c.rng.randrange(1, len(body) - 1)]
        d = json.loads(body)
        if kind == 'mixed':
            d['error'] = 'server_error'
            return a, h, json.dumps(d)
        if kind == 'drop':
            del d[a]
        else:
            d[a] = b
        return st, h, json.dumps(d)

    def hostres(self, rec):
        return self.c.net.hosts[(rec.scheme, rec.netloc)](rec)

    def fixed(self, kind, a, b):
        if kind == 'error':
            d = {'error': self.c.rng.choice(['invalid_request', 'invalid_grant', 'invalid_client', 'server_error',
                                             'temporarily_unavailable', 'slow_down', 'invalid_token', 'insufficient_scope',
                                             'use_dpop_nonce', 'some_vendor_error']),
                 'error_description': 'so it is'}
            if b == 'form':
                return a, {'Content-Type': 'application/x-www-form-urlencoded'}, urlencode(d)
            return jresp(d, a)
        if kind == 'errtext':
            return a, {'Content-Type': 'text/plain'}, 'Something is wrong here'
        if kind == 'html':
            return a, {'Content-Type': 'text/html'}, '<html><body>login please</body></html>'
        if kind == 'json':
            return 200, {'Content-Type': 'application/json'}, a
        return a, {'Content-Type': b} if b else {}, ''


def failed(fn):
    """(did it fail, what). A failure is an exception or a reported error."""
    try:
        r = fn()
    except Violation:
        raise
    except Exception as err:
        return True, repr(err)
    if r is None:
        return False, 'None'
    try:
        if 'error' in r:
            return True, 'error %r' % r['error']
    except TypeError:
        pass
    return False, short(r)


def setup(c, rng, kind=None, rt=None, fmt=False):
    os.chdir(c.dir)
    o = opmod.OP(c.net, 'https://op.example.com', 0)
    o.expires_in = rng.choice([None, 3600])
    rt = rt or rng.choice(['code', 'code', 'code id_token', 'id_token token', 'code token'])
    cnf, desc = world.gen_conf(rng, o, kind=kind, rt=rt, auth=rng.choice(world.AUTHS))
    o2 = opmod.OP(c.net, 'https://other.example.org', 1)
    h = world.handler({o.issuer: cnf, o2.issuer: world.static_conf(o2)})
    return o, o2, h, desc


def sent(c, ep):
    return len([r for r in c.net.log if r.endpoint == ep])


def other_works(c, h, o2):
    s = world.login(c, h, o2)
    world.check_result(c, s)


def token(c, rng, i):
    """Faults in the code exchange."""
    o, o2, h, desc = setup(c, rng, rt=rng.choice(['code', 'code id_token', 'code token']))
    fin = {'behaviour_args': {'collect_tokens': True}} if desc[1] == 'code token' else {}
    s = world.begin(c, h, o)
    world.answer(c, s)
    fs = faults(rng, 'token_endpoint')
    f = Fault(c, 'token_endpoint', fs[i % len(fs)])
    bad, what = failed(lambda: h.finalize(o.issuer, dict(s.resp), **fin))
    c.check(f.hit == 1, 'fault not injected', repr(f.fault))
    c.equal(sent(c, 'token_endpoint'), 1, 'times the code was sent', repr(f.fault))
    c.check(bad, 'a failed token request ends as success', '%r -> %s' % (f.fault, what))
    rec = world.record(h, s.state)
    c.check('token_response' not in rec, 'a failed token response is recorded', lambda: '%r: %s' % (f.fault, rec))
    c.check('user_info' not in rec, 'user info recorded after a failed token response', lambda: short(rec))
    n_at = json.dumps(rec)
    if f.genuine is not None:
        for k in ('access_token', 'refresh_token', 'id_token'):
            try:
                v = json.loads(f.genuine[2]).get(k)
            except ValueError:
                v = None
            c.check(not v or v not in n_at, 'a token of a failed response is recorded', '%s %r' % (k, f.fault))
    if desc[1] != 'code token':
        c.refused(lambda: h.get_valid_access_token(s.state), 'access token after a failed token request', repr(f.fault))
    if desc[1] == 'code':
        c.check(not h.has_active_authentication(s.state), 'active authentication after a failed token request')
    c.refused(lambda: h.refresh_access_token(s.state), 'refresh after a failed token request', repr(f.fault))
    c.seen('token', f.fault[:2], desc)
    c.ev('faults injected')
    # the same session, then another one, can still complete
    s.grant['used'] = False      # the provider forgets about the attempt
    again = rng.choice(['finalize', 'get_access_and_id_token', 'get_tokens'])
    if again != 'finalize':
        # without the authorization response coming in once more
        client = h.get_client_from_session_key(s.state)
        kw = {'client': client} if rng.random() < .5 else {}
        if again == 'get_tokens':
            t = h.get_tokens(s.state, **kw)
        else:
            t = h.get_access_and_id_token(state=s.state, **kw, **fin)
            if desc[1] != 'code token':
                c.equal((t['id_token'] or {}).get('sub'), s.grant['sub'], 'subject after a failed request')
        c.equal(t['access_token'], s.grant['ats'][-1], 'token after a failed request')
        s.grant['used'] = False
        c.seen('again', again, desc[1])
    world.finalize(c, h, s, **fin)
    s2 = world.login(c, h, o, fin=fin)
    for x in (s, s2):
        if fin:
            c.equal(x.result['token'], x.grant['ats'][-1], 'token after a failed request')
            c.equal(x.result['userinfo']['sub'], x.grant['sub'], 'subject after a failed request')
        else:
            world.check_result(c, x)
    other_works(c, h, o2)


def refresh(c, rng, i):
    o, o2, h, desc = setup(c, rng, rt=rng.choice(['code', 'code id_token']))
    s = world.login(c, h, o)
    for _ in range(rng.choice([0, 1, 2])):
        h.refresh_access_token(s.state)
    o.idt_on_refresh = rng.random() < .5
    before = world.record(h, s.state)
    val = h.get_valid_access_token(s.state)
    n = sent(c, 'token_endpoint')
    fs = faults(rng, 'token_endpoint')
    f = Fault(c, 'token_endpoint', fs[i % len(fs)], sel=lambda r: dict(r.form()).get('grant_type') == 'refresh_token')
    bad, what = failed(lambda: h.refresh_access_token(s.state))
    c.check(f.hit == 1, 'fault not injected', repr(f.fault))
    c.equal(sent(c, 'token_endpoint'), n + 1, 'times the refresh token was sent', repr(f.fault))
    c.check(bad, 'a failed refresh ends as success', '%r -> %s' % (f.fault, what))
    c.equal(world.record(h, s.state), before, 'a failed refresh changes the session', repr(f.fault))
    c.equal(h.get_valid_access_token(s.state), val, 'a failed refresh changes the valid token', repr(f.fault))
    c.seen('refresh', f.fault[:2], desc)
    c.ev('faults injected')
    t = h.refresh_access_token(s.state)
    c.equal(t['access_token'], s.grant['ats'][-1], 'refresh after a failed one')
    c.equal(h.get_user_info(s.state)['sub'], s.grant['sub'], 'user info after a failed refresh')
    other_works(c, h, o2)


def userinfo(c, rng, i):
    """In the login, or afterwards."""
    o, o2, h, desc = setup(c, rng, rt=rng.choice(['code', 'code id_token', 'id_token token', 'code token']))
    fs = faults(rng, 'userinfo_endpoint')
    fault = fs[i % len(fs)]
    if fault == ('json', '{}', None) or rng.random() < .5:
        s = world.begin(c, h, o)
        world.answer(c, s)
        f = Fault(c, 'userinfo_endpoint', fault)
        bad, what = failed(lambda: h.finalize(o.issuer, dict(s.resp)))
        c.check(f.hit == 1, 'fault not injected', repr(f.fault))
        c.check(bad, 'a failed user info request ends as success', '%r -> %s' % (fault, what))
        rec = world.record(h, s.state)
        c.check('user_info' not in rec, 'failed user info is recorded', lambda: '%r %s' % (fault, rec['user_info']))
        c.seen('userinfo-login', fault[:2], desc)
    else:
        s = world.login(c, h, o)
        before = world.record(h, s.state)
        o.ui_claims = {'name': 'a new name'}
        f = Fault(c, 'userinfo_endpoint', fault)
        bad, what = failed(lambda: h.get_user_info(s.state))
        c.check(f.hit == 1, 'fault not injected', repr(f.fault))
        c.check(bad, 'a failed user info request ends as success', '%r -> %s' % (fault, what))
        c.equal(world.record(h, s.state), before, 'a failed user info request changes the session', repr(fault))
        c.seen('userinfo', fault[:2], desc)
    c.ev('faults injected')
    ui = h.get_user_info(s.state)
    got = ui.to_dict()
    c.equal(got, s.grant['ui'], 'user info after a failed request')
    world.check_result(c, world.login(c, h, o))
    other_works(c, h, o2)


def snapshot(h, o):
    """What the context holds that comes from the provider."""
    rp = h.issuer2rp.get(o.issuer)
    if rp is None:
        return None
    ctx = rp.client_get('service_context')
    return {'client_id': ctx.get('client_id'), 'secret': ctx.get('client_secret'),
            'reg': world.plain(ctx.get('registration_response') or {}),
            'expires': ctx.get('client_secret_expires_at'),
            'redirect_uris': list(ctx.get('redirect_uris') or []),
            'pi': world.plain(dict(ctx.get('provider_info') or {}))}


def registration(c, rng, i):
    o, o2, h, desc = setup(c, rng, kind='dynamic')
    fs = faults(rng, 'registration_endpoint')
    f = Fault(c, 'registration_endpoint', fs[i % len(fs)])
    n = rng.choice([1, 1, 2])
    for k in range(n):
        f.hit = 0
        bad, what = failed(lambda: h.begin(o.issuer))
        c.check(f.hit == 1, 'fault not injected', repr(f.fault))
        c.check(bad, 'a failed registration ends as success', '%r -> %s' % (f.fault, what))
        snap = snapshot(h, o)
        if snap:
            c.check(not snap['client_id'] and not snap['secret'] and not snap['reg'].get('client_id')
                    and not snap['expires'] and not snap['reg'],
                    'a failed registration is recorded', lambda: '%r %s' % (f.fault, short(snap)))
    c.net.fault = None
    s = world.login(c, h, o)
    world.check_result(c, s)
    c.seen('registration', f.fault[:2], desc)
    c.ev('faults injected')
    other_works(c, h, o2)
    s = world.login(c, h, o)
    ok = [r for r in c.net.log if r.endpoint == 'registration_endpoint' and r.op is o]
    c.equal(len(ok), n + 1, 'number of registrations')


def discovery(c, rng, i):
    o, o2, h, desc = setup(c, rng, kind=rng.choice(['dynamic', 'static+discovery']))
    o.md['userinfo_endpoint'] = o.base + '/ui-' + 'x' * 8
    fs = faults(rng, 'discovery')
    f = Fault(c, 'discovery', fs[i % len(fs)])
    n = rng.choice([1, 1, 2])
    for k in range(n):
        f.hit = 0
        bad, what = failed(lambda: h.begin(o.issuer))
        c.check(f.hit == 1, 'fault not injected', repr(f.fault))
        c.check(bad, 'a failed discovery ends as success', '%r -> %s' % (f.fault, what))
        c.equal([r.url for r in c.net.log if r.endpoint not in ('discovery',)], [], 'requests after a failed discovery')
        snap = snapshot(h, o)
        if snap:
            eps = {a: b for a, b in snap['pi'].items() if a.endswith('_endpoint') or a == 'jwks_uri'}
            c.equal(eps, {}, 'endpoints of a failed discovery are recorded', repr(f.fault))
            for srv in h.issuer2rp[o.issuer].client_get('services').values():
                c.check(not srv.endpoint or 'op.example.com' not in srv.endpoint
                        or srv.service_name in ('provider_info', 'webfinger'),
                        'a service got an endpoint from a failed discovery', '%r %s' % (f.fault, srv.endpoint))
    c.net.fault = None
    s = world.login(c, h, o)
    world.check_result(c, s)
    c.seen('discovery', f.fault[:2], desc)
    c.ev('faults injected')
    other_works(c, h, o2)


def keys(c, rng, i):
    """The keys can not be fetched: no ID Token can be accepted."""
    o, o2, h, desc = setup(c, rng, rt=rng.choice(['code', 'id_token token', 'code id_token']))
    fs = faults(rng, 'jwks_uri')
    f = Fault(c, 'jwks_uri', fs[i % len(fs)])
    many = f.__class__.__call__

    class Always(Fault):
        def __call__(self, rec):
            self.hit = 0
            r = None
            try:
                r = many(self, rec)
            finally:
                if rec.endpoint == 'jwks_uri':
                    self.total = getattr(self, 'total', 0) + 1
            return r
    f.__class__ = Always
    got = []
    bad, what = failed(lambda: got.append(world.begin(c, h, o)))
    if bad:
        c.check(f.total >= 1, 'set-up failed without fault', what)
        c.seen('keys-setup', f.fault[:2], desc)
        c.net.fault = None
        return other_works(c, h, o2)
    s = got[0]
    world.answer(c, s)
    bad, what = failed(lambda: h.finalize(o.issuer, dict(s.resp)))
    c.check(getattr(f, 'total', 0) >= 1, 'fault not injected', repr(f.fault))
    c.check(bad, 'an ID Token is accepted without keys', '%r -> %s' % (f.fault, what))
    rec = world.record(h, s.state)
    c.check('token_response' not in rec and 'user_info' not in rec, 'recorded without keys', lambda: short(rec))
    c.check(not h.has_active_authentication(s.state), 'active authentication without keys', repr(f.fault))
    c.seen('keys', f.fault[:2], desc)
    c.ev('faults injected')
    c.net.fault = None
    other_works(c, h, o2)


ERRORS = ['invalid_request', 'unauthorized_client', 'access_denied', 'unsupported_response_type', 'invalid_scope',
          'server_error', 'temporarily_unavailable', 'interaction_required', 'login_required', 'consent_required',
          'account_selection_required', 'invalid_request_uri', 'registration_not_supported', 'some_vendor_error']


def authz_error(c, rng, i):
    """Error authorization responses, alone or beside success parameters."""
    o, o2, h, desc = setup(c, rng, rt=rng.choice(world.RT_ALL))
    others = [world.login(c, h, o) for _ in range(rng.choice([0, 1]))]
    recs = {x.state: world.record(h, x.state) for x in others}
    s = world.begin(c, h, o)
    world.answer(c, s)
    before = world.record(h, s.state)
    err = rng.choice(ERRORS)
    resp = {'state': s.state, 'error': err}
    if rng.random() < .5:
        resp['error_description'] = world.rndtext(rng, 20, 'abc defXYZ.-')
    if rng.random() < .3:
        resp['error_uri'] = 'https://op.example.com/errors/1'
    mixed = rng.random() < .4
    if mixed:
        good = {k: v for k, v in s.resp.items() if k != 'state'}
        for k in rng.sample(sorted(good), rng.randint(1, len(good))):
            resp[k] = good[k]
    n = len(c.net.log)
    r = h.finalize(o.issuer, dict(resp))
    c.check('error' in r, 'error response taken for success', short(r))
    c.equal(r['error'], err, 'error code')
    c.equal(r['state'], s.state, 'state of the error')
    c.check(not r.get('token') and not r.get('userinfo') and not r.get('id_token'), 'tokens beside an error', short(r))
    c.equal([x.url for x in c.net.log[n:] if x.endpoint in ('token_endpoint', 'userinfo_endpoint')], [],
            'request after an error response')
    c.equal(world.record(h, s.state), before, 'error response recorded')
    c.check(not h.has_active_authentication(s.state), 'active authentication after an error')
    c.refused(lambda: h.get_valid_access_token(s.state), 'access token after an error')
    for x in others:
        c.equal(world.record(h, x.state), recs[x.state], 'error response changes another session')
    c.seen('authz_error', err, mixed, desc)
    c.ev('faults injected')
    # the genuine response may still arrive
    world.finalize(c, h, s)
    world.check_result(c, s)


ODD = [('Set-Cookie', v) for v in (
    'a=1', 'a=1; Path=/; HttpOnly; Secure; SameSite=None', 'a=1; Expires=Wed, 21 Oct 2035 07:28:00 GMT', 'a/b=1; Path=/',
    'a,b=1', 'a@b=1', 'k=v; version=x', 'k=v; Version=1', 'k=v; Max-Age=abc', 'k=v; Max-Age=0', 'k=v; expires=soon', '=', '',
    'k="v; w"; Path="/"', 'k=v; Domain=.example.com', 'k=v; Domain=', 'a=1, b=2; Path=/', 'k', ';;;', 'k=é',
    'k=1; expires=Thu, 01-Jan-99999 00:00:00 GMT', '$Version=1; k=v', 'k=v; comment=x; port="80"; discard')] + [
    ('Cache-Control', 'no-store'), ('Pragma', 'no-cache'), ('X-Frame-Options', 'DENY'), ('Date', 'yesterday'),
    ('WWW-Authenticate', 'Basic realm="x"'), ('Location', 'https://elsewhere.example.net/'), ('Link', '<https://x.example>; rel=next'),
    ('Retry-After', '7'), ('Content-Language', 'sv'), ('X-Error', 'error=none'), ('Set-Cookie2', 'a=1'), ('Age', '-3')]


def encodings(c, rng, i):
    """Well-formed answers in every supported encoding are accepted."""
    o, o2, h, desc = setup(c, rng, rt=rng.choice(['code', 'code id_token']))
    enc = rng.choice(['json', 'json-charset', 'JSON', 'form', 'form-charset', 'none', 'json-nows', 'json-ws'])
    odd = rng.sample(ODD, rng.choice([0, 1, 1, 2])) + ([ODD[i % len(ODD)]] if i % 2 else [])

    def conv(rec, res):
        st, h_, body = conv0(rec, res)
        # headers that have nothing to do with it
        return st, list(h_.items()) + odd, body

    def conv0(rec, res):
        st, h_, body = res
        if st not in (200, 201):
            return res
        d = json.loads(body)
        if enc == 'json-charset':
            return st, {'Content-Type': 'application/json; charset=utf-8'}, body
        if enc == 'JSON':
            return st, {'content-type': rng.choice(['application/json;charset=UTF-8', 'Application/JSON; charset="utf-8"',
                                                    'application/json ; charset=utf-8', 'application/json;'])}, json.dumps(d, ensure_ascii=False)
        if enc in ('form', 'form-charset'):
            return st, {'Content-Type': 'application/x-www-form-urlencoded' +
                        ('; charset=utf-8' if 'charset' in enc else '')}, urlencode(d)
        if enc == 'none':
            return st, {}, body
        if enc == 'json-ws':
            return st, {'Content-Type': 'application/json'}, '\r\n ' + json.dumps(d, indent=3) + '\n'
        return st, {'Content-Type': 'application/json', 'Cache-Control': 'no-store'}, json.dumps(d, separators=(',', ':'))
    o.hook['token_endpoint'] = conv
    if enc not in ('form', 'form-charset'):
        for ep in ('userinfo_endpoint', 'registration_endpoint', 'discovery'):
            o.hook[ep] = conv
    if rng.random() < .3 and enc not in ('form', 'form-charset'):
        real = o.hook.get('registration_endpoint')
        o.hook['registration_endpoint'] = lambda rec, res: real(rec, (200,) + tuple(res[1:]))
    o.ui_claims = {'name': rng.choice(['Åke Ström', 'a&b=c+d%20', '中文', 'x']), 'nickname': ' padded '}
    s = world.login(c, h, o)
    world.check_result(c, s)
    t = h.refresh_access_token(s.state)
    c.equal(t['access_token'], s.grant['ats'][-1], 'refreshed token')
    if desc[0] == 'dynamic':
        c.check(world.context(h, o).client_id in o.clients, 'registered client id')
    c.seen('encoding', enc, desc)
    for k, v in odd:
        c.seen('header', k, v)
    c.ev('encodings accepted')


def sequence(c, rng, i):
    """Random faults anywhere in a random history; the model says what each session may hold."""
    o, o2, h, desc = setup(c, rng, rt=rng.choice(['code', 'code id_token']))
    sess = []
    for _ in range(rng.choice([8, 14])):
        ep = rng.choice(['token_endpoint', 'userinfo_endpoint', 'discovery', 'registration_endpoint', None, None])
        f = None
        if ep:
            f = Fault(c, ep, rng.choice(faults(rng, ep)), skip=rng.choice([0, 0, 0, 1]))
        else:
            c.net.fault = None
        what = rng.choice(['begin', 'finish', 'finish', 'refresh', 'userinfo', 'retry'])
        if what == 'begin' or not sess:
            bad, _ = failed(lambda: sess.append(world.begin(c, h, o)))
            if not (f and f.hit):
                c.check(len(sess) and sess[-1] is not None and not bad or f and f.hit, 'begin failed without a fault', _)
            elif f.hit:
                c.check(bad, 'begin succeeded in spite of a fault', '%s %r' % (ep, f.fault))
            if not bad:
                sess[-1].st = 'begun'
                world.answer(c, sess[-1])
            continue
        s = rng.choice(sess)
        before = world.record(h, s.state)
        if what in ('finish', 'retry'):
            if s.st == 'done':
                continue
            s.grant['used'] = False
            n = len(c.net.log)
            bad, txt = failed(lambda: setattr(s, 'result', h.finalize(o.issuer, dict(s.resp))) or s.result)
            hit = f and f.hit
            c.equal(bad, bool(hit), 'outcome of a login with fault', '%s %r %s' % (ep, f and f.fault, txt))
            rec = world.record(h, s.state)
            if bad:
                if ep == 'token_endpoint':
                    c.equal(rec.get('token_response'), before.get('token_response'), 'failed token response recorded',
                            repr(f.fault))
                c.equal(rec.get('user_info'), before.get('user_info'), 'user info recorded in a failed login', repr(f.fault))
            else:
                world.check_result(c, s)
                s.st = 'done'
        elif s.st == 'done':
            fn = h.refresh_access_token if what == 'refresh' else h.get_user_info
            bad, txt = failed(lambda: fn(s.state))
            c.equal(bad, bool(f and f.hit), 'outcome of a call with fault', '%s %s %r %s' % (what, ep, f and f.fault, txt))
            if bad:
                c.equal(world.record(h, s.state), before, 'failed call changes the session', '%s %r' % (what, f.fault))
        if f and f.hit:
            c.seen('sequence', what, ep, f.fault[:2])
            c.ev('faults injected')
    c.net.fault = None
    for s in sess:
        if s.st != 'done':
            s.grant['used'] = False
            world.finalize(c, h, s)
            world.check_result(c, s)
        c.equal(h.get_user_info(s.state)['sub'], s.grant['sub'], 'user info at the end')


def reported(c, rng, i):
    """An error at a back-channel endpoint is reported as the provider put it, with the status it came with."""
    o, o2, h, desc = setup(c, rng, rt=rng.choice(['code', 'code id_token']))
    s = world.login(c, h, o)
    cl = h.issuer2rp[o.issuer]
    before = world.record(h, s.state)
    for _ in range(3):
        status = rng.choice([400, 401, 403, 404, 409, 429])
        body = {'error': rng.choice(ERRORS)}
        if rng.random() < .5:
            body['error_description'] = world.rndtext(rng, 20, 'abc defXYZ.-')
        if rng.random() < .4:
            body['status_code'] = rng.choice([200, 201, '200', 0])
        if rng.random() < .3:
            body['access_token'] = 'not-for-you'
        name, ep = rng.choice([('userinfo', 'userinfo_endpoint'), ('accesstoken', 'token_endpoint')])
        o.hook[ep] = lambda rec, res: jresp(body, status)
        args = {'access_token': 'abc'} if name == 'userinfo' else {
            'code': 'abc', 'redirect_uri': 'https://rp.example.org/cb',
            'grant_type': 'authorization_code'}
        got = cl.do_request(name, request_args=args, state=s.state)
        o.hook.clear()
        c.equal(got['error'], body['error'], 'reported error', body)
        c.equal(got.get('error_description'), body.get('error_description'), 'reported description', body)
        c.equal(got['status_code'], status, 'reported status', body)
        c.equal(world.record(h, s.state), before, 'an error response was recorded', body)
        c.ev('errors reported')
        c.seen('reported', name, status, tuple(sorted(body)))


def run(r):
    r.cases('reported', 30, reported, thorough=1000)
    r.cases('token', 110, token, thorough=4000, share=.5)
    r.cases('refresh', 110, refresh, thorough=3000, share=.5)
    r.cases('userinfo', 110, userinfo, thorough=3000, share=.5)
    r.cases('registration', 110, registration, thorough=2000, share=.5)
    r.cases('discovery', 120, discovery, thorough=3000, share=.5)
    r.cases('keys', 60, keys, thorough=600, share=.5)
    r.cases('authz_error', 60, authz_error, thorough=2000, share=.5)
    r.cases('encodings', 60, encodings, thorough=1500, share=.7)
    r.cases('sequence', 80, sequence, thorough=4000)
