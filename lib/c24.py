"""C24: client credentials, plain OAuth2 code flow, pushed authorization requests.

Oracle: a strict authorization server that knows which token it gave to whom and when; every request it gets is
compared with what the history says; for pushed requests what it was given is compared with the recorded request.
"""
import copy
import json
from urllib.parse import parse_qsl, urlsplit

import c04
import jose
import op as opmod
import world as W
from core import Violation, short
from net import NetFault, jresp
from vclock import CLOCK

from oidcmsg.message import Message
from oidcmsg.oauth2 import ResponseMessage
from oidcrp.oauth2 import Client
from oidcrp.rp_handler import RPHandler
from oidcrp.service import Service

ISS = ['https://as.example.com', 'https://as.example.com/tenant/1', 'https://as.example.net:8443/']
CC = 'oidcrp.oauth2.client_credentials.'
USER_RELATED = {'code', 'redirect_uri', 'state', 'nonce', 'username', 'password', 'id_token_hint', 'response_type', 'code_verifier',
                'assertion', 'refresh_token'}


class Resource(Service):
    """Something that is protected by access tokens."""
    msg_type = Message
    response_cls = Message
    error_msg = ResponseMessage
    endpoint_name = 'userinfo_endpoint'
    service_name = 'resource'
    default_authn_method = 'bearer_header'
    http_method = 'GET'


# ------------------------------------------------------------------ client credentials

def cc_client(c, rng, o):
    auth = rng.choice(W.AUTHS)
    cid = rng.choice(['client', 'https://rp.example.org/id', 'a b+c', 'u:v', '\u00e5'])
    if auth in ('client_secret_jwt',):
        cid = cid.encode('ascii', 'ignore').decode() or 'x'
    sec = 'secret of the client %s' % W.rndtext(rng, 10)
    svc = {
        'token': {'class': CC + 'cc_access_token.CCAccessToken'},
        'refresh_token': {'class': CC + 'cc_refresh_access_token.CCRefreshAccessToken'},
        'resource': {'class': Resource},
    }
    conf = {'issuer': o.issuer, 'client_id': cid, 'client_secret': sec, 'services': svc, 'behaviour': {}}
    where = rng.choice(['service', 'call'])
    if where == 'service' and auth != 'client_secret_basic':
        svc['token']['kwargs'] = {'conf': {'default_authn_method': auth}}
    scope = None
    if rng.random() < .4:
        scope = rng.sample(['read', 'write', 'admin'], rng.randint(1, 2))
        conf['behaviour']['scope'] = scope
    if auth.endswith('jwt'):
        alg = rng.choice(['HS256', 'HS512'] if auth == 'client_secret_jwt' else ['RS256', 'ES256'])
        conf['client_preferences'] = {'token_endpoint_auth_signing_alg': alg}
    if rng.random() < .5:
        svc['discovery'] = {'class': 'oidcrp.oauth2.provider_info_discovery.ProviderInfoDiscovery'}
    else:
        conf['provider_info'] = dict(o.md)
    o.add_client(cid, sec, [], W.rp_public_jwks())
    cl = Client(keyjar=W.rp_keyjar(), config=conf, services=svc)
    if 'discovery' in svc:
        cl.do_request('provider_info')
    call = {'authn_method': auth} if where == 'call' else {}
    return cl, cid, auth, call, scope


class Key:
    """What was given under one name."""

    def __init__(self, name):
        self.name = name
        self.rt = self.at = self.old = None
        self.n = 0


def f_cc(c, rng, i):
    o = opmod.OP(c.net, rng.choice(ISS), 0)
    cl, cid, auth, call, scope = cc_client(c, rng, o)
    # the authorization server knows the client by the credentials used for the token
    o.strict_client = False
    o.ui_for = lambda g: {'sub': 'x'}
    keys = [Key(x) for x in rng.sample(['', 'k1', 'k2', 'r\u00e4ksm\u00f6rg\u00e5s', 'state with blanks'], rng.randint(1, 3))]
    trail = []
    for _ in range(rng.randint(2, 9)):
        k = rng.choice(keys)
        kw = {'state': k.name} if k.name else {}
        o.with_refresh = rng.random() < .75
        o.rotate_refresh = rng.random() < .6
        o.expires_in = rng.choice([None, 3600, 10])
        if rng.random() < .3:
            CLOCK.advance(rng.choice([1, 30, 4000]))
        fail = None
        if rng.random() < .2:
            fail = rng.choice(['error', '500', 'down', 'not json'])
        if fail:
            def hook(rec, res, fail=fail):
                if fail == 'error':
                    return jresp({'error': 'invalid_grant'}, 400)
                if fail == '500':
                    return 500, {'Content-Type': 'text/plain'}, 'oops'
                if fail == 'down':
                    raise NetFault('down')
                return 200, {'Content-Type': 'application/json'}, '{"access_token": '
            o.hook['token_endpoint'] = hook
        else:
            o.hook.pop('token_endpoint', None)
        what = rng.choice(['token', 'refresh', 'refresh', 'use'])
        if k.at is None:
            what = rng.choice(['token', 'token', 'token', 'refresh'])
        n0 = len(c.net.log)
        trail.append((what, k.name, fail))
        d = lambda: '%s %s %s' % (auth, o.issuer, trail)
        if what == 'token':
            ra = {'grant_type': 'client_credentials'}
            if rng.random() < .3:
                ra['scope'] = rng.choice([['special'], ['read', 'more']])
            err = res = None
            try:
                res = cl.do_request('accesstoken', request_args=dict(ra), **call, **kw)
            except Exception as e:
                err = e
            new = c.net.log[n0:]
            c.check(len(new) == 1, 'requests made for one token', lambda: '%s %s %r' % (d(), [r.brief() for r in new], err))
            r = new[0]
            c.equal((r.method, o.match(r)), ('POST', 'token_endpoint'), 'where the token request went', d)
            p = r.params()
            a = r.info.get('auth') or {}
            if fail != 'down':
                c.check(a.get('ok'), 'the client is not authenticated', lambda: '%s %s' % (a, d()))
                c.equal((a['method'], a['client_id']), (auth, cid), 'client authentication', d)
            c.equal(p.get('grant_type'), 'client_credentials', 'grant type', d)
            bad = set(p) & USER_RELATED
            c.check(not bad, 'user related parameters in a client credentials request', lambda: '%s %s' % (bad, d()))
            extra = set(p) - {'grant_type', 'scope', 'client_id', 'client_secret', 'client_assertion', 'client_assertion_type', '_assertion'}
            c.check(not extra, 'unexpected parameters in a client credentials request', lambda: '%s %s' % (extra, d()))
            want = ra.get('scope') or scope
            c.equal(p.get('scope'), ' '.join(want) if want else None, 'scope of the request', d)
            sent = json.loads(r.resp[2]) if not fail else None
        elif what == 'refresh':
            if k.rt is None and k.at is None:
                # nothing to refresh with
                err = c.refused(lambda: cl.do_request('refresh_token', **kw), 'a refresh without any token', d)
                c.equal(len(c.net.log), n0, 'a request without a refresh token was sent', d)
                c.seen('refresh of nothing', bool(k.name))
                continue
            rcall = {}
            if k.rt is not None and rng.random() < .4:
                rcall = {'authn_method': rng.choice(sorted({auth, 'client_secret_basic', 'client_secret_post'}))}
            err = res = None
            try:
                res = cl.do_request('refresh_token', **kw, **rcall)
            except Exception as e:
                err = e
            new = c.net.log[n0:]
            if k.rt is None and new and k.old:
                # the one of the previous grant is the last one given
                c.check(k.old in new[0].text(), 'refresh token that was sent', d)
                k.rt = k.old
            if k.rt is None:
                # no refresh token was given. An access token is not one
                c.check(err is not None, 'refreshed without a refresh token', lambda: '%s %s' % (short(res), d()))
                c.check(not new, 'a request without a refresh token was sent', lambda: '%s %s' % ([x.brief() for x in new], d()))
                c.seen('refresh without refresh token', bool(k.name))
                continue
            c.check(len(new) == 1, 'requests made for one refresh', lambda: '%s %s %r' % (d(), [r.brief() for r in new], err))
            r = new[0]
            c.equal((r.method, o.match(r)), ('POST', 'token_endpoint'), 'where the refresh request went', d)
            p = r.params()
            c.equal(p.get('grant_type'), 'refresh_token', 'grant type', d)
            au = r.headers.get('authorization', '')
            if not rcall:
                c.equal(au, 'Bearer ' + k.rt, 'refresh token that was sent', d)
                c.check('refresh_token' not in p, 'refresh token sent twice', d)
            else:
                c.equal(p.get('refresh_token'), k.rt, 'refresh token that was sent', d)
                if fail != 'down':
                    a = r.info.get('auth') or {}
                    c.check(a.get('ok'), 'the client is not authenticated', lambda: '%s %s' % (a, d()))
                    c.equal((a['method'], a['client_id']), (rcall['authn_method'], cid), 'client authentication', d)
            bad = set(p) & (USER_RELATED - {'refresh_token'})
            c.check(not bad, 'user related parameters in a refresh request', lambda: '%s %s' % (bad, d()))
            sent = json.loads(r.resp[2]) if not fail else None
        else:
            res = cl.do_request('resource', key=k.name or 'cc', **kw)
            r = c.net.log[n0]
            c.equal(r.headers.get('authorization'), 'Bearer ' + k.at, 'access token that was used', d)
            c.seen('use', k.n)
            continue
        if fail:
            c.check(err is not None or 'error' in res, 'a failed request looks like a success', lambda: '%s %s' % (short(res), d()))
        else:
            if err is not None:
                raise Violation('request failed', '%r %s' % (err, d()))
            c.equal(res['access_token'], sent['access_token'], 'access token', d)
            if what == 'token':
                k.rt, k.old = None, k.rt
            k.at = sent['access_token']
            k.n += 1
            if 'refresh_token' in sent:
                k.rt = sent['refresh_token']
        c.seen(what, auth, fail, k.n, k.rt is not None, bool(k.name), len(keys))
    # what is remembered under each name
    si = cl.client_get('service_context').state
    for k in keys:
        if k.at is None:
            continue
        got = si.multiple_extend_request_args({}, k.name or 'cc', ['access_token', 'refresh_token'], ['token_response', 'refresh_token_response'])
        c.equal(got.get('access_token'), k.at, 'remembered access token', lambda: str(trail))
        c.equal(got.get('refresh_token'), k.rt, 'remembered refresh token', lambda: str(trail))
    c.ev('client credentials histories')


# ------------------------------------------------------------------ plain OAuth2

def f_code(c, rng, i):
    n = rng.randint(1, 2)
    ops = [opmod.OP(c.net, x, k, tag='as%d' % k) for k, x in enumerate(rng.sample(ISS, n))]
    confs = {}
    for o in ops:
        o.idt_at_token = False
        ao = {}
        if rng.random() < .5:
            ao.update(W.pkce(rng.choice([43, 80, 128])))
        if rng.random() < .4:
            ao.update(W.par(body_format=rng.choice(['jws', 'urlencoded']), merge_rule=rng.choice(['strict', 'lax'])))
        svc = copy.deepcopy(W.OAUTH2_SERVICES)
        if rng.random() < .5:
            cnf = W.static_conf(o, svc=svc, auth=rng.choice(W.AUTHS[:2]), scope=['read', 'write'], add_ons=ao)
        else:
            cnf = W.static_conf(o, svc=svc, discovery=True, scope=['read'], add_ons=ao)
            cnf['behaviour'] = {'response_types': ['code'], 'scope': ['read'], 'token_endpoint_auth_method': rng.choice(W.AUTHS[:2])}
            cnf['client_preferences'] = {}
        # nothing that there is a default for, and nothing the server may leave out
        for k in ('scope', 'response_types', 'token_endpoint_auth_method'):
            if rng.random() < .2:
                if k == 'token_endpoint_auth_method' and cnf['behaviour'][k] != 'client_secret_basic':
                    continue
                del cnf['behaviour'][k]
        if not cnf['behaviour'] and rng.random() < .5:
            del cnf['behaviour']
        if rng.random() < .2:
            o.expires_in = None
        o.with_refresh = rng.random() < .8
        confs[o.issuer] = cnf
    h = W.handler(confs, client_cls=Client)
    live = []
    for _ in range(rng.randint(2, 8)):
        x = rng.random()
        s = rng.choice(live) if live else None
        if s is None or x < .35:
            o = rng.choice(ops)
            scope = rng.choice([None, None, ['read'], ['write'], ['read', 'x:%d' % len(live)]])
            s = W.begin(c, h, o, req_args={'scope': list(scope)} if scope else None)
            W.answer(c, s, mutate=lambda resp, g: {k: v for k, v in resp.items() if k != 'session_state'})
            scope = scope or confs[o.issuer].get('behaviour', {}).get('scope')
            c.check('openid' not in s.req.get('scope', '').split(), 'openid scope in a plain OAuth2 request')
            c.equal(s.req['response_type'], 'code', 'response type')
            c.equal(s.req.get('scope'), ' '.join(scope) if scope else None, 'scope')
            # a response that does not say anything else grants what was asked for
            given = rng.choice([None, None, ['less']])
            resp = dict(s.resp, scope=' '.join(given)) if given else dict(s.resp)
            r = h.issuer2rp[o.issuer].client_get('service', 'authorization').parse_response(resp, sformat='dict', state=s.state)
            got = r.get('scope')
            c.equal(got.split() if isinstance(got, str) else got and list(got), given or (scope and list(scope)),
                    'scope granted by an authorization response')
            live.append(s)
        elif s.result is None:
            if rng.random() < .3:
                # an error, or the response of another session
                other = rng.choice(live)
                if rng.random() < .5:
                    r = h.finalize(s.op.issuer, {'error': 'access_denied', 'state': s.state})
                    c.equal(dict(r), {'state': s.state, 'error': 'access_denied'}, 'result of an error response')
                    live.remove(s)
                    continue
                if other.op is not s.op:
                    c.refused(lambda: h.finalize(s.op.issuer, dict(other.resp)), 'response of another server accepted')
                    continue
            n0 = len(c.net.log)
            W.finalize(c, h, s)
            r = s.result
            c.equal(r['token'], s.grant['ats'][-1], 'access token')
            c.equal(r['state'], s.state, 'state')
            c.equal(r['id_token'], None, 'ID Token in a plain OAuth2 flow')
            c.check(not r['userinfo'], 'user info in a plain OAuth2 flow', short(r['userinfo']))
            new = [(x.method, s.op.match(x)) for x in c.net.log[n0:]]
            c.equal(new, [('POST', 'token_endpoint')], 'requests made by a plain OAuth2 flow')
            c.ev('plain logins')
        elif x < .6 and not s.grant['rts']:
            n0 = len(c.net.log)
            c.refused(lambda: h.refresh_access_token(s.state), 'a refresh without refresh token')
            c.equal(len(c.net.log), n0, 'something was sent')
        elif x < .6:
            s.op.rotate_refresh = rng.random() < .5
            n0 = len(c.net.log)
            want = s.grant['rts'][-1]
            r = h.refresh_access_token(s.state)
            new = c.net.log[n0:]
            c.equal([(x.method, s.op.match(x)) for x in new], [('POST', 'token_endpoint')], 'requests made by a refresh')
            c.equal(new[0].info.get('refresh'), want, 'refresh token sent')
            c.equal(r['access_token'], s.grant['ats'][-1], 'refreshed access token')
        elif x < .8:
            c.equal(h.get_valid_access_token(s.state)[0], s.grant['ats'][-1], 'valid access token')
        else:
            h.clear_session(s.state)
            c.equal(W.record(h, s.state), None, 'cleared session')
            live.remove(s)
        c.seen('plain', n, len(live), bool(s.result), tuple(sorted(confs[s.op.issuer].get('add_ons', {}))))


# ------------------------------------------------------------------ pushed authorization requests

FAILS = ['400', '401', '404', '500', '302', '307', '200 error', 'no request_uri', 'not json', 'down', 'empty']


class Par:
    """A provider and a client of it that pushes its requests."""

    def __init__(self, c, rng, oidc, k, iss):
        self.o = o = opmod.OP(c.net, iss, k, tag='op%d' % k,
                              md={'request_object_signing_alg_values_supported': ['RS256', 'ES256', 'RS384', 'none'],
                                  'request_parameter_supported': True})
        o.par_status = rng.choice([200, 201])
        self.fmt, self.rule = rng.choice(['jws', 'urlencoded']), rng.choice(['strict', 'lax'])
        kw = {'body_format': self.fmt, 'merge_rule': self.rule}
        self.alg = 'RS256'
        if self.fmt == 'jws':
            self.alg = kw['signing_algorithm'] = rng.choice(['RS256', 'ES256', 'RS384', 'PS256', 'HS256', 'HS512'])
        if rng.random() < .3:       # the defaults
            kw = {k: v for k, v in kw.items() if (k, v) not in (('body_format', 'jws'), ('signing_algorithm', 'RS256'), ('merge_rule', 'strict'))}
        ao = W.par(**kw)
        if rng.random() < .5:
            ao.update(W.pkce(rng.choice([43, 90])))
        if rng.random() < .5:
            ao = dict(reversed(list(ao.items())))
        if oidc:
            self.cnf, self.desc = W.gen_conf(rng, o, add_ons=ao, rt=rng.choice(['code', 'code', 'code id_token', 'id_token']),
                                             auth=rng.choice(W.AUTHS))
        else:
            o.idt_at_token = False
            self.cnf = W.static_conf(o, svc=copy.deepcopy(W.OAUTH2_SERVICES), auth=rng.choice(W.AUTHS[:2]), scope=['read'], add_ons=ao)
            self.desc = ('oauth2',)
        if 'pkce' in ao and oidc and 'code' not in self.desc[1].split():
            del self.cnf['add_ons']['pkce']
            del ao['pkce']
        self.ao = ao


def f_par(c, rng, i):
    oidc = rng.random() < .7
    other = opmod.OP(c.net, 'https://elsewhere.example.net', 9)
    pars = [Par(c, rng, oidc, k, iss) for k, iss in enumerate(rng.sample(ISS, rng.choice([1, 2])))]
    hkw = {} if oidc else {'client_cls': Client}
    if rng.random() < .3:       # symmetric keys of its own say nothing to a provider
        hkw['keyjar'] = W.rp_keyjar()
        hkw['keyjar'].add_symmetric('', 'only the relying party knows this one')
    h = W.handler({x.o.issuer: x.cnf for x in pars}, **hkw)
    order = list(pars)
    rng.shuffle(order)
    for x in order:
        if rng.random() < .6:
            h.client_setup(x.o.issuer)
    ss = []
    for _ in range(rng.randint(1, 4)):
        x = rng.choice(pars)
        o, fmt, rule, alg, ao, desc = x.o, x.fmt, x.rule, x.alg, x.ao, x.desc
        args = c04.pick_params(rng, rng.choice([0, 1, 3]), without=('response_mode',)) if oidc else {}
        if oidc and rng.random() < .4:
            args['scope'] = rng.choice([['openid', 'phone'], ['openid', 'address', 'email'], 'openid offline_access'])
        beh = {}
        if oidc and rng.random() < .2:
            beh['request_param'] = 'request'
        fail = rng.choice(FAILS) if rng.random() < .35 else None
        odd = rng.random() < .4
        if fail:
            def hook(rec, res, fail=fail, odd=odd):
                # not a success, whatever the body says
                claim = {'request_uri': 'urn:example:nobody', 'expires_in': 60} if odd else {}
                if fail in ('400', '401', '404'):
                    return jresp({'error': 'invalid_request', **claim}, int(fail))
                if fail == '500':
                    return jresp(claim, 500) if claim else (500, {'Content-Type': 'text/plain'}, 'oops')
                if fail in ('302', '307'):
                    return (int(fail), {'Location': other.base + '/par', 'Content-Type': 'application/json'},
                            json.dumps(claim) if claim else '')
                if fail == '200 error':
                    return jresp({'error': 'invalid_request', 'error_description': 'no'})
                if fail == 'no request_uri':
                    return jresp({'expires_in': 60}, 201)
                if fail == 'not json':
                    return 200, {'Content-Type': 'text/html'}, '<html>welcome</html>'
                if fail == 'empty':
                    return 201, {}, ''
                raise NetFault('down')
            o.hook['pushed_authorization_request_endpoint'] = hook
        else:
            o.hook.clear()
        n0 = len(c.net.log)
        err = s = None
        try:
            s = W.begin(c, h, o, req_args=copy.deepcopy(args) or None, behaviour_args=beh or None)
        except Violation:
            raise
        except Exception as e:
            err = e
        d = lambda: 'format=%s rule=%s alg=%s fail=%s %s %s %r' % (fmt, rule, alg, fail, desc, short(args), err)
        new = [r for r in c.net.log[n0:] if o.match(r) == 'pushed_authorization_request_endpoint']
        c.check(len(new) == 1, 'pushed requests per session', lambda: '%d %s' % (len(new), d()))
        stray = [r.brief() for r in c.net.log[n0:] if not o.match(r)]
        c.check(not stray, 'something went elsewhere', lambda: '%s %s' % (stray, d()))
        r = new[0]
        if r.method != 'POST':
            c.finding('par-request-is-get', '%s %s' % (r.method, r.url))
        c.equal(r.headers.get('content-type'), 'application/x-www-form-urlencoded', 'content type of the pushed request', d)
        c.check(not r.query or r.url == o.md['pushed_authorization_request_endpoint'], 'the pushed request is in the URL', lambda: r.url)
        body = r.params()
        c.ev('pushed requests')
        if fail:
            if err is None:
                q = o.read_authz(s.url)
                c.check('request_uri' not in q, 'a reference was invented', lambda: '%s %s' % (s.url, d()))
                # the full request, that is
                rec = {k: c04.norm(v) for k, v in W.record(h, s.state)['auth_request'].items()}
                if 'request' in q:
                    got = {k: c04.norm(v) for k, v in jose.parts(q['request'])[1].items() if k not in ('iss', 'aud', 'iat', 'exp', 'jti')}
                else:
                    got = c04.wire(q)
                c.equal(got.get('state'), s.state, 'state of a request that was not pushed', d)
                c.equal(got, rec, 'request that was not pushed', d)
                c.ev('failed pushes: full request')
            else:
                c.ev('failed pushes: refused')
            c.seen('failed push', fail, fmt, rule, err is None)
            continue
        if err is not None:
            raise Violation('a pushed request failed', d())
        # what was pushed
        rec = {k: c04.norm(v) for k, v in W.record(h, s.state)['auth_request'].items()}
        cid = rec['client_id']
        if fmt == 'jws':
            c.check('request' in body, 'no request object in the pushed request', d)
            hd, p, inp, sig = jose.parts(body['request'])
            c.equal(hd.get('alg'), alg, 'signing algorithm', d)
            pub = [jose.Key.oct(o.clients[cid]['client_secret'])] if alg.startswith('HS') else W.rp_keys()
            c.check([k for k in pub if jose.verify_raw(alg, k, inp, sig)], 'pushed object does not verify with a key of the client', d)
            c.equal(p.get('iss'), cid, 'issuer of the pushed object', d)
            aud = p.get('aud')
            c.equal([aud] if isinstance(aud, str) else aud, [o.issuer], 'audience of the pushed object', d)
            full = {k: c04.norm(v) for k, v in p.items() if k not in ('iss', 'aud', 'iat', 'exp', 'jti')}
            outside = {k: v for k, v in body.items() if k != 'request'}
            for k, v in outside.items():
                c.equal(v, full.get(k), 'parameter outside the pushed object', lambda: k + d())
            if rule == 'lax':
                need = {'response_type', 'client_id'} | ({'scope', 'redirect_uri'} if oidc else set())
                c.check(need <= set(outside), 'required parameters are missing', lambda: '%s %s' % (sorted(outside), d()))
        else:
            full = c04.wire(dict(body))
        req = full.pop('request', None)
        if beh:
            c.check(req, 'no request object in what was pushed', d)
            inner = {k: c04.norm(v) for k, v in jose.parts(req)[1].items() if k not in ('iss', 'aud', 'iat', 'exp', 'jti')}
            diff = {k: (inner.get(k), rec.get(k)) for k in set(inner) | set(rec) if inner.get(k) != rec.get(k)}
            c.check(not diff, 'pushed request object is not the request', lambda: '%s %s' % (diff, d()))
            for k, v in full.items():
                c.equal(v, rec.get(k), 'pushed parameter', lambda: k + d())
        else:
            diff = {k: (full.get(k), rec.get(k)) for k in set(full) | set(rec) if full.get(k) != rec.get(k)}
            c.check(not diff, 'pushed request is not the request', lambda: '%s %s' % (diff, d()))
        for k, v in args.items():
            if k != 'scope' and not beh:
                c.equal(full.get(k), c04.norm(v), 'requested parameter in what was pushed', lambda: k + d())
        if 'pkce' in ao:
            c.check('code_challenge' in (full if not beh else inner), 'no code challenge in what was pushed', d)
        # what the browser carries
        q = o.read_authz(s.url)
        c.equal(q.get('request_uri'), r.info['request_uri'], 'reference in the URL', d)
        c.equal(q.get('client_id'), cid, 'client_id in the URL', d)
        rest = set(q) - {'request_uri', 'client_id'}
        if rule == 'strict':
            c.check(not rest, 'the URL carries more than the reference', lambda: '%s %s' % (sorted(rest), d()))
        else:
            allowed = {'response_type', 'client_id', 'scope', 'redirect_uri'}
            c.check(rest <= allowed, 'the URL carries more than the required parameters', lambda: '%s %s' % (sorted(rest), d()))
            for k in rest:
                c.equal(q[k], rec.get(k), 'required parameter in the URL', lambda: k + d())
        s.beh = beh
        ss.append(s)
        c.seen('pushed', len(pars), fmt, rule, alg, desc, o.par_status, bool(beh), tuple(sorted(args)))
    uris = [(s.op.issuer, s.op.read_authz(s.url)['request_uri']) for s in ss]
    c.equal(len(set(uris)), len(uris), 'reference used for two sessions')
    rng.shuffle(ss)
    for s in ss:
        W.answer(c, s)
        c.equal(s.req.get('state'), s.state, 'the reference is of another session')
        W.finalize(c, h, s)
        W.check_result(c, s)
        c.ev('logins with a pushed request')


def run(r):
    r.rule = ('A case is a history of token and refresh requests of a client-credentials client, of plain OAuth2 sessions, or of '
              'sessions with pushed requests; distinct by operation, authentication, failure, format, rule and parameters.')
    r.assumptions = ['the pushed authorization request endpoint accepts the method and the missing client authentication of a push (known finding)']
    r.cases('cc', 300, f_cc, thorough=12000, share=.35)
    r.cases('code', 150, f_code, thorough=5000, share=.4)
    r.cases('par', 250, f_par, thorough=9000)
