"""A strict fake OpenID Provider / OAuth2 authorization server.

It records, per request, what a strict implementation of the specifications
understood, and refuses what such an implementation would refuse.
"""
import base64
import hashlib
import json
import threading
from urllib.parse import parse_qsl, unquote_plus, urlsplit

import jose
from net import ProtocolError, jresp
from vclock import CLOCK

JWT_BEARER = 'urn:ietf:params:oauth:client-assertion-type:jwt-bearer'
ALL_RT = ['code', 'token', 'id_token', 'id_token token', 'code id_token', 'code token', 'code id_token token', 'none']

_pool = {}
_pool_lock = threading.Lock()


def pool_key(kind, n):
    """Keys are expensive: one per (kind, number) and process."""
    with _pool_lock:
        k = _pool.get((kind, n))
        if k is None:
            kid = '%s%s' % (kind.lower().replace('-', ''), n)
            k = jose.Key.rsa(kid) if kind == 'RSA' else jose.Key.ec(kid, kind)
            _pool[(kind, n)] = k
        return k


# an ID Token with everything about the user in it
FULL = {'given_name': 'Other', 'family_name': 'Person', 'middle_name': 'M', 'nickname': 'Nick', 'preferred_username': 'op',
        'profile': 'https://people.example.org/op', 'picture': 'https://people.example.org/op.png', 'gender': 'x',
        'website': 'https://op.example.org/', 'email': 'other@example.org', 'email_verified': True, 'birthdate': '0000-02-29',
        'zoneinfo': 'Europe/Stockholm', 'locale': 'sv-SE', 'phone_number': '+46 90', 'phone_number_verified': False,
        'address': {'formatted': 'Road 1\nTown'}, 'updated_at': 1500000000}


class OP:
    def __init__(self, net, issuer, keyno=0, md=None, drop_md=(), idt_alg='RS256', prefix='', tag=None,
                 rsa_only=False):
        self.net, self.issuer, self.keyno = net, issuer, keyno
        self.base = issuer.rstrip('/') + prefix
        self.tag = tag or 'op%d' % keyno
        self.rsa = pool_key('RSA', keyno)
        self.ec = pool_key('P-256', keyno)
        self.idt_alg = idt_alg
        self.md = {
            'issuer': issuer,
            'authorization_endpoint': self.base + '/authorize',
            'token_endpoint': self.base + '/token',
            'userinfo_endpoint': self.base + '/userinfo',
            'registration_endpoint': self.base + '/register',
            'end_session_endpoint': self.base + '/end_session',
            'pushed_authorization_request_endpoint': self.base + '/par',
            'jwks_uri': self.base + '/jwks.json',
            'response_types_supported': ALL_RT,
            'subject_types_supported': ['public', 'pairwise'],
            'id_token_signing_alg_values_supported': ['RS256', 'ES256', 'PS256', 'RS384', 'HS256', 'none'],
            'token_endpoint_auth_methods_supported': ['client_secret_basic', 'client_secret_post',
                                                      'client_secret_jwt', 'private_key_jwt'],
            'scopes_supported': ['openid', 'email', 'profile', 'offline_access', 'address', 'phone'],
            'grant_types_supported': ['authorization_code', 'implicit', 'refresh_token',
                                      'client_credentials'],
        }
        self.md.update(md or {})
        for k in drop_md:
            self.md.pop(k, None)
        self.clients = {}          # client_id -> dict
        self.grants = {}           # code -> grant
        self.access = {}           # access token -> grant
        self.refresh = {}          # refresh token -> grant
        self.par = {}              # request_uri -> params
        self.issued = []           # (kind, value, grant)
        self.n = 0
        self.lock = threading.RLock()
        # policies
        self.expires_in = 3600
        self.with_refresh = True
        self.rotate_refresh = True
        self.idt_at_token = True
        self.idt_on_refresh = False
        self.idt_lifetime = 600
        self.userinfo_format = 'json'
        self.ui_alg = None
        self.strict_client = True
        self.fetch = None          # request_uri -> text
        self.par_status = 201
        self.sub_of = lambda grant: 'sub-%s-%s' % (self.tag, grant['no'])
        self.extra_claims = {}
        self.ui_claims = {}
        self.sid = False
        self.hook = {}             # endpoint -> callable(rec, response tuple) -> response tuple
        self.grant_hook = None
        u = urlsplit(issuer)
        self.origin = u.scheme + '://' + u.netloc
        for url in [issuer] + [v for k, v in self.md.items() if k.endswith('_endpoint') or k == 'jwks_uri']:
            o = urlsplit(url)
            d = net.hosts.setdefault((o.scheme, o.netloc), Mux())
            d.add(self)

    # -- helpers -----------------------------------------------------------
    def fresh(self, kind):
        with self.lock:
            self.n += 1
            return '%s.%s.%d.%s' % (kind, self.tag, self.n,
                                    hashlib.sha256(('%s%s%s' % (kind, self.tag, self.n)).encode()).hexdigest()[:12])

    def jwks(self):
        return {'keys': [self.rsa.jwk(), self.ec.jwk()]}

    def add_client(self, client_id, secret='', redirect_uris=None, jwks=None, **kw):
        self.clients[client_id] = dict(client_id=client_id, client_secret=secret, redirect_uris=redirect_uris,
                                       jwks=jwks, reg=kw)

    def key_for(self, alg, client_id=None):
        if alg[:2] in ('RS', 'PS'):
            return self.rsa
        if alg[:2] == 'ES':
            return self.ec
        if alg[:2] == 'HS':
            return jose.Key.oct(self.clients[client_id]['client_secret'])
        return None

    def alg_for(self, client_id):
        return self.clients.get(client_id, {}).get('reg', {}).get('id_token_signed_response_alg') or self.idt_alg

    def claims(self, grant, **kw):
        now = int(CLOCK.now)
        c = {'iss': self.issuer, 'sub': grant['sub'], 'aud': [grant['client_id']], 'iat': now,
             'exp': now + self.idt_lifetime}
        if grant.get('nonce') is not None:
            c['nonce'] = grant['nonce']
        if self.sid:
            c['sid'] = grant['sid']
        # some ID Tokens say more than they have to
        c.update([{}, {'email': 'other-e%d@%s' % (grant['no'], self.tag), 'preferred_username': 'U%d' % grant['no']},
                  {'auth_time': now - 7, 'acr': '2', 'amr': ['pwd', 'otp']}, dict(FULL, name='Other name', x_more=['a', 1]), {}][grant['no'] % 5])
        c.update(self.extra_claims)
        c.update(kw)
        return {k: v for k, v in c.items() if v is not None}

    def id_token(self, grant, code=None, access_token=None, alg=None, **kw):
        alg = alg or self.alg_for(grant['client_id'])
        c = self.claims(grant)
        if code:
            c['c_hash'] = jose.left_hash(alg, code)
        if access_token:
            c['at_hash'] = jose.left_hash(alg, access_token)
        c.update(kw)
        return jose.jws(c, alg, self.key_for(alg, grant['client_id']))

    # -- front channel -----------------------------------------------------
    def read_authz(self, url):
        """Parse an authorization request URL as a strict server. Returns (params, info)."""
        ep = self.md['authorization_endpoint']
        e, u = urlsplit(ep), urlsplit(url)
        if (u.scheme, u.netloc, u.path) != (e.scheme, e.netloc, e.path):
            raise ProtocolError('authorization request not sent to the authorization endpoint: %s' % url)
        q = parse_qsl(u.query, keep_blank_values=True)
        eq = parse_qsl(e.query, keep_blank_values=True)
        for pair in eq:
            if pair not in q:
                raise ProtocolError('query part of the authorization endpoint lost: %s' % url)
            q.remove(pair)
        res = {}
        for k, v in q:
            if k in res:
                raise ProtocolError('repeated parameter %r: %s' % (k, url))
            res[k] = v
        return res

    def resolve(self, params):
        """Resolve request/request_uri. Returns the effective parameters."""
        eff = dict(params)
        if 'request_uri' in params and params['request_uri'] in self.par:
            eff = dict(self.par[params['request_uri']])
            eff.setdefault('client_id', params.get('client_id'))
            return eff
        obj = params.get('request')
        if 'request_uri' in params:
            obj = self.fetch(params['request_uri'])
        if obj:
            h, p, _, _ = jose.parts(obj)
            for k, v in p.items():
                if k in ('iss', 'aud', 'exp', 'iat', 'jti', 'nbf'):
                    continue
                if k == 'max_age' or not isinstance(v, (list, dict)):
                    eff[k] = str(v) if isinstance(v, int) else v
                elif isinstance(v, list):
                    eff[k] = ' '.join(v)
                else:
                    eff[k] = json.dumps(v)
        return eff

    def authorize(self, url, sub=None, params=None, mutate=None):
        """What the user agent and the provider do. Returns (redirect_uri, response params)."""
        params = params or self.resolve(self.read_authz(url))
        cid = params.get('client_id')
        if cid not in self.clients:
            raise ProtocolError('unknown client_id %r at %s' % (cid, self.issuer))
        cl = self.clients[cid]
        ru = params.get('redirect_uri')
        if not ru:
            raise ProtocolError('no redirect_uri in authorization request')
        if cl['redirect_uris'] is not None and ru not in cl['redirect_uris']:
            raise ProtocolError('redirect_uri %r not registered: %r' % (ru, cl['redirect_uris']))
        rt = set(params.get('response_type', '').split())
        with self.lock:
            no = len(self.issued)
            grant = {'no': no, 'client_id': cid, 'redirect_uri': ru, 'nonce': params.get('nonce'),
                     'state': params.get('state'), 'scope': params.get('scope', ''),
                     'challenge': params.get('code_challenge'), 'method': params.get('code_challenge_method'),
                     'rt': rt, 'params': params, 'used': False, 'ats': [], 'rts': [], 'idts': [], 'op': self}
            grant['sid'] = 'sid-%s-%d' % (self.tag, no)
            grant['sub'] = sub or self.sub_of(grant)
            self.issued.append(grant)
        if self.grant_hook:
            self.grant_hook(grant)
        resp = {'state': params.get('state')}
        code = at = None
        if 'code' in rt:
            code = resp['code'] = self.fresh('code')
            grant['code'] = code
            self.grants[code] = grant
        if 'token' in rt:
            at = self.new_at(grant)
            resp.update(access_token=at, token_type='Bearer')
            if self.expires_in is not None:
                resp['expires_in'] = str(self.expires_in)
        if 'id_token' in rt:
            resp['id_token'] = self.id_token(grant, code, at)
            grant['idts'].append(resp['id_token'])
        if 'openid' in (params.get('scope') or '').split():
            resp['session_state'] = 'ss-' + grant['sid']
        grant['authz_response'] = resp
        if mutate:
            resp = mutate(resp, grant)
        return ru, resp, grant

    def new_at(self, grant):
        at = self.fresh('at')
        grant['ats'].append(at)
        self.access[at] = grant
        return at

    def new_rt(self, grant):
        rt = self.fresh('rt')
        grant['rts'].append(rt)
        self.refresh[rt] = grant
        return rt

    # -- back channel ------------------------------------------------------
    ENDPOINTS = ['token_endpoint', 'userinfo_endpoint', 'registration_endpoint',
                 'pushed_authorization_request_endpoint', 'jwks_uri', 'end_session_endpoint',
                 'authorization_endpoint']

    def match(self, rec):
        if rec.base in (self.issuer.rstrip('/') + '/.well-known/openid-configuration',):
            return 'discovery'
        if rec.path == '/.well-known/webfinger' and rec.scheme + '://' + rec.netloc == self.origin:
            return 'webfinger'
        for name in self.ENDPOINTS:
            ep = self.md.get(name)
            if not ep:
                continue
            e = urlsplit(ep)
            if (rec.scheme, rec.netloc, rec.path) == (e.scheme, e.netloc, e.path):
                if all(x in rec.query for x in parse_qsl(e.query, keep_blank_values=True)):
                    return name
        return None

    def client_auth(self, rec, params):
        """Which client is this, and how did it prove it? Sets rec.info['auth']."""
        methods = []
        auth = rec.headers.get('authorization', '')
        res = {'method': None, 'client_id': None, 'ok': False, 'why': ''}
        if auth.startswith('Basic '):
            try:
                u, p = base64.b64decode(auth[6:], validate=True).decode('utf-8').split(':', 1)
                u, p = unquote_plus(u), unquote_plus(p)
                c = self.clients.get(u)
                methods.append(('client_secret_basic', u, bool(c) and c['client_secret'] == p))
            except Exception as err:
                methods.append(('client_secret_basic', None, False))
                res['why'] = repr(err)
        if 'client_secret' in params:
            c = self.clients.get(params.get('client_id'))
            methods.append(('client_secret_post', params.get('client_id'),
                            bool(c) and c['client_secret'] == params['client_secret']))
        if 'client_assertion' in params:
            m, cid, ok, why = self.check_assertion(params)
            res['why'] = why
            methods.append((m, cid, ok))
        if len(methods) > 1:
            res['why'] = 'more than one client authentication method: %r' % (methods,)
            res['method'] = '+'.join(m[0] for m in methods)
        elif methods:
            res['method'], res['client_id'], res['ok'] = methods[0]
        else:
            res['client_id'] = params.get('client_id')
            res['method'] = 'none'
            res['ok'] = res['client_id'] in self.clients and not self.clients[res['client_id']]['client_secret']
        rec.info['auth'] = res
        return res

    def client_keys(self, cid):
        c = self.clients[cid]
        jw = c.get('jwks') or {}
        if callable(jw):
            jw = jw()
        return [jose.Key.from_jwk(k) for k in jw.get('keys', [])]

    def check_assertion(self, params):
        a = params['client_assertion']
        try:
            h, p, inp, sig = jose.parts(a)
        except Exception as err:
            return 'assertion', None, False, 'unparsable assertion %r' % err
        alg = h.get('alg', '')
        cid = p.get('sub')
        method = 'client_secret_jwt' if alg.startswith('HS') else 'private_key_jwt'
        if params.get('client_assertion_type') != JWT_BEARER:
            return method, cid, False, 'client_assertion_type %r' % params.get('client_assertion_type')
        if cid not in self.clients or p.get('iss') != cid:
            return method, cid, False, 'iss/sub %r/%r' % (p.get('iss'), cid)
        if 'client_id' in params and params['client_id'] != cid:
            return method, cid, False, 'client_id is not the sub of the assertion'
        aud = p.get('aud')
        aud = [aud] if isinstance(aud, str) else aud or []
        if self.md['token_endpoint'] not in aud:
            return method, cid, False, 'audience %r' % aud
        now = CLOCK.now
        if not isinstance(p.get('exp'), int) or p['exp'] <= now or p['exp'] > now + 3600:
            return method, cid, False, 'exp %r' % p.get('exp')
        if 'iat' in p and not (now - 5 <= p['iat'] <= now + 5):
            return method, cid, False, 'iat %r' % p.get('iat')
        jti = p.get('jti')
        seen = self.__dict__.setdefault('jtis', set())
        if not jti or jti in seen:
            return method, cid, False, 'jti %r' % jti
        seen.add(jti)
        keys = [jose.Key.oct(self.clients[cid]['client_secret'])] if alg.startswith('HS') else self.client_keys(cid)
        if alg == 'none' or not any(jose.verify_raw(alg, k, inp, sig) for k in keys):
            return method, cid, False, 'signature (%s) does not verify' % alg
        params['_assertion'] = (h, p)
        return method, cid, True, ''

    def classify(self, rec):
        if rec.endpoint is None:
            rec.endpoint = self.match(rec)
            if rec.endpoint:
                rec.op = self
        return rec.endpoint

    def __call__(self, rec):
        name = self.classify(rec)
        if name is None:
            rec.endpoint = 'unknown'
            rec.op = self
            return 404, {'Content-Type': 'text/plain'}, 'not here'
        with self.lock:
            res = getattr(self, 'do_' + name)(rec)
        h = self.hook.get(name)
        if h:
            res = h(rec, res)
        return res

    def do_discovery(self, rec):
        return jresp(self.md)

    def do_webfinger(self, rec):
        q = dict(rec.query)
        return jresp({'subject': q.get('resource'), 'links': [
            {'rel': 'http://openid.net/specs/connect/1.0/issuer', 'href': self.issuer}]},
            ctype='application/jrd+json')

    def do_jwks_uri(self, rec):
        return jresp(self.jwks())

    def do_registration_endpoint(self, rec):
        if rec.method != 'POST':
            return jresp({'error': 'invalid_request'}, 400)
        req = json.loads(rec.body)
        rec.info['req'] = req
        resp = dict(req)
        cid = self.fresh('cid')
        secret = self.fresh('secret') + '0123456789abcdef0123456789'
        resp.update(client_id=cid, client_secret=secret, client_secret_expires_at=int(CLOCK.now) + 86400,
                    client_id_issued_at=int(CLOCK.now))
        self.clients[cid] = dict(client_id=cid, client_secret=secret, redirect_uris=req.get('redirect_uris'),
                                 jwks=req.get('jwks'), reg=resp)
        if 'jwks' not in req and getattr(self, 'rp_jwks', None):
            self.clients[cid]['jwks'] = self.rp_jwks
        return jresp(resp, 201)

    def err(self, code, status=400, desc=None):
        d = {'error': code}
        if desc:
            d['error_description'] = ''.join(c for c in desc if c.isalnum() or c in ' _-./:')[:200]
        return jresp(d, status)

    def do_token_endpoint(self, rec):
        if rec.method != 'POST' or 'application/x-www-form-urlencoded' not in rec.headers.get('content-type', ''):
            return self.err('invalid_request', desc='not a form POST')
        params = rec.params()
        rec.info['params'] = params
        gt = params.get('grant_type')
        auth = self.client_auth(rec, params)
        bearer = rec.headers.get('authorization', '')
        if gt == 'refresh_token':
            tok = params.get('refresh_token')
            if tok is None and bearer.startswith('Bearer '):
                tok = bearer[7:]
                auth = dict(ok=True, client_id=self.refresh.get(tok, {}).get('client_id'))
            g = self.refresh.get(tok)
            if g is None:
                return self.err('invalid_grant', desc='unknown refresh token')
            rec.info.update(grant=g, refresh=tok)
            if self.strict_client and (not auth['ok'] or auth['client_id'] != g['client_id']):
                return self.err('invalid_client', 401, auth.get('why', ''))
            resp = {'access_token': self.new_at(g), 'token_type': 'Bearer'}
            if self.rotate_refresh:
                resp['refresh_token'] = self.new_rt(g)
            if self.idt_on_refresh and g.get('sub'):
                resp['id_token'] = self.id_token(g)
                g['idts'].append(resp['id_token'])
        elif gt == 'authorization_code':
            g = self.grants.get(params.get('code'))
            if g is None:
                return self.err('invalid_grant', desc='unknown code')
            rec.info.update(grant=g)
            if self.strict_client and (not auth['ok'] or auth['client_id'] != g['client_id']):
                return self.err('invalid_client', 401, auth.get('why', ''))
            if g['used']:
                return self.err('invalid_grant', desc='code used')
            if params.get('redirect_uri') != g['redirect_uri']:
                return self.err('invalid_grant', desc='redirect_uri')
            if g['challenge']:
                v = params.get('code_verifier', '')
                hn = {'S256': 'sha256', 'S384': 'sha384', 'S512': 'sha512'}.get(g['method'])
                if not hn or jose.b64e(hashlib.new(hn, v.encode()).digest()) != g['challenge']:
                    return self.err('invalid_grant', desc='PKCE')
            g['used'] = True
            resp = {'access_token': self.new_at(g), 'token_type': 'Bearer', 'scope': g['scope']}
            if self.with_refresh:
                resp['refresh_token'] = self.new_rt(g)
            if self.idt_at_token and 'openid' in g['scope'].split():
                resp['id_token'] = self.id_token(g)
                g['idts'].append(resp['id_token'])
        elif gt == 'client_credentials':
            if not auth['ok']:
                return self.err('invalid_client', 401, auth['why'])
            g = {'no': -1, 'client_id': auth['client_id'], 'ats': [], 'rts': [], 'idts': [], 'op': self,
                 'scope': params.get('scope', '')}
            rec.info.update(grant=g)
            resp = {'access_token': self.new_at(g), 'token_type': 'Bearer'}
            if self.with_refresh:
                resp['refresh_token'] = self.new_rt(g)
        else:
            return self.err('unsupported_grant_type')
        if self.expires_in is not None:
            resp['expires_in'] = self.expires_in
        g['last'] = resp
        return jresp(resp)

    def ui_for(self, grant):
        ui = {'sub': grant['sub'], 'name': 'Name of ' + grant['sub'], 'email': 'e%d@%s' % (grant['no'], self.tag)}
        ui.update(self.ui_claims)
        return ui

    def do_userinfo_endpoint(self, rec):
        auth = rec.headers.get('authorization', '')
        tok = auth[7:] if auth.startswith('Bearer ') else None
        if tok is None and rec.body:
            tok = dict(rec.form()).get('access_token')
        rec.info['token'] = tok
        g = self.access.get(tok)
        if g is None:
            return self.err('invalid_token', 401)
        rec.info['grant'] = g
        ui = self.ui_for(g)
        g['ui'] = ui
        if self.userinfo_format == 'jwt':
            alg = self.ui_alg or 'RS256'
            p = dict(ui, iss=self.issuer, aud=[g['client_id']])
            return 200, {'Content-Type': 'application/jwt'}, jose.jws(p, alg, self.key_for(alg, g['client_id']))
        return jresp(ui)

    def do_pushed_authorization_request_endpoint(self, rec):
        p = rec.params()
        rec.info['params'] = p
        eff = dict(p)
        if 'request' in p:
            eff = self.resolve({'request': p['request'], **{k: v for k, v in p.items() if k != 'request'}})
            if eff.get('request') not in (None, p['request']):
                # the pushed object is a request that has a request object
                eff = self.resolve(eff)
        uri = 'urn:ietf:params:oauth:request_uri:' + self.fresh('par')
        eff.pop('request', None)
        self.par[uri] = eff
        rec.info['request_uri'] = uri
        return jresp({'request_uri': uri, 'expires_in': 60}, self.par_status)

    def do_end_session_endpoint(self, rec):
        return 200, {'Content-Type': 'text/html'}, '<html>bye</html>'

    def do_authorization_endpoint(self, rec):
        return 200, {'Content-Type': 'text/html'}, '<html>login</html>'


class Mux:
    """Several providers may live on one host."""

    def __init__(self):
        self.ops = []

    def add(self, op):
        if op not in self.ops:
            self.ops.append(op)

    def classify(self, rec):
        for op in self.ops:
            if op.classify(rec):
                return rec.endpoint

    def __call__(self, rec):
        for op in self.ops:
            if op.match(rec):
                return op(rec)
        return self.ops[0](rec)


class Prov(OP):
    """With a configuration endpoint for clients."""

    def do_registration_endpoint(self, rec):
        res = OP.do_registration_endpoint(self, rec)
        if res[0] == 201:
            r = json.loads(res[2])
            r['registration_access_token'] = self.fresh('rat')
            r['registration_client_uri'] = self.base + '/register/' + r['client_id']
            self.clients[r['client_id']]['rat'] = r['registration_access_token']
            self.clients[r['client_id']]['last'] = r
            res = (201, res[1], json.dumps(r))
        return res

    def match(self, rec):
        if rec.base.startswith(self.base + '/register/'):
            return 'registration_client'
        return OP.match(self, rec)

    def do_registration_client(self, rec):
        cid = rec.base[len(self.base + '/register/'):]
        cl = self.clients.get(cid)
        if rec.headers.get('authorization') != 'Bearer ' + cl['rat']:
            return self.err('invalid_token', 401)
        rec.info['ok'] = True
        return jresp(cl['last'])
