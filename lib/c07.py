"""C07: client authentication proves the right client and leaks no secret."""
import base64
import copy
import json
import os
from urllib.parse import quote, quote_plus

import jose
import op as opmod
import world
from core import Violation, short
from vclock import CLOCK

from cryptojwt.key_jar import build_keyjar

RULE = ('A case is a history of logins, refreshes and user info requests of clients with different authentication methods at '
        'several strict providers; every authenticated request is verified as a provider would, and all traffic is searched '
        'for secrets. Non-trivial: an authenticated request that was verified; distinct by (method, algorithm, where it was '
        'decided, set-up, grant type, shape of the credentials).')
ASSUMPTIONS = ['the secret of a client is at least 16 characters, so that finding it in a request is no accident',
               'the token endpoint is the audience of client assertions']

ISS = ['https://op.example.com', 'https://login.example.net:8443/x', 'https://third.example.org/']
HS, PK = ['HS256', 'HS384', 'HS512'], ['RS256', 'RS384', 'RS512', 'ES256', 'PS256']
SECRET_CHARS = ('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'
                ':%+&=/?#;@!$\'()*,"<>[]{}|\\^~`-_. ')


def gen_cred(rng, shape):
    if shape == 'plain':
        return 'client%d' % rng.randrange(10 ** 6), ''.join(rng.choice('abcdef0123456789') for _ in range(40))
    if shape == 'ascii':
        return (''.join(rng.choice(SECRET_CHARS) for _ in range(rng.randint(3, 20))),
                ''.join(rng.choice(SECRET_CHARS) for _ in range(rng.randint(16, 60))))
    if shape == 'url':
        return 'https://rp.example.org/?a=1&b=%d' % rng.randrange(100), 'p+q/r=s&t%20u:v' + '%030x' % rng.getrandbits(120)
    if shape == 'basic62':     # values whose base64 has + and /
        return 'id>>>???~~~' + str(rng.randrange(100)), '?>~' * 10 + str(rng.randrange(1000)) + '~~~>>>'
    return 'kl\u00edent-\u4e2d%d' % rng.randrange(100), 'h\u00e9mlig\u00f6 \u20ac:%' + '%030x' % rng.getrandbits(120)


SHAPES = ['plain', 'ascii', 'url', 'basic62', 'unicode']


def variants(cid, secret):
    both = (cid + ':' + secret).encode()
    qboth = (quote_plus(cid) + ':' + quote_plus(secret)).encode()
    v = {secret, quote(secret), quote(secret, safe=''), quote_plus(secret), json.dumps(secret)[1:-1]}
    for b in (secret.encode(), both, qboth):
        v.add(base64.b64encode(b).decode().rstrip('='))
        v.add(base64.urlsafe_b64encode(b).decode().rstrip('='))
    return {x for x in v if len(x) >= 8}


class World:
    def __init__(self, c, rng, n, rt=None, auth=None, kinds=None):
        os.chdir(c.dir)
        self.c, self.rng = c, rng
        self.ops, self.info, confs = [], {}, {}
        for k, iss in enumerate(rng.sample(ISS, n)):
            md = {'request_parameter_supported': True, 'request_object_signing_alg_values_supported': ['RS256']}
            m = auth or rng.choice(world.AUTHS)
            src = rng.choice(['pref', 'provider'])
            algs = HS if m == 'client_secret_jwt' else PK
            alg, sup = None, None
            prefs = {}
            if m.endswith('_jwt'):
                if src == 'pref':
                    alg = {rng.choice(algs)}
                    prefs['token_endpoint_auth_signing_alg'] = list(alg)[0]
                    if rng.random() < .5:
                        sup = rng.sample(HS + PK, len(HS + PK))
                else:
                    alg = set(rng.sample(algs, rng.randint(1, 3)))
                    sup = list(alg) + rng.sample([x for x in HS + PK if x not in algs], rng.randint(0, 2))
                    rng.shuffle(sup)
            if sup:
                md['token_endpoint_auth_signing_alg_values_supported'] = sup
            o = opmod.OP(c.net, iss, k, md=md, tag='op%d' % k)
            o.idt_on_refresh = rng.random() < .3
            kind = rng.choice(kinds or ['static', 'static+discovery', 'dynamic'])
            shape = rng.choice(SHAPES)
            cid, secret = gen_cred(rng, shape)
            r = rt or rng.choice(['code', 'code', 'code id_token', 'code token'])
            kw = dict(kind=kind, rt=r, auth=m, add_ons={} if rng.random() < .7 else world.pkce(), prefs=prefs)
            inf = dict(method=m, algs=alg, src=src, kind=kind, shape=shape, cid=cid, secret=secret)
            if kind == 'dynamic':
                # algorithms for other purposes
                md = o.md
                for k2, sup2, vals in (('request_object_signing_alg', 'request_object_signing_alg_values_supported', ['RS256', 'ES256', 'PS256']),
                                       ('id_token_signed_response_alg', 'id_token_signing_alg_values_supported', ['RS256', 'ES256', 'PS256'])):
                    if rng.random() < .4:
                        prefs[k2] = rng.choice(vals)
                        md[sup2] = vals
                inf['reg'] = rng.choice(['echo', 'echo', 'omit', 'other'])
                o.hook['registration_endpoint'] = self.granter(o, inf)
                cnf, _ = world.gen_conf(rng, o, **kw)
                if src == 'provider' or m in ('client_secret_basic', 'client_secret_post'):
                    cnf['client_preferences'].pop('token_endpoint_auth_signing_alg', None)
            else:
                cnf, _ = world.gen_conf(rng, o, client_id=cid, secret=secret, **kw)
                if src == 'provider':
                    (cnf.get('client_preferences') or {}).pop('token_endpoint_auth_signing_alg', None)
                if kind == 'static' and rng.random() < .3:
                    if m == 'client_secret_basic' and rng.random() < .5:
                        del cnf['behaviour']['token_endpoint_auth_method']      # what it is when nothing is said
                    else:
                        cnf['behaviour']['token_endpoint_auth_method'] = [m] + rng.sample(
                            [x for x in world.AUTHS if x != m], rng.randint(0, 2))
            self.ops.append(o)
            self.info[iss] = inf
            confs[iss] = cnf
        self.h = world.handler(confs)
        self.sess, self.seen = [], 0

    def granter(self, o, inf):
        def hook(rec, res):
            req = rec.info['req']
            reg = json.loads(res[2])
            c0 = o.clients.pop(reg['client_id'])
            reg.update(client_id=inf['cid'], client_secret=inf['secret'])
            if inf['reg'] == 'omit':
                # what is left out has the value that the specification says
                reg.pop('token_endpoint_auth_method', None)
                if inf['method'] != 'client_secret_basic':
                    reg['token_endpoint_auth_method'] = inf['method']
            elif inf['reg'] == 'other':
                other = [m for m in world.AUTHS if m != inf['method']]
                if not inf['algs']:
                    other = ['client_secret_post', 'client_secret_basic']
                    other.remove(inf['method'])
                    inf['method'] = reg['token_endpoint_auth_method'] = other[0]
                else:
                    inf['method'] = reg['token_endpoint_auth_method'] = self.rng.choice(
                        ['client_secret_basic', 'client_secret_post'])
                    inf['algs'] = None
            if inf['algs'] and self.rng.random() < .5:
                # the algorithm is decided by the registration
                inf['algs'] = {self.rng.choice(HS if inf['method'] == 'client_secret_jwt' else PK)}
                reg['token_endpoint_auth_signing_alg'] = list(inf['algs'])[0]
                inf['src'] = 'registered'
            o.clients[inf['cid']] = dict(c0, client_id=inf['cid'], client_secret=inf['secret'], reg=reg)
            return 201, res[1], json.dumps(reg)
        return hook

    # -- steps
    def begin(self):
        o = self.rng.choice(self.ops)
        kw = {}
        if self.rng.random() < .2:
            kw['behaviour_args'] = {'request_param': 'request'}
        s = world.begin(self.c, self.h, o, **kw)
        s.stage = 'begun'
        for iss, inf in self.info.items():
            for v in variants(inf['cid'], inf['secret']):
                self.c.check(v not in s.url, 'secret in an authorization request', s.url)
            if 'request=' in s.url:
                p = jose.parts(o.read_authz(s.url)['request'])[1]
                self.c.check(inf['secret'] not in json.dumps(p, ensure_ascii=False), 'secret in a request object')
        self.sess.append(s)
        self.watch()

    def pick(self, *st):
        x = [s for s in self.sess if s.stage in st]
        return self.rng.choice(x) if x else None

    def finish(self):
        s = self.pick('begun')
        if s:
            world.answer(self.c, s)
            CLOCK.advance(self.rng.choice([0, 0, 1, 30, 700]))
            s.grant['idts'] = []
            if 'id_token' in s.resp:
                s.resp['id_token'] = s.op.id_token(s.grant, s.resp.get('code'), s.resp.get('access_token'))
            world.finalize(self.c, self.h, s)
            world.check_result(self.c, s)
            s.stage = 'done'
            self.watch()

    def refresh(self):
        s = self.pick('done')
        if s and s.grant['rts']:
            CLOCK.advance(self.rng.choice([0, 1, 1000]))
            self.h.refresh_access_token(s.state)
            self.watch()

    def userinfo(self):
        s = self.pick('done')
        if s:
            self.h.get_user_info(s.state, access_token=s.grant['ats'][-1])
            self.watch()

    def explicit(self):
        """The caller names the method."""
        s = self.pick('done')
        if not s or not s.grant['rts']:
            return
        inf = self.info[s.op.issuer]
        m = self.rng.choice(['client_secret_basic', 'client_secret_post'])
        cl = self.h.get_client_from_session_key(s.state)
        if self.rng.random() < .3:      # or leaves it to the configuration
            cl.do_request('refresh_token', state=s.state)
            self.watch()
            return
        cl.do_request('refresh_token', authn_method=m, state=s.state)
        self.watch(m)

    def watch(self, method=None):
        c = self.c
        for rec in c.net.log[self.seen:]:
            text = rec.text()
            own = None
            if rec.endpoint == 'token_endpoint':
                inf = self.info[rec.op.issuer]
                want = method or inf['method']
                a = rec.info.get('auth') or {}
                c.equal(a.get('method'), want, 'client authentication method', inf)
                c.check(a['ok'], 'client authentication does not prove the client', '%s %s' % (a['why'], inf))
                c.equal(a['client_id'], inf['cid'], 'other client')
                p = rec.info['params']
                hdr = p.pop('_assertion', (None, None))[0]
                if want.endswith('_jwt'):
                    c.check(hdr['alg'] in inf['algs'], 'signing algorithm of the assertion',
                            '%s not in %s (%s)' % (hdr['alg'], inf['algs'], inf['src']))
                    c.check('authorization' not in rec.headers, 'Authorization header beside an assertion')
                    c.check('client_secret' not in p, 'secret in the body')
                    ap = jose.parts(p['client_assertion'])[1]
                    aud = ap['aud'] if isinstance(ap['aud'], list) else [ap['aud']]
                    c.equal(aud, [rec.op.md['token_endpoint']], 'audience of the assertion')
                    if hdr.get('kid') and want == 'private_key_jwt':
                        used = [k for k in world.rp_keys() if jose.check(p['client_assertion'], [k])]
                        c.check(hdr['kid'] in [k.kid for k in used], 'kid of another key')
                elif want == 'client_secret_post':
                    c.equal((p['client_id'], p['client_secret']), (inf['cid'], inf['secret']), 'credentials in the body')
                    c.check('authorization' not in rec.headers, 'Authorization header beside credentials in the body')
                    own = 'body'
                else:
                    c.check('client_secret' not in p and 'client_assertion' not in p, 'other credentials in the body')
                    if 'client_id' in p:
                        c.equal(p['client_id'], inf['cid'], 'client_id in the body')
                    own = 'header'
                c.seen(want, hdr and hdr['alg'], inf['src'], inf['kind'], p.get('grant_type'), inf['shape'], inf.get('reg'))
                c.ev('client authentications verified')
            for iss, inf in self.info.items():
                mine = rec.op is not None and rec.op.issuer == iss
                places = {'url': rec.url, 'headers': json.dumps(rec.headers, ensure_ascii=False),
                          'body': rec.body.decode('utf-8', 'replace')}
                for where, t in places.items():
                    if mine and ((own == 'body' and where == 'body') or (own == 'header' and where == 'headers')):
                        continue
                    for v in variants(inf['cid'], inf['secret']):
                        c.check(v not in t, 'client secret leaked', '%s of %s %s (%s)' % (where, rec.method, rec.url, iss))
            if own == 'body':
                rest = [(k, v) for k, v in rec.form() if k != 'client_secret']
                for v in variants(inf['cid'], inf['secret']):
                    c.check(not any(v in x for _, x in rest), 'client secret leaked', 'body of %s' % rec.url)
            c.ev('requests searched for secrets')
        self.seen = len(c.net.log)


def history(c, rng, i):
    w = World(c, rng, rng.randint(1, 3))
    steps = [w.begin] * 4 + [w.finish] * 4 + [w.refresh] * 2 + [w.userinfo, w.explicit]
    for _ in range(rng.choice([6, 12, 20])):
        rng.choice(steps)()
    if not w.sess:
        w.begin()
    while w.pick('begun'):
        w.finish()
    w.refresh()
    s = w.pick('done')
    url = None
    try:
        url = w.h.logout(s.state)['url']
    except Exception as err:
        if type(err).__name__ not in ('KeyError', 'NotFound', 'OidcServiceError'):
            raise
    if url:
        for inf in w.info.values():
            for v in variants(inf['cid'], inf['secret']):
                c.check(v not in url, 'secret in a logout request')


def keys(c, rng, i):
    """A client with several keys: the assertion verifies with one of them, with the asked for key when one is named."""
    o = opmod.OP(c.net, ISS[0], 0)
    jar = build_keyjar([{'type': 'RSA', 'use': ['sig']}] * rng.randint(1, 2) + [{'type': 'EC', 'crv': 'P-256', 'use': ['sig']}]
                       * rng.randint(0, 2) + [{'type': 'EC', 'crv': 'P-384', 'use': ['sig']}] * rng.randint(0, 1))
    jw = jar.export_jwks(private=True)
    jar.import_jwks(jw, world.BASE)
    pub = [{a: b for a, b in k.items() if a not in ('d', 'p', 'q', 'dp', 'dq', 'qi')} for k in jw['keys']]
    cand = ['RS256', 'PS256'] + [{'P-256': 'ES256', 'P-384': 'ES384'}[k['crv']] for k in pub if k['kty'] == 'EC']
    alg = rng.choice(cand)
    cnf = world.static_conf(o, auth='private_key_jwt', discovery=rng.random() < .5,
                            prefs={'token_endpoint_auth_signing_alg': alg})
    o.clients[cnf['client_id']]['jwks'] = {'keys': pub}
    h = world.handler({o.issuer: cnf}, keyjar=jar)
    s = world.login(c, h, o)
    world.check_result(c, s)
    for rec in c.net.log:
        if rec.endpoint == 'token_endpoint':
            hd = jose.parts(dict(rec.form())['client_assertion'])[0]
            c.equal(hd['alg'], alg, 'signing algorithm of the assertion')
            ks = [k for k in pub if k['kid'] == hd.get('kid')]
            c.check(ks and jose.check(dict(rec.form())['client_assertion'], [jose.Key.from_jwk(ks[0])]),
                    'assertion does not verify with the key it names', hd)
    # a key and life time that the caller names
    cl = h.get_client_from_session_key(s.state)
    fit = [k for k in pub if k['kty'] == ('EC' if alg[:2] == 'ES' else 'RSA')
           and (k['kty'] == 'RSA' or {'P-256': 'ES256', 'P-384': 'ES384'}[k['crv']] == alg)]
    k = rng.choice(fit)
    life = rng.choice([30, 60, 600, 3000])
    cl.do_request('refresh_token', authn_method='private_key_jwt', state=s.state, kid=k['kid'], lifetime=life)
    rec = c.net.log[-1]
    hd, p, _, _ = jose.parts(dict(rec.form())['client_assertion'])
    c.equal(hd.get('kid'), k['kid'], 'not the key that was asked for')
    c.equal(p['exp'], int(CLOCK.now) + life, 'life time of the assertion')
    c.check(rec.info['auth']['ok'], 'assertion refused', rec.info['auth'])
    c.refused(lambda: cl.do_request('refresh_token', authn_method='private_key_jwt', state=s.state, kid='nokey'),
              'assertion with an unknown key')
    c.seen('keys', alg, len(pub))


def missing(c, rng, i):
    """No secret: an error, and nothing is sent to the token endpoint that would not prove the client."""
    m = ['client_secret_post', 'client_secret_basic', 'client_secret_jwt', 'unknown_method'][i % 4]
    o = opmod.OP(c.net, ISS[0], 0)
    cnf = world.static_conf(o, auth=m, discovery=False, prefs={'token_endpoint_auth_signing_alg': 'HS256'}
                            if m == 'client_secret_jwt' else None)
    if m != 'unknown_method':
        del cnf['client_secret']
    h = world.handler({o.issuer: cnf})
    s = world.begin(c, h, o)
    world.answer(c, s)
    c.refused(lambda: h.finalize(o.issuer, dict(s.resp)), 'login without a client secret', m)
    c.check(not any(a['ok'] for a in [r.info.get('auth') for r in c.net.log] if a), 'something was proved')
    for r in c.net.log:
        c.check('None' not in r.text() and 'Tm9uZQ' not in r.text(), 'a missing secret was sent', r.brief())
    c.seen('missing', m)


def preferred(c, rng, i):
    """The first preferred method that the provider supports."""
    sup = rng.sample(world.AUTHS, rng.randint(1, 4))
    pref = rng.sample(world.AUTHS, rng.randint(1, 4))
    o = opmod.OP(c.net, ISS[0], 0, md={'token_endpoint_auth_methods_supported': sup,
                                       'token_endpoint_auth_signing_alg_values_supported': ['ES256', 'HS256', 'RS256']})
    common = [m for m in pref if m in sup]
    kind = rng.choice(['static+discovery', 'dynamic'])
    cnf = (world.dynamic_conf(o, ['code'], pref) if kind == 'dynamic'
           else world.static_conf(o, auth=pref, discovery=True))
    h = world.handler({o.issuer: cnf})
    if not common:
        c.refused(lambda: h.begin(o.issuer), 'no common authentication method, but no error')
        c.seen('preferred none', kind)
        return
    s = world.login(c, h, o)
    world.check_result(c, s)
    a = [r.info['auth'] for r in c.net.log if r.endpoint == 'token_endpoint'][0]
    c.equal(a['method'], common[0], 'not the preferred method', '%s of %s' % (pref, sup))
    c.check(a['ok'], 'client authentication', a)
    c.seen('preferred', kind, tuple(common))


def preferred_algs(c, rng, i):
    """A list of preferred signing algorithms: the first one that the provider supports, if it says what it does."""
    m = ['private_key_jwt', 'client_secret_jwt'][i % 2]
    fit = HS if m == 'client_secret_jwt' else PK
    pref = rng.sample(fit, rng.randint(1, 3))
    sup = rng.choice([None, rng.sample(HS + PK, rng.randint(1, len(HS + PK)))])
    o = opmod.OP(c.net, ISS[0], 0, md={} if sup is None else {'token_endpoint_auth_signing_alg_values_supported': sup})
    common = [a for a in pref if sup is None or a in sup]
    kind = rng.choice(['static', 'static+discovery', 'dynamic'])
    given = pref if len(pref) > 1 or rng.random() < .5 else pref[0]
    prefs = {'token_endpoint_auth_signing_alg': given}
    sparse = rng.random() < .5
    if kind == 'dynamic':
        cnf = world.dynamic_conf(o, ['code'], m, prefs=prefs)
        if sparse:
            def omit(rec, res):
                d = json.loads(res[2])
                d.pop('token_endpoint_auth_signing_alg', None)
                return res[0], res[1], json.dumps(d)
            o.hook['registration_endpoint'] = omit
    else:
        cnf = world.static_conf(o, auth=m, discovery=kind != 'static', prefs=prefs)
        if rng.random() < .5:
            cnf['behaviour' if kind == 'static' else 'client_preferences'].setdefault('token_endpoint_auth_signing_alg', given)
            if kind == 'static':
                (cnf.get('client_preferences') or {}).pop('token_endpoint_auth_signing_alg', None)
    h = world.handler({o.issuer: cnf})
    if not common:
        if kind != 'static':
            c.refused(lambda: h.begin(o.issuer), 'no common algorithm, but no error')
        c.seen('pref algs none', kind)
        return
    s = world.login(c, h, o)
    world.check_result(c, s)
    h.refresh_access_token(s.state) if s.grant['rts'] else None
    for rec in c.net.log:
        if rec.endpoint == 'token_endpoint':
            a = rec.info['auth']
            c.check(a['ok'] and a['method'] == m, 'client authentication', a)
            c.equal(jose.parts(rec.params()['client_assertion'])[0]['alg'], common[0], 'not the preferred algorithm', (given, sup, kind))
    c.seen('pref algs', kind, sparse, isinstance(given, str), len(pref), pref.index(common[0]))


def default_alg(c, rng, i):
    """No algorithm is named anywhere."""
    m = ['private_key_jwt', 'client_secret_jwt'][i % 2]
    o = opmod.OP(c.net, ISS[0], 0)
    kind = rng.choice(['static', 'static+discovery', 'dynamic'])
    cnf = world.dynamic_conf(o, ['code'], m) if kind == 'dynamic' else world.static_conf(o, auth=m, discovery=kind != 'static')
    h = world.handler({o.issuer: cnf})
    s = world.login(c, h, o)
    world.check_result(c, s)
    a = [r.info['auth'] for r in c.net.log if r.endpoint == 'token_endpoint'][0]
    c.check(a['ok'], 'client authentication', a)
    if a['method'] != m and m == 'client_secret_jwt':
        c.finding('csjwt-default-rs256', 'client_secret_jwt signed as %s' % a['method'])
    else:
        c.equal(a['method'], m, 'client authentication method')
    c.seen('default', m, kind)


def explicit(c, rng, i):
    """What the caller or the application gives: an assertion of its own, a key ID, an algorithm, another endpoint."""
    o = opmod.OP(c.net, ISS[0], 0)
    m = rng.choice(['private_key_jwt', 'private_key_jwt', 'client_secret_jwt'])
    jar = build_keyjar([{'type': 'RSA', 'use': ['sig']}] * 2 + [{'type': 'EC', 'crv': 'P-256', 'use': ['sig']}] * 2)
    jw = jar.export_jwks(private=True)
    jar.import_jwks(jw, world.BASE)
    pub = [{a: b for a, b in k.items() if a not in ('d', 'p', 'q', 'dp', 'dq', 'qi')} for k in jw['keys']]
    cid, secret = gen_cred(rng, rng.choice(SHAPES))
    pk = m == 'private_key_jwt'
    alg = rng.choice(['RS256', 'ES256', 'PS512'] if pk else HS)
    cnf = world.static_conf(o, cid, secret, auth=m, discovery=rng.random() < .5, prefs={'token_endpoint_auth_signing_alg': alg})
    o.clients[cid]['jwks'] = {'keys': pub}
    h = world.handler({o.issuer: cnf}, keyjar=jar)
    s = world.login(c, h, o)
    world.check_result(c, s)
    cl = h.get_client_from_session_key(s.state)
    ctx = cl.client_get('service_context')

    def sent():
        rec = c.net.log[-1]
        c.equal(rec.endpoint, 'token_endpoint', 'no token request')
        for v in variants(cid, secret):
            c.check(v not in rec.text(), 'client secret leaked', rec.brief())
        return rec, rec.params()

    def own():
        now = int(CLOCK.now)
        d = {'iss': cid, 'sub': cid, 'aud': o.md['token_endpoint'], 'jti': 'mine%d' % rng.randrange(10 ** 9), 'iat': now,
             'exp': now + 60}
        if not pk:
            return jose.jws(d, alg, jose.Key.oct(secret))
        k = [x for x in jw['keys'] if x['kty'] == ('EC' if alg == 'ES256' else 'RSA')][0]
        return jose.jws(d, alg, jose.Key.from_jwk(k))

    def kty(a):
        return 'EC' if a[:2] == 'ES' else 'RSA'

    for _ in range(4):
        step = rng.choice(['kwarg', 'kwarg type', 'request', 'kid', 'bad kid', 'endpoint'])
        if step in ('kid', 'bad kid') and not pk:
            step = 'endpoint'
        if step.startswith('kwarg') or step == 'request':
            a = own()
            if step == 'request':
                cl.do_request('refresh_token', authn_method=m, state=s.state, request_args={'client_assertion': a})
            else:
                kw = {'client_assertion_type': opmod.JWT_BEARER} if step == 'kwarg type' else {}
                cl.do_request('refresh_token', authn_method=m, state=s.state, client_assertion=a, **kw)
            rec, p = sent()
            c.equal(p.get('client_assertion'), a, 'not the assertion given by the caller')
            c.equal(p.get('client_assertion_type'), opmod.JWT_BEARER, 'client_assertion_type')
            c.check(rec.info['auth']['ok'], 'client authentication', rec.info['auth'])
        elif step == 'kid':
            k = rng.choice([x for x in pub if x['kty'] == kty(alg)])
            ctx.kid['sig'][kty(alg)] = k['kid']
            cl.do_request('refresh_token', state=s.state, authn_method=m)
            rec, p = sent()
            c.equal(jose.parts(p['client_assertion'])[0].get('kid'), k['kid'], 'not the configured key')
            c.check(jose.check(p['client_assertion'], [jose.Key.from_jwk(k)]), 'not signed with the configured key')
            ctx.kid['sig'].clear()
        elif step == 'bad kid':
            bad = rng.choice(['no-such-key', rng.choice([x for x in pub if x['kty'] != kty(alg)])['kid']])
            n = len(c.net.log)
            if rng.random() < .5:
                ctx.kid['sig'][kty(alg)] = bad
                c.refused(lambda: cl.do_request('refresh_token', state=s.state, authn_method=m), 'assertion with an unfit key', bad)
                ctx.kid['sig'].clear()
            else:
                c.refused(lambda: cl.do_request('refresh_token', state=s.state, authn_method=m, kid=bad),
                          'assertion with an unfit key', bad)
            c.equal(len(c.net.log), n, 'something was sent')
        else:
            # an endpoint other than the token endpoint: the provider is the audience
            srv = cl.client_get('service', rng.choice(['accesstoken', 'refresh_token']))
            req = srv.msg_type(client_id=cid, client_secret=secret, x='y')
            kw = {'algorithm': rng.choice(['RS256', 'ES256', 'PS256'] if pk else HS)} if rng.random() < .7 else {}
            want = kw.get('algorithm', {'private_key_jwt': 'RS256', 'client_secret_jwt': 'HS256'}[m])
            life = rng.choice([None, 5, 77])
            if life:
                kw['lifetime'] = life
            ep = rng.choice(['revocation_endpoint', 'introspection_endpoint', 'pushed_authorization_request_endpoint'])
            hd = srv.get_authn_header(req, authn_method=m, authn_endpoint=ep, **kw)
            c.equal(dict(hd), {}, 'headers beside an assertion')
            hdr, p, _, _ = jose.parts(req['client_assertion'])
            c.equal(hdr['alg'], want, 'signing algorithm of the assertion')
            c.equal(p['aud'] if isinstance(p['aud'], str) else p['aud'][0], o.issuer, 'audience of the assertion')
            c.equal((p['iss'], p['sub']), (cid, cid), 'other client')
            c.equal(p['exp'], int(CLOCK.now) + (life or 600), 'life time of the assertion')
            ks = [jose.Key.oct(secret)] if not pk else [jose.Key.from_jwk(k) for k in pub]
            c.check(jose.check(req['client_assertion'], ks), 'assertion does not verify')
            c.check('client_secret' not in req, 'secret left in the request')
        CLOCK.advance(rng.choice([0, 1, 60]))
        c.ev('explicit authentications verified')
        c.seen('explicit', step, m, alg)


def helpers(c, rng, i):
    """The bearer token found in a request, and whether a client secret is still valid."""
    from oidcmsg.message import Message
    from oidcrp.client_auth import bearer_auth, valid_service_context
    tok = world.rndtext(rng, rng.randint(1, 30)).strip() or 't'
    other = 'other' + tok
    req = Message(**rng.choice([{}, {'access_token': tok}, {'token': other}]))
    hdr = rng.choice(['Bearer ' + (other if 'access_token' in req else tok), 'Basic ' + other, '', 'bearer', 'Bear' + other])
    if 'access_token' in req or hdr.startswith('Bearer '):
        c.equal(bearer_auth(req, hdr), tok, 'bearer token of a request')
    else:
        c.refused(lambda: bearer_auth(req, hdr), 'something else was taken for a bearer token', hdr)
    o = opmod.OP(c.net, ISS[0], 0)
    h = world.handler({o.issuer: world.static_conf(o, discovery=False)})
    world.begin(c, h, o)
    ctx = h.issuer2rp[o.issuer].client_get('service_context')
    c.check(valid_service_context(ctx), 'a secret without end is said to have expired')
    now = int(CLOCK.now)
    at = rng.choice([0, now - 1, now + 1, now - 10 ** 6, now + 10 ** 6, 1])
    ctx.client_secret_expires_at = at
    when = rng.choice([0, 0, now, at, at + 1, max(at - 1, 0)])
    c.equal(bool(valid_service_context(ctx, when)), at == 0 or at >= (when or now), 'validity of the secret',
            '%s %s %s' % (at, when, now))
    c.seen('helpers', hdr[:7], 'access_token' in req, at == 0, at < (when or now), bool(when))


def rotated(c, rng, i):
    """A caller that gives the secret to be used, for instance a new one: that one is used and the old one is not sent."""
    o = opmod.OP(c.net, ISS[0], 0)
    m = rng.choice(['client_secret_basic', 'client_secret_post'])
    cid, secret = gen_cred(rng, rng.choice(SHAPES))
    new = gen_cred(rng, rng.choice(SHAPES))[1]
    while new == secret or secret in new:
        new = new + 'n'
    cnf = world.static_conf(o, cid, secret, auth=m, discovery=rng.random() < .5)
    h = world.handler({o.issuer: cnf})
    s = world.login(c, h, o)
    world.check_result(c, s)
    cl = h.get_client_from_session_key(s.state)
    for _ in range(3):
        o.clients[cid]['client_secret'] = new
        how = rng.choice(['request', 'kwarg', 'both']) if m == 'client_secret_basic' else 'request'
        kw, ra = {}, {}
        if how != 'request':
            kw['password' if m == 'client_secret_basic' else 'client_secret'] = new
        if how != 'kwarg':
            ra['client_secret'] = new
        resp = cl.do_request('refresh_token', authn_method=m, state=s.state, request_args=ra, **kw)
        rec = c.net.log[-1]
        a = rec.info['auth']
        c.equal((rec.endpoint, a['method'], a['client_id'], a['ok']), ('token_endpoint', m, cid, True), 'client authentication with a given secret', how)
        for v in variants(cid, secret):
            c.check(v not in rec.text() or any(v in w for w in variants(cid, new)), 'secret other than the given one sent', rec.brief())
        c.check('error' not in resp, 'refresh with a given secret', resp)
        if m == 'client_secret_basic':
            c.check('client_secret' not in rec.params(), 'secret in the header and in the body', rec.brief())
        else:
            c.check('authorization' not in rec.headers, 'secret in the header and in the body', rec.brief())
        # given for one request only
        o.clients[cid]['client_secret'] = secret
        cl.do_request('refresh_token', authn_method=m, state=s.state)
        a = c.net.log[-1].info['auth']
        c.equal((a['method'], a['ok']), (m, True), 'client authentication without a given secret', how)
        c.ev('requests with a given secret')
        c.seen('rotated', m, how)


def reregistered(c, rng, i):
    """The secret that counts is the one registered last, whatever other symmetric keys the client has."""
    m = world.AUTHS[i % 4]
    alg = rng.choice(HS if m == 'client_secret_jwt' else PK) if m.endswith('_jwt') else None
    ro = rng.choice(['HS256', 'HS512', 'RS256', None])
    o = opmod.OP(c.net, ISS[0], 0, md={'token_endpoint_auth_signing_alg_values_supported': HS + PK, 'request_parameter_supported': True,
                                       'request_object_signing_alg_values_supported': HS + PK})
    o2 = opmod.OP(c.net, ISS[1], 1)
    prefs = {'token_endpoint_auth_signing_alg': alg} if alg else {}
    if ro:
        prefs['request_object_signing_alg'] = ro
    kind = rng.choice(['dynamic', 'dynamic', 'static', 'static+discovery'])
    if kind == 'dynamic':
        cnf = world.dynamic_conf(o, ['code'], m, prefs=prefs)
    else:
        cnf = world.static_conf(o, auth=m, discovery=kind != 'static', prefs=prefs,
                                **({'behaviour': dict(prefs)} if kind == 'static' else {}))
    kj = world.rp_keyjar()
    own = rng.random() < .5
    if own:     # a symmetric key of the relying party itself
        for k in range(rng.randint(1, 2)):
            for owner in ('', world.BASE):
                kj.add_symmetric(owner, 'only the relying party knows this %d' % k)
    h = world.handler({o.issuer: cnf, o2.issuer: world.dynamic_conf(o2)}, keyjar=kj)
    if rng.random() < .5:
        world.check_result(c, world.login(c, h, o2))
    for k in range(rng.randint(1, 3)):
        if k:
            if kind != 'dynamic':
                break
            h.issuer2rp[o.issuer].do_request('registration')
            CLOCK.advance(rng.choice([1, 1000]))
        beh = {'request_param': 'request'} if ro else {}
        s = world.begin(c, h, o, behaviour_args=beh)
        world.answer(c, s)
        world.finalize(c, h, s)
        world.check_result(c, s)
        cid = list(o.clients)[-1]
        if ro:
            obj = o.read_authz(s.url)['request']
            hdr, p, inp, sig = jose.parts(obj)
            c.equal((hdr.get('alg'), p.get('iss')), (ro, cid), 'request object')
            if ro.startswith('HS'):
                c.check(jose.verify_raw(ro, jose.Key.oct(o.clients[cid]['client_secret']), inp, sig),
                        'request object does not verify with the client secret', (k, own))
        if s.grant['rts']:
            h.refresh_access_token(s.state)
        for rec in c.net.log[-4:]:
            if rec.endpoint == 'token_endpoint':
                a = rec.info['auth']
                c.equal((a['method'], a['client_id'], a['ok']), (m, cid, True), 'client authentication after registration %d' % k, a)
                c.ev('requests after a registration')
        c.seen('reregistered', m, alg, ro, kind, own, k)


def run(r):
    r.cases('reregistered', 40, reregistered, thorough=1500)
    r.cases('rotated', 24, rotated, thorough=1000)
    r.cases('history', 220, history, thorough=9000)
    r.cases('keys', 32, keys, thorough=600)
    r.cases('missing', 16, missing, thorough=160)
    r.cases('preferred', 60, preferred, thorough=2000)
    r.cases('preferred_algs', 40, preferred_algs, thorough=1500)
    r.cases('default_alg', 12, default_alg, thorough=120)
    r.cases('explicit', 60, explicit, thorough=2000)
    r.cases('helpers', 60, helpers, thorough=1000)
