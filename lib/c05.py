"""C05: request objects carry the very request, signed by this client."""
import copy
import json
import os

import c04
import jose
import op as opmod
import world
from core import Violation, short
from net import jresp
from vclock import CLOCK

RULE = ('A case is a sequence of authorization requests that use a request object by value or by reference; the object is '
        'verified (and decrypted) by an independent implementation and compared with the recorded request. Non-trivial: '
        'an object whose claims and signature were compared; distinct by (method, algorithm and its source, encryption, '
        'set-up, parameters).')
ASSUMPTIONS = ['ECDH-ES with key wrapping is left out: the key derivation of that is cryptojwt own',
               'what the web server serves for a request_uri is the file that the library wrote for it',
               'the directory behind registered request_uris exists']

ALGS = ['RS256', 'RS384', 'RS512', 'ES256', 'PS256']
RT = world.RT_ALL
JWT_CLAIMS = {'iss', 'aud', 'iat', 'exp', 'jti', 'nbf'}


def enc_key(alg):
    return opmod.pool_key('RSA', 50) if alg.startswith('RSA') else opmod.pool_key('P-256', 50)


class Setup:
    def __init__(self, c, rng, kind=None, enc=None, registered=False, alg_src=None):
        self.c, self.rng = c, rng
        os.chdir(c.dir)
        kind = kind or rng.choice(['static', 'static+discovery', 'dynamic'])
        self.kind = kind
        md = {'request_object_signing_alg_values_supported': ALGS + ['none', 'HS256', 'HS512'],
              'request_object_encryption_alg_values_supported': ['RSA-OAEP', 'RSA-OAEP-256', 'ECDH-ES'],
              'request_object_encryption_enc_values_supported': ['A128CBC-HS256', 'A256CBC-HS512', 'A128GCM', 'A256GCM'],
              'request_parameter_supported': True, 'request_uri_parameter_supported': True}
        self.o = o = opmod.OP(c.net, rng.choice(['https://op.example.com', 'https://op.example.com/x/']), 0, md=md)
        self.other = opmod.OP(c.net, 'https://other.example.net', 1, md=md)
        self.enc = enc
        if enc:
            for k, x in enumerate((o, self.other)):
                base = x.jwks()
                ks = [enc_key(enc[0])] if x is o else [opmod.pool_key('RSA', 51), opmod.pool_key('P-256', 51)]
                x.jwks = lambda base=base, ks=ks: {'keys': base['keys'] + [kk.jwk(use='enc') for kk in ks]}
        self.rt = rng.choice(RT)
        self.alg_src = alg_src or rng.choice(['default', 'call', 'config', 'both'])
        beh, self.alg = {}, 'RS256'
        self.call = {}
        algs = ALGS + ['none', 'HS256', 'HS512']
        if self.alg_src in ('config', 'both'):
            self.alg = beh['request_object_signing_alg'] = rng.choice(algs)
        if self.alg_src in ('call', 'both'):
            self.alg = self.call['request_object_signing_alg'] = rng.choice(algs)
        if enc:
            self.enc_src = rng.choice(['config', 'call', 'both'])
            d = {'request_object_encryption_alg': enc[0], 'request_object_encryption_enc': enc[1]}
            (beh if self.enc_src == 'config' else self.call).update(d)
            if self.enc_src == 'both':      # what is asked for comes before what is configured
                beh.update(request_object_encryption_alg=rng.choice(['RSA-OAEP', 'RSA-OAEP-256', 'ECDH-ES']),
                           request_object_encryption_enc=rng.choice(['A128CBC-HS256', 'A256GCM']))
        self.granted = None
        if kind == 'dynamic' and rng.random() < .3:
            # the provider registers something else than what was asked for
            self.granted = rng.choice(algs)
            if self.alg_src not in ('call', 'both'):
                self.alg = self.granted

            def grant(rec, res):
                if res[0] != 201:
                    return res
                d = dict(json.loads(res[2]), request_object_signing_alg=self.granted)
                o.clients[d['client_id']]['reg']['request_object_signing_alg'] = self.granted
                return jresp(d, 201)
            o.hook['registration_endpoint'] = grant
        self.local = None
        extra = {}
        if rng.random() < .6:
            self.local = extra['local_dir'] = os.path.join(c.dir, rng.choice(['reqs', 'a/b', 'x y']))
        if registered:
            extra_pref = {'request_uri_usable': True}
        else:
            extra_pref = {}
        if kind == 'dynamic':
            cnf = world.dynamic_conf(o, [self.rt], prefs={**beh, **extra_pref}, **extra)
        elif kind == 'static':
            cnf = world.static_conf(o, response_type=self.rt, behaviour=beh, callbacks=rng.random() < .3, **extra)
        else:
            cnf = world.static_conf(o, response_type=self.rt, discovery=True, prefs=beh, **extra)
        self.base = rng.choice([world.BASE, world.BASE, 'https://rp.example.org/app'])
        self.cnf = cnf
        confs = {o.issuer: cnf, self.other.issuer: world.static_conf(self.other)}
        self.h = world.handler(confs, base=self.base)
        if rng.random() < .5:
            world.begin(c, self.h, self.other)

    def file_of(self, uri):
        if not uri.startswith(self.base + '/'):
            raise Violation('request_uri not under the base URL', uri)
        reg = self.o.clients[self.cid]['reg'].get('request_uris') if self.kind == 'dynamic' else None
        if reg:
            if uri.split('#')[0] not in reg:
                raise Violation('request_uri is not a registered one', '%s not in %s' % (uri, reg))
            path = uri[len(self.base) + 1:]
            return os.path.join(self.c.dir, path)
        name = uri.rsplit('/', 1)[1]
        if uri != self.base + '/requests/' + name:
            raise Violation('request_uri has an odd location', uri)
        return os.path.join(self.local or os.path.join(self.c.dir, 'requests'), name)

    @property
    def cid(self):
        return self.cnf.get('client_id') or list(self.o.clients)[-1]

    def decode(self, obj):
        """Verify and return the claims of a request object."""
        c = self.c
        if self.enc:
            c.equal(obj.count('.'), 4, 'request object is not encrypted', short(obj))
            hdr = json.loads(jose.b64d(obj.split('.')[0]))
            c.equal((hdr.get('alg'), hdr.get('enc')), self.enc, 'encryption algorithms')
            try:
                obj = jose.jwe_decrypt(obj, enc_key(self.enc[0]))[1].decode()
            except Exception as err:
                raise Violation('request object can not be decrypted by the issuer', repr(err))
            c.ev('objects decrypted')
        c.equal(obj.count('.'), 2, 'request object is not a signed JWT', short(obj))
        hdr, p, inp, sig = jose.parts(obj)
        c.equal(hdr.get('alg'), self.alg, 'signing algorithm', self.alg_src)
        if self.alg == 'none':
            c.equal(sig, b'', 'signature of an unsigned object')
        elif self.alg.startswith('HS'):
            key = jose.Key.oct(self.o.clients[self.cid]['client_secret'])
            c.check(jose.verify_raw(self.alg, key, inp, sig), 'object does not verify with the client secret')
        else:
            ok = [k for k in world.rp_keys() if jose.verify_raw(self.alg, k, inp, sig)]
            c.check(ok, 'object does not verify with a key of this client', hdr)
            if hdr.get('kid'):
                c.check(hdr['kid'] in [k.kid for k in ok], 'kid of another key', hdr)
        c.ev('objects verified')
        return p

    def compare(self, s, obj, q, args, when='', life=None, jti=False):
        c = self.c
        p = self.decode(obj)
        c.equal(p.get('iss'), self.cid, 'issuer of the request object' + when)
        aud = p.get('aud')
        aud = [aud] if isinstance(aud, str) else aud
        c.equal(aud, [self.o.issuer], 'audience of the request object' + when)
        if 'iat' in p:
            c.check(abs(p['iat'] - s.t0) < 60, 'issue time', (p['iat'], s.t0))
        want = life and (s.t0 + life if not when else p.get('exp'))
        c.equal(p.get('exp'), want, 'expiry of the request object' + when)
        if jti:
            c.check(isinstance(p.get('jti'), str) and len(p['jti']) >= 16, 'identifier of the request object' + when, p.get('jti'))
            if not when:
                c.check(p['jti'] not in su_jtis(self), 'identifier of a request object used twice', p['jti'])
                su_jtis(self).add(p['jti'])
        claims = {k: c04.norm(v) for k, v in p.items() if k not in JWT_CLAIMS}
        rec = {k: c04.norm(v) for k, v in world.record(self.h, s.state)['auth_request'].items()}
        if claims != rec:
            diff = {k: (claims.get(k), rec.get(k)) for k in set(claims) | set(rec) if claims.get(k) != rec.get(k)}
            raise Violation('request object is not the request%s: %s' % (when, ','.join(sorted(diff))),
                            '(object, recorded) %s' % short(diff, 900))
        c.equal(claims.get('state'), s.state, 'state in the object' + when)
        for k, v in args.items():
            if k == 'scope':
                continue
            c.equal(claims.get(k), c04.norm(v), 'requested parameter in the object' + when, k)
        c.check('nonce' in claims, 'no nonce in the object')
        c.check(claims.get('redirect_uri') in self.o.clients[self.cid]['redirect_uris'], 'redirect_uri in the object')
        want = {'response_type', 'client_id', 'scope', 'redirect_uri', 'state'}
        for k, v in q.items():
            if k in ('request', 'request_uri'):
                continue
            c.check(k in want, 'parameter left outside the object', '%s=%s' % (k, short(v)))
            c.equal(v, claims.get(k), 'parameter outside the object differs', k)
        for k in ('response_type', 'client_id', 'scope'):
            c.check(k in q, 'required parameter missing outside the object', k)


def su_jtis(su):
    return su.__dict__.setdefault('jtis', set())


def one(c, su, rng, method):
    args = c04.pick_params(rng, rng.choice([0, 1, 3, 5]), without=('response_mode',))
    if rng.random() < .2:
        args['scope'] = ['openid', rng.choice(['email', 'offline_access'])]
    beh = dict(su.call, request_param='request' if method == 'value' else 'request_uri')
    life = None
    if rng.random() < .3:
        beh['with_jti'] = True
    if rng.random() < .3:
        life = rng.choice([1, 60, 600, 86400])
        beh[rng.choice(['expires_in', 'lifetime'])] = life
    CLOCK.advance(rng.choice([0, 1, 1000]))
    t0 = int(CLOCK.now)
    s = world.begin(c, su.h, su.o, req_args=copy.deepcopy(args) or None, behaviour_args=beh)
    q = su.o.read_authz(s.url)
    if method == 'value':
        c.check('request' in q and 'request_uri' not in q, 'no request object', short(q))
        obj = q['request']
    else:
        c.check('request_uri' in q and 'request' not in q, 'no request_uri', short(q))
        path = su.file_of(q['request_uri'])
        try:
            obj = open(path).read()
        except OSError as err:
            raise Violation('nothing behind the request_uri', repr(err))
    s.t0, s.life, s.jti = t0, life, 'with_jti' in beh
    su.compare(s, obj, q, args, life=life, jti=s.jti)
    c.seen(method, su.kind, su.granted, su.alg_src, su.alg, su.enc, tuple(sorted(args)))
    s.args, s.q, s.obj = args, q, obj
    return s


def sequence(c, rng, item):
    enc = None
    if item % 4 == 3:
        enc = (rng.choice(['RSA-OAEP', 'RSA-OAEP-256', 'ECDH-ES']),
               rng.choice(['A128CBC-HS256', 'A256CBC-HS512', 'A128GCM', 'A256GCM']))
    su = Setup(c, rng, enc=enc)
    ss, uris = [], set()
    for k in range(rng.randint(1, 5)):
        method = rng.choice(['value', 'reference', 'plain'])
        if method == 'plain':
            s = world.begin(c, su.h, su.o)
            q = su.o.read_authz(s.url)
            c.check('request' not in q and 'request_uri' not in q, 'a plain request got a request object', short(q))
            s.args, s.q, s.obj = {}, q, None
        else:
            s = one(c, su, rng, method)
            if method == 'reference':
                c.check(s.q['request_uri'] not in uris, 'request_uri used twice', s.q['request_uri'])
                uris.add(s.q['request_uri'])
        ss.append(s)
    # every reference still leads to its own session's object
    for s in ss:
        if s.obj and 'request_uri' in s.q:
            obj = open(su.file_of(s.q['request_uri'])).read()
            su.compare(s, obj, s.q, s.args, ' (later)', life=s.life, jti=s.jti)
    # and the rest of the flow works as for a plain request

    def fetch(uri):
        obj = open(su.file_of(uri)).read()
        return jose.jwe_decrypt(obj, enc_key(enc[0]))[1].decode() if enc else obj
    su.o.fetch = fetch
    res = su.o.resolve

    def resolve(params):
        if enc and 'request' in params:
            params = dict(params, request=jose.jwe_decrypt(params['request'], enc_key(enc[0]))[1].decode())
        return res(params)
    su.o.resolve = resolve
    rng.shuffle(ss)
    for s in ss:
        world.answer(c, s)
        world.finalize(c, su.h, s)
        world.check_result(c, s)


def registered(c, rng, i):
    """Registered request_uris."""
    su = Setup(c, rng, 'dynamic', registered=True)
    os.makedirs(os.path.join(c.dir, 'req_uri'))
    world.begin(c, su.h, su.o)          # registers
    reg = su.o.clients[su.cid]['reg'].get('request_uris')
    c.check(reg and all(u.startswith(su.base + '/') for u in reg), 'request_uris registered', short(reg))
    a = one(c, su, rng, 'reference')
    b = one(c, su, rng, 'reference')
    for s in (a, b):
        obj = open(su.file_of(s.q['request_uri'])).read()
        if obj != s.obj:
            c.check(obj == b.obj, 'the file behind a request_uri holds something else')
            c.finding('registered-request-uri-overwritten', 'the object of the first of two sessions is gone from %s'
                      % s.q['request_uri'])
    c.seen('registered', su.alg, su.rt)


def no_key(c, rng, i):
    """Without a key to encrypt with, or with an unknown algorithm, nothing is sent."""
    su = Setup(c, rng, rng.choice(['static', 'dynamic']), alg_src='default')
    how = ['no enc key', 'no enc', 'unknown alg', 'unknown sign alg', 'unknown enc kid'][i % 5]
    if how == 'unknown enc kid':
        su = Setup(c, rng, rng.choice(['static', 'dynamic']), enc=('RSA-OAEP', 'A128GCM'), alg_src='default')
    if rng.random() < .5:       # keys for encryption of its own are no keys of the provider
        su.h.keyjar.import_jwks({'keys': [opmod.pool_key('RSA', 52).jwk(use='enc'), opmod.pool_key('P-256', 52).jwk(use='enc')]}, '')
    beh = {'request_param': 'request'}
    if how == 'no enc key':
        beh.update(request_object_encryption_alg='RSA-OAEP', request_object_encryption_enc='A128GCM')
    elif how == 'no enc':
        beh.update(request_object_encryption_alg='RSA-OAEP')
    elif how == 'unknown alg':
        beh.update(request_object_encryption_alg='XXX', request_object_encryption_enc='A128GCM')
    elif how == 'unknown enc kid':
        beh.update(request_object_encryption_alg='RSA-OAEP', request_object_encryption_enc='A128GCM',
                   enc_kid=rng.choice(['no-such-key', world.rp_keys()[0].kid]))
    else:
        beh.update(request_object_signing_alg='XX256')
    c.refused(lambda: su.h.begin(su.o.issuer, behaviour_args=beh), 'request object sent although it could not be protected',
              how)
    c.seen('no key', how, su.kind)
    if how != 'unknown enc kid':
        s = world.login(c, su.h, su.o)
        world.check_result(c, s)


def service_level(c, rng, i):
    """The application drives the authorization service itself."""
    enc = None
    if rng.random() < .5:
        enc = (rng.choice(['RSA-OAEP', 'RSA-OAEP-256', 'ECDH-ES']),
               rng.choice(['A128CBC-HS256', 'A256CBC-HS512', 'A128GCM', 'A256GCM']))
    su = Setup(c, rng, rng.choice(['static', 'dynamic']), enc=enc, alg_src=rng.choice(['default', 'config']))
    world.begin(c, su.h, su.o)
    cl = su.h.issuer2rp[su.o.issuer]
    ctx = cl.client_get('service_context')
    srv = cl.client_get('service', 'authorization')
    conf_alg = su.alg
    for k in range(rng.randint(1, 4)):
        method = rng.choice(['value', 'reference', None])
        st = ctx.state.create_state(su.o.issuer)
        args = c04.pick_params(rng, rng.choice([0, 2, 5]), without=('response_mode',))
        kw = {}
        if method:
            kw['request_method'] = method
        su.alg = conf_alg
        if rng.random() < .6:
            su.alg = kw[rng.choice(['request_object_signing_alg', 'algorithm'])] = rng.choice(ALGS + ['none'])
        beh = {}
        if enc and su.enc_src in ('call', 'both'):
            beh.update(su.call)
            if rng.random() < .5:
                kid = enc_key(enc[0]).kid
                if kid:
                    beh['enc_kid'] = kid
        life = None
        if rng.random() < .3:
            life = beh['expires_in'] = rng.choice([60, 600])
        if beh:
            kw['behaviour_args'] = beh
        t0 = int(CLOCK.now)
        info = srv.get_request_parameters(request_args=dict(copy.deepcopy(args), state=st), **kw)
        s = world.Sess(su.o, su.o.issuer, st, info['url'])
        s.t0 = t0
        q = su.o.read_authz(s.url)
        c.seen('service', method, su.kind, su.alg, su.enc, 'enc_kid' in beh)
        if method is None:
            c.check('request' not in q and 'request_uri' not in q, 'a plain request got a request object', short(q))
            continue
        want = 'request' if method == 'value' else 'request_uri'
        c.check(want in q and not ({'request', 'request_uri'} - {want}) & set(q), 'not the request object asked for', short(q))
        obj = q['request'] if method == 'value' else open(su.file_of(q['request_uri'])).read()
        su.compare(s, obj, q, args, life=life)


def run(r):
    r.cases('sequence', 400, sequence, thorough=12000)
    r.cases('registered', 40, registered, thorough=600)
    r.cases('no key', 20, no_key, thorough=200)
    r.cases('service', 60, service_level, thorough=2000)
