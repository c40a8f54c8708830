"""C23: clients of different issuers do not influence each other.

Oracle: the same history of one issuer's client is run alone and among the histories of other issuers, on
identical configurations and providers; what the providers saw and what the application got must be the same.
Configuration objects are compared with copies made before. Tokens made with another issuer's keys are refused.
"""
import base64
import copy
import json
import random
import re
from urllib.parse import parse_qsl, urlsplit

import jose
import net
import op as opmod
import world as W
from core import Violation, short
from net import jresp
from vclock import CLOCK

import oidcrp.defaults
import oidcrp.entity
from oidcmsg.message import Message, SINGLE_REQUIRED_STRING, SINGLE_OPTIONAL_STRING
from oidcmsg.oauth2 import ResponseMessage
from oidcrp.rp_handler import RPHandler, backchannel_logout
from oidcrp.service import Service

ISS = ['https://a.example.com', 'https://b.example.org', 'https://c.example.net/t/1', 'https://c.example.net/t/2', 'https://b.example.org:8443']
HASHED = re.compile('(?<=/)[0-9a-f]{64}(?=/|$|[?#])')
BC_EVENT = 'http://schemas.openid.net/event/backchannel-logout'


def freeze(o):
    """A comparable copy of a configuration object."""
    if isinstance(o, dict):
        return {k: freeze(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [type(o).__name__] + [freeze(x) for x in o]
    if isinstance(o, type) or callable(o):
        return getattr(o, '__name__', repr(o))
    return o if isinstance(o, (str, int, float, bool, bytes, type(None))) else repr(type(o))


def jar(kj):
    return {o: sorted(json.dumps(k, sort_keys=True) for k in kj.export_jwks(private=True, issuer_id=o)['keys']) for o in sorted(kj.owners())}


DEFAULTS = ['DEFAULT_OIDC_SERVICES', 'DEFAULT_CLIENT_PREFS', 'DEFAULT_CLIENT_CONFIGS', 'DEFAULT_KEY_DEFS', 'DEFAULT_RP_KEY_DEFS']


def defaults():
    return freeze([getattr(oidcrp.defaults, d) for d in DEFAULTS] + [oidcrp.entity.DEFAULT_SERVICES])


class Canon:
    """Replaces what is random by the order of its first appearance."""

    def __init__(self):
        self.names = {}

    def ref(self, kind, v):
        d = self.names.setdefault(kind, {})
        return '%s#%d' % (kind, d.setdefault(v, len(d)))

    def value(self, k, v):
        if k in ('state', 'nonce', 'code_verifier', 'code_challenge', 'jti'):
            return self.ref(k, v)
        if isinstance(v, str) and v.count('.') == 2 and v.startswith('ey'):
            try:
                h, p = jose.parts(v)[:2]
            except Exception:
                return v
            if 'jwk' in h:
                # a key made at random
                h = dict(h, jwk=(h['jwk'].get('kty'), h['jwk'].get('crv')), kid='')
            return ['JWT', self.obj(h), self.obj(p)]
        if isinstance(v, str):
            v = HASHED.sub(lambda m: self.ref('hashed', m.group()), v)
            for kind in ('state', 'nonce'):
                for x, n in self.names.get(kind, {}).items():
                    if len(x) > 15 and x in v:
                        v = v.replace(x, '%s#%d' % (kind, n))
        return v

    def obj(self, o, k=''):
        if isinstance(o, dict):
            return {a: self.obj(b, a) for a, b in sorted(o.items())}
        if isinstance(o, (list, tuple)):
            return [self.obj(x, k) for x in o]
        return self.value(k, o)

    def pairs(self, q):
        return [[k, self.value(k, v)] for k, v in sorted(q)]

    def url(self, u):
        p = urlsplit(u)
        return [p.scheme, p.netloc, self.value('path', p.path), self.pairs(parse_qsl(p.query, keep_blank_values=True)), p.fragment]

    def rec(self, r):
        hd = {k: v for k, v in r.headers.items() if k in ('authorization', 'content-type', 'dpop', 'cookie', 'if-modified-since')}
        body = r.body.decode('utf-8')
        if body.startswith('{'):
            body = self.obj(json.loads(body))
        elif '=' in body:
            body = self.pairs(r.form())
        return [r.method, self.url(r.url), self.obj(hd), body, r.verify, r.cert, r.timeout, r.status]


class Setup:
    """Providers and configurations, a function of a seed only."""

    def __init__(self, c, seed, n, mode):
        self.c, self.n, self.mode = c, n, mode
        self.net = c.net = net.use(net.FakeNet())
        CLOCK.reset()
        rng = random.Random(seed)
        self.ops, self.keys, self.confs = [], [], {}
        isss = rng.sample(ISS, n)
        shared_svc = W.services()
        shared_ao = rng.choice([{}, W.pkce(64)])
        shared_prefs = {}
        kinds = []
        for k in range(n):
            o = opmod.OP(self.net, isss[k], k, tag='op%d' % k)
            o.rp_jwks = W.rp_public_jwks()
            o.sub_of = lambda g: 'the-user'
            o.sid = True
            o.md['backchannel_logout_supported'] = o.md['backchannel_logout_session_supported'] = True
            if rng.random() < .5:
                o.md['dpop_signing_alg_values_supported'] = ['ES256']
            if rng.random() < .3:
                o.md['token_endpoint_auth_methods_supported'] = rng.sample(W.AUTHS, rng.randint(1, 4))
            if rng.random() < .3:
                o.md['response_types_supported'] = ['code', 'id_token', 'code id_token']
            if rng.random() < .3:
                o.md['scopes_supported'] = ['openid', 'email'] + rng.sample(['profile', 'address', 'phone'], 1)
            self.ops.append(o)
            if mode == 'default':
                kinds.append('default')
                continue
            kind = rng.choice(['static', 'static+discovery', 'dynamic'])
            auth = rng.choice(o.md['token_endpoint_auth_methods_supported'])
            rt = rng.choice(['code', 'code id_token', 'id_token', 'id_token token', 'code'])
            if rt not in o.md['response_types_supported']:
                rt = 'code'
            ao = {}
            if rng.random() < .5 and 'code' in rt:
                ao.update(W.pkce(rng.choice([43, 100]), rng.choice(['S256', 'S512'])))
            if rng.random() < .3:
                ao.update(W.dpop(['ES256']))
            if rng.random() < .2:
                ao.update(W.par(body_format='urlencoded', merge_rule='lax'))
            svc = W.services()
            if rng.random() < .3:
                svc['authorization']['kwargs'] = {'conf': {'request_args': {'prompt': 'login%d' % k}}}
            if mode == 'aliased':
                svc = shared_svc
                ao = shared_ao if 'code' in rt else ao
            extra = {}
            if rng.random() < .4:
                extra['request_args'] = {'claims': {'id_token': {'acr': {'value': 'x%d' % k}}}}
            if rng.random() < .3:
                extra['clock_skew'] = 10 * (k + 1)
            cnf, d = W.gen_conf(rng, o, kind=kind, rt=rt, auth=auth, add_ons=ao or {}, svc=svc, **extra)
            if mode == 'aliased':
                cnf['services'] = shared_svc
                if ao:
                    cnf['add_ons'] = shared_ao
                if 'behaviour' in cnf and kind == 'static' and k and rng.random() < .5:
                    pass
                for name in ('contacts', 'scope'):
                    v = cnf.get('client_preferences', {}).get(name)
                    if v is not None:
                        cnf['client_preferences'][name] = shared_prefs.setdefault(name, v)
            key = o.issuer if rng.random() < .7 else 'name%d' % k
            self.confs[key] = cnf
            self.keys.append(key)
            kinds.append(kind)
        if mode == 'default':
            rts = [rng.choice(['code', 'id_token', 'code id_token'])] + rng.sample(['code', 'code token', 'id_token token'], 1)
            ao = {}
            if rng.random() < .5 and 'code' in rts[0]:
                ao.update(W.pkce(64))
            if rng.random() < .4:
                ao.update(W.dpop(['ES256', 'RS256']))
            extra = {}
            if rng.random() < .4:
                extra['request_args'] = {'claims': {'userinfo': {'email': {'essential': True}}}}
            prefs = {'token_endpoint_auth_method': W.AUTHS[:]} if rng.random() < .5 else {}
            if rng.random() < .3:
                prefs['post_logout_redirect_uri'] = 'https://rp.example.org/bye'
            self.confs[''] = W.dynamic_conf(None, rts, rng.choice(W.AUTHS), add_ons=ao, prefs=prefs, **extra)
            self.keys = [o.issuer for o in self.ops]
        self.kinds = kinds
        self.httpc = rng.choice([None, {'verify': False}, {'verify': '/ca.pem', 'timeout': 7}])
        self.services = W.services()
        self.kj = W.rp_keyjar()
        if mode == 'default' and rng.random() < .5:
            # the services of the handler instead of the configuration
            self.confs[''].pop('services', None)
        kw = {'httpc_params': self.httpc} if self.httpc else {}
        self.h = W.handler(self.confs, keyjar=self.kj, hash_seed='seed', services=self.services, **kw)
        self.given = [self.confs, self.services, self.httpc]
        self.before = copy.deepcopy(freeze(self.given))
        self.jar = jar(self.kj)
        self.defaults = defaults()
        self.canon = [Canon() for _ in range(n)]
        self.sess = [[] for _ in range(n)]
        self.results = [[] for _ in range(n)]
        self.refused = 0

    def unchanged(self, when):
        c = self.c
        now = freeze(self.given)
        if now != self.before:
            diff = [p for p in differences(self.before, now)]
            raise Violation('a configuration object was changed', '%s: %s' % (when, short(diff)))
        c.equal(jar(self.kj), self.jar, 'the key jar of the handler was changed', when)
        c.equal(defaults(), self.defaults, 'library defaults were changed', when)
        c.ev('configuration snapshots compared')

    # one history per issuer, driven by its own random numbers
    def step(self, k, rng):
        o, h = self.ops[k], self.h
        live = self.sess[k]
        x = rng.random()
        what = 'begin'
        if live and x < .8:
            s = live[rng.randrange(len(live))]
            if s.result is None:
                what = 'finalize'
            else:
                what = rng.choice(['refresh', 'userinfo', 'valid', 'logout', 'clear', 'active', 'backchannel', 'info'])
        args = None
        try:
            if what == 'begin':
                args = rng.choice([None, None, {'ui_locales': ['sv'], 'max_age': 60}, {'scope': ['openid', 'email', 'profile']},
                                   {'claims': {'userinfo': {'name': None}}}])
                beh = rng.choice([None, None, {'client_name': 'N%d' % k}])
                a0, b0 = copy.deepcopy(args), copy.deepcopy(beh)
                r = h.begin(self.keys[k], req_args=args, behaviour_args=beh)
                self.c.equal((args, beh), (a0, b0), 'arguments of begin() were changed')
                s = W.Sess(o, self.keys[k], r['state'], r['url'])
                live.append(s)
                res = self.canon[k].url(r['url'])
            elif what == 'finalize':
                s.req = params = o.resolve(o.read_authz(s.url))
                s.ru, s.resp, s.grant = o.authorize(s.url, params=params)
                s.result = h.finalize(o.issuer, dict(s.resp))
                if 'error' not in s.result:
                    W.check_result(self.c, s)
                res = W.plain(dict(s.result))
            elif what == 'refresh':
                res = h.refresh_access_token(s.state).to_dict()
            elif what == 'userinfo':
                res = h.get_user_info(s.state).to_dict()
            elif what == 'valid':
                res = h.get_valid_access_token(s.state)
            elif what == 'active':
                res = h.has_active_authentication(s.state)
            elif what == 'logout':
                res = self.canon[k].url(h.logout(s.state)['url'])
            elif what == 'backchannel':
                alg = o.alg_for(s.grant['client_id'])
                lt = jose.jws({'iss': o.issuer, 'aud': s.grant['client_id'], 'iat': int(CLOCK.now), 'jti': 'j', 'sid': s.grant['sid'],
                               'events': {BC_EVENT: {}}}, alg, o.key_for(alg, s.grant['client_id']))
                res = backchannel_logout(h.issuer2rp[o.issuer], request_args={'logout_token': lt}) == s.state
            elif what == 'clear':
                h.clear_session(s.state)
                live.remove(s)
                res = 'gone'
            else:
                res = W.record(h, s.state)
        except Violation:
            raise
        except Exception as err:
            res = ['refused', type(err).__name__]
            self.refused += 1
        self.results[k].append([what, self.canon[k].obj(W.plain(res))])
        self.c.ev('steps: ' + what)

    def traffic(self, k):
        o = self.ops[k]
        return [self.canon_of(k).rec(r) for r in self.net.log if r.op is o or any(x.match(r) for x in [o])]

    def canon_of(self, k):
        return Canon()


def differences(a, b, at=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if a.get(k, '-') != b.get(k, '-'):
                yield from differences(a.get(k, '-'), b.get(k, '-'), '%s/%s' % (at, k))
    elif isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for n, (x, y) in enumerate(zip(a, b)):
            if x != y:
                yield from differences(x, y, '%s/%d' % (at, n))
    else:
        yield '%s: %s -> %s' % (at, short(a, 120), short(b, 120))


def compare(c, what, a, b, detail):
    for n, (x, y) in enumerate(zip(a, b)):
        if x != y:
            d = list(differences(x, y))
            raise Violation(what, '%s, number %d: %s' % (detail, n, short(d, 800)))
    c.equal(len(a), len(b), what + ' (number)', detail)
    c.ev('compared: ' + what, len(a))


def f_diff(c, rng, i):
    mode = ['separate', 'default', 'aliased'][i % 3]
    n = rng.randint(2, 3)
    seed = '%s/%s' % (c.run.seed, rng.random())
    who = rng.randrange(n)
    steps = rng.randint(3, 9)
    # alone
    alone = Setup(c, seed, n, mode)
    r = random.Random(seed + 'who')
    for _ in range(steps):
        alone.step(who, r)
    alone.unchanged('alone')
    solo = (alone.results[who], alone.traffic(who))
    foreign = [x for x in alone.net.log if not alone.ops[who].match(x)]
    c.check(not foreign, 'traffic to an issuer that is not used', lambda: [x.brief() for x in foreign])
    # among others
    order = []
    for k in range(n):
        if k != who:
            order += [k] * rng.randint(1, 8)
    order += [who] * steps
    kind = rng.choice(['first', 'last', 'mixed', 'mixed'])
    if kind == 'first':
        order = [k for k in order if k == who] + [k for k in order if k != who]
    elif kind == 'last':
        order = [k for k in order if k != who] + [k for k in order if k == who]
    else:
        rng.shuffle(order)
    crowd = Setup(c, seed, n, mode)
    rngs = [random.Random(seed + ('who' if k == who else str(k))) for k in range(n)]
    for k in order:
        crowd.step(k, rngs[k])
        if k != who and rng.random() < .2:
            crowd.unchanged('after a step of another issuer')
    crowd.unchanged('at the end')
    c.log('histories', mode=mode, kinds=crowd.kinds, who=who, order=order, results=solo[0])
    d = 'issuer %s (%s, %s), order %s' % (crowd.ops[who].issuer, mode, crowd.kinds, order)
    compare(c, 'results depend on other issuers', solo[0], crowd.results[who], d)
    compare(c, 'traffic depends on other issuers', solo[1], crowd.traffic(who), d)
    # nothing of one issuer is seen by another
    for k, o in enumerate(crowd.ops):
        secrets = set()
        for kk, p in enumerate(crowd.ops):
            if p is o:
                continue
            for cl in p.clients.values():
                secrets.add(cl['client_secret'])
            secrets |= set(p.access) | set(p.refresh) | set(p.grants)
            for s in crowd.sess[kk]:
                secrets.add(s.state)
                if s.req and s.req.get('nonce'):
                    secrets.add(s.req['nonce'])
        secrets -= {'', None}
        for rec in crowd.net.log:
            if not o.match(rec):
                continue
            txt = rec.text()
            a = rec.headers.get('authorization', '')
            if a.startswith('Basic '):
                txt += base64.b64decode(a[6:]).decode('utf-8', 'replace')
            hit = [x for x in secrets if x in txt]
            c.check(not hit, 'something of one issuer was sent to another', lambda: '%s in %s' % (hit, rec.brief()))
            c.ev('requests scanned for foreign secrets')
    c.equal({k: v.client_get('service_context').issuer for k, v in crowd.h.issuer2rp.items()},
            {k: k for k in crowd.h.issuer2rp}, 'clients and their issuers')
    c.seen(mode, kind, crowd.kinds[who], tuple(x[0] for x in solo[0]), n)
    c.ev('histories compared')


def f_keys(c, rng, i):
    """Tokens made with the keys or the secret of another issuer."""
    mode = rng.choice(['default', 'separate'])
    alg = rng.choice(['RS256', 'ES256', 'HS256', 'HS256'])
    ops = [opmod.OP(c.net, x, k, tag='op%d' % k) for k, x in enumerate(rng.sample(ISS, 2))]
    a, b = ops
    prefs = {'id_token_signed_response_alg': alg}
    for o in ops:
        o.rp_jwks = W.rp_public_jwks()
        o.sub_of = lambda g: 'the-user'
        o.sid = True
        o.md['backchannel_logout_supported'] = o.md['backchannel_logout_session_supported'] = True
        o.idt_alg = alg
    rt = rng.choice(['code', 'id_token', 'code id_token'])
    if mode == 'default':
        confs = {'': W.dynamic_conf(None, [rt], prefs=prefs)}
    else:
        confs = {o.issuer: W.dynamic_conf(o, [rt], prefs=prefs) for o in ops}
    h = W.handler(confs)
    first = rng.sample(ops, 2)
    # both are in use
    for o in first:
        W.login(c, h, o)
        c.ev('honest logins')
    if rng.random() < .5:
        W.login(c, h, a)
    cid = {o.tag: W.context(h, o).client_id for o in ops}
    bk = b.key_for(alg, cid['op1'])
    ak = a.key_for(alg, cid['op0'])
    kid = rng.choice(['theirs', 'own', 'none'])

    def forge(claims):
        """Signed by A, about B."""
        hd = {'kid': {'theirs': bk.kid, 'own': ak.kid, 'none': None}[kid]}
        if alg == 'HS256':
            hd = {}
        return jose.jws(claims, alg, ak, headers=hd)
    what = rng.choice(['id_token', 'id_token', 'logout', 'userinfo'])
    before = len(c.net.log)
    if what == 'id_token':
        s = W.begin(c, h, b)
        orig = b.id_token

        def bad(grant, code=None, access_token=None, alg=None, **kw):
            cl = b.claims(grant)
            if code:
                cl['c_hash'] = jose.left_hash('RS256', code)
            if access_token:
                cl['at_hash'] = jose.left_hash('RS256', access_token)
            return forge(cl)
        b.id_token = bad
        W.answer(c, s)
        c.refused(lambda: h.finalize(b.issuer, dict(s.resp)), 'ID Token signed with the key of another issuer accepted',
                  (alg, kid, mode))
        b.id_token = orig
    elif what == 'logout':
        lt = forge({'iss': b.issuer, 'aud': cid['op1'], 'iat': int(CLOCK.now), 'jti': 'x', 'sub': 'the-user', 'events': {BC_EVENT: {}}})
        c.refused(lambda: backchannel_logout(h.issuer2rp[b.issuer], request_args={'logout_token': lt}),
                  'logout token signed with the key of another issuer accepted', (alg, kid, mode))
    else:
        if rt == 'id_token':
            return
        s = W.begin(c, h, b)
        W.answer(c, s)
        b.hook['userinfo_endpoint'] = lambda rec, res: (200, {'Content-Type': 'application/jwt'}, forge(
            {'iss': b.issuer, 'aud': cid['op1'], 'sub': 'the-user', 'email': 'x@y.example'}))
        c.refused(lambda: h.finalize(b.issuer, dict(s.resp)), 'user info signed with the key of another issuer accepted', (alg, kid, mode))
        b.hook.clear()
    # and B goes on as before
    W.check_result(c, W.login(c, h, b))
    c.seen('keys', what, alg, kid, mode, rt)


class Needs(Message):
    c_param = {'access_token': SINGLE_REQUIRED_STRING, 'note': SINGLE_OPTIONAL_STRING}


class Custom(Service):
    msg_type = Needs
    response_cls = Message
    error_msg = ResponseMessage
    endpoint_name = 'userinfo_endpoint'
    synchronous = True
    service_name = 'custom'
    http_method = 'POST'
    request_body_type = 'json'
    default_authn_method = ''


class Plain(Custom):
    msg_type = Message
    service_name = 'plain'


def f_classes(c, rng, i):
    """Requests of one client do not change the message and service classes all clients use."""
    ops = [opmod.OP(c.net, x, k, tag='op%d' % k) for k, x in enumerate(rng.sample(ISS, 2))]
    confs = {}
    for o in ops:
        svc = W.services()
        svc['custom'] = {'class': 'c23.Custom'} if rng.random() < .5 else {'class': Custom}
        svc['plain'] = {'class': Plain}
        confs[o.issuer] = W.static_conf(o, svc=svc)
    h = W.handler(confs)
    a, b = [W.login(c, h, o) for o in ops]
    sb = h.issuer2rp[ops[1].issuer].client_get('service', 'custom')
    pb = h.issuer2rp[ops[1].issuer].client_get('service', 'plain')

    def probe():
        res = []
        info = sb.get_request_parameters(request_args={'note': 'x'})
        try:
            info['request'].verify()
            res.append('verified')
        except Exception as err:
            res.append(type(err).__name__)
        info = pb.get_request_parameters(request_args={'access_token': ['a', 'b'], 'x': 1})
        try:
            info['request'].verify()
            res.append(json.loads(info['body']))
        except Exception as err:
            res.append(type(err).__name__)
        try:
            res.append(Message(access_token=17, refresh_token=['x', 'y']).to_dict())
        except Exception as err:
            res.append(type(err).__name__)
        return res
    p0 = probe()
    ca = h.issuer2rp[ops[0].issuer]
    for _ in range(rng.randint(1, 4)):
        what = rng.choice(['userinfo', 'custom', 'plain', 'refresh', 'login'])
        m = rng.choice(['bearer_header', 'bearer_body'])
        try:
            if what in ('custom', 'plain'):
                ca.client_get('service', what).get_request_parameters(request_args={'access_token': 'tok', 'note': 'n'}, authn_method=m,
                                                                     state=a.state, key=a.state)
            elif what == 'userinfo':
                h.get_user_info(a.state, authn_method=m)
            elif what == 'refresh':
                h.refresh_access_token(a.state)
            else:
                W.login(c, h, ops[0])
        except Violation:
            raise
        except Exception:
            c.ev('operations refused')
        c.equal(probe(), p0, 'requests of one client change those of another', (what, m))
        c.seen('classes', what, m)


def run(r):
    r.rule = ('A case is a pair of runs: the history of one issuer alone and mixed with others (separate, shared default or '
              'aliased configurations); distinct by configuration mode, order, kind of client and steps.')
    r.cases('classes', 40, f_classes, thorough=500, share=.15)
    r.cases('keys', 120, f_keys, thorough=4000, share=.4)
    r.cases('diff', 150, f_diff, thorough=6000)
