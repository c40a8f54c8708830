"""C19: a client can be persisted at any point and resumed without a visible difference."""
import copy
import json
import os
import re
from urllib.parse import parse_qsl, urlsplit

import jose
import op as opmod
import world
from core import Violation, short
from net import jresp
from vclock import CLOCK

from oidcrp.client_auth import valid_service_context
from oidcrp.rp_handler import backchannel_logout
from oidcrp.service_context import ServiceContext

RULE = ('A case is a history at one or two issuers that is interrupted at a random point: the service contexts are exported, passed '
        'through JSON and loaded into freshly created clients of a new handler. Original and restored clients then get the same '
        'continuation, from the same state of the providers and the clock; requests, results, exceptions and session records are '
        'compared after replacing what is random by place holders. In family stops a flow is interrupted between all steps. '
        'Non-trivial: a comparison after a restoration; distinct by (client type, response type, add-ons, what the sessions were '
        'at, step of the continuation).')
ASSUMPTIONS = ['the new process has the same configuration and the same key file as the old one',
               'custom HTTP client objects of the pushed authorization add-on can not be exported']

ISS = ['https://op.example.com', 'https://login.example.net/x']
EVENT = 'http://schemas.openid.net/event/backchannel-logout'


def setup(c, rng, n):
    os.chdir(c.dir)
    parties, confs = [], {}
    for k, iss in enumerate(rng.sample(ISS, n)):
        o = rng.choice([opmod.OP, opmod.Prov])(c.net, iss, k, tag='op%d' % k, md={'backchannel_logout_session_supported': True,
                                                        'dpop_signing_alg_values_supported': ['ES256', 'RS256']})
        o.rp_jwks = world.rp_public_jwks()
        o.sid = rng.random() < .7
        o.idt_on_refresh = rng.random() < .5
        o.rotate_refresh = rng.random() < .5
        o.userinfo_format = rng.choice(['json', 'json', 'jwt'])
        ao = {}
        rt = rng.choice(world.RT_ALL)
        if 'code' in rt.split():
            if rng.random() < .5:
                ao.update(world.pkce(rng.randint(43, 100), rng.choice(['S256', 'S512'])))
            if rng.random() < .35:
                ao.update(world.dpop([rng.choice(['ES256', 'RS256'])]))
        if rng.random() < .2:
            ao.update(world.par(body_format=rng.choice(['jws', 'urlencoded']), merge_rule=rng.choice(['strict', 'lax'])))
        extra = {}
        if rng.random() < .3:
            extra['post_logout_redirect_uri'] = world.BASE + '/bye'
        if rng.random() < .2:
            extra['clock_skew'] = rng.choice([0, 100])
        kind = rng.choice(['static', 'static+discovery', 'dynamic', 'dynamic'])
        prefs = {}
        if kind == 'dynamic' and rng.random() < .5:
            prefs['id_token_signed_response_alg'] = rng.choice(['RS256', 'ES256', 'RS384'])
            prefs['backchannel_logout_usable'] = True
        if kind == 'dynamic' and o.userinfo_format == 'jwt':
            prefs['userinfo_signed_response_alg'] = 'RS256'
        svc = None
        if rng.random() < .5:
            svc = world.services()
            svc['registration_read'] = {'class': 'oidcrp.oidc.read_registration.RegistrationRead'}
        ro = rng.random()
        if ro < .15 and 'pushed_authorization' not in ao:
            svc = world.services(authorization={'request_object_signing_alg': 'ES256', 'behaviour': {}})
            extra['request_object_signing_alg'] = 'ES256'
        ro = ro < .15 and 'pushed_authorization' not in ao
        cnf, desc = world.gen_conf(rng, o, kind=kind, rt=rt, add_ons=ao, prefs=prefs, svc=svc, **extra)
        key = rng.choice([iss, 'name-%d' % k])
        confs[key] = cnf
        parties.append(dict(op=o, key=key, desc=desc, rt=rt, ao=tuple(sorted(ao)), ro=ro))
    return parties, confs


def export(c, h, services=False):
    """{issuer: JSON}; exporting must not change anything."""
    res = {}
    for iss, client in h.issuer2rp.items():
        ctx = client.client_get('service_context')
        if len(ctx.client_id) % 2:      # a preferred key of a kind that is not used otherwise
            ctx.kid['enc'].setdefault('EC', 'kid-of-' + ctx.client_id)
        d = ctx.dump()
        txt = json.dumps(d)
        c.equal(json.loads(txt), d, 'export that JSON can not carry', lambda: short({k: d[k] for k in d if json.loads(json.dumps(d[k])) != d[k]}))
        c.equal(json.dumps(ctx.dump()), txt, 'export changed the context')
        res[iss] = txt
        if services:
            d = client.client_get('services').dump()
            c.equal(json.loads(json.dumps(d)), json.loads(json.dumps(client.client_get('services').dump())), 'export of the services')
            res['services ' + iss] = json.dumps(d)
        c.ev('contexts exported')
    return res


def restore(c, parties, confs, h, exported):
    """A new process: new handler, same configuration, the exported contexts."""
    h2 = world.handler(copy.deepcopy(confs))
    for p in parties:
        iss = p['op'].issuer
        if iss not in exported:
            continue
        client = h2.init_client(p['key'])
        client.client_get('service_context').load(json.loads(exported[iss]))
        if 'services ' + iss in exported:
            client.client_get('services').load(json.loads(exported['services ' + iss]), init_args={'client_get': client.client_get})
        h2.issuer2rp[iss] = client
        h2.hash2issuer[p['key']] = iss
        again = client.client_get('service_context').dump()
        want = json.loads(exported[iss])
        c.equal(json.loads(json.dumps(again)), want, 'second export differs from the first',
                lambda: short({k: (want.get(k), again.get(k)) for k in set(want) | set(again) if want.get(k) != again.get(k)}))
        if iss in h.issuer2rp:
            same_settings(c, h.issuer2rp[iss].client_get('service_context'), client.client_get('service_context'))
            # what is exported is all there is to know, whatever the new process has been told
            bare = ServiceContext(config={})
            bare.load(json.loads(exported[iss]))
            same_settings(c, h.issuer2rp[iss].client_get('service_context'), bare)
        c.ev('contexts restored')
    return h2


SETTINGS = ('client_id', 'client_secret', 'client_secret_expires_at', 'issuer', 'redirect_uris', 'behaviour', 'callback', 'provider_info',
            'registration_response', 'base_url', 'requests_dir', 'allow', 'client_preferences', 'args', 'add_on', 'httpc_params',
            'register_args', 'clock_skew', 'verify_args', 'hash_seed', 'kid', 'post_logout_redirect_uris', 'hash2issuer', 'config',
            'registration_access_token')


def same_settings(c, a, b):
    """What applications read from the context is the same."""
    for k in SETTINGS:
        x, y = getattr(a, k, None), getattr(b, k, None)
        if x is None and y == []:           # nothing was configured (redirect_uris)
            continue
        c.equal(world.plain(y), world.plain(x), 'restored context has another ' + k)
    exp = a.client_secret_expires_at
    for t in {int(CLOCK.now), exp - 1, exp, exp + 1} - {0, -1}:
        c.equal(valid_service_context(b, t), valid_service_context(a, t), 'restored client secret has another validity', (t, exp))
    for o in sorted(set(a.keyjar.owners()) | set(b.keyjar.owners())):
        c.equal(jwks(b.keyjar, o), jwks(a.keyjar, o), 'restored client has other keys', repr(o))


def jwks(kj, owner):
    return sorted(json.dumps(k, sort_keys=True) for k in kj.export_jwks(private=True, issuer_id=owner)['keys'])


# -- state of the provider --------------------------------------------------------

def freeze(o):
    def grant(g):
        return {k: list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v for k, v in g.items()}
    return (o.n, dict(o.grants), dict(o.access), dict(o.refresh), dict(o.par), list(o.issued), set(o.__dict__.get('jtis', ())),
            dict(o.clients), [(g, grant(g)) for g in o.issued], o.rsa, o.ec)


def thaw(o, f):
    o.n, o.grants, o.access, o.refresh, o.par, o.issued = f[0], dict(f[1]), dict(f[2]), dict(f[3]), dict(f[4]), list(f[5])
    o.jtis, o.clients = set(f[6]), dict(f[7])
    o.rsa, o.ec = f[9], f[10]
    for g, v in f[8]:
        g.clear()
        g.update({k: list(x) if isinstance(x, list) else dict(x) if isinstance(x, dict) else x for k, x in v.items()})


# -- normalised observation ---------------------------------------------------------

def diff(a, b, path=''):
    """Where two plain values differ."""
    if isinstance(a, dict) and isinstance(b, dict):
        return [d for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k) for d in diff(a.get(k), b.get(k), path + '/' + k)]
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [d for k in range(len(a)) if a[k] != b[k] for d in diff(a[k], b[k], '%s[%d]' % (path, k))]
    return [] if a == b else ['%s: %s instead of %s' % (path, short(a, 150), short(b, 150))]


class Norm:
    """Replaces what is random in one run by place holders."""

    def __init__(self):
        self.map = {}
        self.keys = set()     # DPoP keys that were used before

    def add(self, value, name):
        if value:
            self.map[value] = '<%s>' % name

    def text(self, s):
        if s.count('.') == 2 and len(s) > 60:
            try:
                hd, p, _, _ = jose.parts(s)
            except Exception:
                pass
            else:
                if 'jwk' in hd and json.dumps(hd['jwk'], sort_keys=True) not in self.keys:
                    hd['jwk'] = hd['kid'] = '<new key>'
                return self({'header': {k: v for k, v in hd.items()},
                             'payload': {k: '<jti>' if k == 'jti' else v for k, v in p.items()}})
        for k, v in self.map.items():
            if k in s:
                s = s.replace(k, v)
        return s

    def __call__(self, o):
        if isinstance(o, str):
            return self.text(o)
        if hasattr(o, 'to_dict'):
            o = o.to_dict()
        if isinstance(o, dict):
            return {self.text(str(k)): self(v) for k, v in o.items()}
        if isinstance(o, (list, tuple, set)):
            return [self(v) for v in o]
        return o

    def rec(self, r):
        if r.endpoint == 'jwks_uri':
            return None
        try:
            body = sorted(parse_qsl(r.body.decode(), keep_blank_values=True, strict_parsing=True)) if r.body else ''
        except ValueError:
            body = r.body.decode('utf-8', 'replace')
        hd = {k: v for k, v in r.headers.items() if k in ('authorization', 'content-type', 'dpop', 'cookie', 'accept')}
        return self([r.method, r.base, sorted(r.query), body, hd, r.status])


def dpop_keys(c):
    return {json.dumps(jose.parts(r.headers['dpop'])[0]['jwk'], sort_keys=True) for r in c.net.log if 'dpop' in r.headers}


class Runner:
    """Runs a continuation on a handler."""

    def __init__(self, c, h, parties, sessions):
        self.c, self.h, self.parties = c, h, parties
        self.sessions = [copy.copy(s) for s in sessions]
        self.norm = Norm()
        self.norm.keys = dpop_keys(c)
        self.obs = []

    def session(self, k):
        return self.sessions[k % len(self.sessions)] if self.sessions else None

    def observe(self, what, value):
        self.obs.append((what, self.norm(value)))

    def begin(self, k, args):
        p = self.parties[k % len(self.parties)]
        o = p['op']
        key = p['key'] if args else o.issuer
        res = self.h.begin(key if o.issuer in self.h.issuer2rp else p['key'])
        s = world.Sess(o, key, res['state'], res['url'])
        s.stage = 'begun'
        n = len(self.sessions)
        self.norm.add(s.state, 'state %d' % n)
        s.req = o.resolve(o.read_authz(s.url))
        for a in ('nonce', 'code_challenge'):
            self.norm.add(s.req.get(a), '%s %d' % (a, n))
        self.sessions.append(s)
        self.norm.add(world.record(self.h, s.state).get('pkce', {}).get('code_verifier'), 'verifier %d' % n)
        u = urlsplit(s.url)
        self.observe('url', [u.scheme, u.netloc, u.path, u.fragment, sorted(parse_qsl(u.query, keep_blank_values=True))])

    def finish(self, k, args):
        s = self.session(k)
        if not s or s.stage != 'begun':
            return
        s.stage = 'answered'
        ru, s.resp, s.grant = s.op.authorize(s.url, params=s.req)
        if args:
            # only the first half
            r = self.h.finalize_auth(self.h.issuer2rp[s.op.issuer], s.op.issuer, dict(s.resp))
            s.stage = 'half'
            self.observe('authorization response', r)
            return
        r = self.h.finalize(s.op.issuer, dict(s.resp))
        s.stage = 'done'
        self.observe('result', r)

    def second(self, k, args):
        s = self.session(k)
        if not s or s.stage != 'half':
            return
        r = self.h.get_access_and_id_token(state=s.state)
        self.observe('tokens', r)
        s.stage = 'tokens'

    def userinfo(self, k, args):
        s = self.session(k)
        if not s or s.stage not in ('tokens', 'done') or not s.grant['ats']:
            return
        r = self.h.get_user_info(s.state)
        self.observe('user info', r)

    def refresh(self, k, args):
        s = self.session(k)
        if s and s.stage in ('tokens', 'done') and s.grant['rts']:
            self.observe('refreshed', self.h.refresh_access_token(s.state))

    def valid(self, k, args):
        s = self.session(k)
        if s:
            self.observe('valid token', self.h.get_valid_access_token(s.state))

    def active(self, k, args):
        s = self.session(k)
        if s:
            self.observe('active', self.h.has_active_authentication(s.state))

    def replay(self, k, args):
        """The response of one session once more, or with a state nobody knows."""
        s = self.session(k)
        if s and s.resp and s.stage == 'done':
            resp = dict(s.resp)
            if args:
                resp['state'] = 'unknown'
            self.h.finalize(s.op.issuer, resp)

    def logout(self, k, args):
        s = self.session(k)
        if s and s.stage == 'done':
            r = self.h.logout(s.state)
            q = dict(parse_qsl(urlsplit(r['url']).query))
            self.norm.add(q.get('state'), 'logout state')
            self.observe('logout', [r['url'].split('?')[0], sorted(q.items())])
            ctx = self.h.issuer2rp[s.op.issuer].client_get('service_context')
            self.observe('session of the logout state', ctx.state.get_state_by_logout_state(q['state']))

    def back(self, k, args):
        s = self.session(k)
        if s and s.stage == 'done':
            o = s.op
            cl = {'iss': o.issuer, 'aud': s.grant['client_id'], 'iat': int(CLOCK.now), 'jti': 'j', 'events': {EVENT: {}}}
            if args and o.sid:
                cl['sid'] = s.grant['sid']
            else:
                cl['sub'] = s.grant['sub']
            alg = o.alg_for(s.grant['client_id'])
            tok = jose.jws(cl, alg, o.key_for(alg, s.grant['client_id']))
            self.observe('session of the logout token', backchannel_logout(self.h.issuer2rp[o.issuer], request_args={'logout_token': tok}))

    def lookup(self, k, args):
        s = self.session(k)
        if s and s.req and s.req.get('nonce'):
            ctx = self.h.issuer2rp[s.op.issuer].client_get('service_context')
            self.observe('session of the nonce', ctx.state.get_state_by_nonce(s.req['nonce']))

    def readback(self, k, args):
        """What the provider has registered."""
        cl = self.h.issuer2rp.get(self.parties[k % len(self.parties)]['op'].issuer)
        if cl and cl.client_get('service', 'registration_read') and \
                cl.client_get('service_context').registration_response.get('registration_client_uri'):
            self.observe('read back', cl.do_request('registration_read'))

    def clear(self, k, args):
        s = self.session(k)
        if s and s.stage != 'gone':
            self.h.clear_session(s.state)
            s.stage = 'gone'

    def rotate(self, k, args):
        """The provider has new keys, and the old ones no more."""
        o = self.parties[k % len(self.parties)]['op']
        o.rsa, o.ec = opmod.pool_key('RSA', 7 + k % 2), opmod.pool_key('P-256', 7 + k % 2)

    def time(self, k, args):
        CLOCK.advance(k * 97)

    def run(self, script):
        for what, k, args in script:
            n0 = len(self.c.net.log)
            try:
                getattr(self, what)(k, args)
            except Exception as err:
                self.observe(what + ' raised', [type(err).__name__, re.sub(r"\{.*\}|'[^']*'|\"[^\"]*\"", '..', str(err))[:80]])
            self.obs.append((what + ' http', [x for x in (self.norm.rec(r) for r in self.c.net.log[n0:]) if x]))
            self.obs.append((what + ' records', [self.norm(world.record(self.h, s.state)) for s in self.sessions]))


OPS = ['begin', 'begin', 'finish', 'finish', 'finish', 'second', 'userinfo', 'refresh', 'refresh', 'valid', 'active', 'logout', 'back',
       'lookup', 'clear', 'readback', 'time', 'replay', 'rotate']


def script(rng, n):
    return [(rng.choice(OPS), rng.randint(0, 5), rng.random() < .5) for _ in range(n)]


def twins(c, rng, i):
    parties, confs = setup(c, rng, rng.randint(1, 2))
    orig = copy.deepcopy(confs)
    h = world.handler(confs)
    sessions = []
    for gen in range(rng.randint(1, 3)):
        r0 = Runner(c, h, parties, sessions)
        pre = [('begin', k, True) for k in range(len(parties))] + script(rng, rng.randint(0, 6))
        if gen == 0 and rng.random() < .1:
            pre = pre[:len(parties)]
        r0.run(pre)
        sessions = r0.sessions
        before = [world.record(h, s.state) for s in sessions]
        exported = export(c, h)
        c.equal([world.record(h, s.state) for s in sessions], before, 'exporting changed a session')
        h2 = restore(c, parties, orig, h, exported)
        for s, b in zip(sessions, before):
            c.equal(world.record(h2, s.state), b, 'session record after restoring')
            c.equal(world.record(h, s.state), b, 'restoring another client changed the original')
        frozen, now = [freeze(p['op']) for p in parties], CLOCK.now
        sc = script(rng, rng.randint(4, 9))
        a = Runner(c, h, parties, sessions)
        a.run(sc)
        for p, f in zip(parties, frozen):
            thaw(p['op'], f)
        CLOCK.now = now
        b = Runner(c, h2, parties, sessions)
        b.norm.keys = a.norm.keys
        b.run(sc)
        for k, (x, y) in enumerate(zip(a.obs, b.obs)):
            x, y = json.loads(json.dumps(x, default=repr)), json.loads(json.dumps(y, default=repr))
            c.check(x == y, 'restored client differs', lambda: '%s: %s (step %d of %s)' % (x[0], short(diff(y, x)), k, sc))
            c.ev('observations compared')
        c.equal(len(a.obs), len(b.obs), 'restored client differs')
        for p in parties:
            for w in sc:
                c.seen('twins', p['desc'][0], p['rt'], p['ao'], tuple(sorted({s.stage for s in sessions if s.op is p['op']})), w[0])
        h, sessions = h2, b.sessions
        # later generations go on with the restored client


def stops(c, rng, i):
    """Interrupted between all steps of a flow."""
    parties, confs = setup(c, rng, 1)
    orig = copy.deepcopy(confs)
    h = world.handler(confs)
    p = parties[0]
    o = p['op']

    # the services as well, where nothing was added to them
    svc = not p['ao'] and not p['ro'] and rng.random() < .5

    def stop():
        return restore(c, parties, orig, h, export(c, h, svc))

    s = world.begin(c, h, o, p['key'])
    h = stop()
    world.answer(c, s)
    client = h.issuer2rp[o.issuer]
    resp = h.finalize_auth(client, o.issuer, dict(s.resp))
    c.equal({k: v for k, v in world.plain(resp).items() if k in s.resp and k != 'expires_in'},
            {k: v for k, v in s.resp.items() if k != 'expires_in'}, 'authorization response')
    h = stop()
    tok = h.get_access_and_id_token(state=s.state)
    h = stop()
    if s.grant['ats']:
        c.check(tok['access_token'] in s.grant['ats'], 'access token')
        ui = h.get_user_info(s.state)
        c.equal(world.plain(ui)['sub'], s.grant['sub'], 'subject of the user info')
        h = stop()
        at, _ = h.get_valid_access_token(s.state)
        c.check(at in s.grant['ats'], 'access token')
    if tok['id_token'] is not None:
        c.equal(tok['id_token']['sub'], s.grant['sub'], 'subject of the ID Token')
        c.equal(h.has_active_authentication(s.state), True, 'active authentication')
    for _ in range(2):
        if s.grant['rts']:
            h.refresh_access_token(s.state)
            h = stop()
            c.equal(h.get_valid_access_token(s.state)[0], s.grant['ats'][-1], 'access token after refresh')
    if s.grant['idts']:
        u = h.logout(s.state)['url']
        q = dict(parse_qsl(urlsplit(u).query))
        c.equal(q['id_token_hint'], s.grant['idts'][-1], 'hint')
        h = stop()
        c.equal(world.context(h, o).state.get_state_by_logout_state(q['state']), s.state, 'logout state')
    h.clear_session(s.state)
    h = stop()
    c.refused(lambda: h.get_session_information(s.state), 'forgotten session after restoring', allow=KeyError)
    t = world.login(c, h, o, o.issuer)
    if o.userinfo_format == 'json':
        world.check_result(c, t)
    keys = dpop_keys(c)
    if 'dpop' in p['ao'] and keys:
        c.equal(len(keys), 1, 'DPoP key changed by restoring')
    c.seen('stops', p['desc'], p['ao'], p['ro'], svc)


def oauth2(c, rng, i):
    """The plain OAuth2 client."""
    from oidcrp.oauth2 import Client
    os.chdir(c.dir)
    o = opmod.OP(c.net, rng.choice(ISS), 0, tag='op0')
    cnf = world.static_conf(o, svc=copy.deepcopy(world.OAUTH2_SERVICES), auth=rng.choice(world.AUTHS[:2]), scope=['a', 'b'])
    if rng.random() < .5:
        cnf['add_ons'] = world.pkce()
    orig = copy.deepcopy(cnf)
    h = world.handler({o.issuer: cnf}, cls=world.RPHandler, client_cls=Client)

    def stop():
        ctx = h.issuer2rp[o.issuer].client_get('service_context')
        d = ctx.dump()
        txt = json.dumps(d)
        h2 = world.handler({o.issuer: copy.deepcopy(orig)}, client_cls=Client)
        client = h2.init_client(o.issuer)
        client.client_get('service_context').load(json.loads(txt))
        h2.issuer2rp[o.issuer] = client
        c.equal(json.loads(json.dumps(client.client_get('service_context').dump())), json.loads(txt), 'second export differs from the first')
        same_settings(c, ctx, client.client_get('service_context'))
        return h2

    s = world.begin(c, h, o)
    h = stop()
    world.answer(c, s)
    world.finalize(c, h, s)
    c.equal(s.result['token'], s.grant['ats'][-1], 'access token')
    h = stop()
    c.equal(h.get_valid_access_token(s.state)[0], s.grant['ats'][-1], 'access token')
    if s.grant['rts']:
        h.refresh_access_token(s.state)
        h = stop()
        c.equal(h.get_valid_access_token(s.state)[0], s.grant['ats'][-1], 'access token after refresh')
    c.seen('oauth2', 'add_ons' in cnf)


def run(r):
    r.cases('oauth2', 10, oauth2, thorough=200)
    r.cases('twins', 140, twins, thorough=5000, share=.75)
    r.cases('stops', 60, stops, thorough=2000)
