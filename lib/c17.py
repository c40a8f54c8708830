"""C17: back-channel logout honours only genuine tokens, for the session they name."""
import copy
import json
import os
import re
from urllib.parse import urlencode

import jose
import op as opmod
import world
from core import Violation, short
from net import jresp
from vclock import CLOCK

from oidcrp.rp_handler import backchannel_logout

RULE = ('A case is a history of logins of few users at several issuers (with session ids that are unique, shared or not given), '
        'logout tokens and clearing. A reference map of what session id and subject were last bound to says which session a '
        'genuine token means; every deviating token, one deviation each, must be refused and leave all session records and all '
        'look-ups of all clients as they were. Non-trivial: a judged logout request; distinct by (deviation, signing algorithm, '
        'claims used, client type).')
ASSUMPTIONS = ['the expected algorithm is what was registered for ID Tokens, RS256 when nothing was registered (static clients)']

ISS = ['https://op.example.com', 'https://login.example.net/x', 'https://third.example.org:8443']
EVENT = 'http://schemas.openid.net/event/backchannel-logout'
FORGED = {}


def forged(kind, kid):
    """A key of somebody else that claims to be a certain key."""
    if kind not in FORGED:
        FORGED[kind] = jose.Key.rsa('evil') if kind == 'RSA' else jose.Key.ec('evil', 'P-256')
    k = FORGED[kind]
    return jose.Key(k.kty, kid, priv=k.priv, crv=k.crv)


class Party:
    def __init__(self, c, rng, k, iss):
        self.op = o = opmod.OP(c.net, iss, k, tag='op%d' % k, md={
            'backchannel_logout_supported': True, 'backchannel_logout_session_supported': True,
            'frontchannel_logout_session_supported': rng.random() < .5})
        if rng.random() < .2:       # what is said about one kind of logout is all there is
            if rng.random() < .5:
                del o.md['backchannel_logout_session_supported']
            else:
                o.md['backchannel_logout_session_supported'] = False
            o.md['frontchannel_logout_session_supported'] = True
        o.rp_jwks = world.rp_public_jwks()
        self.rt = rng.choice(['code', 'code', 'id_token', 'code id_token', 'id_token token', 'code id_token token'])
        if self.rt in ('code id_token', 'code id_token token') and rng.random() < .4:
            o.idt_at_token = False      # the only ID Token is the one that came with the authorization response
        self.kind = rng.choice(['static', 'static+discovery', 'dynamic', 'dynamic'])
        prefs = {}
        self.alg = 'RS256'
        if self.kind == 'dynamic':
            prefs['backchannel_logout_usable'] = True
            if rng.random() < .6:
                alg = rng.choice(['ES256', 'PS256', 'RS384', 'RS256', 'HS256'])
                prefs['id_token_signed_response_alg'] = alg
                self.alg = alg
        self.auth = rng.choice(world.AUTHS[:2])
        kw = {}
        if self.kind != 'dynamic' and rng.random() < .5:
            self.alg = rng.choice(['ES256', 'PS256', 'RS384', 'RS256', 'HS256'])
            kw['behaviour'] = {'id_token_signed_response_alg': self.alg}
            o.idt_alg = self.alg
        self.conf, _ = world.gen_conf(rng, o, kind=self.kind, rt=self.rt, auth=self.auth, prefs=prefs, add_ons={}, **kw)
        self.key = rng.choice([iss, 'name-%d' % k])
        self.sids = rng.choice(['unique', 'unique', 'browser', 'none'])
        if self.sids == 'unique':
            o.sid = True
        elif self.sids == 'browser':
            o.sid = True

            def hook(grant):
                grant['sid'] = rng.choice(['browser-%d', 'browser-%d', 'Browser-%d']) % rng.randint(0, 2)
            o.grant_hook = hook
        o.sub_of = lambda g: rng.choice(['alice', 'Alice', 'bob', '..alice..', 'browser-0'])
        self.bysid, self.bysub, self.live = {}, {}, []
        self.client = None

    def key_of(self, alg=None, cid=None):
        return self.op.key_for(alg or self.alg, cid or self.cid)

    def login(self, c, h):
        s = world.login(c, h, self.op, self.key)
        s.p = self
        self.cid = s.grant['client_id']
        self.client = h.issuer2rp[self.op.issuer]
        if self.op.sid:
            self.bysid[s.grant['sid']] = s
        self.bysub[s.grant['sub']] = s
        self.live.append(s)
        return s

    def forget(self, s):
        self.live.remove(s)
        for m in (self.bysid, self.bysub):
            for k in [k for k, v in m.items() if v is s]:
                del m[k]

    def claims(self, rng, s, use=None):
        use = use or rng.choice(['sid', 'sub', 'both'] if self.op.sid else ['sub'])
        res = {'iss': self.op.issuer, 'aud': rng.choice([self.cid, [self.cid], [self.cid, 'another'], ['another', self.cid]]),
               'iat': int(CLOCK.now) - rng.choice([0, 0, 1, 60, 3000]), 'jti': 'jti-%d' % rng.getrandbits(60),
               'events': {EVENT: {}}}
        if use in ('sid', 'both'):
            res['sid'] = s.grant['sid']
        if use in ('sub', 'both'):
            res['sub'] = s.grant['sub']
        if rng.random() < .3:
            res['exp'] = int(CLOCK.now) + 120
        if rng.random() < .2:
            res['extra'] = world.rndtext(rng, 5)
        return res

    def sign(self, claims, alg=None, key=None, headers=None):
        alg = alg or self.alg
        return jose.jws(claims, alg, key or (self.key_of(alg) if alg != 'none' else None), headers)

    def expect(self, claims):
        s = None
        if 'sid' in claims:
            s = self.bysid.get(claims['sid'])
        if s is None and 'sub' in claims:
            s = self.bysub.get(claims['sub'])
        return s


def send(rng, client, token, **more):
    how = rng.randrange(4)
    args = {'logout_token': token, **more}
    if not more and rng.random() < .25:      # what is said outside the token does not count
        try:
            said = json.loads(jose.b64d(token.split('.')[1]))
        except Exception:
            said = {}
        for k in rng.sample(['iss', 'aud', 'sub', 'sid', 'state', 'client_id', 'allowed_sign_alg', 'skew'], rng.randint(1, 3)):
            v = said.get(k, 'anything')
            args[k] = v if isinstance(v, str) and v else 'anything'
    if how == 0:
        return backchannel_logout(client, request_args=args)
    txt = urlencode(args)
    if rng.random() < .3:        # percent-encoding more than is needed says the same
        txt = '&'.join('%s=%s' % (k, ''.join('%%%02x' % ord(x) if rng.random() < .2 or x == '.' else x for x in v) if '%' not in v else v)
                       for k, v in (p.split('=', 1) for p in txt.split('&')))
        if rng.random() < .3:
            txt = re.sub('%..', lambda m: m.group().upper(), txt)
    return backchannel_logout(client, txt.encode() if how == 1 else txt)


def snapshot(h, parties):
    """Everything the clients know about sessions, as seen through the interface."""
    res = {}
    for p in parties:
        if p.client is None:
            continue
        st = world.context(h, p.op).state
        for s in p.live:
            res[p.op.tag, s.state] = world.record(h, s.state)
        for what, vals, fn in (('sid', {s.grant['sid'] for s in p.live}, st.get_state_by_sid),
                               ('sub', {s.grant['sub'] for s in p.live}, st.get_state_by_sub),
                               ('nonce', {s.grant.get('nonce') for s in p.live}, st.get_state_by_nonce)):
            for v in vals:
                try:
                    res[p.op.tag, what, v] = fn(v)
                except KeyError:
                    res[p.op.tag, what, v] = None
    return res


def make_parties(c, rng, n):
    os.chdir(c.dir)
    ps = [Party(c, rng, k, iss) for k, iss in enumerate(rng.sample(ISS, n))]
    return ps, world.handler({p.key: p.conf for p in ps})


def genuine(c, rng, h, ps, p):
    if not p.live:
        return
    s = rng.choice(p.live)
    claims = p.claims(rng, s)
    mode = rng.choice(['plain'] * 6 + ['unknown', 'unknown-sid'])
    if mode == 'unknown':
        for k in ('sid', 'sub'):
            if k in claims:
                claims[k] = rng.choice(['nobody', s.state, s.grant.get('nonce') or 'x', 'alice2', '..nobody..'])
    elif mode == 'unknown-sid' and 'sid' in claims:
        claims['sid'] = rng.choice(['nothing'] + [x for x in sorted(p.bysub) if x not in p.bysid])
        if rng.random() < .4:
            claims.pop('sub', None)
        elif rng.random() < .5 and p.bysub:
            claims['sub'] = rng.choice(sorted(p.bysub))
    want = p.expect(claims)
    before = snapshot(h, ps)
    token = p.sign(claims, headers=rng.choice([None, {'typ': 'logout+jwt'}, {'typ': 'JWT'}]))
    if want is None:
        c.refused(lambda: send(rng, p.client, token), 'logout token for nobody', short(claims), allow=KeyError)
        out = 'unknown'
    else:
        c.equal(send(rng, p.client, token), want.state, 'session of a logout token', short(claims))
        out = 'found'
    c.equal(snapshot(h, ps), before, 'a logout request by itself changed sessions')
    c.ev('genuine logout tokens judged')
    c.seen('genuine', mode, out, p.alg, p.kind, tuple(sorted(set(claims) & {'sid', 'sub'})), isinstance(claims['aud'], list), p.sids)
    if want is not None and rng.random() < .5:
        h.clear_session(want.state)
        p.forget(want)
        c.equal(world.record(h, want.state), None, 'session record after logout')
        again = p.expect(claims)
        tok2 = p.sign(dict(claims, jti='again'))
        if again is None:
            c.refused(lambda: send(rng, p.client, tok2), 'logout token for a session that is gone', allow=KeyError)
        else:
            c.equal(send(rng, p.client, tok2), again.state, 'session of a logout token after another was cleared')
        for k in before:
            if k[1] != want.state and len(k) == 2:
                c.equal(world.record(h, k[1]), before[k], 'clearing one session touched another')


def other(p, ps):
    return [x for x in ps if x is not p and x.client is not None]


# each: (claims, p, s, rng, ps) -> token or None when it does not apply
def _resign(change):
    def fn(cl, p, s, rng, ps):
        res = change(cl, p, s, rng, ps)
        return None if res is None else p.sign(cl)
    return fn


def _set(**kw):
    def fn(cl, p, s, rng, ps):
        for k, v in kw.items():
            if v is None:
                cl.pop(k, None)
            else:
                cl[k] = v(cl, p, s, rng) if callable(v) else v
        return cl
    return _resign(fn)


def ev(v):
    return _set(events=v)


def evil_key(cl, p, s, rng, ps):
    if p.alg.startswith('HS'):
        return p.sign(cl, key=jose.Key.oct('another secret, long enough to be used'))
    k = p.key_of()
    return p.sign(cl, key=forged('RSA' if k.kty == 'RSA' else 'P-256', rng.choice([k.kid, 'evil'])))


def no_kid_evil(cl, p, s, rng, ps):
    if p.alg.startswith('HS'):
        return None
    return p.sign(cl, key=forged('RSA' if p.key_of().kty == 'RSA' else 'P-256', ''))


def other_issuer_key(cl, p, s, rng, ps):
    o = other(p, ps)
    if not o:
        return None
    q = rng.choice(o)
    k = q.op.key_for(p.alg, q.cid)
    if k.kty != 'oct' and rng.random() < .5:
        k = jose.Key(k.kty, p.key_of().kid, priv=k.priv, crv=k.crv)
    return p.sign(cl, key=k)


def other_issuer_token(cl, p, s, rng, ps):
    """A genuine token of another issuer, for its client."""
    o = [q for q in other(p, ps) if q.live]
    if not o:
        return None
    q = rng.choice(o)
    return q.sign(q.claims(rng, rng.choice(q.live)))


def other_issuer_says(cl, p, s, rng, ps):
    o = other(p, ps)
    if not o:
        return None
    q = rng.choice(o)
    cl['iss'] = q.op.issuer
    return q.sign(cl)


def unsigned(cl, p, s, rng, ps):
    t = jose.jws(cl, 'none')
    return t if rng.random() < .6 else t + jose.b64e(b'signature')


def none_of_signed(cl, p, s, rng, ps):
    """The genuine signature is kept but the header says none."""
    h, b, sig = p.sign(cl).split('.')
    return '.'.join([jose.b64e(json.dumps({'alg': rng.choice(['none', 'None', 'NONE', ''])})), b, sig])


def hs_secret(cl, p, s, rng, ps):
    """Known to the client and the provider, but not the expected algorithm."""
    if p.alg.startswith('HS'):
        return p.sign(cl, 'HS512')
    return p.sign(cl, rng.choice(['HS256', 'HS512']), key=jose.Key.oct(p.op.clients[p.cid]['client_secret']))


def hs_public(cl, p, s, rng, ps):
    if p.alg.startswith('HS'):
        return None
    k = p.key_of()
    secret = rng.choice([json.dumps(k.jwk()), k.jwk().get('n') or k.jwk()['x'], k.kid])
    return p.sign(cl, 'HS256', key=jose.Key.oct(secret, k.kid))


def wrong_alg(cl, p, s, rng, ps):
    """Signed by the issuer, but with another algorithm."""
    alg = rng.choice([a for a in ('RS256', 'RS384', 'RS512', 'PS256', 'ES256') if a != p.alg])
    return p.sign(cl, alg)


def tampered(cl, p, s, rng, ps):
    h, b, sig = p.sign(cl).split('.')
    q = rng.choice(p.live)
    for k, v in (('sub', q.grant['sub']), ('sid', q.grant['sid']), ('jti', 'another')):
        if k in cl:
            cl[k] = v
    cl['jti'] = 'changed'
    return '.'.join([h, jose.b64e(json.dumps(cl)), sig])


def bad_signature(cl, p, s, rng, ps):
    h, b, sig = p.sign(cl).split('.')
    raw = bytearray(jose.b64d(sig))
    kind = rng.randrange(4)
    if kind == 0:
        raw[rng.randrange(len(raw))] ^= 1 << rng.randrange(8)
    elif kind == 1:
        raw = raw[:-1]
    elif kind == 2:
        raw = bytearray()
    else:
        raw = bytearray(len(raw))
    return '.'.join([h, b, jose.b64e(bytes(raw))])


def jku(cl, p, s, rng, ps):
    k = forged('RSA', 'evil')
    url = 'https://evil.example.net/jwks.json'
    hdr = rng.choice([{'jku': url}, {'jwk': k.jwk()}, {'jku': url, 'jwk': k.jwk()}])
    return jose.jws(cl, 'RS256', k, hdr)


def own_key(cl, p, s, rng, ps):
    """Signed with the client's own key."""
    d = [k for k in world.rp_private_jwks()['keys'] if k['kty'] == 'RSA'][0]
    import cryptography.hazmat.primitives.asymmetric.rsa as r
    n = {a: int.from_bytes(jose.b64d(d[a]), 'big') for a in ('n', 'e', 'd', 'p', 'q')}
    if 'own' not in FORGED:
        FORGED['own'] = r.RSAPrivateNumbers(n['p'], n['q'], n['d'], n['d'] % (n['p'] - 1), n['d'] % (n['q'] - 1),
                                            pow(n['q'], -1, n['p']), r.RSAPublicNumbers(n['e'], n['n'])).private_key()
    cl['iss'] = rng.choice([cl['iss'], world.BASE, ''])
    return jose.jws(cl, 'RS256', jose.Key('RSA', d.get('kid', ''), priv=FORGED['own']))


def id_token(cl, p, s, rng, ps):
    return rng.choice(s.grant['idts'])


def id_token_with_event(cl, p, s, rng, ps):
    """Has all of it, but is an ID Token: a nonce."""
    return p.sign(dict(cl, nonce=s.grant.get('nonce') or 'n', exp=int(CLOCK.now) + 100))


def text(*vals):
    def fn(cl, p, s, rng, ps):
        v = rng.choice(vals)
        return v(cl) if callable(v) else v
    return fn


def iss_variant(cl, p, s, rng):
    i = p.op.issuer
    return rng.choice([i + '/', i[:-1], i.upper(), i.replace('https', 'http'), 'https://evil.example.net', world.BASE, i + '#',
                       i.replace('https://', '')])


def aud_variant(cl, p, s, rng):
    a = p.cid
    return rng.choice(['another', ['another', 'more'], a + 'x', a[:-1], [a.upper() + 'X'], [], [[a]], p.op.issuer, world.BASE,
                       a + ' another', 'another ' + a, [a + ' another'], '["%s"]' % a + 'x'])


DEV = {
    'key: of somebody else': evil_key,
    'key: of somebody else, no kid': no_kid_evil,
    'key: of another issuer': other_issuer_key,
    'key: found through the token itself': jku,
    'key: of the client': own_key,
    'alg: none': unsigned,
    'alg: none with the genuine signature': none_of_signed,
    'alg: client secret': hs_secret,
    'alg: HMAC with the public key': hs_public,
    'alg: another one': wrong_alg,
    'signature: of something else': tampered,
    'signature: broken': bad_signature,
    'iss: another issuer, genuine': other_issuer_token,
    'iss: another issuer, for this client': other_issuer_says,
    'iss: variant': _set(iss=iss_variant),
    'iss: missing': _set(iss=None),
    'aud: variant': _set(aud=aud_variant),
    'aud: missing': _set(aud=None),
    'events: missing': _set(events=None),
    'events: empty': ev({}),
    'events: another event': ev({'http://schemas.openid.net/event/frontchannel-logout': {}}),
    'events: two': ev({EVENT: {}, 'http://schemas.openid.net/secevent/risc/event-type/account-disabled': {}}),
    'events: with a value': ev(lambda cl, p, s, rng: {EVENT: rng.choice([{'a': 1}, [], '', 0, True, None, 'x'])}),
    'events: not an object': ev(lambda cl, p, s, rng: rng.choice([EVENT, [EVENT], 1, True])),
    'nonce: some': _set(nonce='some-nonce'),
    'nonce: of the session': id_token_with_event,
    'who: neither sub nor sid': _set(sub=None, sid=None),
    'iat: in the future': _set(iat=lambda cl, p, s, rng: int(CLOCK.now) + rng.choice([5, 600, 10 ** 6])),
    'iat: missing': _set(iat=None),
    'jti: missing': _set(jti=None),
    'what: an ID Token': id_token,
    'what: no token': text('', 'x', 'a.b.c', '..', 'null', '{}', '[]', lambda cl: json.dumps(cl),
                           lambda cl: jose.b64e(json.dumps(cl)), lambda cl: 'eyJhbGciOiJub25lIn0.' + jose.b64e(json.dumps(cl))),
}


def deviating(c, rng, h, ps, p, name=None):
    if not p.live:
        return
    s = rng.choice(p.live)
    name = name or rng.choice(sorted(DEV))
    cl = p.claims(rng, s)
    token = DEV[name](cl, p, s, rng, ps)
    if token is None:
        return
    before = snapshot(h, ps)
    n0 = len(c.net.log)
    c.refused(lambda: send(rng, p.client, token), 'logout token with a deviation accepted', '%s (%s) %s' % (name, p.alg, short(token)))
    c.equal(snapshot(h, ps), before, 'a refused logout request changed sessions', name)
    for r in c.net.log[n0:]:
        c.check(r.op is p.op and r.endpoint == 'jwks_uri', 'a logout token made the client contact somebody', r.url)
    c.ev('deviating logout tokens judged')
    c.seen('deviating', name, p.alg, p.kind, tuple(sorted(set(cl) & {'sid', 'sub'})))
    if rng.random() < .3:
        cl = p.claims(rng, s)
        if p.expect(cl) is not None:
            c.equal(send(rng, p.client, p.sign(cl)), p.expect(cl).state, 'genuine token after a refused one', name)


def history(c, rng, i):
    ps, h = make_parties(c, rng, rng.randint(1, 3))
    c.net.hosts[('https', 'evil.example.net')] = lambda rec: jresp({'keys': [forged('RSA', 'evil').jwk()]})
    for p in ps:
        if rng.random() < .9 or p is ps[0]:
            p.login(c, h)
    for _ in range(rng.randint(8, 16)):
        p = rng.choice(ps)
        what = rng.choice(['login', 'genuine', 'genuine', 'deviating', 'deviating', 'clear', 'time', 'no'])
        if what == 'login' or p.client is None:
            p.login(c, h)
        elif what == 'genuine':
            genuine(c, rng, h, ps, p)
        elif what == 'deviating':
            deviating(c, rng, h, ps, p)
        elif what == 'clear' and p.live:
            s = rng.choice(p.live)
            h.clear_session(s.state)
            p.forget(s)
        elif what == 'time':
            CLOCK.advance(rng.randint(1, 100))
        elif what == 'no':
            before = snapshot(h, ps)
            fn = rng.choice([lambda: backchannel_logout(p.client), lambda: backchannel_logout(p.client, 'x=y'),
                             lambda: backchannel_logout(p.client, request_args={'token': 'x'})])
            c.refused(fn, 'logout request without a token')
            c.equal(snapshot(h, ps), before, 'a logout request without a token changed sessions')


def deviations(c, rng, i):
    """Every deviation, with one client of each kind."""
    name = sorted(DEV)[i % len(DEV)]
    ps, h = make_parties(c, rng, 2)
    c.net.hosts[('https', 'evil.example.net')] = lambda rec: jresp({'keys': [forged('RSA', 'evil').jwk()]})
    for p in ps:
        for _ in range(2):
            p.login(c, h)
    for p in ps:
        deviating(c, rng, h, ps, p, name)
        deviating(c, rng, h, ps, p, name)


def rotation(c, rng, i):
    """The issuer has new keys: its tokens are honoured, those of the old keys of another are not."""
    ps, h = make_parties(c, rng, 2)
    p, q = ps
    s, t = p.login(c, h), q.login(c, h)
    if p.alg.startswith('HS'):
        return
    old = p.op.rsa, p.op.ec
    p.op.rsa, p.op.ec = opmod.pool_key('RSA', 7), opmod.pool_key('P-256', 7)
    CLOCK.advance(rng.choice([1, 1000, 100000]))
    cl = p.claims(rng, s)
    c.equal(send(rng, p.client, p.sign(cl)), p.expect(cl).state, 'logout token signed with a new key')
    if not q.alg.startswith('HS'):
        cl = q.claims(rng, t)
        c.refused(lambda: send(rng, q.client, q.sign(cl, key=p.op.key_for(q.alg))), 'new key of another issuer')
    c.seen('rotation', p.alg, p.kind)


def unsigned_alg(c, rng, i):
    """Even when ID Tokens may be unsigned a logout token may not."""
    os.chdir(c.dir)
    o = opmod.OP(c.net, rng.choice(ISS), 0, tag='op0', idt_alg='none')
    o.sid = True
    o.md['backchannel_logout_session_supported'] = True
    o.rp_jwks = world.rp_public_jwks()
    cnf = world.dynamic_conf(o, prefs={'id_token_signed_response_alg': 'none', 'backchannel_logout_usable': True})
    h = world.handler({o.issuer: cnf})
    s = world.login(c, h, o)
    c.check(s.grant['idts'][0].endswith('.'), 'set-up')
    cl = {'iss': o.issuer, 'aud': s.grant['client_id'], 'iat': int(CLOCK.now), 'jti': 'x', 'events': {EVENT: {}},
          **rng.choice([{'sid': s.grant['sid']}, {'sub': s.grant['sub']}])}
    before = world.record(h, s.state)
    c.refused(lambda: send(rng, h.issuer2rp[o.issuer], jose.jws(cl, 'none')), 'unsigned logout token accepted')
    c.equal(world.record(h, s.state), before, 'a refused logout request changed the session')
    c.seen('unsigned ID Tokens')


def run(r):
    r.cases('history', 160, history, thorough=8000)
    r.cases('deviations', 3 * len(DEV), deviations, thorough=60 * len(DEV))
    r.cases('rotation', 20, rotation, thorough=500)
    r.cases('unsigned_alg', 6, unsigned_alg, thorough=40)
