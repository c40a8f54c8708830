"""C01: only genuine ID Tokens are ever accepted."""
import base64
import json
import re

import jose
import op as opmod
import world
from core import Violation, short
from vclock import CLOCK

RULE = ('A case is one login (or refresh) at a fake provider whose ID Token deviates from a genuine one in one or two '
        'ways (or not at all), for a response type, delivery channel, client set-up, signing algorithm and clock skew. '
        'Non-trivial: the token reached the relying party and the oracle decided accept/refuse plus the traces left in '
        'the session; distinct by (channel, response type, set-up, algorithm, deviations).')
ASSUMPTIONS = ['token contents and signatures are judged by an independent JOSE implementation (lib/jose.py)',
               'virtual clock', 'PS* signatures use the maximum salt length, the only one cryptojwt accepts']

FRONT = ['id_token', 'id_token token', 'code id_token', 'code id_token token']
BACK = ['code', 'code id_token']
ALGS = ['RS256', 'RS384', 'RS512', 'ES256', 'PS256']


def flip(b, rng):
    b = bytearray(b)
    b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
    return bytes(b)


class Mk:
    """Everything a deviation may want to know."""

    def __init__(self, c, w, s, grant, channel, code=None, at=None):
        self.c, self.w, self.s, self.grant, self.channel = c, w, s, grant, channel
        self.code, self.at = code, at
        self.op = w.op
        self.alg = w.alg
        self.cid = grant['client_id']
        self.rng = c.rng
        self.claims = self.op.claims(grant)
        self.nonce = self.claims['nonce']
        if channel == 'refresh':
            # unlike the one from the token endpoint, also when there is a nonce
            self.claims['jti'] = 'refreshed'
        if channel == 'refresh' and c.rng.random() < .6:
            # not needed in an ID Token from a refresh, but if it is there it has to be the same as before
            self.claims.pop('nonce')
        if channel == 'front':
            if code:
                self.claims['c_hash'] = jose.left_hash(self.alg, code)
            if at:
                self.claims['at_hash'] = jose.left_hash(self.alg, at)
        self.key = self.op.key_for(self.alg, self.cid)
        self.headers = {}
        self.post = []       # functions on the compact serialization
        self.raw = None      # replaces everything

    def build(self):
        if self.raw is not None:
            return self.raw
        tok = jose.jws({k: v for k, v in self.claims.items() if v is not None}, self.alg, self.key, self.headers)
        for f in self.post:
            tok = f(tok)
        return tok


DEV = {}


def dev(channels='ftr', needs=None, clash=''):
    def deco(f):
        DEV[f.__name__] = (f, channels, needs)
        return f
    return deco


# ---- claims ------------------------------------------------------------------
@dev()
def iss_other_op(m):
    m.claims['iss'] = m.w.op2.issuer


@dev()
def iss_unknown(m):
    m.claims['iss'] = 'https://evil.example.net'


@dev()
def iss_slash(m):
    i = m.op.issuer
    m.claims['iss'] = i[:-1] if i.endswith('/') else i + '/'


@dev()
def iss_prefix(m):
    m.claims['iss'] = m.op.issuer + '.evil.example.net'


@dev()
def iss_case(m):
    m.claims['iss'] = m.op.issuer.upper()


@dev()
def iss_missing(m):
    m.claims['iss'] = None


@dev()
def sub_missing(m):
    m.claims['sub'] = None


@dev()
def aud_other(m):
    m.claims['aud'] = ['someone-else']


@dev()
def aud_other_str(m):
    m.claims['aud'] = 'someone-else'


@dev()
def aud_superstring(m):
    m.claims['aud'] = 'x' + m.cid + 'x'


@dev()
def aud_substring(m):
    m.claims['aud'] = [m.cid[:-1]]


@dev()
def aud_missing(m):
    m.claims['aud'] = None


@dev()
def aud_empty(m):
    m.claims['aud'] = []


@dev()
def aud_many_azp_other(m):
    m.claims['aud'] = [m.cid, 'someone-else']
    m.claims['azp'] = 'someone-else'


@dev()
def azp_other(m):
    m.claims['azp'] = 'someone-else'


@dev()
def aud_others_azp_me(m):
    m.claims['aud'] = ['someone-else', 'another']
    m.claims['azp'] = m.cid


@dev()
def aud_is_issuer(m):
    m.claims['aud'] = [m.op.issuer]


@dev()
def exp_passed(m):
    now = int(CLOCK.now)
    m.claims['iat'] = now - m.w.skew - 400
    m.claims['exp'] = now - m.w.skew - m.rng.choice([1, 2, 60, 300])


@dev()
def exp_long_passed(m):
    now = int(CLOCK.now)
    m.claims['iat'] = now - 7200
    m.claims['exp'] = now - 3600


@dev()
def exp_missing(m):
    m.claims['exp'] = None


@dev('ft')
def nonce_missing(m):
    m.claims['nonce'] = None


@dev()
def nonce_other(m):
    m.claims['nonce'] = 'n' + m.nonce


@dev()
def nonce_truncated(m):
    m.claims['nonce'] = m.nonce[:-1]


@dev()
def nonce_case(m):
    m.claims['nonce'] = m.nonce.swapcase()


@dev()
def nonce_sibling(m):
    m.claims['nonce'] = m.w.sibling.req['nonce']


@dev()
def nonce_finished_sibling(m):
    m.claims['nonce'] = m.w.finished.req['nonce']


@dev()
def nonce_other_issuer(m):
    m.claims['nonce'] = m.w.foreign.req['nonce']


@dev()
def nonce_is_state(m):
    m.claims['nonce'] = m.s.state


@dev('f', lambda m: m.code)
def c_hash_wrong(m):
    m.claims['c_hash'] = jose.left_hash(m.alg, m.code + 'x')


@dev('f', lambda m: m.code)
def c_hash_missing(m):
    m.claims['c_hash'] = None


@dev('f', lambda m: m.code)
def c_hash_full(m):
    import hashlib
    m.claims['c_hash'] = jose.b64e(hashlib.sha256(m.code.encode()).digest())


@dev('f', lambda m: m.code)
def c_hash_sibling_code(m):
    m.claims['c_hash'] = jose.left_hash(m.alg, m.w.finished.grant.get('code', 'x'))


@dev('f', lambda m: m.at)
def at_hash_wrong(m):
    m.claims['at_hash'] = jose.left_hash(m.alg, m.at + 'x')


@dev('f', lambda m: m.at)
def at_hash_missing(m):
    m.claims['at_hash'] = None


@dev('f', lambda m: m.at)
def at_hash_plain(m):
    m.claims['at_hash'] = m.at


@dev('f', lambda m: m.at and m.code)
def hashes_swapped(m):
    m.claims['at_hash'], m.claims['c_hash'] = m.claims['c_hash'], m.claims['at_hash']


@dev('f', lambda m: m.at)
def at_hash_other_alg(m):
    m.claims['at_hash'] = jose.left_hash('RS512' if m.alg.endswith('256') else 'RS256', m.at)


# ---- signature -----------------------------------------------------------------
def _alg_key(m, o):
    return o.rsa if m.alg[:2] in ('RS', 'PS') else o.ec


@dev()
def key_other_op(m):
    m.key = _alg_key(m, m.w.op2)


@dev()
def key_other_op_same_kid(m):
    m.headers['kid'] = m.key.kid
    m.key = _alg_key(m, m.w.op2)


@dev()
def key_attacker_same_kid(m):
    kid = m.key.kid
    m.key = opmod.pool_key('RSA' if m.alg[:2] in ('RS', 'PS') else 'P-256', 99)
    m.headers['kid'] = kid


@dev()
def key_attacker_no_kid(m):
    m.key = opmod.pool_key('RSA' if m.alg[:2] in ('RS', 'PS') else 'P-256', 99)
    m.headers['kid'] = None


@dev()
def key_attacker_embedded(m):
    m.key = opmod.pool_key('RSA' if m.alg[:2] in ('RS', 'PS') else 'P-256', 99)
    m.headers['jwk'] = m.key.jwk()


@dev()
def key_attacker_jku(m):
    m.key = opmod.pool_key('RSA' if m.alg[:2] in ('RS', 'PS') else 'P-256', 99)
    m.headers['jku'] = 'https://evil.example.net/jwks.json'


@dev('ftr', lambda m: m.alg in ('RS256', 'RS384', 'RS512', 'PS256'))
def key_of_rp(m):
    """Signed with this client's own private key."""
    from cryptography.hazmat.primitives.asymmetric import rsa
    for k in world.rp_private_jwks()['keys']:
        if k['kty'] == 'RSA':
            d = {a: int.from_bytes(jose.b64d(k[a]), 'big') for a in ('n', 'e', 'd', 'p', 'q')}
            priv = rsa.RSAPrivateNumbers(d['p'], d['q'], d['d'], d['d'] % (d['p'] - 1), d['d'] % (d['q'] - 1),
                                         pow(d['q'], -1, d['p']),
                                         rsa.RSAPublicNumbers(d['e'], d['n'])).private_key()
            m.key = jose.Key('RSA', k['kid'], priv)


@dev()
def iss_other_op_signed_by_it(m):
    """A perfectly good token of another issuer."""
    m.claims['iss'] = m.w.op2.issuer
    m.key = _alg_key(m, m.w.op2)


@dev()
def alg_none(m):
    m.alg, m.key = 'none', None


@dev()
def alg_none_keep_sig(m):
    def f(tok):
        h, p, s = tok.split('.')
        hd = json.loads(jose.b64d(h))
        hd['alg'] = 'none'
        return jose.b64e(json.dumps(hd)) + '.' + p + '.' + s
    m.post.append(f)


@dev()
def alg_none_case(m):
    def f(tok):
        h, p, s = tok.split('.')
        hd = json.loads(jose.b64d(h))
        hd['alg'] = m.rng.choice(['None', 'NONE', 'nOnE'])
        return jose.b64e(json.dumps(hd)) + '.' + p + '.'
    m.post.append(f)


@dev()
def sig_empty(m):
    m.post.append(lambda t: t.rsplit('.', 1)[0] + '.')


@dev()
def sig_flipped(m):
    def f(t):
        a, s = t.rsplit('.', 1)
        return a + '.' + jose.b64e(flip(jose.b64d(s), m.rng))
    m.post.append(f)


@dev()
def sig_truncated(m):
    def f(t):
        a, s = t.rsplit('.', 1)
        return a + '.' + jose.b64e(jose.b64d(s)[:-m.rng.randint(1, 8)])
    m.post.append(f)


@dev()
def sig_of_other_token(m):
    def f(t):
        other = jose.jws(dict(m.claims, jti='x'), m.alg, m.key)
        return t.rsplit('.', 1)[0] + '.' + other.rsplit('.', 1)[1]
    m.post.append(f)


@dev()
def payload_changed(m):
    def f(t):
        h, p, s = t.split('.')
        d = json.loads(jose.b64d(p))
        d['sub'] = 'admin'
        return h + '.' + jose.b64e(json.dumps(d)) + '.' + s
    m.post.append(f)


@dev()
def header_alg_changed(m):
    def f(t):
        h, p, s = t.split('.')
        d = json.loads(jose.b64d(h))
        d['alg'] = {'RS256': 'RS512', 'RS384': 'RS256', 'RS512': 'RS256', 'ES256': 'ES512', 'PS256': 'RS256'}[d['alg']]
        return jose.b64e(json.dumps(d)) + '.' + p + '.' + s
    m.post.append(f)


@dev()
def hmac_with_public_key(m):
    k = m.key.jwk()
    form = m.rng.choice(['jwk', 'n', 'pem', 'nraw'])
    from cryptography.hazmat.primitives import serialization as ser
    if form == 'pem':
        sec = m.key.pub.public_bytes(ser.Encoding.PEM, ser.PublicFormat.SubjectPublicKeyInfo)
    elif form == 'jwk':
        sec = json.dumps(k).encode()
    else:
        v = k.get('n') or k.get('x')
        sec = v.encode() if form == 'n' else jose.b64d(v)
    kid = m.key.kid
    m.alg, m.key = 'HS256', jose.Key.oct(sec, kid)


@dev()
def hmac_empty_secret(m):
    m.alg, m.key = 'HS256', jose.Key.oct(b'')


@dev()
def hmac_other_secret(m):
    sec = m.w.op2.clients[m.w.cid2]['client_secret']
    m.alg, m.key = 'HS256', jose.Key.oct(sec)


@dev('ftr', lambda m: m.w.registered)
def hmac_own_secret_not_registered(m):
    m.alg, m.key = 'HS256', jose.Key.oct(m.op.clients[m.cid]['client_secret'])


@dev('ftr', lambda m: m.w.registered)
def alg_not_registered(m):
    m.alg = 'ES256' if m.w.alg[:2] != 'ES' else 'RS256'
    m.key = m.op.ec if m.alg == 'ES256' else m.op.rsa
    if m.channel == 'front':
        if m.code:
            m.claims['c_hash'] = jose.left_hash(m.alg, m.code)
        if m.at:
            m.claims['at_hash'] = jose.left_hash(m.alg, m.at)


@dev('ftr', lambda m: m.w.registered and m.w.alg.startswith('RS'))
def alg_not_registered_same_key(m):
    m.alg = 'RS512' if m.w.alg != 'RS512' else 'RS256'
    if m.channel == 'front':
        if m.code:
            m.claims['c_hash'] = jose.left_hash(m.alg, m.code)
        if m.at:
            m.claims['at_hash'] = jose.left_hash(m.alg, m.at)


# ---- shape / replay -----------------------------------------------------------
@dev()
def garbage(m):
    m.raw = m.rng.choice(['garbage', 'a.b.c', 'e30.e30.', '..', 'x' * 200, 'eyJhbGciOiJub25lIn0.e30.'])


@dev('tr')
def id_token_as_object(m):
    m.raw = {k: v for k, v in m.claims.items() if v is not None}


@dev('tr')
def id_token_as_list(m):
    m.raw = [m.build()]


@dev()
def unsigned_parts(m):
    m.post.append(lambda t: '.'.join(t.split('.')[:2]))


@dev('ft')
def replay_finished_session(m):
    m.raw = m.w.finished.grant['idts'][-1]


@dev('ft')
def replay_sibling(m):
    w = m.w
    m.raw = w.sibling.op.id_token(w.sibling.grant, m.code if m.channel == 'front' else None,
                                  m.at if m.channel == 'front' else None, alg=m.alg)


@dev()
def replay_other_issuer(m):
    m.raw = m.w.foreign.op.id_token(m.w.foreign.grant, alg=m.w.foreign_alg)


@dev('ft')
def token_for_other_client(m):
    """Genuine token, issued to another client at the same provider with the same nonce."""
    m.claims['aud'] = [m.w.other_cid]
    m.claims['azp'] = m.w.other_cid


NEAR = {
    'other': lambda v: 'somebody-else', 'upper': str.upper, 'swap': str.swapcase, 'title': str.title, 'trail': lambda v: v + ' ',
    'lead': lambda v: ' ' + v, 'longer': lambda v: v + '0', 'shorter': lambda v: v[:-1], 'behead': lambda v: v[1:],
    'nul': lambda v: v + '\x00', 'quoted': lambda v: v.replace('-', '%2D').replace(':', '%3A').replace('_', '%5F'),
    'reverse': lambda v: v[::-1], 'fullwidth': lambda v: v[:-1] + chr(ord(v[-1]) + 0xfee0), 'slash': lambda v: v + '/',
    'newline': lambda v: v + '\n', 'half': lambda v: v[:len(v) // 2], 'first': lambda v: v[:1], 'twice': lambda v: v + v,
    'list': lambda v: [v, 'x'], 'plus': lambda v: v + ' x', 'comma': lambda v: v + ',x'}


def near(sub, rng):
    """Somebody else, with a name that may be much like this one."""
    return NEAR[rng.choice([k for k in sorted(NEAR) if k != 'list'])](sub)


@dev('r', lambda m: True)
def refresh_other_sub(m):
    m.claims['sub'] = near(m.claims['sub'], m.c.rng)


@dev('t', lambda m: 'id_token' in m.grant['rt'])
def token_other_sub(m):
    m.claims['sub'] = near(m.claims['sub'], m.c.rng)


CLAIMS = ['iss', 'sub', 'aud', 'aud-list', 'azp', 'nonce', 'c_hash', 'at_hash']


def likeness(c, rng, item):
    """A claim that is nearly what it should be."""
    claim, how, k = item
    channel, rt = CHANNELS[k]
    if claim == 'sub' and not (channel == 'refresh' or channel == 'token' and 'id_token' in rt) or how == 'list' and claim in (
            'aud', 'aud-list') or claim.endswith('_hash') and channel != 'front':
        return
    kind = ['dynamic', 'static', 'static+discovery'][rng.randrange(3)]
    w = build_world(c, kind, rt, static_alg(rng), True, 15)
    others(c, w)
    done = []

    def f(m):
        name = 'aud' if claim == 'aud-list' else claim
        if claim == 'azp':
            v = m.cid
            m.claims['aud'] = [m.cid, w.other_cid]
        else:
            v = m.claims.get(name)
        if v is None or name == 'nonce' and channel == 'refresh' and 'nonce' not in m.claims:
            m.claims['iss'] = 'https://evil.example.net'       # nothing to alter
            return
        v = v[0] if isinstance(v, list) else v
        new = NEAR[how](v)
        if new == v:
            new = v + '.'
        if claim == 'aud-list':
            new = [new] + ['x', 'y'][:rng.randrange(3)]
        m.claims[name] = new
        done.append(new)
    f.__name__ = claim + ':' + how
    deliver(c, w, rt, channel, [f], False)
    if done:
        c.seen('likeness', claim, how, channel)


class W:
    pass


def static_alg(rng):
    return rng.choice(ALGS)


def build_world(c, kind, rt, alg, registered, skew, svc_ui=True, allow_none=False):
    w = W()
    w.op = opmod.OP(c.net, c.rng.choice(['https://op.example.com', 'https://op.example.com/', 'https://op.example.com/t/1']),
                    0, idt_alg=alg)
    w.op.md['id_token_signing_alg_values_supported'] = ['RS256', 'RS384', 'RS512', 'ES256', 'PS256', 'HS256', 'none']
    w.foreign_alg = 'RS256'
    w.op2 = opmod.OP(c.net, 'https://op2.example.net', 1)
    w.alg, w.skew = alg, skew
    svc = world.services() if svc_ui else world.services('userinfo')
    extra = {'clock_skew': skew} if skew != 15 else {}
    if kind == 'dynamic':
        prefs = {'id_token_signed_response_alg': alg} if registered else {}
        cnf = world.dynamic_conf(w.op, [rt], svc=svc, prefs=prefs, **extra)
        w.registered = registered
    else:
        beh = {'verify_args': {'allow_sign_alg_none': True}} if allow_none else {}
        if registered:      # what was agreed on when the client was registered is in the configuration
            beh['id_token_signed_response_alg'] = alg
        if skew != 15 and c.rng.random() < .4:
            # what is said about the verification in particular goes before the general setting
            beh.setdefault('verify_args', {})['skew'] = skew
            extra = c.rng.choice([{}, {'clock_skew': 0}, {'clock_skew': 700}])
        cnf = world.static_conf(w.op, response_type=rt, svc=svc, discovery=kind != 'static', behaviour=beh, **extra)
        w.registered = bool(registered)
    cnf2 = world.static_conf(w.op2, response_type=rt, svc=svc)
    w.cid2 = cnf2['client_id']
    w.other_cid = w.op.fresh('othercid')
    w.op.add_client(w.other_cid, 'x' * 32)
    w.h = world.handler({w.op.issuer: cnf, w.op2.issuer: cnf2})
    return w


def others(c, w):
    """Other sessions that must not be confused with the one under attack."""
    w.foreign = world.begin(c, w.h, w.op2)
    world.answer(c, w.foreign)
    w.finished = world.login(c, w.h, w.op)
    w.sibling = world.begin(c, w.h, w.op)
    world.answer(c, w.sibling)


def expect_active(h, state, want, c, kind):
    got = bool(h.has_active_authentication(state))
    c.equal(got, want, kind)


def label(names):
    return '+'.join(getattr(n, '__name__', None) or n for n in names)


def deliver(c, w, rt, channel, names, accept):
    """Run one login with a (deviating) token in channel; judge."""
    h = w.h
    s = world.begin(c, h, w.op)
    holder = {}
    used = []

    def craft(grant, ch, code=None, at=None):
        m = Mk(c, w, s, grant, ch, code, at)
        try:
            for n in names:
                f, chans, needs = (n, '', None) if callable(n) else DEV[n]
                if needs is not None and not needs(m):
                    continue
                f(m)
                used.append(n)
            holder['tok'] = m.build()
        except Exception as err:       # two deviations that do not go together
            if len(names) < 2:
                raise
            holder['skip'] = err
            holder['tok'] = 'x'
        c.log('crafted', names=names, token=holder['tok'])
        return holder['tok']

    def front(resp, grant):
        if channel == 'front':
            resp = dict(resp)
            resp['id_token'] = craft(grant, 'front', resp.get('code'), resp.get('access_token'))
        return resp

    world.answer(c, s, mutate=front)
    g = s.grant
    if channel != 'front':
        def tok_hook(rec, res):
            d = json.loads(res[2])
            gt = rec.info['params'].get('grant_type')
            if res[0] == 200 and rec.info.get('grant') is g and \
                    gt == {'token': 'authorization_code', 'refresh': 'refresh_token'}[channel]:
                d['id_token'] = craft(g, channel)
                holder['resp'] = d
                return res[0], res[1], json.dumps(d)
            return res
        w.op.hook['token_endpoint'] = tok_hook

    before_recs = {x.state: world.record(h, x.state) for x in (w.sibling, w.finished)}
    before = None
    if channel == 'refresh':
        world.finalize(c, h, s)
        before = world.record(h, s.state)
        call = lambda: h.refresh_access_token(s.state)
    else:
        call = lambda: h.finalize(w.op.issuer, dict(s.resp))
    if channel != 'refresh':
        before = world.record(h, s.state)
    err = None
    try:
        res = call()
        if isinstance(res, dict) and res.get('error'):
            err = res['error']
        s.result = res
    except Exception as e:
        err = e
    if 'skip' in holder:
        c.ev('incompatible deviations')
        return False
    if 'tok' not in holder:
        raise Violation('the token never reached the client', 'channel %s error %r' % (channel, err))
    if not used and names:
        return False
    c.seen(channel, rt, w.alg, w.registered, tuple(getattr(n, '__name__', n) for n in names), accept)
    c.ev('%s tokens delivered' % ('genuine' if accept else 'deviating'))
    if accept:
        if err is not None:
            raise Violation('genuine ID Token refused', '%s: %r' % (names, err))
        rec = world.record(h, s.state)
        c.check(holder['tok'] in json.dumps(rec), 'accepted ID Token not recorded')
        if channel != 'refresh' and not (channel == 'front' and rt.startswith('code id_token')):
            # exactly one ID Token in this session
            lifetime_left = jose.parts(holder['tok'])[1]['exp'] - CLOCK.now
            expect_active(h, s.state, lifetime_left > 0, c, 'active authentication wrong after genuine ID Token')
        elif 'late' not in used_names(names):
            expect_active(h, s.state, True, c, 'no active authentication after genuine ID Tokens')
        if channel != 'refresh':
            c.equal(res['id_token']['sub'], jose.parts(holder['tok'])[1]['sub'], 'subject of the ID Token')
        return True
    if err is None:
        raise Violation('bad ID Token accepted: %s' % label(names),
                        'channel=%s rt=%s alg=%s result=%s token=%s' % (
                            channel, rt, w.alg, short(world.plain(res)), short(holder['tok'])))
    if not isinstance(err, Exception):
        raise Violation('bad ID Token did not raise', '%s -> %r' % (names, err))
    # no traces
    after = world.record(h, s.state)
    c.check(after is not None, 'session lost by a refused token', label(names))
    text = json.dumps(after)
    tok = holder['tok'] if isinstance(holder['tok'], str) else json.dumps(holder['tok'])
    if len(tok) > 10:
        c.check(not re.search(re.escape(tok) + '(?![A-Za-z0-9_.-])', text), 'refused ID Token left in session', label(names))
    c.check('user_info' not in (after or {}) or 'user_info' in (before or {}), 'user info left after refused token')
    secrets = []
    if channel == 'front':
        secrets = [s.resp.get('access_token')]
    else:
        d = holder['resp']
        secrets = [d.get('access_token'), d.get('refresh_token')]
    for x in secrets:
        if x:
            c.check(x not in text, 'token of a refused response left in session', label(names))
    if channel == 'refresh':
        want_active = True
    else:
        want_active = channel == 'token' and 'id_token' in g['rt']
    expect_active(h, s.state, want_active, c, 'active authentication after refused token')
    if channel != 'refresh':
        try:
            at, _ = h.get_valid_access_token(s.state)
        except Exception:
            pass
        else:
            c.check(at not in secrets, 'access token of a refused response handed out')
    for x, r in before_recs.items():
        c.equal(world.record(h, x), r, 'another session changed by a refused token')
    # and the attack did not spoil the genuine answer
    return True


def used_names(names):
    return ' '.join(getattr(n, '__name__', n) for n in names)


CHANNELS = [('front', rt) for rt in FRONT] + [('token', rt) for rt in BACK] + [('refresh', 'code'),
                                                                             ('refresh', 'code id_token')]


def usable(name, channel):
    return channel[0] in DEV[name][1]


def single(c, rng, item):
    (channel, rt), name, k = item
    if not usable(name, channel):
        return
    kind = ['dynamic', 'static', 'dynamic', 'static+discovery'][k % 4]
    registered = kind == 'dynamic' and (k % 4 == 0 or rng.random() < .5)
    alg = ALGS[k % 5] if registered else rng.choice(['RS256', 'ES256'])
    if kind != 'dynamic' and rng.random() < .6:
        registered, alg = True, static_alg(rng)
    w = build_world(c, kind, rt, alg, registered, rng.choice([0, 15, 15, 120]), svc_ui=rng.random() < .5)
    others(c, w)
    deliver(c, w, rt, channel, [name], False)


def double(c, rng, i):
    channel, rt = rng.choice(CHANNELS)
    names = rng.sample([n for n in DEV if usable(n, channel)], 2)
    kind = rng.choice(['dynamic', 'static', 'static+discovery'])
    registered = kind == 'dynamic' or rng.random() < .5
    w = build_world(c, kind, rt, (rng.choice(ALGS) if kind == 'dynamic' else static_alg(rng)) if registered else 'RS256', registered,
                    rng.choice([0, 15]))
    others(c, w)
    deliver(c, w, rt, channel, names, False)


def genuine(c, rng, item):
    (channel, rt), alg, kind, variant = item
    registered = variant != 'unregistered' and (kind == 'dynamic' or alg[:2] != 'HS' and rng.random() < .5)
    skew = rng.choice([0, 15, 300])
    w = build_world(c, kind, rt, alg, registered, skew, svc_ui=rng.random() < .5)
    others(c, w)
    now = int(CLOCK.now)
    name = 'ok_' + variant
    mk = {
        'plain': lambda m: None,
        'unregistered': lambda m: None,
        'aud_str': lambda m: m.claims.update(aud=m.cid),
        'aud_many': lambda m: m.claims.update(aud=[m.cid, 'someone-else'], azp=m.cid),
        'azp': lambda m: m.claims.update(azp=m.cid),
        'late': lambda m: m.claims.update(iat=now - 500, exp=now - skew + 1),
        'no_kid': lambda m: m.headers.update(kid=None),
        'extra': lambda m: m.claims.update(foo={'bar': [1, 2]}, auth_time=now - 10, acr='1', amr=['pwd']),
        'azp_and_sid': lambda m: m.claims.update(azp=m.cid, sid='some-sid'),
    }[variant]
    if variant == 'no_kid' and alg[:2] == 'XX':
        return
    mk.__name__ = name
    deliver(c, w, rt, channel, [mk], True)


VARIANTS = ['plain', 'unregistered', 'aud_str', 'aud_many', 'azp', 'late', 'extra', 'azp_and_sid']


def expiry(c, rng, i):
    """A good token delivered later than it is good."""
    channel, rt = rng.choice([('front', r) for r in FRONT])
    skew = rng.choice([0, 15, 100])
    w = build_world(c, 'static', rt, 'RS256', False, skew)
    w.op.idt_lifetime = rng.randint(5, 500)
    s = world.begin(c, w.h, w.op)
    world.answer(c, s)
    delta = rng.choice([-3, -1, 0, 1, 2, 50])
    CLOCK.advance(w.op.idt_lifetime + skew + delta)
    c.seen('expiry', rt, skew, delta)
    if 'code' in rt and rt == 'code id_token':
        w.op.idt_lifetime = 600
    if delta > 0:
        c.refused(lambda: w.h.finalize(w.op.issuer, dict(s.resp)), 'expired ID Token accepted',
                  'skew=%s delta=%s' % (skew, delta))
        expect_active(w.h, s.state, False, c, 'active authentication after expired token')
    else:
        world.finalize(c, w.h, s)
        if rt != 'code id_token':
            expect_active(w.h, s.state, (skew + delta) < 0, c, 'active authentication of an expired token')


def none_allowed(c, rng, i):
    """Unsigned tokens only where they were explicitly allowed."""
    rt = ['code', 'id_token', 'code id_token'][i % 3]
    mode = ['allowed', 'registered', 'not'][i // 3 % 3]
    if mode == 'registered':
        w = build_world(c, rng.choice(['dynamic', 'static']), rt, 'none', True, 15)
    else:
        w = build_world(c, 'static', rt, 'none', False, 15, allow_none=mode == 'allowed')
    s = world.begin(c, w.h, w.op)
    world.answer(c, s)
    c.seen('none', rt, mode)
    c.equal(jose.parts(s.grant['idts'][0])[0]['alg'] if s.grant['idts'] else 'none', 'none', 'harness')
    if mode == 'not':
        c.refused(lambda: w.h.finalize(w.op.issuer, dict(s.resp)), 'unsigned ID Token accepted', rt)
        expect_active(w.h, s.state, False, c, 'active authentication after unsigned token')
    else:
        world.finalize(c, w.h, s)
        # the permission is this client's only
        f = world.begin(c, w.h, w.op2)
        w.op2.idt_alg = 'none'
        world.answer(c, f)
        c.refused(lambda: w.h.finalize(w.op2.issuer, dict(f.resp)), 'unsigned ID Token accepted for another client', rt)
        # and only for unsigned tokens from that issuer to that client
        s2 = world.begin(c, w.h, w.op)
        world.answer(c, s2)
        if 'id_token' in s2.resp:
            bad = dict(s2.resp)
            p = jose.parts(bad['id_token'])[1]
            p['aud'] = ['someone-else']
            bad['id_token'] = jose.jws(p, 'none')
            c.refused(lambda: w.h.finalize(w.op.issuer, bad), 'unsigned ID Token for another client accepted', rt)


def kids(c, rng, i):
    """Which key it is has to be said when the provider has several, unless the configuration permits that it is not."""
    (channel, rt) = CHANNELS[i % len(CHANNELS)]
    n = 1 + i // len(CHANNELS) % 3
    allow = rng.choice([None, {}, {'missing_kid': False}, {'missing_kid': True}, {'issuer_mismatch': True}])
    w = build_world(c, rng.choice(['static', 'dynamic', 'static+discovery']), rt, 'RS256', True, 15)
    extra = [opmod.pool_key('RSA', 40 + k) for k in range(n - 1)]
    gone = opmod.pool_key('RSA', 49)
    cnf = w.h.client_configs[w.op.issuer]
    if allow is not None:
        cnf['allow'] = allow
    w.h = world.handler({w.op.issuer: cnf, w.op2.issuer: w.h.client_configs[w.op2.issuer]})
    own = w.op.jwks
    w.op.jwks = lambda: {'keys': own()['keys'] + [k.jwk() for k in extra]}
    others(c, w)
    use = rng.choice([w.op.rsa] + extra)
    bad = rng.random() < .3
    named = rng.random() < .3

    def deviate(m):
        m.key = gone if bad else use
        if not named:
            m.headers['kid'] = None
    deviate.__name__ = '%s key %s of %d, allow %s' % ('a stranger\'s' if bad else 'own', 'named' if named else 'not named', n,
                                                    json.dumps(allow))
    good = not bad and (named or n == 1 or bool(allow and allow.get('missing_kid')))
    deliver(c, w, rt, channel, [deviate], good)


def injected(c, rng, i):
    """Claims of being verified that come from the peer are worth nothing."""
    rt = FRONT[i % 4] if i % 2 else rng.choice(BACK)
    w = build_world(c, rng.choice(['static', 'dynamic']), rt, 'RS256', True, 15)
    s = world.begin(c, w.h, w.op)
    fake = {'iss': w.op.issuer, 'sub': 'admin', 'aud': ['x'], 'exp': int(CLOCK.now) + 600, 'iat': int(CLOCK.now)}
    inj = rng.choice(['__verified_id_token', '__verified_id_token_str'])

    def val(g):
        d = dict(fake, aud=[g['client_id']], nonce=g['nonce'])
        return d if inj == '__verified_id_token' else json.dumps(d)

    drop = rng.random() < .7

    def mut(resp, g):
        if 'id_token' in rt.split():
            resp = dict(resp)
            resp['__verified_id_token'] = val(g)
            if drop:
                resp.pop('id_token')
        return resp
    world.answer(c, s, mutate=mut)

    def hook(rec, res):
        d = json.loads(res[2])
        if 'access_token' in d:
            d['__verified_id_token'] = val(s.grant)
            d.pop('id_token', None)
        return res[0], res[1], json.dumps(d)
    w.op.hook['token_endpoint'] = hook
    c.seen('injected', rt, inj, drop)
    try:
        r = w.h.finalize(w.op.issuer, dict(s.resp))
    except Exception:
        r = None
    if r is not None and r.get('id_token'):
        c.check(r['id_token']['sub'] != 'admin', 'unverified claims passed as ID Token', short(world.plain(r)))
    text = json.dumps(world.record(w.h, s.state))
    c.check('"admin"' not in text, 'unverified claims left in session', text[:300])
    if 'id_token' not in rt.split() or drop:
        expect_active(w.h, s.state, False, c, 'active authentication from unverified claims')


def hs256(c, rng, i):
    """ID Tokens signed with the client secret."""
    kind = ['dynamic', 'static', 'dynamic'][i % 3]
    rt = ['code', 'id_token', 'code id_token'][i // 3 % 3]
    w = build_world(c, kind, rt, 'HS256', True, 15)
    s = world.login(c, w.h, w.op)
    world.check_result(c, s)
    c.seen('hs256', rt, kind)
    for how in ['other', 'rsa', 'truncated']:
        s = world.begin(c, w.h, w.op)
        world.answer(c, s)
        g = s.grant
        sec = w.op.clients[g['client_id']]['client_secret']
        if how == 'other':
            mk = lambda cl: jose.jws(cl, 'HS256', jose.Key.oct(w.op2.clients[w.cid2]['client_secret']))
        elif how == 'rsa':
            mk = lambda cl: jose.jws(cl, 'RS256', w.op.rsa)
        else:
            mk = lambda cl: jose.jws(cl, 'HS256', jose.Key.oct(sec[:-1]))
        cl = w.op.claims(g)
        if 'id_token' in s.resp:
            cl.update({k: v for k, v in jose.parts(s.resp['id_token'])[1].items() if k.endswith('_hash')})
            s.resp['id_token'] = mk(cl)
        else:
            w.op.hook['token_endpoint'] = lambda rec, res: (
                res[0], res[1], json.dumps(dict(json.loads(res[2]), id_token=mk(cl))))
        c.refused(lambda: w.h.finalize(w.op.issuer, dict(s.resp)), 'wrongly signed ID Token accepted (HS256 client)', how)
        w.op.hook.clear()
        c.seen('hs256', rt, how)


def retry(c, rng, i):
    """A refused token does not burn the session: the genuine answer is still accepted."""
    rt = rng.choice(FRONT)
    w = build_world(c, 'static', rt, 'RS256', False, 15)
    s = world.begin(c, w.h, w.op)
    world.answer(c, s)
    for _ in range(rng.randint(1, 3)):
        bad = dict(s.resp)
        h_, p, inp, sig = jose.parts(bad['id_token'])
        how = rng.choice(['sig', 'nonce', 'aud'])
        if how == 'sig':
            bad['id_token'] = bad['id_token'].rsplit('.', 1)[0] + '.' + jose.b64e(flip(sig, rng))
        elif how == 'nonce':
            bad['id_token'] = jose.jws(dict(p, nonce='x'), 'RS256', w.op.rsa)
        else:
            bad['id_token'] = jose.jws(dict(p, aud=['x']), 'RS256', w.op.rsa)
        c.refused(lambda: w.h.finalize(w.op.issuer, bad), 'bad ID Token accepted: retry ' + how)
    world.finalize(c, w.h, s)
    world.check_result(c, s)
    expect_active(w.h, s.state, True, c, 'no active authentication after genuine token')
    c.seen('retry', rt)


def run(r):
    singles = [(ch, n, k) for k in range(2 if r.quick else 12) for n in sorted(DEV) for ch in CHANNELS
               if usable(n, ch[0])]
    ok = [(ch, a, k, v) for ch in CHANNELS for a in ALGS for k in ('dynamic', 'static', 'static+discovery')
          for v in VARIANTS if not (v == 'unregistered' and k != 'dynamic')]
    r.cases('single', singles, single)
    if r.quick:
        ok = [x for j, x in enumerate(ok) if (j * 7) % 3 == 0]
    r.cases('genuine', ok, genuine)
    like = [(cl, how, k) for k in range(len(CHANNELS)) for cl in CLAIMS for how in sorted(NEAR)]
    r.cases('likeness', like if not r.quick else [x for j, x in enumerate(like) if (j * 11) % 3 == r.seed % 3 or x[0] == 'sub'], likeness)
    r.cases('none', 18, none_allowed, thorough=90)
    r.cases('hs256', 9, hs256, thorough=45)
    r.cases('kids', 100, kids, thorough=3000)
    r.cases('expiry', 60, expiry, thorough=1500)
    r.cases('injected', 60, injected, thorough=600)
    r.cases('retry', 30, retry, thorough=600)
    r.cases('double', 300, double, thorough=20000)
