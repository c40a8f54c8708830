"""C08: DPoP proofs are valid for exactly the request they accompany."""
import json
import os

import jose
import op as opmod
import world
from core import Violation, short
from vclock import CLOCK

from oidcrp.oauth2.add_on.dpop import DPoPProof

RULE = ('A case is a history of logins, refreshes and user info requests of clients with the DPoP add-on at several providers '
        '(with, without and with other algorithms); an independent verifier judges the proof of each request. A second '
        'family alters proofs and hands them to the verifier of the library. Non-trivial: a proof that was verified, a '
        'request that had to be without one, or an altered proof that was judged; distinct by (endpoint, method, algorithm, '
        'set-up, alteration).')
ASSUMPTIONS = ['algorithms that the dependency cryptojwt can mint a key for: ES256, ES384, ES512, RS256',
               'the ath claim and the DPoP authorization scheme of RFC 9449 are newer than the draft that the library implements']

ISS = ['https://op.example.com', 'https://login.example.net:8443/x', 'https://third.example.org/', 'https://four.example.org/q']
ALGS = ['ES256', 'RS256', 'ES384', 'ES512']
PRIV = {'d', 'p', 'q', 'dp', 'dq', 'qi', 'k', 'oth'}


class World:
    def __init__(self, c, rng, n):
        os.chdir(c.dir)
        self.c, self.rng = c, rng
        self.ops, self.info, confs = [], {}, {}
        for k, iss in enumerate(rng.sample(ISS, n)):
            mine = rng.sample(ALGS, rng.randint(1, 3))
            sup = rng.choice([None, [], rng.sample(ALGS, rng.randint(1, 4)), [mine[-1]] + rng.sample(ALGS, 1),
                              [mine[-1]] + rng.sample(ALGS, 1)])
            md = {} if sup is None else {'dpop_signing_alg_values_supported': sup}
            o = opmod.OP(c.net, iss, k, md=md, tag='op%d' % k)
            if rng.random() < .3:
                o.md['userinfo_endpoint'] += rng.choice(['/v2', ''])
            for ep in ('token_endpoint', 'userinfo_endpoint'):
                if rng.random() < .15:
                    o.md[ep] += rng.choice(['/', '/A%2Fb/', '/x;v=1', '//'])
                if rng.random() < .2:
                    o.md[ep] += rng.choice(['?p=B2C_1_a', '?tenant=a%20b&x='])
            use = rng.random() < .85 or k == 0
            kind = rng.choice(['static', 'static+discovery', 'dynamic'])
            ao = world.dpop(mine) if use else {}
            if rng.random() < .3:
                ao.update(world.pkce())
            rt = rng.choice(['code', 'code', 'code id_token', 'code token', 'id_token token'])
            cnf, desc = world.gen_conf(rng, o, kind=kind, rt=rt, add_ons=ao, auth=rng.choice(world.AUTHS[:2]))
            # a statically configured provider says what it supports in the configuration
            common = [a for a in mine if a in (sup or [])]
            self.info[iss] = dict(use=use, alg=common[0] if use and common else None, desc=desc, key=None, mine=mine)
            self.ops.append(o)
            confs[iss] = cnf
        self.h = world.handler(confs)
        self.sess, self.seen, self.jtis = [], 0, set()

    def begin(self):
        s = world.begin(self.c, self.h, self.rng.choice(self.ops))
        s.stage = 'begun'
        self.sess.append(s)
        self.watch()

    def pick(self, *st):
        x = [s for s in self.sess if s.stage in st]
        return self.rng.choice(x) if x else None

    def finish(self):
        s = self.pick('begun')
        if not s:
            return
        world.answer(self.c, s)
        world.finalize(self.c, self.h, s)
        world.check_result(self.c, s)
        s.stage = 'done'
        self.watch()

    def more(self):
        s = self.pick('done')
        if not s:
            return
        r = self.rng.random()
        if r < .4 and s.grant['rts']:
            self.h.refresh_access_token(s.state)
        elif r < .8 and s.grant['ats']:
            self.h.get_user_info(s.state)
        elif s.grant['ats']:
            self.h.get_user_info(s.state, method='POST')
        self.watch()

    def tick(self):
        CLOCK.advance(self.rng.choice([1, 2, 60, 3]))

    def watch(self):
        c = self.c
        for rec in c.net.log[self.seen:]:
            inf = self.info[rec.op.issuer]
            proof = rec.headers.get('dpop')
            if rec.endpoint not in ('token_endpoint', 'userinfo_endpoint'):
                c.check(proof is None, 'proof in another request', '%s %s' % (rec.method, rec.url))
                continue
            if not inf['alg']:
                c.check(proof is None, 'proof although the provider does not support it', rec.url)
                c.check(rec.status == 200, 'request without proof refused', rec.brief())
                c.seen('none', rec.endpoint, inf['use'], inf['desc'])
                continue
            c.check(proof is not None, 'no DPoP proof', '%s %s' % (rec.method, rec.url))
            try:
                h, p, inp, sig = jose.parts(proof)
            except Exception as err:
                raise Violation('proof is not a JWS', '%r %s' % (err, short(proof)))
            c.equal(h.get('typ'), 'dpop+jwt', 'type of the proof')
            c.equal(h.get('alg'), inf['alg'], 'algorithm of the proof')
            jwk = h.get('jwk')
            jwk = json.loads(jwk) if isinstance(jwk, str) else jwk
            c.check(isinstance(jwk, dict) and not PRIV & set(jwk), 'private key material in the proof', short(jwk))
            c.check(jose.verify_raw(h['alg'], jose.Key.from_jwk(jwk), inp, sig), 'proof does not verify with its key')
            c.equal(p.get('htm'), rec.method, 'HTTP method in the proof', rec.url)
            c.equal(p.get('htu'), rec.base, 'URL in the proof', rec.url)
            c.check(isinstance(p.get('iat'), int) and abs(p['iat'] - CLOCK.now) <= 1, 'issue time of the proof', p)
            c.check(isinstance(p.get('jti'), str) and len(p['jti']) >= 16, 'identifier of the proof', p)
            c.check(p['jti'] not in self.jtis, 'identifier of a proof used twice', p)
            self.jtis.add(p['jti'])
            kk = json.dumps({k: v for k, v in jwk.items() if k in ('kty', 'crv', 'x', 'y', 'n', 'e')}, sort_keys=True)
            if inf['key'] is None:
                for x in self.info.values():
                    c.check(x['key'] != kk, 'two clients use one proof key')
                inf['key'] = kk
            c.equal(kk, inf['key'], 'the client changed its key')
            for rp in world.rp_public_jwks()['keys']:
                c.check(rp.get('n', 1) != jwk.get('n', 2) and rp.get('x', 1) != jwk.get('x', 2), 'proof with the signing key')
            # what the library itself thinks
            v = DPoPProof().verify_header(proof)
            c.check(v is not None, 'library does not verify its own proof')
            v.verify()
            c.equal([v[k] for k in ('htm', 'htu', 'jti', 'iat')], [p[k] for k in ('htm', 'htu', 'jti', 'iat')], 'verified proof')
            c.equal(rec.status, 200, 'request with proof refused')
            c.seen(rec.endpoint, rec.method, inf['alg'], inf['desc'], dict(rec.form()).get('grant_type')
                   if rec.method == 'POST' else '')
            c.ev('proofs verified')
        self.seen = len(c.net.log)


def history(c, rng, i):
    w = World(c, rng, rng.randint(1, 3))
    steps = [w.begin] * 4 + [w.finish] * 4 + [w.more] * 5 + [w.tick]
    for _ in range(rng.choice([8, 16, 24])):
        rng.choice(steps)()
    if not w.sess:
        w.begin()
    while w.pick('begun'):
        w.finish()
    for _ in range(3):
        w.more()


def judge(t):
    """The library's verdict on a proof, and what it says."""
    try:
        v = DPoPProof().verify_header(t)
        if v is None:
            return None
        v.verify()
    except Exception:
        return None
    return v


def same(a, b):
    """Equal signing input and signature bytes."""
    try:
        x, y = a.split('.'), b.split('.')
        return len(x) == len(y) == 3 and x[:2] == y[:2] and jose.b64d(x[2]) == jose.b64d(y[2])
    except Exception:
        return False


MUT = ['flip', 'drop', 'htm', 'htu', 'iat', 'jti', 'typ', 'none', 'strip', 'otherkey', 'swap', 'hs', 'missing', 'nojwk', 'wrongtyp', 'oct']


def mutate(c, rng, i):
    """Every altered proof is refused."""
    alg = rng.choice(ALGS)
    o = opmod.OP(c.net, ISS[0], 0, md={'dpop_signing_alg_values_supported': [alg]})
    h = world.handler({o.issuer: world.static_conf(o, add_ons=world.dpop([alg]))})
    s = world.login(c, h, o)
    proofs = [r.headers['dpop'] for r in c.net.log if 'dpop' in r.headers]
    c.check(len(proofs) >= 2, 'too few proofs')
    t = rng.choice(proofs)
    c.check(judge(t) is not None, 'genuine proof refused')
    hd, p, inp, sig = jose.parts(t)
    a = t.split('.')
    for how in MUT:
        for _ in range(6 if how in ('flip', 'drop') else 1):
            m = t
            if how == 'flip':
                k = rng.randrange(len(t))
                m = t[:k] + rng.choice([x for x in 'abcXYZ019-_.' if x != t[k]]) + t[k + 1:]
            elif how == 'drop':
                k = rng.randrange(len(t))
                m = t[:k] + t[k + 1:]
            elif how in ('htm', 'htu', 'iat', 'jti'):
                q = dict(p)
                q[how] = {'htm': 'PUT', 'htu': 'https://evil.example.net/', 'iat': p['iat'] + 100, 'jti': 'other' * 6}[how]
                m = '.'.join([a[0], jose.b64e(json.dumps(q)), a[2]])
            elif how == 'typ':
                m = '.'.join([jose.b64e(json.dumps(dict(hd, typ='JWT'))), a[1], a[2]])
            elif how == 'none':
                m = '.'.join([jose.b64e(json.dumps(dict(hd, alg='none'))), a[1], ''])
            elif how == 'strip':
                m = '.'.join([a[0], a[1], ''])
            elif how == 'otherkey':
                m = '.'.join([jose.b64e(json.dumps(dict(hd, jwk=(o.ec if alg[0] == 'E' else o.rsa).jwk()))), a[1], a[2]])
            elif how == 'swap':
                b = rng.choice([x for x in proofs if x != t]).split('.')
                m = '.'.join(rng.choice([[a[0], b[1], a[2]], [a[0], a[1], b[2]]]))
            elif how == 'hs':
                key = jose.Key.oct(json.dumps(hd['jwk']))
                m = jose.jws(p, 'HS256', key, headers={'typ': 'dpop+jwt', 'jwk': hd['jwk'], 'kid': None})
            elif how == 'missing':
                # properly signed, but not a proof
                k = jose.Key.ec('x') if rng.random() < .3 else opmod.pool_key('P-256', 1)
                q = dict(p)
                q.pop(rng.choice(['jti', 'htm', 'htu', 'iat']))
                m = jose.jws(q, 'ES256', k, headers={'typ': 'dpop+jwt', 'jwk': k.jwk()})
            elif how == 'nojwk':
                m = '.'.join([jose.b64e(json.dumps({x: y for x, y in hd.items() if x != 'jwk'})), a[1], a[2]])
            elif how == 'wrongtyp':
                # properly signed, but it does not say that it is a proof
                k = opmod.pool_key('P-256', 1)
                m = jose.jws(p, 'ES256', k, headers={'typ': rng.choice(['JWT', 'dpop', 'DPOP+JWT ', None]), 'jwk': k.jwk()})
            elif how == 'oct':
                # anyone who sees the proof could make the next one
                k = jose.Key.oct('a-secret-that-everybody-can-read' + str(rng.random()))
                m = jose.jws(p, rng.choice(['HS256', 'HS512']), k, headers={'typ': 'dpop+jwt', 'jwk': k.jwk()})
            if same(m, t):
                continue
            c.ev('altered proofs judged')
            v = judge(m)
            c.check(v is None, 'altered proof accepted (%s)' % how, lambda: '%s -> %s' % (short(m, 800), v.to_dict()))
            c.seen('altered', how, alg)
    c.check(judge(t) is not None, 'genuine proof refused later')


def run(r):
    r.cases('history', 200, history, thorough=9000)
    r.cases('mutate', 50, mutate, thorough=2500)
